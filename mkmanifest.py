#!/usr/bin/env python3
# Writes MANIFEST.json: the claimed checks, and the properties that are not claimed.
import json, sys
CLAIMED = open('claimed.txt').read().split()
NOTE = ("Seeded random search over schedules, network behaviour and faults of the whole server running in one process; "
        "evidence over the runs made, not a proof. Trusted: the simulator (scheduler, TCP/UDP/HTTP/file-system stand-ins), "
        "the source rewriting that puts them in place, and the independent clients and oracles. ")
EXTRA = {}
NA = []
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
for p in props:
    if p not in CLAIMED:
        NA.append({"property": p, "reason": "check under construction"})
m = {
 "version": 1,
 "setup_cmd": "bash ./setup.sh",
 "checks": [{
   "property": p,
   "quick_cmd": f"bash ./check.sh {p} quick",
   "thorough_cmd": f"bash ./check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json",
   "technique": "deterministic simulation with fault injection",
   "level": "exploration",
   "level_note": NOTE + EXTRA.get(p, ""),
 } for p in CLAIMED],
 "not_applicable": NA,
 "notes": "One simulator, one scenario and oracle set per property; see DESIGN.md. No hooks in /repo: sources are rewritten at build time.",
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
