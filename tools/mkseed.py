#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from a spec (a Python file that
sets ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], PKG, TEST, [RACE])."""
import sys, os, subprocess, tempfile, shutil, json
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = '/verif/seeded/' + ns['ID']
os.makedirs(d, exist_ok=True)
wt = tempfile.mkdtemp(prefix='mkseed.')
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt + '/w', 'HEAD'])
try:
    for f, old, new in ns['EDITS']:
        p = os.path.join(wt, 'w', f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', wt + '/w', 'diff']).decode()
    open(d + '/patch.diff', 'w').write(diff)
finally:
    subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt + '/w'])
    shutil.rmtree(wt)
json.dump({"property": ns['PROP'], "needs": ns['NEEDS'], "what_it_breaks": ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo_test.go', 'w').write(ns['TEST'].lstrip())
open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# Runs demo_test.go inside package {ns['PKG']} of the current directory's tree.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{{"Replace": {{"%s/{ns['PKG']}/zz_demo_test.go": "%s/demo_test.go"}}}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -overlay "$t/o.json" -run '^TestSeededDemo$' -count=1 -timeout 120s ./{ns['PKG']} > "$t/out" 2>&1
rc=$?
grep -E '^(---|ok|FAIL|panic| *zz_demo|.*demo_test.go)' "$t/out" | tail -20
exit $rc
''')
print('wrote', d)
