package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/simrt"
)

// ---- known findings -------------------------------------------------------------

// Finding is one genuine defect that is recorded rather than repaired. It is
// identified by the violation kind and a pattern of its detail.
type Finding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Kind     string `json:"kind"`
	Detail   string `json:"detail"`
	What     string `json:"what"`
	Status   string `json:"status"` // known, or fixed (documentation only)
	Commit   string `json:"commit,omitempty"`
}

func loadFindings(path string) []Finding {
	var out []Finding
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var x Finding
		if json.Unmarshal([]byte(l), &x) == nil && x.Status == "known" {
			out = append(out, x)
		}
	}
	return out
}

func matchFinding(fs []Finding, v Violation) *Finding {
	for i := range fs {
		f := &fs[i]
		if f.Property != v.Prop || f.Kind != v.Kind {
			continue
		}
		if f.Detail != "" {
			if re, err := regexp.Compile(f.Detail); err != nil || !re.MatchString(v.Detail) {
				continue
			}
		}
		return f
	}
	return nil
}

// ---- worker ---------------------------------------------------------------------

// Stat is what a worker reports.
type Stat struct {
	Runs     int
	Sim      time.Duration
	Yields   int64
	Faults   map[string]int
	Probes   map[string]int
	Checked  map[string]int64
	Switch   []uint64 // interleaving fingerprints seen
	Hashes   map[uint64]uint64
	TCP      int64
	UDP      int64
	FSOps    int64
	HTTP     int64
	Conns    int64
	Known    map[string]int
	Why      map[string]int
	Modes    map[string]int
	NoFault  int
	CPU      time.Duration
	Nontriv  int
	LastRun  uint64
	Idle     int
	HarnessE []string
}

type report struct {
	V *Violation `json:"v,omitempty"`
	N uint64     `json:"n"`
	S *Stat      `json:"s,omitempty"`
	H string     `json:"h,omitempty"`
	B bool       `json:"b,omitempty"` // run n begins
}

func newStat() *Stat {
	return &Stat{Faults: map[string]int{}, Probes: map[string]int{}, Checked: map[string]int64{}, Hashes: map[uint64]uint64{}, Known: map[string]int{}, Why: map[string]int{}, Modes: map[string]int{}}
}

func cmdWork(args []string) int {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	from := fs.Uint64("from", 0, "")
	step := fs.Uint64("step", 1, "")
	max := fs.Uint64("max", 1<<60, "")
	secs := fs.Float64("secs", 10, "")
	known := fs.String("known", "", "")
	fs.Parse(args)
	finds := loadFindings(*known)
	enc := json.NewEncoder(os.Stdout)
	st := newStat()
	seen := map[uint64]bool{}
	limitMemory()
	t0 := time.Now()
	for i := uint64(0); i < *max; i++ {
		if time.Since(t0).Seconds() > *secs {
			break
		}
		n := *from + i**step
		p := genPlan(*prop, *base, n)
		enc.Encode(report{N: n, B: true})
		r := runPlan(p, false)
		st.add(p, &r, n, seen)
		if r.Harness != "" {
			enc.Encode(report{N: n, H: r.Harness})
			st.HarnessE = append(st.HarnessE, r.Harness)
			break
		}
		bad := false
		for j := range r.Viols {
			v := r.Viols[j]
			if f := matchFinding(finds, v); f != nil {
				st.Known[f.ID]++
				continue
			}
			bad = true
			enc.Encode(report{V: &v, N: n})
			break
		}
		if bad {
			break
		}
	}
	for h := range seen {
		st.Switch = append(st.Switch, h)
	}
	enc.Encode(report{S: st})
	return 0
}

func (st *Stat) add(p *Plan, r *Result, n uint64, seen map[uint64]bool) {
	st.Runs++
	st.Sim += r.Sim
	st.Yields += r.Yields
	for k, v := range r.Faults {
		st.Faults[k] += v
	}
	for k, v := range r.Probes {
		st.Probes[k] += v
	}
	var c int64
	for k, v := range r.Checked {
		st.Checked[k] += v
		c += v
	}
	if c > 0 && !seen[r.Switch] {
		st.Nontriv++
	}
	seen[r.Switch] = true
	if len(st.Hashes) < 12 {
		st.Hashes[n] = r.Hash
	}
	st.TCP += r.Tot.TCPBytes
	st.UDP += r.Tot.UDPPackets
	st.FSOps += r.Tot.FSOps
	st.HTTP += r.Tot.HTTPReqs
	st.Conns += r.Tot.Conns
	w := r.Why
	if i := strings.IndexByte(w, ':'); i > 0 {
		w = w[:i]
	}
	st.Why[w]++
	st.Modes[p.Sched.Mode]++
	if p.NoFault {
		st.NoFault++
	}
	st.LastRun = n
}

func (st *Stat) merge(o *Stat) {
	st.Runs += o.Runs
	st.Sim += o.Sim
	st.Yields += o.Yields
	mi := func(a, b map[string]int) {
		for k, v := range b {
			a[k] += v
		}
	}
	mi(st.Faults, o.Faults)
	mi(st.Probes, o.Probes)
	mi(st.Known, o.Known)
	mi(st.Why, o.Why)
	mi(st.Modes, o.Modes)
	for k, v := range o.Checked {
		st.Checked[k] += v
	}
	for k, v := range o.Hashes {
		st.Hashes[k] = v
	}
	st.TCP += o.TCP
	st.UDP += o.UDP
	st.FSOps += o.FSOps
	st.HTTP += o.HTTP
	st.Conns += o.Conns
	st.NoFault += o.NoFault
	st.Nontriv += o.Nontriv
	st.HarnessE = append(st.HarnessE, o.HarnessE...)
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return p
}

func childEnv() []string {
	return append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=1500MiB", "GOTRACEBACK=single")
}

// ---- master ---------------------------------------------------------------------

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	secs := fs.Float64("secs", 20, "search time")
	minsecs := fs.Float64("minsecs", 45, "minimisation time")
	workers := fs.Int("workers", 8, "")
	evid := fs.String("evidence", "", "directory of evidence and replay files")
	known := fs.String("known", "", "known findings file")
	scratch := fs.String("scratch", "", "scratch directory")
	fs.Parse(args)
	t0 := time.Now()
	if scenarios[*prop] == nil {
		fmt.Println("no scenario for", *prop)
		return 2
	}
	os.MkdirAll(*evid, 0o755)
	base := uint64(*seed)
	type wres struct {
		reps []report
		err  string
		last uint64 // the run it was in
		died string // the runtime's last words
	}
	ch := make(chan wres, *workers)
	var cmds []*exec.Cmd
	for i := 0; i < *workers; i++ {
		c := exec.Command(self(), "work", "-prop", *prop, "-base", fmt.Sprint(base), "-from", fmt.Sprint(i), "-step", fmt.Sprint(*workers), "-secs", fmt.Sprint(*secs), "-known", *known)
		c.Env = childEnv()
		var se strings.Builder
		c.Stderr = &se
		so, err := c.StdoutPipe()
		if err == nil {
			err = c.Start()
		}
		if err != nil {
			fmt.Println("HARNESS-ERROR: cannot start worker:", err)
			return 2
		}
		cmds = append(cmds, c)
		go func(i int) {
			var w wres
			sc := bufio.NewReaderSize(so, 1<<20)
			for {
				l, err := sc.ReadBytes('\n')
				if len(l) > 0 {
					var r report
					if json.Unmarshal(l, &r) == nil && r.B {
						w.last = r.N
					} else if json.Unmarshal(l, &r) == nil {
						w.reps = append(w.reps, r)
					}
				}
				if err != nil {
					break
				}
			}
			if err := c.Wait(); err != nil {
				e := se.String()
				w.died = lastWords(e)
				if len(e) > 4000 {
					e = e[:4000]
				}
				w.err = fmt.Sprintf("worker %d: %v\n%s", i, err, e)
			}
			ch <- w
		}(i)
	}
	deadline := time.After(time.Duration(*secs*float64(time.Second)) + 120*time.Second)
	total := newStat()
	sw := map[uint64]bool{}
	var viols []report
	herr := ""
collect:
	for i := 0; i < *workers; i++ {
		select {
		case w := <-ch:
			if w.err != "" && w.died != "" {
				viols = append(viols, report{N: w.last, V: &Violation{Prop: *prop, Kind: "fatal", Detail: w.died}})
			} else if w.err != "" {
				herr = w.err
			}
			for _, r := range w.reps {
				if r.V != nil {
					viols = append(viols, r)
				}
				if r.H != "" {
					herr = fmt.Sprintf("run %d: %s", r.N, r.H)
				}
				if r.S != nil {
					total.merge(r.S)
					for _, h := range r.S.Switch {
						sw[h] = true
					}
				}
			}
		case <-deadline:
			for _, c := range cmds {
				c.Process.Kill()
			}
			herr = "a worker did not end in time"
			break collect
		}
	}
	searchWall := time.Since(t0)
	// determinism: the first runs of every worker again, in one other process
	det, detBad := 0, ""
	if len(viols) == 0 && herr == "" && total.Runs > 0 {
		k := 0
		for n := range total.Hashes {
			if n < 12 {
				k++
			}
		}
		c := exec.Command(self(), "work", "-prop", *prop, "-base", fmt.Sprint(base), "-from", "0", "-step", "1", "-max", fmt.Sprint(k), "-secs", "20", "-known", *known)
		c.Env = childEnv()
		out, err := c.Output()
		if err != nil {
			herr = "determinism re-run: " + err.Error()
		}
		for _, l := range strings.Split(string(out), "\n") {
			var r report
			if json.Unmarshal([]byte(l), &r) != nil || r.S == nil {
				continue
			}
			for n, h := range r.S.Hashes {
				if o, ok := total.Hashes[n]; ok {
					det++
					if o != h {
						detBad = fmt.Sprintf("run %d of %s gave different executions in two processes", n, *prop)
					}
				}
			}
		}
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].N < viols[j].N })
	code := 0
	replayed := ""
	tries := 0
	for _, v := range viols {
		if tries++; tries > 3 {
			break
		}
		rp := filepath.Join(*evid, "replay-"+*prop+".json")
		min := minimise
		if v.V.Kind == "fatal" {
			min = minimiseFatal
		}
		ok, msg := min(*prop, base, v, rp, *scratch, *minsecs)
		if !ok {
			fmt.Printf("note: run %d (%s) did not replay: %s\n", v.N, v.V.Kind, msg)
			herr = "a violation did not replay exactly: " + v.V.Kind + ": " + v.V.Detail
			continue
		}
		herr = ""
		replayed = rp
		fmt.Printf("property %s is broken: kind=%s seed=%d run=%d\n%s\n%s\n", *prop, v.V.Kind, *seed, v.N, v.V.Detail, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
		code = 1
		break
	}
	if code == 0 {
		switch {
		case herr != "":
			fmt.Println("HARNESS-ERROR:", herr)
			code = 2
		case detBad != "":
			fmt.Println("HARNESS-ERROR: not deterministic:", detBad)
			code = 2
		case total.Runs == 0:
			fmt.Println("HARNESS-ERROR: no runs")
			code = 2
		}
	}
	fm := map[string]Finding{}
	for _, f := range loadFindings(*known) {
		fm[f.ID] = f
	}
	ids := []string{}
	for id := range fm {
		if fm[id].Property == *prop {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s, seen in %d runs)\n", *prop, fm[id].What, id, total.Known[id])
	}
	wall := time.Since(t0).Seconds()
	hours := searchWall.Hours()
	smp := []any{}
	for n := uint64(0); n < 2; n++ {
		smp = append(smp, map[string]any{"run": n, "plan": genPlan(*prop, base, n)})
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration", "wall_s": wall,
		"coverage": map[string]any{
			"evaluations": total.Runs, "distinct_nontrivial": total.Nontriv,
			"rule":                   "one evaluation is one simulated run of the whole server with its clients; its plan (workload, network behaviour, scheduling policy, fault sequence) is drawn from hash(property, VERIF_SEED, run number). A run is distinct if its sequence of task switches has a fingerprint not seen before in its worker and non-trivial if its oracles evaluated at least one fact.",
			"samples":                smp,
			"runs_per_hour":          float64(total.Runs) / hours,
			"seeds_per_hour":         float64(total.Runs) / hours,
			"simulated_s":            total.Sim.Seconds(),
			"preemption_points":      total.Yields,
			"distinct_interleavings": len(sw),
			"interleaving_measure":   "64-bit fingerprint of the sequence of (task, switch point) over a run",
			"faults_fired":           total.Faults,
			"probes":                 total.Probes,
			"facts_checked":          total.Checked,
			"schedule_modes":         total.Modes,
			"fault_free_runs":        total.NoFault,
			"run_endings":            total.Why,
			"tcp_bytes":              total.TCP, "udp_datagrams": total.UDP, "file_operations": total.FSOps, "http_requests": total.HTTP, "connections": total.Conns,
			"determinism_reruns":   det,
			"known_findings_seen":  total.Known,
			"components_real":      componentsReal,
			"components_simulated": componentsStub,
		},
		"assumptions": assumptions,
		"violations":  len(viols),
	}
	if replayed != "" {
		ev["replay"] = replayed
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*evid, *prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("HARNESS-ERROR: evidence:", err)
		if code == 0 {
			code = 2
		}
	}
	if code == 0 {
		fmt.Printf("property %s held: %d runs, %d interleavings, %.0f simulated s, %d switches points, %.1f s\n", *prop, total.Runs, len(sw), total.Sim.Seconds(), total.Yields, wall)
	}
	return code
}

var componentsReal = []string{
	"all of /repo's non-test Go code (librtmp, libamf, libflv, libhls, libdash, librtsp, libsrt, libmpeg, broadcast code), rewritten only to route scheduling, clocks, network, files and randomness through the simulator",
	"github.com/SmartBrave/Athena easyio", "Go standard library apart from the parts listed as simulated",
}
var componentsStub = []string{
	"goroutine scheduler, channels, select, sync, time (simulated)", "net TCP and UDP (simulated network)", "net/http server and its connection handling (stub re-implementation over the simulated network)",
	"os files (in-memory file system)", "math/rand and crypto/rand (seeded)", "all clients and upstream servers (the harness)",
}
var assumptions = []string{
	"the simulated TCP, UDP, HTTP server and file system behave like the real ones in everything the server can observe",
	"interleavings are explored at statement granularity; torn memory accesses inside a statement are not modelled",
	"a passing run is evidence over the seeds explored, not a proof",
}

// ---- replay ---------------------------------------------------------------------

// Replay is the content of a replay file.
type Replay struct {
	Property string    `json:"property"`
	Seed     uint64    `json:"verif_seed"`
	Run      uint64    `json:"run"`
	V        Violation `json:"violation"`
	Hash     uint64    `json:"execution_hash"`
	Plan     *Plan     `json:"plan"`
	Faults   []string  `json:"faults_fired"`
	Trace    []string  `json:"trace,omitempty"`
	How      string    `json:"how"`
}

func findKind(r *Result, kind string) *Violation {
	for i := range r.Viols {
		if r.Viols[i].Kind == kind {
			return &r.Viols[i]
		}
	}
	return nil
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	in := fs.String("in", "", "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	var rp Replay
	b, err := os.ReadFile(*in)
	if err == nil {
		err = json.Unmarshal(b, &rp)
	}
	if err != nil {
		fmt.Println("cannot read", *in, err)
		return 2
	}
	if rp.V.Kind == "fatal" {
		d := tryFatal(*in)
		if d == "" {
			fmt.Println("the violation did not occur")
			return 0
		}
		fmt.Println(d)
		if d == rp.V.Detail {
			fmt.Println("REPLAY-EXACT")
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, *in)
		return 1
	}
	r := runPlan(rp.Plan.clone(), true)
	if *verbose {
		for _, l := range r.Log {
			fmt.Println(l)
		}
	}
	if r.Harness != "" {
		fmt.Println("HARNESS-ERROR:", r.Harness)
		return 2
	}
	v := findKind(&r, rp.V.Kind)
	if v == nil {
		fmt.Println("the violation did not occur")
		return 0
	}
	fmt.Printf("%s at %d us: %s\n", v.Kind, v.AtUS, v.Detail)
	if r.Hash == rp.Hash && v.Detail == rp.V.Detail {
		fmt.Println("REPLAY-EXACT")
	} else {
		fmt.Println("REPLAY-DIFFERENT execution (same kind of violation)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, *in)
	return 1
}

// minimise runs the minimiser in a child and verifies its result in another.
func minimise(prop string, base uint64, v report, out, scratch string, secs float64) (bool, string) {
	in := filepath.Join(scratch, "viol.json")
	b, _ := json.Marshal(Replay{Property: prop, Seed: base, Run: v.N, V: *v.V, Plan: genPlan(prop, base, v.N)})
	if err := os.WriteFile(in, b, 0o644); err != nil {
		return false, err.Error()
	}
	try := func(s float64) (bool, string) {
		os.Remove(out)
		c := exec.Command(self(), "min", "-in", in, "-out", out, "-secs", fmt.Sprint(s))
		c.Env = childEnv()
		o, err := c.CombinedOutput()
		if err != nil {
			return false, fmt.Sprintf("minimiser: %v %s", err, o)
		}
		c = exec.Command(self(), "replay", "-in", out)
		c.Env = childEnv()
		o2, _ := c.CombinedOutput()
		if !strings.Contains(string(o2), "REPLAY-EXACT") {
			return false, string(o2)
		}
		return true, string(o)
	}
	ok, msg := try(secs)
	if !ok {
		ok, msg = try(0)
	}
	return ok, msg
}

// cmdMin shrinks a failing plan and writes the replay file.
func cmdMin(args []string) int {
	fs := flag.NewFlagSet("min", flag.ExitOnError)
	in := fs.String("in", "", "")
	out := fs.String("out", "", "")
	secs := fs.Float64("secs", 45, "")
	fs.Parse(args)
	var rp Replay
	b, err := os.ReadFile(*in)
	if err == nil {
		err = json.Unmarshal(b, &rp)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	runs := 0
	test := func(p *Plan) (*Result, bool) {
		runs++
		r := runPlan(p.clone(), false)
		if r.Harness != "" {
			return &r, false
		}
		return &r, findKind(&r, rp.V.Kind) != nil
	}
	best := rp.Plan
	r0, ok := test(best)
	if !ok {
		fmt.Println("does not reproduce", r0.Harness)
		return 2
	}
	bestRes := r0
	left := func() bool { return time.Now().Before(end) }
	accept := func(p *Plan) bool {
		if !left() {
			return false
		}
		if r, ok := test(p); ok {
			best, bestRes = p, r
			return true
		}
		return false
	}
	if left() {
		shrink(accept, left, func() *Plan { return best }, func() *Result { return bestRes })
	}
	// final run with the log on
	fr := runPlan(best.clone(), true)
	v := findKind(&fr, rp.V.Kind)
	if v == nil {
		fmt.Println("the final run does not reproduce")
		return 2
	}
	rp.Plan = best
	rp.V = *v
	rp.Hash = fr.Hash
	rp.Faults = fr.FaultLg
	tr := fr.Log
	if len(tr) > 400 {
		tr = append(append([]string{}, tr[:100]...), append([]string{"..."}, tr[len(tr)-300:]...)...)
	}
	rp.Trace = tr
	rp.How = "VERIF replay: sh /verif/check.sh replay <this file> rebuilds from /repo and runs exactly this plan"
	b, _ = json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(*out, append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("minimised in %d runs: %d operations, schedule %s with %d choices and %d preemptions, %d faults", runs, len(best.Ops), best.Sched.Mode, len(best.Sched.Choices), len(best.Sched.Preempts), len(fr.FaultLg))
	return 0
}

func shrink(accept func(*Plan) bool, left func() bool, best func() *Plan, res func() *Result) {
	mod := func(f func(p *Plan)) bool {
		p := best().clone()
		f(p)
		return accept(p)
	}
	// schedule: is the default order enough?
	if !mod(func(p *Plan) { p.Sched = simrt.Schedule{Mode: "fifo", Seed: p.Sched.Seed} }) {
		mod(func(p *Plan) { p.Sched.StallP = 0 })
		mod(func(p *Plan) { p.Sched.Few = 0 })
		mod(func(p *Plan) { p.Sched.Mode = "fifo" })
		mod(func(p *Plan) { p.Sched.YieldGap, p.Sched.MaxPre = 0, 0 })
		mod(func(p *Plan) { p.Sched.SyncP = 0 })
	}
	if !mod(func(p *Plan) { p.FaultOnly = nil; p.Trimmed = true }) {
		mod(func(p *Plan) { p.FaultOnly = append([]string{}, res().FaultLg...); p.Trimmed = true })
	}
	mod(func(p *Plan) {
		p.Net.SegMode, p.Net.ShortRead, p.Net.LatMin, p.Net.LatMax = 0, 0, 0, 0
	})
	mod(func(p *Plan) { p.Net.SegMode = 0 })
	mod(func(p *Plan) { p.Net.ShortRead = 0 })
	for pass := 0; pass < 3 && left(); pass++ {
		changed := false
		for i := len(best().Ops) - 1; i >= 0 && left(); i-- {
			if len(best().Ops) > 1 && mod(func(p *Plan) { p.Ops = append(p.Ops[:i:i], p.Ops[i+1:]...) }) {
				changed = true
			}
		}
		for i := 0; i < len(best().Ops) && left(); i++ {
			ks := []string{}
			for k := range best().Ops[i].P {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if !left() {
					break
				}
				if mod(func(p *Plan) { delete(p.Ops[i].P, k) }) {
					changed = true
					continue
				}
				for _, d := range []int64{2, 4, 16} {
					v := best().Ops[i].P[k]
					if v < 3 {
						break
					}
					for left() && best().Ops[i].P[k] >= 3 && mod(func(p *Plan) { p.Ops[i].P[k] -= (p.Ops[i].P[k] + d - 1) / d }) {
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	// faults one by one
	if len(best().FaultOnly) > 0 && left() {
		fs := best().FaultOnly
		for n := (len(fs) + 1) / 2; n >= 1 && left(); n /= 2 {
			for i := 0; i < len(fs) && left(); {
				j := i + n
				if j > len(fs) {
					j = len(fs)
				}
				rest := append(append([]string{}, fs[:i]...), fs[j:]...)
				if mod(func(p *Plan) { p.FaultOnly = rest }) {
					fs = rest
				} else {
					i = j
				}
			}
			if n == 1 {
				break
			}
		}
	}
	// schedule as an explicit trace, then fewer decisions
	if s := best().Sched; (s.Mode != "fifo" || s.SyncP > 0 || s.YieldGap > 0 || s.Few > 0) && left() {
		r := res()
		if len(r.Choices)+len(r.Pre) < 200000 && mod(func(p *Plan) {
			p.Sched = simrt.Schedule{Mode: "trace", Seed: p.Sched.Seed, Choices: r.Choices, Preempts: r.Pre, StallMax: p.Sched.StallMax, Few: p.Sched.Few}
		}) {
			mod(func(p *Plan) { p.Sched.Choices = nil })
			mod(func(p *Plan) { p.Sched.Preempts = nil })
			for round := 0; round < 2 && left(); round++ {
				ddmin(len(best().Sched.Preempts), left, func(keep []int) bool {
					src := best().Sched.Preempts
					return mod(func(p *Plan) {
						p.Sched.Preempts = nil
						for _, k := range keep {
							p.Sched.Preempts = append(p.Sched.Preempts, src[k])
						}
					})
				})
				ddmin(len(best().Sched.Choices), left, func(keep []int) bool {
					src := best().Sched.Choices
					return mod(func(p *Plan) {
						p.Sched.Choices = nil
						for _, k := range keep {
							p.Sched.Choices = append(p.Sched.Choices, src[k])
						}
					})
				})
			}
		}
	}
}

// ddmin removes chunks of n items; try gets the indices (into the current list) to keep.
func ddmin(n int, left func() bool, try func(keep []int) bool) {
	size := (n + 1) / 2
	for size >= 1 && n > 0 && left() {
		i := 0
		for i < n && left() {
			j := i + size
			if j > n {
				j = n
			}
			keep := make([]int, 0, n)
			for k := 0; k < n; k++ {
				if k < i || k >= j {
					keep = append(keep, k)
				}
			}
			if try(keep) {
				n -= j - i
			} else {
				i = j
			}
		}
		if size == 1 {
			break
		}
		size = (size + 1) / 2
		if size < 1 {
			size = 1
		}
	}
}

// ---- runs that take the process with them ---------------------------------------

func limitMemory() {
	l := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &l)
}

// lastWords is what the Go runtime said when it ended a process for
// something the code under test did; empty if it did not.
func lastWords(e string) string {
	what := ""
	for _, k := range []string{"fatal error: stack overflow", "fatal error: runtime: out of memory", "fatal error: concurrent map", "fatal error: all goroutines are asleep"} {
		if strings.Contains(e, k) {
			what = k
		}
	}
	if what == "" {
		return ""
	}
	fn := ""
	for _, l := range strings.Split(e, "\n") {
		if strings.HasPrefix(l, "github.com/sbraveyoung/GGmpeg/") {
			fn = l
			if i := strings.LastIndexByte(fn, '('); i > 0 {
				fn = fn[:i]
			}
			break
		}
	}
	if fn == "" {
		return ""
	}
	return "the server process died: " + what + " (in " + fn[:strings.LastIndexAny(fn, "/")+1] + strings.SplitN(fn[strings.LastIndexAny(fn, "/")+1:], ".", 2)[0] + ")"
}

// cmdFatal runs a plan that is expected to end this process.
func cmdFatal(args []string) int {
	fs := flag.NewFlagSet("fatal", flag.ExitOnError)
	in := fs.String("in", "", "")
	fs.Parse(args)
	limitMemory()
	var rp Replay
	b, err := os.ReadFile(*in)
	if err != nil || json.Unmarshal(b, &rp) != nil {
		return 2
	}
	runPlan(rp.Plan.clone(), false)
	return 0
}

func tryFatal(in string) string {
	c := exec.Command(self(), "fatal", "-in", in)
	c.Env = childEnv()
	var se strings.Builder
	c.Stderr = &se
	if c.Run() == nil {
		return ""
	}
	return lastWords(se.String())
}

// minimiseFatal drops operations as long as the process still dies.
func minimiseFatal(prop string, base uint64, v report, out, scratch string, secs float64) (bool, string) {
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	rp := Replay{Property: prop, Seed: base, Run: v.N, V: *v.V, Plan: genPlan(prop, base, v.N),
		How: "VERIF replay: sh /verif/check.sh replay <this file> rebuilds from /repo and runs exactly this plan in a process of its own"}
	runs := 0
	write := func(p *Plan) bool {
		q := rp
		q.Plan = p
		b, _ := json.MarshalIndent(q, "", " ")
		return os.WriteFile(out, append(b, '\n'), 0o644) == nil
	}
	try := func(p *Plan) bool {
		runs++
		if !write(p) {
			return false
		}
		d := tryFatal(out)
		if d != "" {
			rp.V.Detail = d
		}
		return d != ""
	}
	if !try(rp.Plan) {
		return false, "the process did not die again"
	}
	for i := len(rp.Plan.Ops) - 1; i >= 0 && time.Now().Before(end); i-- {
		p := rp.Plan.clone()
		p.Ops = append(p.Ops[:i:i], p.Ops[i+1:]...)
		if len(p.Ops) > 0 && try(p) {
			rp.Plan = p
		}
	}
	if !write(rp.Plan) || tryFatal(out) != rp.V.Detail {
		return false, "the minimised plan does not replay"
	}
	*v.V = rp.V
	return true, fmt.Sprintf("minimised in %d runs: %d operations", runs, len(rp.Plan.Ops))
}
