package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"
	"github.com/sbraveyoung/GGmpeg/librtmp"
	"verif/simrt"
)

// ---- plans --------------------------------------------------------------------

// Op is one scripted action of one actor. T is simulated microseconds.
type Op struct {
	K string           `json:"k"`
	T int64            `json:"t"`
	I int64            `json:"i"` // actor number (names its node and its random stream)
	N string           `json:"n,omitempty"`
	A string           `json:"a,omitempty"`
	P map[string]int64 `json:"p,omitempty"`
}

func (o *Op) p(k string, d int64) int64 {
	if v, ok := o.P[k]; ok {
		return v
	}
	return d
}

// Plan is one simulated run as data: everything the run depends on.
type Plan struct {
	Prop    string             `json:"prop"`
	Scen    string             `json:"scen"`
	Seed    uint64             `json:"seed"`
	Sched   simrt.Schedule     `json:"sched"`
	Net     simrt.NetConfig    `json:"net"`
	K       map[string]int64   `json:"k,omitempty"`
	F       map[string]float64 `json:"f,omitempty"`
	Ops     []Op               `json:"ops"`
	NoFault bool               `json:"no_fault"`
	// FaultOnly, if set, is the complete list of faults that may fire.
	FaultOnly []string `json:"fault_only,omitempty"`
	Trimmed   bool     `json:"trimmed,omitempty"`
}

func (p *Plan) k(k string, d int64) int64 {
	if v, ok := p.K[k]; ok {
		return v
	}
	return d
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// Violation is one observed breach.
type Violation struct {
	Prop   string `json:"prop"`
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
	AtUS   int64  `json:"at_us"`
}

// Result of one run.
type Result struct {
	Viols   []Violation
	Harness string
	Hash    uint64 // of the event log
	Switch  uint64 // of the interleaving
	Sim     time.Duration
	Faults  map[string]int
	Probes  map[string]int
	Log     []string
	FaultLg []string
	Choices []simrt.Choice
	Pre     []simrt.Preempt
	Yields  int64
	Why     string
	Tot     struct{ TCPBytes, UDPPackets, FSOps, HTTPReqs, Conns int64 }
	Checked map[string]int64 // how many facts each oracle evaluated
}

// ---- world --------------------------------------------------------------------

type World struct {
	plan  *Plan
	s     *simrt.Sim
	srv   *simrt.Node
	viols []Violation
	seen  map[string]bool
	prop  string

	pubs    []*Session
	viewers []*Viewer
	alive   int // harness actors that have not finished
	done    []func()
	sessSeq int
	checked map[string]int64
	stop    bool
	StopAt  time.Duration
	hold    int  // scenario activities that must end before the run may
	held    bool // a partition has held traffic back
	crashOK bool // a scenario that kills the server on purpose
	logOn   bool
	dirs    map[string]string
	ports   []int
	srtOn   bool
	hls     map[string]*hlsObs
	onHLS   func(h *hlsObs, p *hlsPoll)
	hlsKeys []string
	dash    []*dashObs
	rtpIn   map[int]*pubTrack // RTSP publishers by server port
	srtIn   map[string]*srtPub
	mute    bool // a world of hostile peers: nothing is expected of it
	parent  *World
	kids    []*World
}

func (w *World) logf(f string, a ...any) { w.s.Logf(f, a...) }

// fail records a violation of the property under check.
func (w *World) fail(kind, f string, a ...any) {
	if w.mute {
		return
	}
	d := fmt.Sprintf(f, a...)
	key := kind
	if w.seen[key] {
		return
	}
	w.seen[key] = true
	w.viols = append(w.viols, Violation{Prop: w.prop, Kind: kind, Detail: d, AtUS: int64(w.s.Elapsed() / time.Microsecond)})
	w.logf("VIOLATION %s: %s", kind, d)
}

func (w *World) ok(kind string) { w.checked[kind]++ }

func (w *World) now() time.Duration { return w.s.Elapsed() }

func (w *World) rng(keys ...uint64) *simrt.Rand {
	return simrt.NewRand(simrt.Hash(append([]uint64{w.plan.Seed, 77}, keys...)...))
}

// actor starts a harness task.
func (w *World) actor(node *simrt.Node, name string, at int64, fn func()) {
	w.living(1)
	w.s.GoOn(node, name, func() {
		if w.srv != nil && node != w.srv {
			w.waitUntil(10*time.Second, w.up)
		}
		if at > 0 {
			d := time.Duration(at)*time.Microsecond - w.s.Elapsed()
			if d > 0 {
				simrt.Sleep(d)
			}
		}
		fn()
		w.living(-1)
	})
}

func (w *World) living(d int) {
	for ; w != nil; w = w.parent {
		w.alive += d
	}
}

// quit tells every actor to end.
func (w *World) quit() {
	w.stop = true
	w.StopAt = w.now()
	w.s.Calm()
	for _, k := range w.kids {
		k.quit()
	}
}

// hostile makes a world for peers of whom nothing is expected.
func (w *World) hostile() *World {
	h := &World{plan: w.plan, s: w.s, srv: w.srv, prop: w.prop, seen: map[string]bool{}, checked: map[string]int64{}, dirs: w.dirs,
		ports: w.ports, srtOn: w.srtOn, logOn: w.logOn, mute: true, parent: w, sessSeq: 1000}
	w.kids = append(w.kids, h)
	return h
}

// up says whether the server has all its listeners.
func (w *World) up() bool {
	for _, p := range w.ports {
		if !w.srv.Listening(p) {
			return false
		}
	}
	return !w.srtOn || w.srv.UDPBound(portSRT)
}

func (w *World) client(i int64) *simrt.Node {
	return w.s.Node(fmt.Sprintf("c%d", i), "", true)
}

// waitUntil polls until the condition holds or the simulated deadline passes.
func (w *World) waitUntil(d time.Duration, cond func() bool) bool {
	end := w.s.Elapsed() + d
	step := 2 * time.Millisecond
	for {
		if cond() {
			return true
		}
		if w.s.Elapsed() >= end || simrt.Closing() {
			return false
		}
		simrt.Sleep(step)
		if step < 50*time.Millisecond {
			step = step * 3 / 2
		}
	}
}

const (
	portRTMP = 1935
	portFLV  = 8080
	portHLS  = 8081
	portRTSP = 554
	portSRT  = 9710
)

// ServerCfg says which listeners a run has.
type ServerCfg struct {
	Apps                 []string
	Hls, Dash, Rtsp, Srt bool
	SrtApp, SrtStream    string
	Delay                bool // HLS in DELAY mode
	Pulls                [][3]string
	Dirs                 map[string]string
}

func (w *World) startServer(c ServerCfg) {
	w.srv = w.s.Node("srv", "10.0.0.1", false)
	w.ports = []int{portRTMP, portFLV}
	if c.Hls {
		w.ports = append(w.ports, portHLS)
	}
	if c.Rtsp {
		w.ports = append(w.ports, portRTSP)
	}
	w.srtOn = c.Srt
	w.s.GoOn(w.srv, "server", func() {
		apps := c.Apps
		if len(apps) == 0 {
			apps = []string{"live", "tv"}
		}
		s := librtmp.NewServer(":1935", apps...)
		s = s.WithHTTPFlv(":8080")
		if c.Hls {
			s = s.WithHls(":8081")
			if c.Delay {
				for _, a := range apps {
					s = s.SetHlsMode(a, libhls.DELAY)
				}
			}
		}
		ds := []string{}
		for a := range c.Dirs {
			ds = append(ds, a)
		}
		sort.Strings(ds)
		for _, a := range ds {
			s = s.SetHlsDir(a, c.Dirs[a])
		}
		if c.Dash {
			s = s.WithDASH()
		}
		if c.Rtsp {
			s = s.WithRTSP(":554")
		}
		if c.Srt {
			s = s.WithSRT(":9710", c.SrtApp, c.SrtStream)
		}
		for _, p := range c.Pulls {
			s = s.WithRTMPPull(p[0], p[1], p[2])
		}
		err := s.Handler()
		w.logf("server ended: %v", err)
	})
}

// runPlan executes one plan in a fresh simulation.
func runPlan(p *Plan, logOn bool) (res Result) {
	sc := scenarios[p.Prop]
	if sc == nil {
		res.Harness = "no scenario for " + p.Prop
		return
	}
	s := simrt.New(p.Seed, p.Sched)
	s.Net = p.Net
	s.LogOn = logOn
	if p.FaultOnly != nil || p.Trimmed {
		s.FaultOnly = map[string]bool{}
		for _, f := range p.FaultOnly {
			s.FaultOnly[f] = true
		}
	}
	s.Horizon = int64(p.k("horizon", 600)) * int64(time.Second)
	s.MaxYields = p.k("max_yields", 60_000_000)
	w := &World{plan: p, s: s, prop: p.Prop, seen: map[string]bool{}, checked: map[string]int64{}, logOn: logOn, dirs: map[string]string{}}
	defer func() {
		if r := recover(); r != nil {
			res.Harness = fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				res.Harness = fmt.Sprintf("setup panic: %v\n%s", r, debug.Stack())
			}
		}()
		sc.Setup(w)
	}()
	if p.Sched.Few > 0 {
		r := simrt.NewRand(simrt.Hash(p.Seed, 0xa53))
		for i := 0; i < 4; i++ {
			s.After(time.Duration(r.Intn(6_000_000))*time.Microsecond, s.Arm)
		}
	}
	if res.Harness == "" {
		res.Why = s.Run()
		if s.HarnessErr != "" {
			res.Harness = s.HarnessErr
		}
	}
	if res.Harness == "" {
		for _, c := range s.Crashes {
			if c.Node == "srv" || strings.HasPrefix(c.Node, "srv") {
				kind := "crash:" + simrt.StackSig(c.Stack)
				w.fail(kind, "the server process died: %s\n%s", c.Msg, c.Stack)
			}
		}
		if w.srv != nil && len(w.srv.HTTPPanics) > 0 {
			sort.Strings(w.srv.HTTPPanics)
			w.fail("http-panic", "a request handler panicked: %s", w.srv.HTTPPanics[0])
		}
		if strings.HasPrefix(res.Why, "livelock") {
			w.fail("livelock", "the server keeps running without simulated time passing: %s", res.Why)
		} else if res.Why == "horizon" || (res.Why == "quiescent" && w.alive > 0) {
			if len(w.viols) == 0 {
				res.Harness = "run did not end: " + res.Why + "\n" + s.Dump()
			}
		} else if len(s.Crashes) == 0 {
			func() {
				defer func() {
					if r := recover(); r != nil {
						res.Harness = fmt.Sprintf("oracle panic: %v\n%s", r, debug.Stack())
					}
				}()
				for _, f := range w.done {
					f()
				}
			}()
		}
	}
	res.Viols = w.viols
	res.Hash = s.LogHash
	res.Switch = s.SwitchHash
	res.Sim = s.Elapsed()
	res.Faults = s.Faults
	res.Probes = s.Probes
	res.Log = s.Log
	res.FaultLg = s.FaultLog
	res.Choices = s.Choices
	res.Pre = s.Preempts
	res.Yields = s.Yields()
	res.Tot = s.Tot
	res.Checked = w.checked
	s.Close()
	return
}

// Scenario is the generator and the actors of one property.
type Scenario struct {
	// Gen draws a plan from the seed. tier: quick or thorough.
	Gen func(r *simrt.Rand, p *Plan)
	// Setup starts server and actors and registers the oracles.
	Setup func(w *World)
}

var scenarios = map[string]*Scenario{}

// genPlan makes the plan of run number n.
func genPlan(prop string, base, n uint64) *Plan {
	h := fnv.New64a()
	h.Write([]byte(prop))
	seed := simrt.Hash(h.Sum64(), base, n)
	p := &Plan{Prop: prop, Seed: seed, K: map[string]int64{}, F: map[string]float64{}}
	r := simrt.NewRand(simrt.Hash(seed, 3))
	p.Net = simrt.DefaultNet()
	p.NoFault = n%3 == 0
	genSched(r, p)
	scenarios[prop].Gen(r, p)
	return p
}

// genSched draws a scheduling policy (swarm style).
func genSched(r *simrt.Rand, p *Plan) {
	sc := simrt.Schedule{Seed: r.U64()}
	switch r.Pick(2, 4, 3, 1) {
	case 0:
		sc.Mode = "fifo"
	case 1:
		sc.Mode = "random"
	case 2:
		sc.Mode = "pct"
	case 3:
		sc.Mode = "lifo"
	}
	switch r.Pick(3, 3, 2, 1) {
	case 0:
	case 1:
		sc.SyncP = []float64{0.02, 0.1, 0.3}[r.Intn(3)]
	case 2:
		sc.YieldGap = []int64{30, 300, 3000}[r.Intn(3)]
		sc.SyncP = 0.05
	case 3:
		sc.YieldGap = int64(50 + r.Intn(5000))
		sc.MaxPre = 3 + r.Intn(20)
	}
	if !p.NoFault && r.Bool(0.25) {
		sc.StallP = []float64{0.01, 0.1, 0.5}[r.Intn(3)]
		sc.StallMax = []int64{int64(time.Millisecond), int64(20 * time.Millisecond), int64(200 * time.Millisecond)}[r.Intn(3)]
		if sc.StallP == 0.5 && sc.StallMax > int64(20*time.Millisecond) {
			sc.StallMax = int64(20 * time.Millisecond)
		}
		if sc.SyncP == 0 && sc.YieldGap == 0 {
			sc.SyncP = 0.05
		}
	}
	if !p.NoFault && sc.StallP == 0 && r.Bool(0.3) {
		sc.Few = 1 + r.Intn(4)
		sc.ArmP = []float64{0.03, 0.1, 0.3, 1}[r.Intn(4)]
		sc.ArmSync = []float64{0.01, 0.05, 0.2}[r.Intn(3)]
		sc.ArmGap = []int64{0, 0, 20, 200, 2000}[r.Intn(5)]
		sc.StallMax = []int64{int64(2 * time.Millisecond), int64(20 * time.Millisecond), int64(100 * time.Millisecond)}[r.Intn(3)]
	}
	p.Sched = sc
}

// stallBudget bounds how long scheduling faults can hold a task back.
// stalls tells whether tasks of the server are held up in this run (by chance,
// or by the preemptions of a minimised trace).
func (p *Plan) stalls() bool {
	if p.Sched.Few > 0 { // a few stalls, which bounds can allow for
		return false
	}
	if p.Sched.StallP > 0 {
		return true
	}
	for _, x := range p.Sched.Preempts {
		if x.Stall > 0 {
			return true
		}
	}
	return false
}

// fewBound bounds the time that a few stalls take together.
func (p *Plan) fewBound() time.Duration {
	return time.Duration(p.Sched.Few) * time.Duration(p.Sched.StallMax)
}

func hexs(b []byte, n int) string {
	if len(b) > n {
		return fmt.Sprintf("%x..(%d)", b[:n], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func debugf(f string, a ...any) {
	if os.Getenv("VDEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

var _ = bytes.Equal

func (w *World) sleep(d time.Duration) {
	if d > 0 {
		simrt.Sleep(d)
	}
}
