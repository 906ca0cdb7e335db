// Package simrt is the simulation runtime: a deterministic one-task-at-a-time
// scheduler with a virtual clock and simulated network, files and randomness.
package simrt

import (
	"container/heap"
	"fmt"
	"net"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

func init() { time.Local = time.UTC }

// ---- keyed pseudo-random numbers -------------------------------------------

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Hash mixes its arguments.
func Hash(xs ...uint64) uint64 {
	h := uint64(0x1234567)
	for _, x := range xs {
		h = mix(h ^ x)
	}
	return h
}

// HashStr hashes a string (FNV-1a, then mixed).
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h)
}

// Rand is a small PRNG (splitmix64).
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{mix(seed)} }
func (r *Rand) U64() uint64     { r.s += 0x9e3779b97f4a7c15; return mix(r.s) }
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Range(lo, hi int) int { // inclusive
	if hi <= lo {
		return lo
	}
	return lo + r.Intn(hi-lo+1)
}
func (r *Rand) F() float64          { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) Bool(p float64) bool { return r.F() < p }
func (r *Rand) Dur(lo, hi time.Duration) time.Duration {
	if hi <= lo {
		return lo
	}
	return lo + time.Duration(r.U64()%uint64(hi-lo+1))
}
func (r *Rand) Pick(ws ...int) int { // weighted index
	t := 0
	for _, w := range ws {
		t += w
	}
	k := r.Intn(t)
	for i, w := range ws {
		if k < w {
			return i
		}
		k -= w
	}
	return 0
}
func (r *Rand) Read(p []byte) {
	for i := range p {
		p[i] = byte(r.U64())
	}
}

// ---- schedule --------------------------------------------------------------

// Preempt is one forced task switch at yield count At; Stall>0 also delays the
// preempted task by that much simulated time.
type Preempt struct {
	At    int64 `json:"at"`
	Stall int64 `json:"stall,omitempty"`
}

// Choice is one scheduling decision that differs from the default (oldest first).
type Choice struct {
	N int64 `json:"n"`
	C int   `json:"c"`
}

// Schedule says how interleavings are decided. Mode "trace" replays Choices and
// Preempts exactly and takes the default everywhere else.
type Schedule struct {
	Mode     string    `json:"mode"` // fifo, random, pct, lifo, trace
	Seed     uint64    `json:"seed"`
	YieldGap int64     `json:"yield_gap,omitempty"` // mean yields between preemptions; 0 = none
	SyncP    float64   `json:"sync_p,omitempty"`    // preemption probability at synchronisation points
	StallP   float64   `json:"stall_p,omitempty"`   // probability that a preemption also stalls the task
	StallMax int64     `json:"stall_max,omitempty"`
	MaxPre   int       `json:"max_pre,omitempty"`
	Few      int       `json:"few,omitempty"`   // stalls armed by the harness at moments of interest: how many at most
	ArmP     float64   `json:"arm_p,omitempty"` // probability that such a moment arms one
	ArmSync  float64   `json:"arm_sync,omitempty"`
	ArmGap   int64     `json:"arm_gap,omitempty"` // mean steps to it; 0 = at a synchronisation point soon
	Choices  []Choice  `json:"choices,omitempty"`
	Preempts []Preempt `json:"preempts,omitempty"`
}

// ---- tasks -----------------------------------------------------------------

type taskState int8

const (
	tsRunnable taskState = iota
	tsRunning
	tsParked
	tsDead
)

// Task is one simulated goroutine.
type Task struct {
	ID     int
	Name   string
	Node   *Node
	wake   chan struct{}
	state  taskState
	dying  bool
	why    string
	prio   uint64
	gen    uint64
	fn     func()
	sim    *Sim
	extern bool // harness task (a panic in it is a harness error)
}

type event struct {
	at  int64
	seq uint64
	fn  func()
}
type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || (h[i].at == h[j].at && h[i].seq < h[j].seq)
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(*event)) }
func (h *eventHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	*h = o[:len(o)-1]
	return e
}

// Crash describes the death of a simulated process.
type Crash struct {
	Node  string
	Msg   string
	Stack string
	Exit  bool
	Code  int
	At    time.Duration
}

// Sim is one simulation run.
type Sim struct {
	Seed    uint64
	Sched   Schedule
	now     int64
	seq     uint64
	events  eventHeap
	runq    []*Task
	tasks   []*Task
	cur     *Task
	mainCh  chan struct{}
	stopped bool
	why     string
	Horizon int64
	killing bool

	srng       *Rand // schedule
	rng        *Rand // application randomness
	yc         int64 // yields so far (whole part consumed)
	yset       int64 // value yb was last set to
	decN       int64
	Choices    []Choice
	Preempts   []Preempt
	tracePre   int
	traceCh    map[int64]int
	npre       int
	nfew       int
	armed      bool
	MaxYields  int64 // steps without simulated time passing that make a livelock
	markT      int64
	markY      int64
	limited    bool
	Switches   int64
	SwitchHash uint64
	LogHash    uint64

	Nodes      map[string]*Node
	byIP       map[string]*Node
	nodeSeq    int
	Crashes    []Crash
	OnCrash    func(Crash)
	HarnessErr string

	Faults    map[string]int // fault kind -> times fired
	Probes    map[string]int
	FaultLog  []string
	faultSeq  map[string]int
	FaultOnly map[string]bool // if non-nil only these fault keys may fire

	Net     NetConfig
	conns   int
	parts   map[[2]string]bool
	held    []heldSeg
	stalls  map[string]bool
	firing  bool // an event is being run
	udpFlow map[string]uint64
	// OnUDP is told of every datagram that arrives, OnUDPOut of every one sent.
	// OnDial is told of every attempt to open a TCP connection, OnDialed of
	// every one that failed.
	OnDial   func(from *Node, host string, port int)
	OnDialed func(from *Node, host string, port int)
	OnUDP    func(to *Node, port int, from *net.UDPAddr, b []byte)
	OnUDPOut func(from *Node, port int, to *net.UDPAddr, b []byte)
	udpLast  map[string]int64

	chans     map[chanKey]*chanState
	Log       []string
	LogOn     bool
	Epoch     int
	mapW      map[uintptr]*Task
	Tot       struct{ TCPBytes, UDPPackets, FSOps, HTTPReqs, Conns int64 }
	AllocPeak uint64
}

// Node is a simulated process / host.
type Node struct {
	OnConn     func(*TCPConn)      // called with each new connection, either side
	MutUDP     func([]byte) []byte // replaces (nil: drops) what is sent
	Made       int64               // bytes asked for by make
	FDs        int                 // limit of open descriptors, 0: none
	FDFull     []int64             // when a call last failed for it, at most once per ms
	Name       string
	IP         string
	sim        *Sim
	Dead       bool
	FS         *FS
	lis        map[int]*TCPListener
	udp        map[int]*UDPConn
	conns      map[*TCPConn]bool
	eport      int
	Extern     bool
	HTTPPanics []string
}

// S is the running simulation.
var S *Sim
var epoch int

// yield budget; negative triggers the slow path.
var yb int64 = 1 << 62

// Y is the preemption point inserted before every statement.
func Y() {
	yb--
	if yb < 0 {
		ySlow()
	}
}

// New makes a simulation and resets all instrumented package state.
func New(seed uint64, sched Schedule) *Sim {
	epoch++
	s := &Sim{Seed: seed, Sched: sched, mainCh: make(chan struct{}, 1), Nodes: map[string]*Node{}, byIP: map[string]*Node{},
		Faults: map[string]int{}, Probes: map[string]int{}, faultSeq: map[string]int{}, parts: map[[2]string]bool{}, stalls: map[string]bool{},
		udpFlow: map[string]uint64{}, udpLast: map[string]int64{}, chans: map[chanKey]*chanState{}, Horizon: int64(24 * time.Hour), MaxYields: 400_000_000, Epoch: epoch,
		mapW: map[uintptr]*Task{}}
	yb = 0
	s.srng = NewRand(Hash(seed, 1, sched.Seed))
	s.rng = NewRand(Hash(seed, 2))
	s.Net = DefaultNet()
	S = s
	runResets()
	if sched.Mode == "trace" {
		s.traceCh = map[int64]int{}
		for _, c := range sched.Choices {
			s.traceCh[c.N] = c.C
		}
	}
	s.armYield()
	return s
}

func (s *Sim) yields() int64 { return s.yc + (s.yset - yb) }

// Yields is the number of preemption points passed.
func (s *Sim) Yields() int64 { return s.yields() }

// armYield sets the budget until the next forced preemption.
func (s *Sim) armYield() {
	s.yc = s.yields()
	var gap int64 = 1 << 40
	switch {
	case s.Sched.Mode == "trace":
		if s.tracePre < len(s.Sched.Preempts) {
			gap = s.Sched.Preempts[s.tracePre].At - s.yc - 1
			if gap < 0 {
				gap = 0
			}
		}
	case s.armed && s.Sched.ArmGap > 0:
		gap = 1 + int64(s.srng.U64()%uint64(2*s.Sched.ArmGap))
	case s.Sched.YieldGap > 0 && (s.Sched.MaxPre == 0 || s.npre < s.Sched.MaxPre):
		gap = 1 + int64(s.srng.U64()%uint64(2*s.Sched.YieldGap))
	}
	s.limited = false
	if lim := s.markY + s.MaxYields - s.yc; gap > lim {
		s.limited = true
		gap = lim
		if gap < 0 {
			gap = 0
		}
	}
	s.yset = gap
	yb = gap
}

// Arm may hold up a task of the simulated program within the next few steps:
// the harness calls it at moments when a race is likely to matter.
func (s *Sim) Arm() {
	if s.Sched.Few == 0 || s.Sched.Mode == "trace" || s.armed || s.nfew >= s.Sched.Few || s.killing || !s.srng.Bool(s.Sched.ArmP) {
		return
	}
	s.armed = true
	if s.cur != nil && !s.firing {
		s.armYield()
	}
}

// Calm ends the stalls: bounds on progress count from when faults stop.
func (s *Sim) Calm() { s.Sched.StallP, s.Sched.Few, s.armed = 0, 0, false }

func ySlow() {
	s := S
	if s == nil || s.killing {
		yb = 1 << 62
		return
	}
	if s.cur == nil {
		yb = 0
		return
	}
	t := s.cur
	at := s.yields()
	if t.dying {
		if at > s.markY+s.MaxYields+1<<30 {
			fmt.Fprintln(os.Stderr, "simrt: killed task does not end:", t.Name)
			os.Exit(3)
		}
		s.armYield()
		return
	}
	if s.limited && at < s.markY+s.MaxYields {
		s.armYield()
		return
	}
	if at >= s.markY+s.MaxYields {
		s.end("livelock: step limit in task " + t.Name)
		s.park("step limit")
		return
	}
	s.preempt(at)
}

// preempt puts the current task back in the queue (possibly stalled).
func (s *Sim) preempt(at int64) {
	t := s.cur
	var stall int64
	if s.Sched.Mode == "trace" {
		if s.tracePre >= len(s.Sched.Preempts) || s.Sched.Preempts[s.tracePre].At > at {
			s.armYield()
			return
		}
		stall = s.Sched.Preempts[s.tracePre].Stall
		s.tracePre++
	} else if s.armed {
		if t.extern {
			s.armYield()
			return
		}
		s.nfew++
		s.armed = s.nfew < s.Sched.Few && s.srng.Bool(0.3)
		stall = 1 + int64(s.srng.U64()%uint64(s.Sched.StallMax))
	} else {
		s.npre++
		if s.Sched.StallP > 0 && s.srng.Bool(s.Sched.StallP) && !t.extern {
			stall = 1 + int64(s.srng.U64()%uint64(s.Sched.StallMax))
			if s.srng.Bool(0.7) {
				stall = 1 + stall/50
			}
		}
	}
	s.Preempts = append(s.Preempts, Preempt{at, stall})
	if s.Sched.Mode == "pct" {
		t.prio = s.srng.U64() >> 1
	}
	s.armYield()
	if stall > 0 {
		s.Faults["task_stall"]++
		w := s.me()
		s.after(stall, func() { s.wake(w) })
		s.park("stalled")
		return
	}
	if len(s.runq) == 0 {
		return
	}
	t.state = tsRunnable
	s.runq = append(s.runq, t)
	s.switchFrom(t)
}

// SyncPoint is a preemption opportunity at a synchronisation operation.
func SyncPoint() {
	s := S
	if s == nil || s.cur == nil || s.killing || s.cur.dying || s.firing {
		return
	}
	yb--
	if s.Sched.Mode == "trace" {
		if yb < 0 {
			ySlow()
		}
		return
	}
	if yb < 0 {
		ySlow()
		return
	}
	if s.armed {
		if s.Sched.ArmGap == 0 && !s.cur.extern && s.srng.Bool(s.Sched.ArmSync) {
			s.preempt(s.yields())
		}
		return
	}
	if s.Sched.SyncP > 0 && (s.Sched.MaxPre == 0 || s.npre < s.Sched.MaxPre) && s.srng.Bool(s.Sched.SyncP) {
		// preemption happens at a yield count, so that it can be replayed
		s.preempt(s.yields())
	}
}

func (s *Sim) after(d int64, fn func()) *event {
	if d < 0 {
		d = 0
	}
	s.seq++
	e := &event{s.now + d, s.seq, fn}
	heap.Push(&s.events, e)
	return e
}

// After schedules fn (which must not block) after d of simulated time.
func (s *Sim) After(d time.Duration, fn func()) { s.after(int64(d), fn) }

// Elapsed is the simulated time since the start of the run.
func (s *Sim) Elapsed() time.Duration { return time.Duration(s.now) }

// Seq is the global order stamp.
func (s *Sim) Seq() uint64 { s.seq++; return s.seq }

func (s *Sim) ready(t *Task) {
	if t.state != tsParked {
		return
	}
	t.state = tsRunnable
	t.why = ""
	s.runq = append(s.runq, t)
}

// end stops the run.
func (s *Sim) end(why string) {
	if !s.stopped {
		s.stopped = true
		s.why = why
	}
}

// Stop ends the run (from a harness task or event).
func (s *Sim) Stop(why string) { s.end(why) }

func (s *Sim) choose(n int) int {
	s.decN++
	if n <= 1 {
		return 0
	}
	c := 0
	switch s.Sched.Mode {
	case "trace":
		c = s.traceCh[s.decN] % n
	case "random":
		c = s.srng.Intn(n)
	case "lifo":
		c = n - 1
		if s.srng.Intn(4) == 0 {
			c = s.srng.Intn(n)
		}
	}
	if c != 0 {
		s.Choices = append(s.Choices, Choice{s.decN, c})
	}
	return c
}

// Choose is a recorded scheduling choice among n alternatives.
func Choose(n int) int {
	if S == nil {
		return 0
	}
	return S.choose(n)
}

func (s *Sim) pick() *Task {
	for {
		if s.stopped {
			return nil
		}
		for len(s.events) > 0 && s.events[0].at <= s.now {
			e := heap.Pop(&s.events).(*event)
			s.fire(e)
		}
		if n := len(s.runq); n > 0 {
			var i int
			if s.Sched.Mode == "pct" {
				s.decN++
				for j := 1; j < n; j++ {
					if s.runq[j].prio > s.runq[i].prio {
						i = j
					}
				}
				if i != 0 {
					s.Choices = append(s.Choices, Choice{s.decN, i})
				}
			} else {
				i = s.choose(n)
			}
			t := s.runq[i]
			copy(s.runq[i:], s.runq[i+1:])
			s.runq = s.runq[:n-1]
			return t
		}
		if len(s.events) == 0 {
			s.end("quiescent")
			return nil
		}
		e := heap.Pop(&s.events).(*event)
		if e.fn == nil { // a stopped timer
			continue
		}
		if e.at > s.Horizon {
			s.end("horizon")
			return nil
		}
		s.now = e.at
		if s.now >= s.markT+int64(time.Millisecond) {
			s.markT, s.markY = s.now, s.yields()
		}
		s.fire(e)
	}
}

// fire runs an event, which is no part of the task it happens to run in.
func (s *Sim) fire(e *event) {
	if e.fn != nil {
		s.firing = true
		e.fn()
		s.firing = false
	}
}

func (s *Sim) switchFrom(t *Task) {
	if s.killing {
		// only tasks being torn down run now
		runtime.Goexit()
	}
	next := s.pick()
	if next == t && t != nil {
		t.state = tsRunning
		s.cur = t
		if t.dying {
			runtime.Goexit()
		}
		return
	}
	s.Switches++
	if next == nil {
		s.cur = nil
		s.mainCh <- struct{}{}
	} else {
		s.SwitchHash = mix(s.SwitchHash ^ uint64(next.ID)<<1 ^ 1)
		next.state = tsRunning
		s.cur = next
		next.wake <- struct{}{}
	}
	if t == nil {
		return
	}
	<-t.wake
	if t.dying {
		runtime.Goexit()
	}
}

// park blocks the current task until ready(t).
func (s *Sim) park(why string) {
	t := s.cur
	if t == nil || s.firing {
		panic("simrt: blocking operation (" + why + ") outside a simulated task")
	}
	if t.dying {
		runtime.Goexit()
	}
	t.gen++
	t.state = tsParked
	t.why = why
	s.switchFrom(t)
}

// waiter is one park of one task; waking a stale waiter does nothing.
type waiter struct {
	t *Task
	g uint64
}

// me is the waiter for the park that must follow immediately.
func (s *Sim) me() waiter { return waiter{s.cur, s.cur.gen + 1} }

func (s *Sim) wake(w waiter) bool {
	if w.t == nil || w.t.state != tsParked || w.t.gen != w.g {
		return false
	}
	s.ready(w.t)
	return true
}

type waitq []waiter

func (q *waitq) add(w waiter) { *q = append(*q, w) }
func (q *waitq) wakeAll(s *Sim) {
	l := *q
	*q = nil
	for _, w := range l {
		s.wake(w)
	}
}
func (q *waitq) wakeOne(s *Sim) bool {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if s.wake(w) {
			return true
		}
	}
	return false
}

// Dying reports whether the current task is being torn down.
func dying() bool {
	s := S
	return s == nil || s.killing || (s.cur != nil && s.cur.dying)
}

// Go starts a task on the current task's node.
func Go(fn func()) {
	s := S
	if s == nil {
		go fn() // only reachable outside a simulation
		return
	}
	if dying() {
		return
	}
	var node *Node
	ext := false
	if s.cur != nil {
		node = s.cur.Node
		ext = s.cur.extern
	}
	name := "go"
	if pc, _, line, ok := runtime.Caller(1); ok {
		f := runtime.FuncForPC(pc)
		if f != nil {
			n := f.Name()
			if i := strings.LastIndexByte(n, '/'); i >= 0 {
				n = n[i+1:]
			}
			name = fmt.Sprintf("%s:%d", n, line)
		}
	}
	s.spawn(node, name, ext, fn)
	SyncPoint()
}

// GoOn starts a harness or root task on a node.
func (s *Sim) GoOn(node *Node, name string, fn func()) *Task {
	return s.spawn(node, name, node == nil || node.Extern, fn)
}

func (s *Sim) spawn(node *Node, name string, ext bool, fn func()) *Task {
	t := &Task{ID: len(s.tasks) + 1, Name: name, Node: node, wake: make(chan struct{}, 1), sim: s, fn: fn, extern: ext}
	t.prio = s.srng.U64()
	t.state = tsRunnable
	s.tasks = append(s.tasks, t)
	s.runq = append(s.runq, t)
	go t.main()
	return t
}

func (t *Task) main() {
	<-t.wake
	s := t.sim
	defer func() {
		r := recover()
		t.state = tsDead
		if r != nil && !s.killing && !t.dying {
			st := trimStack(string(debug.Stack()))
			if t.extern {
				s.HarnessErr = fmt.Sprintf("panic in harness task %s: %v\n%s", t.Name, r, st)
				s.end("harness panic")
			} else {
				s.crashNode(t.Node, fmt.Sprint(r), st, false, 0)
			}
		}
		if s.killing {
			s.mainCh <- struct{}{}
			return
		}
		// hand over
		s.exitSwitch()
	}()
	if t.dying {
		return
	}
	t.fn()
}

func (s *Sim) exitSwitch() {
	next := s.pick()
	s.Switches++
	if next == nil {
		s.cur = nil
		s.mainCh <- struct{}{}
		return
	}
	s.SwitchHash = mix(s.SwitchHash ^ uint64(next.ID)<<1 ^ 1)
	next.state = tsRunning
	s.cur = next
	next.wake <- struct{}{}
}

var addrRE = regexp.MustCompile("0x[0-9a-f]{7,}")

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	out := []string{}
	// skip until after panic(
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i + 2
		}
	}
	for i := start; i < len(lines) && len(out) < 24; i++ {
		// addresses differ from one process to the next
		l := lines[i]
		if strings.HasPrefix(l, "\t") {
			if j := strings.LastIndex(l, " +0x"); j > 0 {
				l = l[:j]
			}
		} else if j := strings.Index(l, " in goroutine "); j > 0 {
			l = l[:j]
		} else if strings.HasPrefix(l, "goroutine ") {
			continue
		} else if j := strings.LastIndexByte(l, '('); j > 0 && strings.HasSuffix(l, ")") {
			l = l[:j] + "()"
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// StackSig extracts the first few function names of a stack for matching.
func StackSig(st string) string {
	fs := []string{}
	for _, l := range strings.Split(st, "\n") {
		if l == "" || l[0] == '\t' || strings.HasPrefix(l, "goroutine") {
			continue
		}
		if i := strings.LastIndexByte(l, '('); i > 0 {
			l = l[:i]
		}
		if i := strings.LastIndexByte(l, '/'); i >= 0 {
			l = l[i+1:]
		}
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "simrt.") {
			continue
		}
		fs = append(fs, l)
		if len(fs) == 3 {
			break
		}
	}
	return strings.Join(fs, "<")
}

// crashNode kills every task of the node and resets its connections.
func (s *Sim) crashNode(n *Node, msg, stack string, exit bool, code int) {
	name := ""
	if n != nil {
		name = n.Name
	}
	msg = addrRE.ReplaceAllString(msg, "0x?")
	s.Crashes = append(s.Crashes, Crash{Node: name, Msg: msg, Stack: stack, Exit: exit, Code: code, At: time.Duration(s.now)})
	if n != nil {
		s.killNode(n, false)
	}
	if s.OnCrash != nil {
		s.OnCrash(s.Crashes[len(s.Crashes)-1])
	}
}

// KillNode stops a node's tasks; silent=true models a host that vanishes
// (no reset is sent to its peers).
func (s *Sim) KillNode(n *Node, silent bool) { s.killNode(n, silent) }

func (s *Sim) killNode(n *Node, silent bool) {
	if n.Dead {
		return
	}
	n.Dead = true
	for _, cc := range sortedConns(n.conns) {
		if silent {
			cc.dead = true
		} else {
			cc.abort()
		}
	}
	n.conns = map[*TCPConn]bool{}
	n.lis = map[int]*TCPListener{}
	for _, u := range n.udp {
		u.closed = true
	}
	n.udp = map[int]*UDPConn{}
	for _, t := range s.tasks {
		if t.Node == n && t.state != tsDead {
			t.dying = true
			if t.state == tsParked {
				s.ready(t)
			}
		}
	}
}

// RestartNode makes a dead node usable again (its files survive).
func (s *Sim) RestartNode(n *Node) {
	n.Dead = false
	n.conns = map[*TCPConn]bool{}
	n.lis = map[int]*TCPListener{}
	n.udp = map[int]*UDPConn{}
}

// Run executes until the run ends, then tears every task down.
func (s *Sim) Run() string {
	s.exitSwitch()
	<-s.mainCh
	why := s.why
	return why
}

// Close tears the run down.
func (s *Sim) Close() {
	s.killing = true
	yb = 1 << 62
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state == tsDead {
			continue
		}
		t.dying = true
		s.cur = t
		t.wake <- struct{}{}
		<-s.mainCh
	}
	s.cur = nil
	if S == s {
		S = nil
	}
}

// LiveTasks lists tasks of a node that have not ended.
func (s *Sim) LiveTasks(n *Node) []string {
	var out []string
	for _, t := range s.tasks {
		if t.Node == n && t.state != tsDead {
			out = append(out, t.Name+" ["+t.why+"]")
		}
	}
	sort.Strings(out)
	return out
}

// Dump describes all live tasks.
func (s *Sim) Dump() string {
	var b strings.Builder
	for _, t := range s.tasks {
		if t.state != tsDead {
			n := "-"
			if t.Node != nil {
				n = t.Node.Name
			}
			fmt.Fprintf(&b, "task %d %s@%s state=%d %s\n", t.ID, t.Name, n, t.state, t.why)
		}
	}
	return b.String()
}

// TaskNames lists the live tasks of a node, sorted.
func (s *Sim) TaskNames(n *Node) []string {
	var l []string
	for _, t := range s.tasks {
		if t.state != tsDead && t.Node == n {
			l = append(l, t.Name)
		}
	}
	sort.Strings(l)
	return l
}

// TaskStates says what the live tasks of a node wait for.
func (s *Sim) TaskStates(n *Node) []string {
	var l []string
	for _, t := range s.tasks {
		if t.state != tsDead && t.Node == n {
			l = append(l, fmt.Sprintf("%d %s state %d: %s", t.ID, t.Name, t.state, t.why))
		}
	}
	return l
}

// Logf appends to the event log (never consumes randomness).
func (s *Sim) Logf(f string, a ...any) {
	line := fmt.Sprintf("%12.6f ", time.Duration(s.now).Seconds()) + fmt.Sprintf(f, a...)
	s.LogHash = mix(s.LogHash ^ HashStr(line))
	if s.LogOn {
		s.Log = append(s.Log, line)
		if os.Getenv("SIMLOG") != "" {
			fmt.Fprintln(os.Stderr, line)
		}
	}
}

// Probe counts a rare condition.
func (s *Sim) Probe(k string) { s.Probes[k]++ }

// Fault asks whether fault `kind` may fire at `key`; if so it is counted and
// traced. Under minimisation only listed faults fire.
func (s *Sim) Fault(kind, key string) bool {
	id := kind + "@" + key
	n := s.faultSeq[id]
	s.faultSeq[id] = n + 1
	if n > 0 {
		id = fmt.Sprintf("%s#%d", id, n)
	}
	if s.FaultOnly != nil && !s.FaultOnly[id] {
		return false
	}
	s.Faults[kind]++
	s.FaultLog = append(s.FaultLog, id)
	s.Logf("fault %s", id)
	return true
}

// Node returns or creates a node.
func (s *Sim) Node(name, ip string, extern bool) *Node {
	if n, ok := s.Nodes[name]; ok {
		return n
	}
	s.nodeSeq++
	if ip == "" {
		ip = fmt.Sprintf("10.1.%d.%d", s.nodeSeq/250, s.nodeSeq%250+1)
	}
	n := &Node{Name: name, IP: ip, sim: s, lis: map[int]*TCPListener{}, udp: map[int]*UDPConn{}, conns: map[*TCPConn]bool{}, eport: 40000, Extern: extern}
	n.FS = newFS(s, n)
	s.Nodes[name] = n
	s.byIP[ip] = n
	return n
}

// CurNode is the node of the running task.
func CurNode() *Node {
	if S == nil || S.cur == nil {
		return nil
	}
	return S.cur.Node
}

// Cur returns the running task.
func Cur() *Task {
	if S == nil {
		return nil
	}
	return S.cur
}

// ---- time ------------------------------------------------------------------

// Base is the wall-clock time at simulation start.
var Base = time.Date(2026, 3, 1, 12, 0, 0, 0, time.UTC)

func Now() time.Time {
	if S == nil {
		return Base
	}
	return Base.Add(time.Duration(S.now))
}

func Sleep(d time.Duration) {
	s := S
	if s == nil || dying() {
		if s != nil && s.cur != nil && !s.killing {
			runtime.Goexit()
		}
		return
	}
	if d <= 0 {
		SyncPoint()
		return
	}
	w := s.me()
	s.after(int64(d), func() { s.wake(w) })
	s.park("sleep")
}

// Closing reports whether the simulation is being torn down.
func Closing() bool { return S == nil || S.killing }

// Gosched is runtime.Gosched.
func Gosched() {
	s := S
	if s == nil || s.cur == nil || dying() || len(s.runq) == 0 {
		return
	}
	t := s.cur
	t.state = tsRunnable
	s.runq = append(s.runq, t)
	s.switchFrom(t)
}

// Exit is os.Exit inside the simulation.
func Exit(code int) {
	s := S
	if s == nil || s.cur == nil {
		os.Exit(code)
	}
	if s.cur.extern {
		panic("os.Exit in harness")
	}
	s.crashNode(s.cur.Node, fmt.Sprintf("os.Exit(%d)", code), trimStack(string(debug.Stack())), true, code)
	runtime.Goexit()
}
