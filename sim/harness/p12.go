package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"time"

	"verif/simrt"
)

func init() {
	scenarios["P12"] = &Scenario{Gen: genP12, Setup: setupP12}
}

// What one connection of the pull meets at the upstream.
const (
	upServe   = iota // accept, play a stream, end as "end" says
	upConnErr        // connect refused with _error
	upCreErr         // createStream refused with _error
	upPlayErr        // play refused with an onStatus of level error
	upVersion        // handshake with another version
	upGarbage        // rubbish instead of chunks after the handshake
	upTrickle        // never answers, but keeps sending pings
	upMute           // reads everything, says nothing
	upHangup         // closes at once
)

// How a served stream ends.
const (
	endFin = iota
	endRst
	endSilent
	endCutNet // partition
	endPoison
)

func genP12(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	p.Net.Window = 256 << 10
	n := 1
	if r.Bool(0.25) {
		n = 2
	}
	for u := 0; u < n; u++ {
		nm := "m"
		if u == 1 {
			nm = "m2"
		}
		steps := r.Intn(4)
		if r.Bool(0.08) { // a long outage: does the delay stay bounded?
			p.Ops = append(p.Ops, Op{K: "updown", I: int64(u), P: map[string]int64{"ms": 60000 + int64(r.Intn(90000)), "take": int64(r.Intn(3))}})
		}
		for i := 0; i <= steps; i++ {
			P := map[string]int64{"wait": pick64(r, 0, 50, 300), "linger": pick64(r, 0, 0, 100), "u": int64(u)}
			streamKnobs(r, P)
			P["frames"] = 10 + int64(r.Intn(40))
			randChunking(r, P, r.Bool(0.6))
			P["cs"] = pick64(r, 0, 64, 128, 500, 4096, 65536)
			P["hs"] = int64(r.Intn(4))
			P["talk"] = int64(r.Intn(32))
			if r.Bool(0.2) {
				P["win"] = pick64(r, 1000, 5000, 20000)
				P["strictack"] = 1
				P["win2"] = pick64(r, 0, 2000)
			}
			if i < steps {
				P["mode"] = int64(r.Pick(10, 2, 2, 3, 1, 2, 2, 2, 2))
				switch {
				case P["mode"] != upServe:
				case r.Bool(0.5): // harmed somewhere
					at := pick64(r, int64(1+r.Intn(3100)), 3073+int64(1+r.Intn(600)), 3073+300+int64(r.Intn(20000)))
					switch r.Intn(4) {
					case 0, 1:
						P["cutat"], P["cutrst"] = at, int64(r.Intn(2))
					case 2:
						P["stallat"] = at
					case 3:
						P["partat"] = at
						P["partms"] = pick64(r, 300, 3000, 20000, 70000)
					}
				default:
					P["end"] = int64(r.Intn(5))
					P["partms"] = pick64(r, 3000, 20000, 70000)
				}
				if r.Bool(0.2) {
					P["downms"] = pick64(r, 500, 4000, 15000)
					P["take"] = int64(r.Intn(3))
				}
			} else if r.Bool(0.3) {
				P["end"] = pick64(r, endFin, endRst)
			}
			p.Ops = append(p.Ops, Op{K: "upstep", I: int64(u), A: "live", N: nm, P: P})
		}
		for i := 0; i < 1+r.Intn(2); i++ {
			p.Ops = append(p.Ops, Op{K: "follow", I: int64(10 + 10*u + i), A: "live", N: nm, T: int64(r.Intn(2000) * 1000), P: map[string]int64{"ws": int64(r.Intn(2)), "gap": pick64(r, 50, 300, 1000)}})
		}
	}
	if r.Bool(0.3) {
		Q := map[string]int64{"frames": 20, "gop": 4, "fms": 30}
		p.Ops = append(p.Ops, Op{K: "pub", I: 5, A: "live", N: "other", T: int64(r.Intn(3000) * 1000), P: Q})
	}
	p.K["hls"] = int64(r.Intn(4))
	p.K["maxrun"] = 1500
	p.K["horizon"] = 2000
}

type upConn struct {
	up     *upstream
	n      int
	rc     *RC
	At     time.Duration
	Quiet  time.Duration // nothing is coming any more since (0: still healthy)
	told   time.Duration // it could know since
	Began  bool
	CloseA time.Duration // the pull had closed its end
	Part   bool
	sess   *Session
	why    string
}

func (c *upConn) String() string { return fmt.Sprintf("connection %d of pull %d", c.n, c.up.id) }

// gone: has the pull closed its end?
func (c *upConn) gone() bool { return c.rc.c.PeerConn().Closed() || c.CloseA > 0 }

// upstream is a simulated RTMP server that is pulled from.
type upstream struct {
	w      *World
	id     int
	app    string
	nm     string
	remote string
	nodeN  string
	node   *simrt.Node
	steps  []*Op
	done   int
	conns  []*upConn
	dials  []time.Duration
	failed map[int]time.Duration // when a dial failed
	lis    *simrt.TCPListener
	downTo time.Duration
	OKAt   time.Duration // healthy from here on
	taken  int           // someone else publishes under the name
	Live   bool          // the last step has been played
	held   bool
}

func setupP12(w *World) {
	ups := map[int64]*upstream{}
	var order []*upstream
	var pulls [][3]string
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		if o.K != "upstep" {
			continue
		}
		u := ups[o.I]
		if u == nil {
			u = &upstream{w: w, failed: map[int]time.Duration{}, id: int(o.I), app: o.A, nm: o.N, nodeN: fmt.Sprintf("up%d", o.I)}
			u.remote = []string{u.nm, "r", "cam/1"}[w.plan.Seed>>7%3]
			u.node = w.s.Node(u.nodeN, fmt.Sprintf("10.0.0.%d", 50+o.I), true)
			ups[o.I] = u
			order = append(order, u)
			pulls = append(pulls, [3]string{fmt.Sprintf("rtmp://10.0.0.%d%s/src/%s", 50+o.I, []string{"", ":1935"}[w.plan.Seed>>9&1], u.remote), u.app, u.nm})
		}
		u.steps = append(u.steps, o)
	}
	h := w.plan.k("hls", 0)
	w.s.OnDial = func(from *simrt.Node, host string, port int) {
		if from != w.srv {
			return
		}
		for _, u := range order {
			if host == u.node.IP {
				u.dials = append(u.dials, w.now())
				w.logf("pull %d dials", u.id)
				if port != 1935 {
					w.fail("pull-request", "pull %d dials port %d", u.id, port)
				}
			}
		}
	}
	w.s.OnDialed = func(from *simrt.Node, host string, port int) {
		for _, u := range order {
			if from == w.srv && host == u.node.IP {
				u.failed[len(u.dials)-1] = w.now()
			}
		}
	}
	for _, u := range order {
		u := u
		w.s.GoOn(u.node, "upstream", u.listen)
		w.hold++
		u.held = true
		w.s.GoOn(u.node, "watch", u.watch)
		for i := range w.plan.Ops {
			o := &w.plan.Ops[i]
			if o.K == "updown" && o.I == int64(u.id) {
				u.down(o)
			}
		}
	}
	w.startServer(ServerCfg{Hls: h&1 != 0, Dash: h&2 != 0, Pulls: pulls})
	w.std()
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		if o.K == "follow" {
			w.follow(o)
		}
	}
	w.finish(2 * time.Second)
	w.done = append(w.done, func() {
		for _, u := range order {
			u.check()
		}
		w.checkLive(true)
	})
}

// follow watches a name for the whole run, again after every end.
func (w *World) follow(o *Op) {
	node := w.client(o.I)
	proto := "flv"
	if o.p("ws", 0) != 0 {
		proto = "ws"
	}
	w.actor(node, "follow", o.T, func() {
		for n := 0; n < 400 && !w.stop; n++ {
			v := w.newViewer(o, proto, o.A, o.N)
			if proto == "ws" {
				w.wsView(v, node)
			} else {
				w.flvView(v, node)
			}
			v.Ended = true
			if v.EndAt == 0 {
				v.EndAt = w.now()
				w.s.Arm()
			}
			if v.State != "notfound" {
				w.logf("%v ends: %s %s recv=%d bad=%q", v, v.State, v.EndWhy, len(v.Recv), v.Bad)
			} else if len(v.Recv) == 0 && w.viewers[len(w.viewers)-1] == v && len(w.viewers) > 60 {
				w.ok("notfound")
			}
			simrt.Sleep(time.Duration(1+o.p("gap", 100)) * time.Millisecond)
		}
	})
}

// down takes the upstream's listener away for a while.
func (u *upstream) down(o *Op) {
	w := u.w
	ms := time.Duration(o.p("downms", o.p("ms", 0))) * time.Millisecond
	if ms == 0 {
		return
	}
	w.s.Faults["upstream_down"]++
	if t := w.now() + ms; t > u.downTo {
		u.downTo = t
	}
	if u.lis != nil {
		u.lis.Close()
	}
	if o.p("take", 0) != 0 && ms >= 4*time.Second {
		// the name is free meanwhile
		w.hold++
		w.actor(w.client(int64(70+u.id)), "taker", 0, func() {
			defer func() { w.hold-- }()
			free := false
			if !w.waitUntil(ms-2500*time.Millisecond, func() bool {
				for _, c := range u.conns {
					if !c.gone() {
						return false
					}
				}
				free = true
				return true
			}) || !free {
				return
			}
			simrt.Sleep(w.procBound())
			if w.now()+1500*time.Millisecond > u.downTo || w.stop {
				return
			}
			w.s.Probe("taken")
			t := &Op{K: "pub", I: o.I + 90, P: map[string]int64{"frames": 12, "gop": 4, "fms": 40}}
			if o.p("take", 0) == 2 { // and still taken when the upstream is back
				t.P["fms"] = 250
				t.P["frames"] = int64((u.downTo-w.now())/(250*time.Millisecond)) + int64(1+simrt.Hash(w.plan.Seed, 61)%60)
				u.taken++
				defer func() {
					if u.taken--; u.OKAt > 0 && u.OKAt < w.now() {
						u.OKAt = w.now()
					}
				}()
			}
			w.hold++
			p := w.newSession(u.app, u.nm, "rtmp", opStream(t), uint64(w.sessSeq))
			w.rtmpPublish(t, p, w.client(t.I), w.rng(29, uint64(p.ID)))
			p.Ended = true
			w.hold--
		})
	}
}

func (u *upstream) listen() {
	w := u.w
	for !w.stop {
		if w.now() < u.downTo {
			simrt.Sleep(20 * time.Millisecond)
			continue
		}
		l, err := simrt.ListenTCP("tcp", &net.TCPAddr{Port: 1935})
		if err != nil {
			simrt.Sleep(20 * time.Millisecond)
			continue
		}
		u.lis = l
		if u.done == len(u.steps)-1 && u.OKAt == 0 {
			u.OKAt = w.now()
		}
		for {
			c, err := l.AcceptTCP()
			if err != nil {
				break
			}
			for _, x := range u.conns {
				if !x.gone() {
					w.fail("pull-old-open", "%v opened while %v is still open on the pull's side", w.now(), x)
				}
			}
			uc := &upConn{up: u, n: len(u.conns), At: w.now()}
			uc.rc = &RC{w: w, node: u.node, c: c, name: "up", in: map[uint32]*rstate{}, inChunk: 128, r: w.rng(25, uint64(u.id), uint64(uc.n))}
			uc.rc.out = &Chunker{size: 128, st: map[uint32]*wstate{}, r: uc.rc.r}
			uc.rc.pr = &pacedReader{w: w, c: c}
			u.conns = append(u.conns, uc)
			w.logf("upstream %d accepts connection %d", u.id, uc.n)
			w.actor(u.node, "upconn", 0, uc.run)
		}
	}
}

// watch notes when the pull closes its connections and ends the run when
// the healthy upstream has been mirrored, or should have been.
func (u *upstream) watch() {
	w := u.w
	for !w.stop {
		for _, c := range u.conns {
			if c.CloseA == 0 && c.rc.c.PeerConn().Closed() {
				c.CloseA = w.now()
				w.logf("%v closed by the pull", c)
			}
			if c.CloseA == 0 && c.told > 0 && !c.Part && !w.plan.stalls() && w.now() > c.told+w.procBound()+5*time.Second {
				c.CloseA = w.now()
				w.fail("pull-ignores", "%v: the pull has not closed it although it was told so at %v (%s)", c, c.told, c.why)
			}
			if c.CloseA == 0 && c.Quiet > 0 && !c.Part && !w.plan.stalls() && w.now() > c.Quiet+60*time.Second {
				c.CloseA = w.now()
				w.fail("pull-stale", "%v: nothing has come from the upstream since %v (%s), but the pull has not closed it", c, c.Quiet, c.why)
			}
		}
		if u.OKAt > 0 && !u.Live && u.taken == 0 && w.now() > u.OKAt+110*time.Second {
			if !w.plan.stalls() {
				w.fail("pull-stuck", "upstream %d is healthy since %v, but the pull has not come back (%d connections, %d dials)", u.id, u.OKAt, len(u.conns), len(u.dials))
			}
			u.Live = true
		}
		if u.Live && u.held {
			u.held = false
			w.hold--
		}
		simrt.Sleep(10 * time.Millisecond)
	}
}

// next: the step is over.
func (u *upstream) next() {
	u.done++
	if u.done == len(u.steps)-1 && u.w.now() >= u.downTo {
		u.OKAt = u.w.now()
	}
}

func (c *upConn) run() {
	w, rc, u := c.up.w, c.rc, c.up
	defer func() {
		if c.sess != nil {
			c.sess.Ended = true
			if c.sess.EndAt == 0 {
				c.sess.EndAt = w.now()
				w.s.Arm()
			}
		}
	}()
	c0, err := rc.full(1537)
	if err != nil {
		rc.RdDone = true
		rc.close(false)
		w.logf("%v closed before its handshake", c)
		return
	}
	if c0[0] != 3 {
		w.fail("pull-handshake", "%v: C0 is %d", c, c0[0])
	}
	for _, x := range u.conns[:c.n] {
		if x.Began && x.Quiet == 0 && x.rc.RdDone && x.CloseA == 0 {
			w.fail("pull-old-open", "%v begins although %v is open", c, x)
		}
	}
	c.Began = true
	k := u.done
	if k >= len(u.steps) {
		k = len(u.steps) - 1
	}
	o := u.steps[k]
	last := k == len(u.steps)-1
	quiet := func(why string) {
		if c.Quiet == 0 {
			c.Quiet, c.why = w.now(), why
			if c.sess != nil && c.sess.EndAt == 0 {
				c.sess.EndAt = w.now()
				w.s.Arm()
			}
			if !last {
				if o.p("downms", 0) > 0 {
					u.down(o)
				}
				u.next()
			}
			switch why {
			case "hung up", "cut", "connect rejected", "createStream rejected", "play rejected", "ended: fin", "ended: rst":
				c.told = max(c.Quiet, 1)
			}
			w.logf("%v: %s", c, why)
		}
	}
	// fault points within what is written
	if n := o.p("cutat", 0); n > 0 {
		rc.cutAt, rc.cutRst = n, o.p("cutrst", 0) != 0
		rc.OnCut = func() {
			if c.sess != nil {
				c.sess.EndKind, c.sess.Cut, c.sess.EndAt = "cut", true, w.now()
			}
			quiet("cut")
		}
	}
	if n := o.p("stallat", 0); n > 0 {
		rc.stallAt = n
		rc.OnStall = func() {
			if c.sess != nil {
				c.sess.EndKind, c.sess.Cut = "stall", true
			}
			quiet("stalled")
		}
	}
	if n := o.p("partat", 0); n > 0 {
		rc.stallAt = n
		rc.OnStall = func() {
			if c.sess != nil {
				c.sess.EndKind, c.sess.Cut = "partition", true
			}
			c.partition(o)
			quiet("partitioned")
		}
	}
	// wait for the pull to give up
	hold := func() {
		for !w.stop && !rc.RdDone {
			simrt.Sleep(50 * time.Millisecond)
		}
		rc.close(false)
	}
	mode := o.p("mode", 0)
	if mode == upHangup {
		rc.close(w.rng(26, uint64(c.n)).Bool(0.5))
		quiet("hung up")
		return
	}
	if mode == upMute {
		quiet("mute")
		w.actor(u.node, "up-rd", 0, func() { c.drain() })
		hold()
		return
	}
	// handshake
	s1 := make([]byte, 1536)
	for i := range s1 {
		s1[i] = byte(rc.r.U64())
	}
	if o.p("hs", 0)&1 != 0 {
		copy(s1[4:8], []byte{0, 0, 0, 0})
	}
	s2 := append([]byte(nil), c0[1:]...)
	if o.p("hs", 0)&2 != 0 {
		binary.BigEndian.PutUint32(s2[4:], uint32(w.now()/time.Millisecond))
	}
	v := byte(3)
	if mode == upVersion {
		v = byte(6)
	}
	bad := false
	for _, b := range [][]byte{{v}, s1, s2} {
		if rc.r.Bool(0.3) {
			simrt.Sleep(time.Duration(rc.r.Intn(30)) * time.Millisecond)
		}
		if rc.write(b) != nil {
			bad = true
			break
		}
	}
	if bad || mode == upVersion {
		quiet("handshake")
		w.actor(u.node, "up-rd", 0, func() { c.drain() })
		hold()
		return
	}
	c2, err := rc.full(1536)
	if err != nil {
		rc.RdDone = true
		quiet("left in the handshake")
		rc.close(false)
		if !w.plan.stalls() {
			w.fail("pull-handshake", "%v: left instead of sending C2", c)
		}
		return
	}
	if !bytes.Equal(c2[:4], s1[:4]) || !bytes.Equal(c2[8:], s1[8:]) {
		w.fail("pull-handshake", "%v: C2 does not echo S1", c)
	}
	w.actor(u.node, "up-rd", 0, func() {
		rc.readLoop()
		if rc.Bad != "" {
			w.fail("pull-malformed", "%v: the pull sent %s", c, rc.Bad)
		}
	})
	if mode == upGarbage {
		g := make([]byte, 50+rc.r.Intn(300))
		for i := range g {
			g[i] = byte(rc.r.U64())
		}
		g[0] = 0xc0 | byte(5+rc.r.Intn(40)) // a type-3 chunk of a stream never seen
		rc.write(g)
		quiet("garbage")
		hold()
		return
	}
	if mode == upTrickle {
		quiet("trickles")
		for !w.stop && !rc.RdDone {
			b := []byte{0, 6, 1, 2, 3, 4}
			if rc.write(rc.out.one(&outMsg{typ: 4, csid: 2, body: b})) != nil {
				break
			}
			simrt.Sleep(3 * time.Second)
		}
		hold()
		return
	}
	rc.out.compress = int(o.p("comp", 1))
	rc.out.wide = o.p("wide", 0) != 0
	say := func(vs ...any) { rc.cmd(vs...) }
	want := func(name string) *reply {
		x := rc.waitReply(60*time.Second, func(r *reply) bool { return r.Name == name })
		if x == nil && !rc.RdDone && !rc.closed && !w.stop && !w.plan.stalls() && !bad && !rc.stalled {
			w.fail("pull-request", "%v: the pull never sent %s", c, name)
		}
		return x
	}
	over := func() bool {
		if rc.closed || rc.stalled || rc.RdDone || w.stop {
			if rc.RdDone && c.Quiet == 0 && !w.plan.stalls() && !w.stop && !rc.closed && !rc.stalled {
				w.fail("pull-left", "%v: the pull left a healthy upstream (%v)", c, rc.RdErr)
			}
			quiet("over")
			hold()
			return true
		}
		return false
	}
	x := want("connect")
	if x == nil {
		over()
		return
	}
	obj, _ := x.Args[0].(map[string]any)
	if obj["app"] != "src" || (obj["tcUrl"] != "rtmp://"+u.node.IP+"/src" && obj["tcUrl"] != "rtmp://"+u.node.IP+":1935/src") {
		w.fail("pull-request", "%v: connect with app %v and tcUrl %v", c, obj["app"], obj["tcUrl"])
	}
	talk := o.p("talk", 0)
	status := func(code, level string) map[string]any {
		return map[string]any{"level": level, "code": code, "description": "x"}
	}
	if mode == upConnErr {
		say("_error", x.Txn, nil, status("NetConnection.Connect.Rejected", "error"))
		quiet("connect rejected")
		hold()
		return
	}
	u32 := func(n uint32) []byte { return binary.BigEndian.AppendUint32(nil, n) }
	if talk&1 != 0 {
		rc.write(rc.out.one(&outMsg{typ: 5, csid: 2, body: u32(2500000)}))
		rc.write(rc.out.one(&outMsg{typ: 6, csid: 2, body: append(u32(2500000), 2)}))
	}
	if talk&2 != 0 {
		rc.write(rc.out.one(rc.out.setSize([]int{60, 128, 1000, 4096, 60000}[rc.r.Intn(5)])))
	}
	if talk&4 != 0 {
		rc.write(rc.out.one(&outMsg{typ: 4, csid: 2, body: []byte{0, 0, 0, 0, 0, 0}}))
		say("onBWDone", 0.0, nil, 8192.0)
	}
	if n := o.p("win", 0); n > 0 {
		rc.write(rc.out.one(&outMsg{typ: 5, csid: 2, body: u32(uint32(n))}))
	}
	say("_result", x.Txn, map[string]any{"fmsVer": "FMS/3,5,7,7009", "capabilities": 31.0, "mode": 1.0},
		map[string]any{"level": "status", "code": "NetConnection.Connect.Success", "description": "ok", "objectEncoding": 0.0})
	if over() {
		return
	}
	if x = want("createStream"); x == nil {
		over()
		return
	}
	if mode == upCreErr {
		say("_error", x.Txn, nil, status("NetConnection.Call.Failed", "error"))
		quiet("createStream rejected")
		hold()
		return
	}
	say("_result", x.Txn, nil, 1.0)
	if over() {
		return
	}
	if x = want("play"); x == nil {
		over()
		return
	}
	if len(x.Args) < 2 || x.Args[1] != u.remote {
		w.fail("pull-request", "%v: play with %v, want %q", c, x.Args, u.remote)
	}
	if mode == upPlayErr {
		say("onStatus", 0.0, nil, status("NetStream.Play.StreamNotFound", "error"))
		quiet("play rejected")
		hold()
		return
	}
	if talk&8 != 0 {
		rc.write(rc.out.one(&outMsg{typ: 4, csid: 2, body: []byte{0, 0, 0, 0, 0, 1}}))
		say("onStatus", 0.0, nil, status("NetStream.Play.Reset", "status"))
	}
	say("onStatus", 0.0, nil, status("NetStream.Play.Start", "status"))
	if talk&16 != 0 {
		say("onStatus", 0.0, nil, status("NetStream.Data.Start", "status"))
	}
	if over() {
		return
	}
	p := w.newSession(u.app, u.nm, "pull", opStream(o), uint64(o.I))
	p.State, p.ReqAt, p.AckAt, p.RC, p.Win = "accepted", c.At, w.now(), rc, uint32(o.p("win", 0))
	c.sess = p
	w.logf("%v: session %d", c, p.ID)
	if n := o.p("wait", 0); n > 0 {
		simrt.Sleep(time.Duration(n) * time.Millisecond)
	}
	w.sendTags(o, p, rc, rc.r)
	if p.AckStall {
		w.fail("pull-ack", "%v: window %d used up and not acknowledged", c, p.Win)
	}
	if n := o.p("linger", 0); n > 0 {
		simrt.Sleep(time.Duration(n) * time.Millisecond)
	}
	w.logf("%v: session %d sent %d/%d", c, p.ID, p.Sent, len(p.Tags))
	if p.EndKind != "" { // cut, stalled or partitioned
		hold()
		return
	}
	if !p.SentAll && !w.stop && !w.plan.stalls() {
		w.fail("pull-left", "%v: the pull left a healthy upstream (%v; %s)", c, rc.RdErr, p.Err)
	}
	switch o.p("end", 0) {
	case endFin:
		p.EndKind, p.EndAt = "fin", w.now()
		w.pubClose(rc, true)
		if w.stop { // the end of the run: closed before all was read
			p.EndKind = "rst"
		}
	case endRst:
		p.EndKind, p.EndAt = "rst", w.now()
		rc.close(true)
	case endSilent:
		p.EndKind = "silent"
	case endCutNet:
		p.EndKind = "partition"
		c.partition(o)
	case endPoison:
		p.EndKind = "poison"
		rc.write(rc.out.one(&outMsg{typ: 1, csid: 2, body: []byte{0, 0, 0, 0}}))
	}
	if last {
		u.Live = true
	}
	quiet("ended: " + p.EndKind)
	hold()
}

// drain reads without looking.
func (c *upConn) drain() {
	defer func() { c.rc.RdDone = true }()
	b := make([]byte, 4096)
	for {
		if _, err := c.rc.c.Read(b); err != nil {
			return
		}
	}
}

func (c *upConn) partition(o *Op) {
	w, u := c.up.w, c.up
	w.s.Faults["partition"]++
	w.held = true
	w.s.Partition(u.nodeN, w.srv.Name, true)
	c.Part = true
	d := time.Duration(o.p("partms", 1000)) * time.Millisecond
	if t := w.now() + d; t > u.downTo {
		u.downTo = t // nobody gets through
	}
	w.s.After(d, func() {
		w.s.Partition(u.nodeN, w.srv.Name, false)
		if c.Quiet > 0 {
			c.Quiet = w.now()
		}
		c.Part = false
		if u.done >= len(u.steps)-1 && u.OKAt < w.now() {
			u.OKAt = w.now()
		}
	})
}

// check looks at the times of the pull's attempts.
func (u *upstream) check() {
	w := u.w
	if w.plan.stalls() {
		return
	}
	conn := map[int]*upConn{} // by the dial that opened it
	for _, c := range u.conns {
		k := -1
		for i, d := range u.dials {
			if d <= c.At {
				k = i
			}
		}
		if k >= 0 {
			conn[k] = c
		}
	}
	const slack = 250 * time.Millisecond
	if len(u.dials) == 0 {
		w.fail("pull-stuck", "pull %d never dialled", u.id)
		return
	}
	var prev time.Duration
	fails := 0
	for i := 0; i+1 < len(u.dials); i++ {
		c := conn[i]
		from, ok := u.failed[i]
		if c != nil && c.CloseA > 0 {
			from, ok = c.CloseA, true
		}
		if !ok {
			continue
		}
		to := from
		next := u.dials[i+1]
		if next < from+time.Second-50*time.Millisecond {
			w.fail("pull-delay", "pull %d dialled at %v, only %v after the failure at %v", u.id, next, next-from, from)
			return
		}
		if next > to+30*time.Second+slack {
			w.fail("pull-delay", "pull %d dialled at %v, %v after the failure at %v", u.id, next, next-to, to)
			return
		}
		w.ok("delays")
		if c != nil && c.sess != nil {
			prev, fails = 0, 0
			continue
		}
		fails++
		if i == 0 && next-from > 2*time.Second+slack {
			w.fail("pull-delay", "pull %d: first retry at %v, %v after the failure", u.id, next, next-from)
			return
		}
		if d := next - from; d < prev-slack {
			w.fail("pull-delay", "pull %d: delay %v after %d failures, %v before", u.id, d, fails, prev)
			return
		} else {
			prev = d
		}
		if fails >= 7 && prev < 5*time.Second {
			w.fail("pull-delay", "pull %d: delay of only %v after %d failures in a row", u.id, prev, fails)
			return
		}
	}
}
