package main

import (
	"fmt"
	"strings"
	"time"

	"verif/simrt"
)

func init() {
	scenarios["P04"] = &Scenario{Gen: genP04, Setup: setupP04}
}

func genP04(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	p.Net.Window = 256 << 10
	p.K["hls"] = int64(r.Pick(1, 2, 1, 4))
	p.K["delay"] = 0
	p.K["horizon"] = 1500
	if p.K["hls"]&1 != 0 && r.Bool(0.25) {
		p.K["delay"] = 1
	}
	if r.Bool(0.35) {
		churnP04(r, p)
		return
	}
	n := 1 + r.Intn(3)
	at := int64(0)
	protos := []string{"rtmp", "flv", "ws"}
	mixed := r.Bool(0.4) // publishers of every protocol
	if mixed {
		p.K["mixed"] = 1
		protos = append(protos, "rtsp")
	}
	for g := 0; g < n; g++ {
		P := map[string]int64{}
		if r.Bool(0.6) {
			segKnobs(r, P)
			delete(P, "hchg")
			P["frames"] = (2000 + int64(r.Intn(5000))) / P["fms"]
			P["body"] = pick64(r, 60, 200, 600)
		} else {
			streamKnobs(r, P)
			P["frames"] = 3 + int64(r.Intn(40))
			P["fms"] = pick64(r, 10, 33, 100)
			P["body"] = 400
		}
		delete(P, "burst")
		delete(P, "hchg")
		if r.Bool(0.1) {
			P["burst"] = 1
		}
		P["cs"] = pick64(r, 0, 128, 4096)
		P["wait"] = pick64(r, 0, 0, 100)
		P["linger"] = pick64(r, 0, 0, 100, 600)
		P["end"] = pick64(r, 0, 0, 1, 1, 2, 5)
		switch r.Pick(4, 3, 2, 2) {
		case 1:
			P["cut"] = 1 + int64(r.Intn(20000))
		case 2: // anywhere from the first byte
			P["hcut"] = 1 + int64(r.Intn(4200))
			if r.Bool(0.5) {
				P["hcut"] = 3000 + int64(r.Intn(1500))
			}
		case 3:
			P["poison"] = 1 + int64(r.Intn(3))
		}
		P["probe"] = int64(r.Intn(2))
		if mixed {
			switch P["proto"] = int64(r.Pick(1, 2, 2)); P["proto"] {
			case 1:
				rtspPubKnobs(r, P)
				delete(P, "cut")
				delete(P, "poison")
				delete(P, "burst")
				if r.Bool(0.3) {
					P["cut"] = 1 + int64(r.Intn(20000))
				}
				if r.Bool(0.1) {
					P["idle"] = 1
				}
			case 2:
				srtPubKnobs(r, P)
				delete(P, "cut")
				delete(P, "burst")
				delete(P, "pausems")
				if r.Bool(0.3) {
					P["cut"] = 1 + int64(r.Intn(60))
				}
			}
		}
		gap := pick64(r, 0, 0, 1, 10, 60, 300, 1500) * 1000
		p.Ops = append(p.Ops, Op{K: "gen", I: int64(1 + g), A: "live", N: "s", T: gap, P: P})
		if p.K["hls"] > 0 {
			for i := 0; i < r.Intn(3); i++ {
				Q := map[string]int64{"gen": int64(g), "every": pick64(r, 50, 200, 500)}
				if r.Bool(0.3) {
					Q["slow"] = pick64(r, 1, 10)
				}
				k := []string{"hls", "dash"}[r.Intn(2)]
				if p.K["hls"]&2 == 0 {
					k = "hls"
				}
				p.Ops = append(p.Ops, Op{K: k, I: int64(100 + 10*g + i), A: "live", N: "s", T: int64(r.Intn(2500)) * 1000, P: Q})
			}
		}
		dur := (P["frames"]*P["fms"] + 300) * 1000
		for i := 0; i < r.Intn(3); i++ {
			o := Op{K: protos[r.Intn(len(protos))], I: int64(30 + 5*g + i), A: "live", N: "s", T: at + gap + int64(r.Intn(int(dur))), P: map[string]int64{}}
			if o.K == "rtsp" {
				rtspKnobs(r, o.P)
			}
			switch r.Intn(8) {
			case 0:
				o.P["quit"] = o.T + int64(r.Intn(1500))*1000
				o.P["qrst"] = int64(r.Intn(2))
			case 1:
				o.P["vwin"] = pick64(r, 1024, 4096)
				o.P["rate"] = pick64(r, 1, 5)
			}
			p.Ops = append(p.Ops, o)
		}
		at += gap + dur
	}
	if r.Bool(0.6) { // a neighbour that must not be touched by any of it
		P := map[string]int64{"frames": 20 + int64(r.Intn(60)), "fms": 100, "gop": pick64(r, 5, 10, 30), "hdr": int64(r.Intn(6)), "wait": 100}
		nm := [][2]string{{"live", "s2"}, {"live", "s-0"}, {"tv", "s"}}[r.Intn(3)]
		if nm[0] == "tv" && r.Bool(0.5) {
			p.K["tvdir"] = 1
		}
		p.Ops = append(p.Ops, Op{K: "pub", I: 20, A: nm[0], N: nm[1], P: P},
			Op{K: liveProtos[r.Intn(3)], I: 60, A: nm[0], N: nm[1], T: int64(60+r.Intn(2000)) * 1000, P: map[string]int64{}})
		if p.K["hls"] > 0 {
			p.Ops = append(p.Ops, Op{K: "hls", I: 61, A: nm[0], N: nm[1], T: 100000, P: map[string]int64{"every": 300}})
		}
	}
}

// churnP04: a name that changes hands quickly, many times over.
func churnP04(r *simrt.Rand, p *Plan) {
	p.K["churn"] = 1
	if r.Bool(0.7) {
		p.Net.LatMin, p.Net.LatMax = 0, 100*time.Microsecond
	}
	if r.Bool(0.8) {
		p.K["hls"] = int64(1 + 2*r.Intn(2))
	}
	if p.Sched.StallP == 0 && !p.NoFault && r.Bool(0.8) {
		p.Sched.Few = 3 + r.Intn(10)
		p.Sched.ArmP = []float64{0.1, 0.3, 1}[r.Intn(3)]
		p.Sched.ArmSync = []float64{0.02, 0.05, 0.2}[r.Intn(3)]
		p.Sched.ArmGap = []int64{0, 0, 0, 100}[r.Intn(4)]
		p.Sched.StallMax = []int64{int64(20 * time.Millisecond), int64(60 * time.Millisecond)}[r.Intn(2)]
	}
	n := 4 + r.Intn(8)
	for g := 0; g < n; g++ {
		P := map[string]int64{"frames": 4 + int64(r.Intn(12)), "fms": pick64(r, 10, 40), "gop": pick64(r, 2, 4), "body": 60, "ams": pick64(r, 0, 23), "cs": 4096,
			"end": pick64(r, 0, 0, 1, 2, 5), "linger": pick64(r, 0, 0, 20), "hdr": 1}
		if r.Bool(0.8) {
			P["stay"] = 1
			P["linger"] = 500 + p.fewBound().Milliseconds() + (p.Net.LatMax * 20).Milliseconds()
		}
		p.Ops = append(p.Ops, Op{K: "gen", I: int64(1 + g), A: "live", N: "s", T: pick64(r, 0, 0, 0, 1, 5) * 1000, P: P})
	}
	for i := 0; i < r.Intn(3); i++ {
		p.Ops = append(p.Ops, Op{K: liveProtos[r.Intn(3)], I: int64(30 + i), A: "live", N: "s", T: int64(r.Intn(2_000_000)), P: map[string]int64{}})
	}
}

type teardown struct {
	w    *World
	gens [][]*Session // attempts per generation
	hls  []*hlsObs
	dash []*dashObs
	base []string
	conn int
	open int
	udp  int
	B    time.Duration
}

// bound is when everything of an ended session must be gone.
func (td *teardown) bound(p *Session) time.Duration {
	if p.SRT == nil {
		return p.EndAt + td.B
	}
	return p.endsBy() + td.B
}

// taken says whether p has the name, as far as can be told: an SRT caller is
// only told that it has not.
func (td *teardown) taken(p *Session) bool {
	if p.State != "accepted" {
		return false
	}
	return p.SRT == nil || p.SRT.n > 0 && td.w.now() > p.SRT.data0+td.B
}

func setupP04(w *World) {
	h := w.plan.k("hls", 0)
	c := ServerCfg{Hls: h > 0, Dash: h&2 != 0, Delay: w.plan.k("delay", 0) != 0}
	if w.plan.k("mixed", 0) != 0 {
		c.Rtsp, c.Srt, c.SrtApp, c.SrtStream = true, true, "live", "s"
	}
	if w.plan.k("tvdir", 0) != 0 {
		c.Dirs = map[string]string{"tv": "/srv/tv"}
	}
	w.startServer(c)
	td := &teardown{w: w, B: w.procBound() + 500*time.Millisecond}
	if w.plan.stalls() {
		td.B += 120 * time.Second
	}
	var gens []*Op
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		switch {
		case o.K == "gen":
			gens = append(gens, o)
		case (o.K == "hls" || o.K == "dash") && o.P["gen"] >= 0 && o.N == "s" && o.A == "live":
			td.player(o)
		case o.K == "hls":
			w.runHLS(o, o.A, o.N)
		case o.K == "pub":
			w.runPub(o, o.A, o.N)
		case o.K == "rtmp" || o.K == "flv" || o.K == "ws" || o.K == "rtsp":
			w.runView(o, o.K, o.A, o.N)
		}
	}
	td.gens = make([][]*Session, len(gens))
	w.hold++
	w.actor(w.s.Node("director", "10.9.9.9", true), "baseline", 0, func() {
		// taken when the server is up and idle; every actor waits for up
		// as well, so nothing has been dialled yet
		td.base = w.s.TaskNames(w.srv)
		td.conn, td.open, td.udp = w.srv.OpenConns(), w.srv.FS.Open, len(w.srv.OpenUDP())
	})
	w.actor(w.client(1), "encoder", 5000, func() {
		defer func() { w.hold-- }()
		var last *Session
		for g, o := range gens {
			if w.stop || len(w.viols) > 0 {
				return
			}
			simrt.Sleep(time.Duration(o.T) * time.Microsecond)
			last = td.publish(g, o, last)
			if o.p("probe", 0) != 0 && last != nil {
				td.released(o, last)
			}
		}
	})
	w.s.GoOn(w.s.Node("director", "10.9.9.9", true), "director", func() {
		w.waitUntil(300*time.Second, func() bool {
			for _, p := range w.pubs {
				if !p.Ended {
					return false
				}
			}
			return w.hold == 0
		})
		w.sleep(td.B)
		for _, p := range w.pubs {
			if p.SRT != nil { // noticed when nothing comes any more
				w.sleep(td.bound(p) - w.now())
			}
		}
		w.stop = true
		w.StopAt = w.now()
		w.s.Calm()
		w.waitUntil(700*time.Second, func() bool { return w.alive == 0 })
		if len(w.viols) == 0 && len(w.s.Crashes) == 0 {
			td.baseline()
		}
		w.s.Stop("done")
	})
	w.done = append(w.done, td.check)
}

// publish runs one generation: it keeps trying until the name is free.
func (td *teardown) publish(g int, o *Op, last *Session) *Session {
	w := td.w
	if o.p("stay", 0) != 0 {
		w.actor(w.client(800+o.I), fmt.Sprintf("served%d", g), 0, func() { td.served(g) })
	}
	node := w.client(o.I)
	r := w.rng(9, uint64(o.I))
	for n := 0; ; n++ {
		var p *Session
		run := func() { w.rtmpPublish(o, p, node, r) }
		switch o.p("proto", 0) {
		case 1:
			p, run = w.newRTSPPub(o, o.A, o.N)
		case 2:
			p, run = w.newSRTPub(o, o.A, o.N)
		default:
			p = w.newSession(o.A, o.N, "rtmp", opStream(o), uint64(o.I))
		}
		td.gens[g] = append(td.gens[g], p)
		run()
		p.Ended = true
		if p.EndAt == 0 {
			p.EndAt = w.now()
			w.s.Arm()
		}
		w.logf("gen %d: session %d %s %s err=%q tags=%d/%d", g, p.ID, p.State, p.EndKind, p.Err, len(p.Pub), len(p.Tags))
		switch {
		case p.State == "accepted":
			w.ok("generations")
			return p
		case p.Cut:
			return p
		case p.State == "refused":
			w.s.Probe("republish-refused")
			if last == nil {
				w.fail("refused-free-name", "session %d was refused %s/%s at %v, which nobody has published", p.ID, p.App, p.Nm, p.AckAt)
				return nil
			}
			if p.ReqAt > td.bound(last) {
				w.fail("name-held", "session %d was refused %s/%s at %v; its last publisher, session %d, ended (%s) at %v", p.ID, p.App, p.Nm, p.AckAt, last.ID, last.EndKind, last.EndAt)
				return nil
			}
			if w.plan.k("churn", 0) != 0 {
				simrt.Sleep(time.Duration(500+r.Intn(8000)) * time.Microsecond)
				continue
			}
			simrt.Sleep(time.Duration(5+r.Intn(60)) * time.Millisecond)
		default:
			w.fail("publish-failed", "session %d publishing %s/%s was not accepted: %s %s", p.ID, p.App, p.Nm, p.State, p.Err)
			return nil
		}
	}
}

// served checks that generation g gets its segmenters, like the first.
func (td *teardown) served(g int) {
	w := td.w
	var p *Session
	var k *Tag
	w.waitUntil(100*time.Second, func() bool {
		if l := td.gens[g]; len(l) > 0 && l[len(l)-1].State == "accepted" {
			p = l[len(l)-1]
			for _, t := range p.Pub {
				if t.Kind == kKey && t.Sent {
					k = t
				}
			}
		}
		return k != nil || p != nil && p.EndAt > 0 || w.stop
	})
	if k == nil || p.EndAt > 0 || w.stop {
		return
	}
	miss := ""
	ok := w.waitUntil(w.procBound()+300*time.Millisecond, func() bool {
		have := map[bool]bool{}
		for _, f := range td.leftovers() {
			if strings.HasSuffix(f, ".ts") {
				have[false] = true
			} else if strings.HasSuffix(f, "/s-init.mp4") {
				have[true] = true
			}
		}
		miss = ""
		if w.plan.k("hls", 0)&1 != 0 && w.plan.k("delay", 0) == 0 && !have[false] {
			miss = "HLS"
		} else if w.plan.k("hls", 0)&2 != 0 && !have[true] {
			miss = "DASH"
		}
		return miss == "" || p.EndAt > 0 || w.stop
	})
	if !ok {
		w.fail("not-served", "session %d publishes %s/%s since %v; at %v there is no %s of it although key frame %v was sent at %v", p.ID, p.App, p.Nm, p.AckAt, w.now(), miss, k, k.SentAt)
	}
	if p.EndAt == 0 {
		w.ok("generation-served")
	}
}

// leftovers lists the files of stream s.
func (td *teardown) leftovers() (l []string) {
	for _, f := range td.w.srv.FS.List() {
		i := strings.LastIndexByte(f, '/')
		b := f[i+1:]
		if !strings.HasPrefix(b, "s-") || strings.HasPrefix(b, "s-0-") || strings.Contains(f, "/tv/") {
			continue
		}
		l = append(l, f)
	}
	return
}

// released checks that nothing of an ended session is left, while nobody
// publishes the name.
func (td *teardown) released(o *Op, p *Session) {
	w := td.w
	node := w.client(900 + o.I)
	why := ""
	ok := w.waitUntil(td.bound(p)-w.now(), func() bool {
		why = ""
		if l := td.leftovers(); len(l) > 0 {
			why = fmt.Sprintf("files remain: %v", l)
			return false
		}
		get := func(port int, path string) bool {
			r, _, err := w.httpGet(node, port, path, "", 2*time.Second)
			if err != nil && r == nil {
				why = fmt.Sprintf("GET %s: %v", path, err)
			} else if r.Status != 404 {
				why = fmt.Sprintf("GET %s answers %d", path, r.Status)
			}
			return why == ""
		}
		if !get(portFLV, "/live/s.flv") {
			return false
		}
		if w.plan.k("hls", 0) > 0 && (!get(portHLS, "/live/s/index.m3u8") || !get(portHLS, "/live/s/s-0.ts")) {
			return false
		}
		if w.plan.k("hls", 0)&2 != 0 && (!get(portHLS, "/live/s/index.mpd") || !get(portHLS, "/live/s/s-init.mp4")) {
			return false
		}
		v := w.runView(&Op{K: "rtmp", I: 950 + o.I, P: map[string]int64{"harmed": 1}}, "rtmp", "live", "s")
		w.waitUntil(10*time.Second, func() bool { return v.State != "" })
		if v.State != "notfound" {
			why = fmt.Sprintf("an RTMP player was answered %q %s", v.State, v.EndWhy)
		}
		return why == ""
	})
	if !ok && len(w.s.Crashes) == 0 {
		w.fail("not-released", "session %d of %s/%s ended (%s) at %v; at %v %s", p.ID, p.App, p.Nm, p.EndKind, p.EndAt, w.now(), why)
	}
	w.ok("released")
}

// player watches one generation over HLS or DASH.
func (td *teardown) player(o *Op) {
	w := td.w
	g := int(o.p("gen", 0))
	w.actor(w.client(o.I), fmt.Sprintf("await%d", o.I), o.T, func() {
		var p *Session
		w.waitUntil(200*time.Second, func() bool {
			if g < len(td.gens) {
				for _, q := range td.gens[g] {
					if td.taken(q) {
						p = q
					}
				}
			}
			return p != nil || w.stop
		})
		if p == nil || p.EndAt > 0 || w.stop {
			return
		}
		if o.K == "hls" {
			for _, h := range td.hls {
				if h.Sess == p {
					w.playHLS(o, h)
					return
				}
			}
			h := &hlsObs{App: o.A, Nm: o.N, Sess: p}
			td.hls = append(td.hls, h)
			w.playHLS(o, h)
			return
		}
		for _, h := range td.dash {
			if h.Sess == p {
				w.playDASH(o, h)
				return
			}
		}
		h := &dashObs{App: o.A, Nm: o.N, Sess: p}
		td.dash = append(td.dash, h)
		w.playDASH(o, h)
	})
}

// baseline: once every publisher and client is gone, the server is back to
// what it was before the first.
func (td *teardown) baseline() {
	w := td.w
	var extra []string
	var l []string
	ok := w.waitUntil(td.B, func() bool {
		have := map[string]int{}
		for _, n := range td.base {
			have[n]++
		}
		extra = nil
		for _, n := range w.s.TaskNames(w.srv) {
			if have[n]--; have[n] < 0 {
				extra = append(extra, n)
			}
		}
		l = nil
		for _, f := range w.srv.FS.List() {
			l = append(l, f)
		}
		return len(extra) == 0 && w.srv.OpenConns() <= td.conn && w.srv.FS.Open <= td.open && len(w.srv.OpenUDP()) <= td.udp && len(l) == 0
	})
	w.ok("baseline")
	if !ok {
		w.fail("leak", "%v after every publisher and client had gone the server still has: tasks %v, %d connections (%d when idle), %d open files (%d when idle), %d UDP sockets (%d when idle), files %v",
			td.B, extra, w.srv.OpenConns(), td.conn, w.srv.FS.Open, td.open, len(w.srv.OpenUDP()), td.udp, l)
	}
}

func (td *teardown) check() {
	w := td.w
	for _, p := range w.pubs {
		p.udpGuaranteed()
		if p.Proto == "rtmp" && p.Nm != "s" || p.App != "live" {
			w.mustAccept(p)
		}
	}
	for _, v := range w.viewers {
		free := !v.Harmed && !v.Quit && !w.plan.stalls()
		if v.State == "error" && free {
			w.fail(v.Proto+"-join-failed", "%v could not join: %s %s", v, v.EndWhy, v.Bad)
		}
		w.checkSplit(v, recvOpts{Start: !w.plan.stalls(), D: w.procBound()})
		if !free || len(w.viols) > 0 {
			continue
		}
		for i := range v.Recv {
			rt := &v.Recv[i]
			p, t := rt.P, rt.F
			if t == nil {
				p, t = w.identify(rt.B, rt.T)
			}
			if p == nil || !p.Ended {
				continue
			}
			if rt.At > td.bound(p) {
				w.fail("late-media", "%v received %v of session %d at %v, which ended (%s) at %v", v, t, p.ID, rt.At, p.EndKind, p.EndAt)
				return
			}
			if v.Proto != "rtmp" && v.Proto != "rtsp" && v.EndAt > td.bound(p) {
				w.fail("viewer-kept", "%v was attached to session %d, which ended (%s) at %v; its own stream ended (%s) at %v", v, p.ID, p.EndKind, p.EndAt, v.EndWhy, v.EndAt)
				return
			}
			w.ok("viewer-released")
		}
	}
	for _, h := range td.hls {
		if len(w.viols) == 0 {
			w.checkHLS(h, h.Sess, hlsOpts{Strict: !h.Sess.SP.Burst && !w.plan.stalls(), First: w.plan.k("delay", 0) == 0, D: w.procBound()})
		}
	}
	for _, h := range td.dash {
		if len(w.viols) == 0 {
			w.checkDASH(h, h.Sess, hlsOpts{Strict: !h.Sess.SP.Burst && !w.plan.stalls(), First: true, D: w.procBound()})
		}
	}
	w.checkAllHLS()
}
