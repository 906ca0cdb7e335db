package main

import (
	"fmt"
	"time"

	"verif/simrt"
)

func init() {
	scenarios["P09"] = &Scenario{Gen: genP09, Setup: setupP09}
}

// rtspKnobs draws how an RTSP player behaves.
func rtspKnobs(r *simrt.Rand, P map[string]int64) {
	P["udp"] = pick64(r, 0, 0, 0, 1, 1, 2, 3)
	P["order"] = int64(r.Intn(2))
	P["only"] = pick64(r, 0, 0, 0, 0, 1, 2)
	P["opt"] = int64(r.Intn(2))
	switch r.Intn(4) {
	case 0:
		P["vch"], P["ach"] = 2, 0
	case 1:
		P["vch"], P["ach"] = 4, 254
	}
	P["seg"] = pick64(r, -1, -1, 1, 2, 7)
	if r.Bool(0.6) {
		P["ka"] = pick64(r, 2, 20, 100, 400)
		P["pipe"] = pick64(r, 0, 0, 3)
		P["rtcp"] = int64(r.Intn(2))
	}
	P["retry"] = 1
	P["resetup"] = pick64(r, 0, 0, 0, 1)
}

func genP09(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	p.K["horizon"] = 1500
	P := map[string]int64{"wait": int64(r.Intn(3)) * 50, "linger": pick64(r, 0, 0, 20, 300)}
	streamKnobs(r, P)
	delete(P, "video")
	delete(P, "hchg")
	P["body"] = pick64(r, 100, 1401, 1500, 3000, 9000)
	P["inband"] = pick64(r, 0, 0, 1)
	P["rich"] = int64(r.Intn(2))
	P["eos"] = int64(r.Intn(2))
	P["negcts"] = pick64(r, 0, 0, 1)
	P["tiny"] = pick64(r, 0, 0, 0, 1)
	P["biga"] = pick64(r, 0, 0, 0, 1)
	if P["hevc"] != 0 {
		delete(P, "tiny")
	}
	P["base"] = pick64(r, 0, 0, 1000, 0xfffff0, 0xfffffe00, 47721000)
	if r.Bool(0.1) {
		P["burst"] = 1
		P["burstms"] = 1
	}
	P["cs"] = pick64(r, 0, 128, 4096, 65536)
	P["end"] = pick64(r, 0, 0, 0, 1, 2)
	p.Ops = append(p.Ops, Op{K: "pub", I: 1, A: "live", N: "s", P: P})
	ms := P["wait"] + streamMs(P)
	if P["burst"] != 0 {
		ms = 60
	}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		o := Op{K: "rtsp", I: int64(10 + i), A: "live", N: "s", T: int64(r.Intn(int(ms+1))*1000 + r.Intn(1000)), P: map[string]int64{}}
		rtspKnobs(r, o.P)
		if r.Bool(0.3) {
			o.P["tear"] = 1 + int64(r.Intn(int(ms+1)))
		}
		if !p.NoFault {
			switch r.Pick(5, 2, 2, 1, 1) {
			case 1:
				o.P["rate"] = 1 + int64(r.Intn(60))
				o.P["vwin"] = pick64(r, 2048, 8192, 65536)
			case 2:
				o.P["stall"] = 1 + int64(r.Intn(20000))
				o.P["stallms"] = int64(10 + r.Intn(1500))
				o.P["vwin"] = pick64(r, 2048, 8192, 65536)
			case 3:
				o.P["rst"] = 1 + int64(r.Intn(30000))
			case 4:
				o.P["quit"] = o.T + 1 + int64(r.Intn(int(ms+1)))*1000
				o.P["qrst"] = int64(r.Intn(2))
			}
		}
		p.Ops = append(p.Ops, o)
	}
	if !p.NoFault && r.Bool(0.2) {
		p.Net.UDPBusy = 2 + r.Intn(3)
	}
	if !p.NoFault && r.Bool(0.25) {
		p.K["lossy"] = 1
		p.Net.UDPExtra = 20 * time.Millisecond
		p.Net.UDPLoss = []float64{0, 0.01, 0.1}[r.Intn(3)]
		p.Net.UDPDup = []float64{0, 0.05}[r.Intn(2)]
		p.Net.UDPReorder = []float64{0, 0.05}[r.Intn(2)]
	}
	if r.Bool(0.3) {
		p.Ops = append(p.Ops, Op{K: liveProtos[r.Intn(3)], I: 40, A: "live", N: "s", T: int64(30000 + r.Intn(int(ms+1))*1000), P: map[string]int64{}})
	}
}

// idle is what the server holds before any client comes.
type idle struct {
	tasks      []string
	conn, open int
	udp        []int
}

func (w *World) idleState() idle {
	return idle{w.s.TaskNames(w.srv), w.srv.OpenConns(), w.srv.FS.Open, w.srv.OpenUDP()}
}

// extra names what the server holds beyond that.
func (w *World) extra(b idle) string {
	have := map[string]int{}
	for _, n := range b.tasks {
		have[n]++
	}
	var tasks []string
	for _, n := range w.s.TaskNames(w.srv) {
		if have[n]--; have[n] < 0 {
			tasks = append(tasks, n)
		}
	}
	files := w.srv.FS.List()
	if len(tasks) == 0 && w.srv.OpenConns() <= b.conn && w.srv.FS.Open <= b.open && len(files) == 0 && len(w.srv.OpenUDP()) <= len(b.udp) {
		return ""
	}
	return fmt.Sprintf("tasks %v, %d connections (%d when idle), %d open files (%d when idle), UDP ports %v (%v when idle), files %v",
		tasks, w.srv.OpenConns(), b.conn, w.srv.FS.Open, b.open, w.srv.OpenUDP(), b.udp, files)
}

// finishClean ends the run like finish, and then checks that the server
// holds nothing any more.
func (w *World) finishClean(settle, bound time.Duration) {
	var base idle
	w.hold++
	w.actor(w.s.Node("director", "10.9.9.9", true), "baseline", 0, func() { base = w.idleState(); w.hold-- })
	w.s.GoOn(w.s.Node("director", "10.9.9.9", true), "director", func() {
		w.waitUntil(time.Duration(w.plan.k("maxrun", 300))*time.Second, func() bool {
			for _, p := range w.pubs {
				if !p.Ended && p.EndKind != "held" {
					return false
				}
			}
			return w.hold == 0
		})
		w.sleep(settle)
		w.quit()
		if w.waitUntil(700*time.Second, func() bool { return w.alive == 0 }) && len(w.viols) == 0 && len(w.s.Crashes) == 0 {
			why := ""
			w.waitUntil(bound, func() bool { why = w.extra(base); return why == "" })
			w.ok("baseline")
			if why != "" {
				for _, l := range w.s.TaskStates(w.srv) {
					w.logf("%s", l)
				}
				w.fail("leak", "%v after every publisher and client had gone the server still holds: %s", bound, why)
			}
		}
		w.s.Stop("done")
	})
}

func setupP09(w *World) {
	w.startServer(ServerCfg{Rtsp: true})
	w.std()
	for _, v := range w.viewers {
		if w.plan.k("lossy", 0) != 0 && v.Proto == "rtsp" && v.Op.p("udp", 0) != 0 {
			v.Lossy, v.Harmed = true, true
		}
	}
	b := w.procBound() + 500*time.Millisecond
	if w.plan.stalls() {
		b += 120 * time.Second
	}
	w.finishClean(700*time.Millisecond, b)
	w.done = append(w.done, func() { w.checkLive(true) })
}
