package main

import (
	"time"

	"verif/simrt"
)

func init() {
	scenarios["P08"] = &Scenario{Gen: genP08, Setup: setupP08}
}

func genP08(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	P := map[string]int64{"linger": 100}
	segKnobs(r, P)
	delete(P, "hchg")
	if r.Bool(0.1) {
		P["burst"] = 1
	}
	if P["body"] > 3000 {
		p.Net.Window = 1 << 18 // the connection must be able to carry the stream
	}
	p.Ops = append(p.Ops, Op{K: "pub", I: 1, A: "live", N: "s", P: P})
	if !p.NoFault && r.Bool(0.25) {
		p.K["fslow"] = diskPace(pick64(r, 2, 10, 30, 80), p)
	}
	if r.Bool(0.2) {
		p.K["delay"] = 1 // of HLS; DASH does not depend on it
	}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		Q := map[string]int64{"every": pick64(r, 100, 300, 700, 1500)}
		if r.Bool(0.2) {
			Q["slow"] = pick64(r, 1, 10, 100)
		}
		if r.Bool(0.2) {
			Q["skip"] = 40
		}
		p.Ops = append(p.Ops, Op{K: "dash", I: int64(10 + i), A: "live", N: "s", T: int64(r.Intn(4000)) * 1000, P: Q})
	}
	if r.Bool(0.3) {
		p.Ops = append(p.Ops, Op{K: "hls", I: 20, A: "live", N: "s", T: int64(r.Intn(9000)) * 1000, P: map[string]int64{"every": 500}})
	}
	if r.Bool(0.2) {
		p.Ops = append(p.Ops, Op{K: liveProtos[r.Intn(3)], I: 21, A: "live", N: "s", T: int64(r.Intn(9000)) * 1000, P: map[string]int64{}})
	}
	if r.Bool(0.25) {
		Q := map[string]int64{}
		segKnobs(r, Q)
		delete(Q, "hchg")
		nm := []string{"other", "s-1", "s2", "s-init"}[r.Intn(4)]
		p.Ops = append(p.Ops, Op{K: "pub", I: 2, A: "live", N: nm, P: Q},
			Op{K: "dash", I: 30, A: "live", N: nm, T: 500000, P: map[string]int64{"every": 500}})
	}
}

func setupP08(w *World) {
	w.startServer(ServerCfg{Hls: true, Dash: true, Delay: w.plan.k("delay", 0) != 0})
	w.slowDisk()
	w.std()
	w.finish(300 * time.Millisecond)
	w.done = append(w.done, func() {
		w.checkLive(true)
		w.checkAllHLS()
		w.checkAllDASH()
	})
}

// onlySession finds the session that published a name.
func (w *World) onlySession(app, nm string) (s *Session) {
	for _, p := range w.pubs {
		if p.App == app && p.Nm == nm && p.State == "accepted" {
			s = p
		}
	}
	return
}

func (w *World) checkAllDASH() {
	for _, h := range w.dash {
		if sess := w.onlySession(h.App, h.Nm); sess != nil && len(w.viols) == 0 {
			w.checkDASH(h, sess, hlsOpts{Strict: !sess.SP.Burst && !w.plan.stalls(), First: true, D: w.procBound()})
		}
	}
}
