package main

import (
	"time"

	"verif/simrt"
)

func pick64(r *simrt.Rand, xs ...int64) int64 { return xs[r.Intn(len(xs))] }

// randNet draws network behaviour.
func randNet(r *simrt.Rand, p *Plan) {
	p.Net.SegMode = r.Pick(3, 3, 1, 3)
	if r.Bool(0.5) {
		p.Net.ShortRead = []float64{0.05, 0.3, 0.9}[r.Intn(3)]
	}
	switch r.Intn(3) {
	case 0:
		p.Net.LatMin, p.Net.LatMax = 0, 0
	case 1:
		p.Net.LatMin, p.Net.LatMax = 50*time.Microsecond, 2*time.Millisecond
	case 2:
		p.Net.LatMin, p.Net.LatMax = time.Millisecond, 15*time.Millisecond
	}
	if r.Bool(0.3) {
		p.Net.Window = []int{8192, 16384, 262144}[r.Intn(3)]
	}
}

// randChunking draws RTMP chunking knobs.
func randChunking(r *simrt.Rand, P map[string]int64, hard bool) {
	P["comp"] = int64(r.Intn(4))
	P["cs"] = pick64(r, 0, 1, 7, 64, 127, 128, 129, 500, 4096, 65536, 0xffffff, 0x7fffffff)
	P["csid"] = int64(r.Intn(5))
	P["wide"] = int64(r.Intn(2))
	P["shake"] = int64(r.Intn(3))
	P["eager"] = int64(r.Intn(2))
	P["msid"] = pick64(r, 1, 1, 0, 5, 0x01020304)
	P["wr"] = int64(r.Intn(2))
	if hard {
		P["mix"] = pick64(r, 0, 2, 4, 8)
		if r.Bool(0.4) {
			P["rsz"] = pick64(r, 5, 20)
		}
		if r.Bool(0.3) {
			P["abort"] = pick64(r, 5, 15)
		}
		if r.Bool(0.3) {
			P["agg"] = pick64(r, 20, 60)
			if P["mix"] < 2 {
				P["mix"] = 4
			}
		}
		if r.Bool(0.5) {
			P["ctl"] = pick64(r, 5, 30)
		}
	}
}

func init() {
	scenarios["P01"] = &Scenario{Gen: genP01, Setup: setupP01}
}

func genP01(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	p.Sched.StallP = 0 // stalled readers may skip; P02 covers that
	P := map[string]int64{"frames": 6 + int64(r.Intn(40)), "gop": 1000, "fms": pick64(r, 20, 33, 40), "ams": pick64(r, 10, 21, 23),
		"body": pick64(r, 100, 400, 3000, 20000, 70000), "hdr": int64(r.Intn(6)), "wait": 700, "linger": 400, "nals": 1 + int64(r.Intn(3)), "cts": int64(r.Intn(2)),
		"base": pick64(r, 0, 1, 0xfffff0, 0xfffffe, 0xffffff, 0x1000000, 0x7ffffff0, 0xfffffe00, 0xffffff80, 0xffffffff), "irr": int64(r.Intn(2)), "junk": int64(r.Intn(2)), "eos": int64(r.Intn(2)), "edge": pick64(r, 0, 0, 1)}
	if r.Bool(0.2) {
		P["skew"] = pick64(r, -150, -40, 40, 200)
	}
	randChunking(r, P, true)
	switch r.Intn(5) {
	case 0:
		P["audio"] = 0
	case 1:
		P["video"] = 0
	}
	if r.Bool(0.3) {
		P["meta"] = 0
	}
	if r.Bool(0.3) {
		P["hevc"] = 1
	}
	if r.Bool(0.2) {
		P["late"] = 1
	}
	if r.Bool(0.2) {
		P["skew"] = pick64(r, -150, -40, 40, 200)
	}
	if r.Bool(0.2) {
		P["acodec"] = pick64(r, 13, 13, 2)
	}
	if r.Bool(0.2) {
		P["biga"] = 1
	}
	if r.Bool(0.15) {
		P["amf3"] = 1
	}
	if r.Bool(0.2) {
		P["cts"], P["negcts"], P["bigcts"] = 1, 1, int64(r.Intn(2))
	}
	if r.Bool(0.2) {
		P["abits"] = int64(r.Intn(16))
	}
	if P["cs"] > 0 && P["cs"] < 10 && P["body"] > 3000 {
		P["body"] = 3000
	}
	p.Ops = append(p.Ops, Op{K: "pub", I: 1, A: "live", N: "s", P: P})
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{K: []string{"rtmp", "flv", "ws"}[r.Intn(3)], I: int64(10 + i), A: "live", N: "s", T: 300000, P: map[string]int64{}})
	}
	if r.Bool(0.3) { // a second, unrelated publisher whose stream must not mix
		Q := map[string]int64{"frames": 10, "gop": 1000, "wait": 300}
		randChunking(r, Q, true)
		p.Ops = append(p.Ops, Op{K: "pub", I: 2, A: "live", N: "other", P: Q})
	}
}

func setupP01(w *World) {
	w.startServer(ServerCfg{Hls: w.plan.Seed&1 == 0, Dash: w.plan.Seed&2 == 0})
	w.std()
	w.finish(300 * time.Millisecond)
	w.done = append(w.done, func() {
		for _, p := range w.pubs {
			w.mustAccept(p)
		}
		for _, v := range w.viewers {
			if v.State == "notfound" && w.plan.fewBound() > 0 {
				continue // it came before the publisher, which had been stalled
			}
			w.mustJoin(v)
			w.checkViewer(v, recvOpts{All: true, NoSkip: true, D: w.procBound()})
		}
	})
}

// std starts the ordinary actors of a plan.
func (w *World) std() {
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		switch o.K {
		case "pub":
			w.runPub(o, o.A, o.N)
		case "rpub":
			w.runRTSPPub(o, o.A, o.N)
		case "spub":
			w.runSRTPub(o, o.A, o.N)
		case "rtmp", "flv", "ws", "rtsp":
			w.runView(o, o.K, o.A, o.N)
		case "dash":
			w.runDASH(o, o.A, o.N)
		case "hls":
			w.runHLS(o, o.A, o.N)
		}
	}
}

func (w *World) mustAccept(p *Session) {
	if p.SRT != nil && p.State == "refused" && (w.plan.stalls() || w.plan.k("lossy", 0) != 0) {
		return
	}
	if p.State != "accepted" {
		w.fail("publish-failed", "session %d publishing %s/%s was not accepted: %s %s", p.ID, p.App, p.Nm, p.State, p.Err)
	} else if p.Err != "" && p.EndKind != "held" {
		w.fail("publish-broken", "session %d publishing %s/%s was cut off: %s", p.ID, p.App, p.Nm, p.Err)
	}
}

func (w *World) mustJoin(v *Viewer) {
	if v.State != "joined" && !v.Quit {
		w.fail("join-failed", "%v could not join: %s %s", v, v.State, v.EndWhy)
	}
}
