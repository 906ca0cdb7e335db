package main

import (
	"strings"
	"time"

	"verif/simrt"
)

func init() {
	scenarios["P06"] = &Scenario{Gen: genP06, Setup: setupP06}
}

// segKnobs draws a stream long enough to be segmented.
func segKnobs(r *simrt.Rand, P map[string]int64) {
	P["fms"] = pick64(r, 100, 200, 250, 333, 500)
	P["ams"] = pick64(r, 64, 93, 128)
	P["gop"] = pick64(r, 1, 2, 3, 4, 5, 6, 10, 20)
	secs := int64(5 + r.Intn(18))
	P["frames"] = secs * 1000 / P["fms"]
	P["body"] = pick64(r, 60, 200, 600, 3000)
	if r.Bool(0.1) {
		P["body"] = 80000
	}
	P["hdr"] = int64(r.Intn(10))
	P["nals"] = 1 + int64(r.Intn(3))
	P["cts"] = int64(r.Intn(2))
	P["irr"] = int64(r.Intn(2))
	P["base"] = pick64(r, 0, 0, 1000, 47721858-3000, 95443717-5000, 0x7fffffff-2000, 0xfffffff0-7000)
	P["cs"] = pick64(r, 0, 128, 4096, 65536)
	P["wait"] = int64(r.Intn(3)) * 50
	on := func(k string, p float64, v int64) {
		if r.Bool(p) {
			P[k] = v
		}
	}
	on("audio", 0.2, 0)
	on("meta", 0.25, 0)
	on("hevc", 0.25, 1)
	on("late", 0.15, 1)
	on("hchg", 0.2, 1+int64(r.Intn(3)))
	on("hrep", 0.2, 1)
	on("nokey", 0.15, 1)
	on("junk", 0.2, 1)
	on("eos", 0.25, 1+int64(r.Intn(2)))
	on("inband", 0.3, 1)
	on("rich", 0.3, 1)
	on("tiny", 0.3, 1)
	if P["cts"] != 0 {
		on("negcts", 0.3, 1)
	}
	on("biga", 0.2, 1)
	on("skew", 0.15, pick64(r, -200, -60, 60, 300, 900))
}

func genP06(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	P := map[string]int64{"linger": 100}
	segKnobs(r, P)
	if r.Bool(0.1) {
		P["burst"] = 1
	}
	if P["body"] > 3000 {
		p.Net.Window = 1 << 18 // the connection must be able to carry the stream
	}
	p.Ops = append(p.Ops, Op{K: "pub", I: 1, A: "live", N: "s", P: P})
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		Q := map[string]int64{"every": pick64(r, 100, 300, 700, 1500)}
		if r.Bool(0.2) {
			Q["slow"] = pick64(r, 1, 10, 100)
		}
		if r.Bool(0.2) {
			Q["skip"] = 40
		}
		o := Op{K: "hls", I: int64(10 + i), A: "live", N: "s", T: int64(r.Intn(4000)) * 1000, P: Q}
		p.Ops = append(p.Ops, o)
	}
	if r.Bool(0.25) {
		p.K["delay"] = 1
		if n > 1 && r.Bool(0.5) { // the first requests together
			for i := range p.Ops {
				if p.Ops[i].K == "hls" {
					p.Ops[i].T = 1500000 + int64(r.Intn(3))*100
				}
			}
		}
	}
	if r.Bool(0.3) {
		p.Ops = append(p.Ops, Op{K: liveProtos[r.Intn(3)], I: 20, A: "live", N: "s", T: int64(r.Intn(9000)) * 1000, P: map[string]int64{}})
	}
	if r.Bool(0.25) {
		Q := map[string]int64{}
		segKnobs(r, Q)
		nm := []string{"other", "s-1", "s2"}[r.Intn(3)]
		p.Ops = append(p.Ops, Op{K: "pub", I: 2, A: "live", N: nm, P: Q},
			Op{K: "hls", I: 30, A: "live", N: nm, T: 500000, P: map[string]int64{"every": 500}})
	}
	p.K["dash"] = int64(r.Intn(2))
	if !p.NoFault && r.Bool(0.25) {
		p.K["fslow"] = diskPace(pick64(r, 2, 10, 30, 80), p)
	}
}

// diskPace bounds how slow the disk is, such that it keeps up with the
// streams' groups of pictures: a dozen operations for each.
func diskPace(ms int64, p *Plan) int64 {
	for _, o := range p.Ops {
		if n := o.P["gop"] * o.P["fms"] / 12; o.K == "pub" && ms > n {
			ms = n
		}
	}
	return ms
}

// slowDisk makes the operations on files take their time.
func (w *World) slowDisk() {
	ms := int(w.plan.k("fslow", 0))
	if ms == 0 {
		return
	}
	r := w.rng(62)
	w.srv.FS.Fault = func(op, p string, size int) (int, error) {
		switch op {
		case "create", "close", "rename", "remove", "mkdir":
		case "write":
			if strings.HasSuffix(p, ".ts") && r.Intn(300) != 0 {
				return size, nil
			}
		default:
			return size, nil
		}
		if w.s.Fault("disk_slow", op) {
			simrt.Sleep(time.Duration(1+r.Intn(1000*ms)) * time.Microsecond)
		}
		return size, nil
	}
}

func setupP06(w *World) {
	w.startServer(ServerCfg{Hls: true, Dash: w.plan.k("dash", 0) != 0, Delay: w.plan.k("delay", 0) != 0})
	w.slowDisk()
	w.std()
	w.finish(300 * time.Millisecond)
	w.done = append(w.done, func() {
		w.checkLive(true)
		w.checkAllHLS()
	})
}

// checkAllHLS evaluates every watched stream name.
func (w *World) checkAllHLS() {
	for _, k := range w.hlsKeys {
		h := w.hls[k]
		var sess *Session
		for _, p := range w.pubs {
			if p.App == h.App && p.Nm == h.Nm && p.State == "accepted" {
				sess = p
			}
		}
		if sess == nil {
			continue
		}
		burst := sess.SP.Burst
		o := hlsOpts{Strict: !burst && !w.plan.stalls(), First: w.plan.k("delay", 0) == 0, D: w.procBound()}
		w.checkHLS(h, sess, o)
	}
}
