package main

import (
	"net"
	"time"

	"verif/simrt"
)

func init() {
	scenarios["P17"] = &Scenario{Gen: genP17, Setup: setupP17}
}

// srtPubKnobs draws how an SRT caller muxes and sends.
func srtPubKnobs(r *simrt.Rand, P map[string]int64) {
	for _, k := range []string{"hevc", "late", "nokey", "base", "negcts", "rich", "inband", "hrep", "mchg", "junk", "acodec"} {
		delete(P, k)
	}
	P["tsb"] = int64(r.Intn(4))
	P["per"] = pick64(r, 7, 7, 7, 1, 2, 5, 40)
	P["full"] = int64(r.Intn(2))
	P["aus"] = pick64(r, 1, 1, 2, 5)
	for _, k := range []string{"dts", "hstuff", "vlen", "desc", "order", "other", "aud", "rep", "tz", "mix", "ka", "isn", "retx"} {
		P[k] = int64(r.Intn(2))
	}
	P["span"] = pick64(r, 0, 0, 1)
	P["crc"] = pick64(r, 0, 0, 1, 2)
	P["end"] = pick64(r, 0, 0, 0, 1)
	if r.Bool(0.4) {
		P["psi"] = int64(r.Intn(64))
	}
	if r.Bool(0.1) {
		P["pausems"] = int64(r.Intn(4500))
	}
	if r.Bool(0.4) {
		P["pids"] = 1 + int64(r.Intn(2))
	}
}

func genP17(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	p.K["horizon"] = 1500
	p.K["maxrun"] = 400
	P := map[string]int64{"wait": int64(r.Intn(3)) * 50}
	streamKnobs(r, P)
	P["body"] = pick64(r, 100, 170, 400, 1401, 3000, 9000)
	P["tiny"] = pick64(r, 0, 0, 0, 1)
	P["biga"] = pick64(r, 0, 0, 0, 1)
	srtPubKnobs(r, P)
	if !p.NoFault && r.Bool(0.15) {
		P["cut"] = 1 + int64(r.Intn(120))
	}
	if !p.NoFault && r.Bool(0.4) {
		switch r.Intn(3) {
		case 0:
			P["tsdup"] = pick64(r, 5, 50, 200)
		case 1:
			P["tsdrop"] = pick64(r, 2, 10, 40)
		case 2:
			P["tsdup"], P["tsdrop"] = 20, 5
		}
	}
	if !p.NoFault && r.Bool(0.4) {
		p.K["lossy"] = 1
		p.Net.UDPExtra = []time.Duration{2 * time.Millisecond, 20 * time.Millisecond, 60 * time.Millisecond}[r.Intn(3)]
		p.Net.UDPLoss = []float64{0, 0.01, 0.1, 0.3}[r.Intn(4)]
		p.Net.UDPDup = []float64{0, 0.05, 0.3}[r.Intn(3)]
		p.Net.UDPReorder = []float64{0, 0.05, 0.3}[r.Intn(3)]
	}
	if p.K["lossy"] != 0 || P["tsdrop"] != 0 {
		P["rep"], P["span"] = 1, 0
	}
	if !p.NoFault && r.Bool(0.2) {
		p.Net.UDPErr = []float64{0.002, 0.02, 0.05}[r.Intn(3)]
	}
	seg := r.Bool(0.2)
	if seg { // segmented as well
		segKnobs(r, P)
		P["frames"] = (2500 + int64(r.Intn(5000))) / P["fms"]
		if P["body"] > 3000 {
			P["body"] = 3000
		}
		srtPubKnobs(r, P)
		for _, k := range []string{"burst", "hchg", "video", "cut", "tsdup", "tsdrop", "pausems"} {
			delete(P, k)
		}
		delete(p.K, "lossy")
		p.Net.UDPExtra, p.Net.UDPLoss, p.Net.UDPDup, p.Net.UDPReorder = 0, 0, 0, 0
		p.K["hls"] = int64(1 + 2*r.Intn(2))
		if p.K["hls"] == 3 {
			p.Ops = append(p.Ops, Op{K: "dash", I: 41, A: "live", N: "s", T: 30000, P: map[string]int64{"every": pick64(r, 150, 300)}})
		}
		p.Ops = append(p.Ops, Op{K: "hls", I: 40, A: "live", N: "s", T: 30000, P: map[string]int64{"every": pick64(r, 150, 300)}})
	}
	if p.K["lossy"] == 0 && P["tsdrop"] == 0 && P["hchg"] == 0 && P["cut"] == 0 && p.Net.UDPErr == 0 && r.Bool(0.4) {
		P["pspes"], P["aud"] = 1, 0
	}
	ms := P["wait"] + streamMs(P) + P["pausems"]
	fast := []string{"rtmp", "flv", "ws", "rtsp"}
	first := int64(0)
	if !seg && r.Bool(0.12) { // an RTMP publisher has the name already
		first = 400
		Q := map[string]int64{"frames": 40 + ms/20, "gop": 5, "fms": 40, "wait": 0}
		p.Ops = append(p.Ops, Op{K: "pub", I: 2, A: "live", N: "s", P: Q})
		P["intr"] = 1
		delete(P, "cut")
	}
	p.Ops = append(p.Ops, Op{K: "spub", I: 1, A: "live", N: "s", T: first * 1000, P: P})
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		o := Op{K: fast[r.Intn(4)], I: int64(10 + i), A: "live", N: "s", T: int64(30000 + r.Intn(int(ms+1))*1000 + r.Intn(1000)), P: map[string]int64{}}
		if i == 0 && r.Bool(0.7) {
			o.T = 20000
		}
		if o.K == "rtsp" {
			rtspKnobs(r, o.P)
		}
		if !p.NoFault && r.Bool(0.3) {
			switch r.Intn(3) {
			case 0:
				o.P["rate"] = 1 + int64(r.Intn(60))
				o.P["vwin"] = pick64(r, 2048, 8192, 65536)
			case 1:
				o.P["stall"] = 1 + int64(r.Intn(20000))
				o.P["stallms"] = int64(10 + r.Intn(1500))
				o.P["vwin"] = pick64(r, 2048, 8192, 65536)
			case 2:
				o.P["quit"] = o.T + 1 + int64(r.Intn(int(ms+1)))*1000
				o.P["qrst"] = int64(r.Intn(2))
			}
		}
		p.Ops = append(p.Ops, o)
	}
	k := r.Intn(6)
	if seg {
		k = 2 + r.Intn(4)
	}
	switch k {
	case 0: // someone else wants the name
		Q := map[string]int64{"frames": 5, "gop": 4, "fms": 20, "intr": 1}
		srtPubKnobs(r, Q)
		delete(Q, "pausems")
		p.Ops = append(p.Ops, Op{K: "spub", I: 3, A: "live", N: "s", T: int64(200000 + r.Intn(int(ms+1))*1000), P: Q})
	case 1:
		p.Ops = append(p.Ops, Op{K: "pub", I: 4, A: "live", N: "s", T: int64(200000 + r.Intn(int(ms+1))*1000), P: map[string]int64{"frames": 5, "intr": 1}})
	case 2: // what is not of the session
		p.Ops = append(p.Ops, Op{K: "sforge", I: 5, A: "live", N: "s", T: int64(30000 + r.Intn(int(ms+1))*500), P: map[string]int64{"n": 1 + int64(r.Intn(40)), "on": pick64(r, 1, 5)}})
	}
	if !seg && r.Bool(0.25) { // published again under the same name
		Q := map[string]int64{}
		for k, v := range P {
			Q[k] = v
		}
		delete(Q, "cut")
		delete(Q, "intr")
		Q["again"] = 1
		t := ms + 1500 + int64(r.Intn(2000))
		if P["end"] == 1 || P["cut"] != 0 || p.K["lossy"] != 0 || first > 0 {
			t += 8000
		}
		if first > 0 {
			t += 4 * ms
		}
		if r.Bool(0.3) {
			p.Ops = append(p.Ops, Op{K: "pub", I: 6, A: "live", N: "s", T: t * 1000, P: map[string]int64{"frames": 30, "gop": 5, "again": 1}})
		} else {
			p.Ops = append(p.Ops, Op{K: "spub", I: 6, A: "live", N: "s", T: t * 1000, P: Q})
		}
		p.Ops = append(p.Ops, Op{K: fast[r.Intn(4)], I: 20, A: "live", N: "s", T: (t + 300) * 1000, P: map[string]int64{}})
	}
}

// forgeSRT sends data to a session from an address that is not its peer's.
func (w *World) forgeSRT(o *Op) {
	w.hold++
	w.actor(w.client(o.p("on", o.I)), "forge", o.T, func() {
		defer func() { w.hold-- }()
		u, err := simrt.ListenUDP("udp", &net.UDPAddr{Port: 23000})
		if err != nil {
			return
		}
		defer u.Close()
		r := w.rng(17, uint64(o.I))
		for n := int(o.p("n", 1)); n > 0 && !w.stop; n-- {
			simrt.Sleep(time.Duration(1+r.Intn(30)) * time.Millisecond)
			for _, p := range w.pubs {
				if s := p.SRT; s != nil && s.up && s.n > 0 {
					b := append([]byte(nil), s.sent[r.Intn(len(s.sent))]...)
					k := s.isn + uint32(s.n+r.Intn(3))
					b[0], b[1], b[2], b[3] = byte(k>>24)&0x7f, byte(k>>16), byte(k>>8), byte(k)
					if r.Bool(0.1) {
						b = srtCtl(5, 0, 0, s.dest, make([]byte, 4))
					}
					w.s.Faults["srt_forged"]++
					u.WriteToUDP(b, &net.UDPAddr{IP: net.ParseIP("10.0.0.1"), Port: portSRT})
				}
			}
		}
	})
}

func setupP17(w *World) {
	w.startServer(ServerCfg{Rtsp: true, Srt: true, SrtApp: "live", SrtStream: "s", Hls: w.plan.k("hls", 0) != 0, Dash: w.plan.k("hls", 0)&2 != 0})
	w.std()
	for i := range w.plan.Ops {
		if o := &w.plan.Ops[i]; o.K == "sforge" {
			w.forgeSRT(o)
		}
	}
	for _, v := range w.viewers {
		if w.plan.k("lossy", 0) != 0 && v.Proto == "rtsp" && v.Op.p("udp", 0) != 0 {
			v.Lossy, v.Harmed = true, true
		}
	}
	D := w.procBound()
	b := D + 8*time.Second
	if w.plan.stalls() {
		b += 120 * time.Second
	}
	w.finishClean(700*time.Millisecond, b)
	w.done = append(w.done, func() {
		w.checkSRT()
		w.checkLive(true)
		w.checkAllHLS()
		w.checkAllDASH()
	})
}

// endsBy is when the server must have noticed the end of an SRT session.
func (p *Session) endsBy() time.Duration {
	if p.SRT == nil {
		return p.EndAt
	}
	d := p.EndAt + p.SRT.w.procBound() + 300*time.Millisecond
	if p.EndKind != "fin" || p.SRT.w.plan.k("lossy", 0) != 0 {
		d += 6500 * time.Millisecond
	}
	if p.SRT.w.plan.stalls() { // one goroutine takes all that was sent
		d += time.Minute
	}
	return d
}

// checkSRT: who gets the name, and when streams end.
func (w *World) checkSRT() {
	if w.plan.stalls() {
		return
	}
	D := w.procBound()
	lossy := w.plan.k("lossy", 0) != 0
	for _, p := range w.pubs {
		var owner *Session // the session that has the name all the time
		free := true       // nobody has it, at any time
		for _, q := range w.pubs {
			if q == p || q.App != p.App || q.Nm != p.Nm || q.State == "error" {
				continue
			}
			if q.State == "refused" && q.SRT == nil {
				continue
			}
			from, to, surely := q.AckAt, q.EndAt, q.EndAt
			if q.SRT != nil {
				to = q.endsBy()
				if q.EndKind == "vanish" {
					surely += 4 * time.Second
				}
			} else if to > 0 {
				to += D
			}
			if q.State == "accepted" && from > 0 && from < p.ReqAt && (surely == 0 || surely > p.EndAt) && (q.SRT == nil || len(q.SRT.arrived) > 0 && !lossy && !(q.SRT.shut && q.SRT.shutAt < q.EndAt+4*time.Second)) {
				owner = q
			}
			end := p.EndAt
			if p.SRT != nil { // still on its way, or being taken
				end = p.endsBy()
			}
			if end > q.ReqAt && p.ReqAt < to {
				free = false
			}
		}
		switch {
		case owner != nil && p.State == "accepted" && !(p.SRT != nil && (lossy || p.SRT.n == 0 || p.SRT.shut || p.EndAt < p.SRT.data0+D)):
			w.fail("srt-two-owners", "session %d (%s) got %s/%s while session %d (%s) had it", p.ID, p.Proto, p.App, p.Nm, owner.ID, owner.Proto)
		case free && p.State != "accepted" && p.Proto != "inject" && !(lossy && p.SRT != nil):
			w.fail("srt-refused", "session %d (%s) did not get %s/%s although nobody had it: %s %s %s", p.ID, p.Proto, p.App, p.Nm, p.State, p.Refusal, p.Err)
		case free:
			w.ok("name-free")
		case owner != nil:
			w.ok("name-taken")
		}
	}
	for _, v := range w.viewers {
		if v.State != "joined" || v.Quit || v.Harmed || v.Proto == "rtmp" {
			continue
		}
		var p *Session
		for i := range v.Recv {
			if v.Proto == "rtsp" {
				break
			}
			if q, _ := w.frameOf(v, &v.Recv[i]); q != nil {
				p = q
			}
		}
		if p == nil || p.SRT == nil || p.State != "accepted" {
			continue
		}
		if !v.Ended || v.EndAt > p.endsBy() {
			w.fail("srt-not-ended", "session %d ended at %v (%s), %v goes on until %v", p.ID, p.EndAt, p.EndKind, v, v.EndAt)
		}
		w.ok("ended")
	}
}
