package main

import (
	"time"

	"verif/simrt"
)

func init() {
	scenarios["P10"] = &Scenario{Gen: genP10, Setup: setupP10}
}

// rtspPubKnobs draws how an RTSP publisher behaves.
func rtspPubKnobs(r *simrt.Rand, P map[string]int64) {
	delete(P, "hevc")
	delete(P, "late")
	delete(P, "nokey")
	delete(P, "acodec")
	P["base"] = 0
	P["mono"] = int64(r.Intn(3) / 2)
	P["resetup"] = pick64(r, 0, 0, 0, 1)
	P["inband"] = pick64(r, 0, 0, 1)
	P["rich"] = int64(r.Intn(2))
	P["sdp"] = int64(r.Intn(1024))
	if r.Bool(0.5) {
		P["sdp"] &= 3
	}
	P["opt"] = int64(r.Intn(2))
	P["order"] = int64(r.Intn(2))
	P["udp"] = pick64(r, 0, 0, 0, 1, 1, 2, 3)
	switch r.Intn(4) {
	case 0:
		P["vch"], P["ach"] = 2, 0
	case 1:
		P["vch"], P["ach"] = 4, 254
	}
	P["mtu"] = pick64(r, 100, 500, 1400, 1400, 1456)
	if r.Bool(0.2) {
		P["mtu"] = pick64(r, 1488, 1489, 8000, 60000)
	}
	P["stap"] = pick64(r, 0, 0, 30, 90)
	P["aus"] = pick64(r, 1, 1, 2, 5)
	P["ext"] = pick64(r, 0, 0, 10, 50)
	if P["mtu"] >= 1456 && P["mtu"] < 1500 {
		P["ext"] = 0
	}
	P["rtcp"] = int64(r.Intn(2))
	P["seg"] = pick64(r, -1, -1, 1, 2, 7)
	P["wr"] = int64(r.Intn(2))
	if r.Bool(0.5) {
		P["ka"] = pick64(r, 2, 20, 100, 400)
	}
	P["end"] = pick64(r, 0, 0, 1, 2, 2)
	if r.Bool(0.4) { // audio units larger than packets come in fragments
		P["aufrag"] = 1
		if r.Bool(0.4) {
			P["biga"] = 1
		}
	}
}

func genP10(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	p.K["horizon"] = 1500
	P := map[string]int64{"wait": int64(r.Intn(3)) * 50, "linger": pick64(r, 0, 0, 20, 300)}
	streamKnobs(r, P)
	P["body"] = pick64(r, 100, 1401, 1500, 3000, 9000)
	P["tiny"] = pick64(r, 0, 0, 0, 1)
	rtspPubKnobs(r, P)
	if r.Bool(0.1) && P["udp"] == 0 {
		P["burst"], P["burstms"] = 1, 1
	}
	if r.Bool(0.1) && P["udp"] != 1 {
		P["cut"] = 1 + int64(r.Intn(40000))
	}
	if P["body"] == 9000 && P["mtu"] == 100 {
		P["mtu"] = 500
	}
	seg := r.Bool(0.2)
	if seg { // segmented as well
		segKnobs(r, P)
		P["frames"] = (2500 + int64(r.Intn(5000))) / P["fms"]
		rtspPubKnobs(r, P)
		P["udp"] = 0
		delete(P, "burst")
		delete(P, "hchg")
		delete(P, "video")
		if P["body"] > 3000 && P["mtu"] == 100 {
			P["mtu"] = 1400
		}
		p.K["hls"] = int64(1 + 2*r.Intn(2))
		p.Ops = append(p.Ops, Op{K: "hls", I: 40, A: "live", N: "s", T: 30000, P: map[string]int64{"every": pick64(r, 150, 300)}})
		if p.K["hls"] == 3 {
			p.Ops = append(p.Ops, Op{K: "dash", I: 41, A: "live", N: "s", T: 30000, P: map[string]int64{"every": pick64(r, 150, 300)}})
		}
	}
	p.Ops = append(p.Ops, Op{K: "rpub", I: 1, A: "live", N: "s", P: P})
	ms := P["wait"] + streamMs(P)
	if P["burst"] != 0 {
		ms = 60
	}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		o := Op{K: []string{"rtmp", "flv", "ws", "rtsp"}[r.Intn(4)], I: int64(10 + i), A: "live", N: "s", T: int64(30000 + r.Intn(int(ms+1))*1000 + r.Intn(1000)), P: map[string]int64{}}
		if i == 0 && r.Bool(0.7) {
			o.T = 20000
		}
		if o.K == "rtsp" {
			rtspKnobs(r, o.P)
		}
		if !p.NoFault && r.Bool(0.3) {
			switch r.Intn(3) {
			case 0:
				o.P["rate"] = 1 + int64(r.Intn(60))
				o.P["vwin"] = pick64(r, 2048, 8192, 65536)
			case 1:
				o.P["stall"] = 1 + int64(r.Intn(20000))
				o.P["stallms"] = int64(10 + r.Intn(1500))
				o.P["vwin"] = pick64(r, 2048, 8192, 65536)
			case 2:
				o.P["quit"] = o.T + 1 + int64(r.Intn(int(ms+1)))*1000
				o.P["qrst"] = int64(r.Intn(2))
			}
		}
		p.Ops = append(p.Ops, o)
	}
	if !p.NoFault && P["udp"] != 0 && r.Bool(0.7) {
		p.K["lossy"] = 1
		p.Net.UDPExtra = []time.Duration{2 * time.Millisecond, 20 * time.Millisecond, 60 * time.Millisecond}[r.Intn(3)]
		p.Net.UDPLoss = []float64{0, 0.01, 0.1, 0.3}[r.Intn(4)]
		p.Net.UDPDup = []float64{0, 0.05, 0.3}[r.Intn(3)]
		p.Net.UDPReorder = []float64{0, 0.05, 0.3}[r.Intn(3)]
	}
	if !p.NoFault && r.Bool(0.15) {
		p.Net.UDPBusy = 2 + r.Intn(3)
	}
	if !p.NoFault && P["udp"] != 0 && r.Bool(0.2) {
		p.Net.UDPErr = []float64{0.002, 0.02, 0.05}[r.Intn(3)]
	}
	if r.Bool(0.2) { // someone else's stream
		Q := map[string]int64{"frames": 20, "gop": 4, "fms": 30}
		rtspPubKnobs(r, Q)
		p.Ops = append(p.Ops, Op{K: "rpub", I: 2, A: []string{"live", "tv"}[r.Intn(2)], N: "other", P: Q})
	}
	if !seg && r.Bool(0.2) { // published again under the same name
		Q := map[string]int64{}
		for k, v := range P {
			Q[k] = v
		}
		delete(Q, "cut")
		p.Ops = append(p.Ops, Op{K: "rpub", I: 3, A: "live", N: "s", T: int64(30+ms+int64(r.Intn(2000))) * 1000, P: Q},
			Op{K: liveProtos[r.Intn(3)], I: 20, A: "live", N: "s", T: int64(60+ms+int64(r.Intn(2000))) * 1000, P: map[string]int64{}})
	}
}

func setupP10(w *World) {
	h := w.plan.k("hls", 0)
	w.startServer(ServerCfg{Rtsp: true, Hls: h&1 != 0, Dash: h&2 != 0})
	w.std()
	for _, v := range w.viewers {
		if w.plan.k("lossy", 0) != 0 && v.Proto == "rtsp" && v.Op.p("udp", 0) != 0 {
			v.Lossy, v.Harmed = true, true
		}
	}
	b := w.procBound() + 500*time.Millisecond
	if w.plan.stalls() {
		b += 120 * time.Second
	}
	w.finishClean(700*time.Millisecond, b)
	w.done = append(w.done, func() {
		w.checkLive(true)
		w.checkAllHLS()
		w.checkAllDASH()
		w.checkRTSPSync()
	})
}

// checkRTSPSync: the tracks of an RTSP publisher, whose RTP clocks have
// nothing in common, keep the distance in time at which they were sent.
func (w *World) checkRTSPSync() {
	if w.plan.stalls() || w.plan.k("lossy", 0) != 0 {
		return
	}
	for _, v := range w.viewers {
		for _, p := range w.pubs {
			a, ok := v.tsOff[tsKey{p.ID, 8}]
			b, ok2 := v.tsOff[tsKey{p.ID, 9}]
			if p.Proto != "rtsp" || !ok || !ok2 {
				continue
			}
			var first [2]*Tag
			for _, t := range p.Pub {
				if !t.isFrame() {
					continue
				}
				i := 0
				if t.Kind != kAudio {
					i = 1
				}
				if first[i] == nil {
					first[i] = t
				}
			}
			if first[0] == nil || first[1] == nil {
				continue
			}
			// each track's time 0, by the clock of who sent it
			za := first[0].SentAt.Milliseconds() - int64(first[0].Ts)
			zb := first[1].SentAt.Milliseconds() - int64(first[1].Ts)
			if d := time.Duration(int64(int32(a-b))-(za-zb)) * time.Millisecond; d > w.procBound() || d < -w.procBound() {
				w.fail("rtsp-sync", "%v: the audio of session %d is %v apart from its video, measured by when they were sent", v, p.ID, d)
				return
			}
			w.ok("synced")
		}
	}
}
