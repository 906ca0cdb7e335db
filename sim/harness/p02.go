package main

import (
	"fmt"
	"time"

	"verif/simrt"
)

func init() {
	scenarios["P02"] = &Scenario{Gen: genP02, Setup: setupP02}
	scenarios["P05"] = &Scenario{Gen: genP05, Setup: setupP05}
}

var liveProtos = []string{"rtmp", "flv", "ws"}

// streamKnobs draws a stream of ordinary shape with a few extremes.
func streamKnobs(r *simrt.Rand, P map[string]int64) {
	P["frames"] = 20 + int64(r.Intn(80))
	P["gop"] = pick64(r, 1, 2, 3, 5, 8, 10, 12, 25, 60)
	P["fms"] = pick64(r, 10, 20, 33, 40)
	P["ams"] = pick64(r, 10, 21, 23)
	P["body"] = pick64(r, 100, 400, 3000, 9000)
	P["hdr"] = int64(r.Intn(10))
	P["nals"] = 1 + int64(r.Intn(3))
	P["cts"] = int64(r.Intn(2))
	P["irr"] = int64(r.Intn(2))
	P["base"] = pick64(r, 0, 0, 1000, 0xfffff0, 0xfffffe00)
	switch r.Intn(7) {
	case 0:
		P["audio"] = 0
	case 1:
		P["video"] = 0
	}
	if r.Bool(0.25) {
		P["meta"] = 0
	}
	if r.Bool(0.25) {
		P["hevc"] = 1
	}
	if r.Bool(0.2) {
		P["late"] = 1
	}
	if r.Bool(0.35) {
		P["hchg"] = 1 + int64(r.Intn(3))
	}
	if r.Bool(0.25) {
		P["hrep"] = 1
	}
	if r.Bool(0.25) {
		P["mchg"] = 1
	}
	if r.Bool(0.15) {
		P["nokey"] = 1
	}
	if r.Bool(0.3) {
		P["junk"] = 1
	}
	if r.Bool(0.25) {
		P["eos"] = 1 + int64(r.Intn(2))
	}
	if r.Bool(0.15) {
		P["skew"] = pick64(r, -150, -40, 40, 200)
	}
	if r.Bool(0.2) {
		P["acodec"] = pick64(r, 13, 13, 2)
	}
}

func streamMs(P map[string]int64) int64 {
	f := P["fms"]
	if v, ok := P["video"]; ok && v == 0 {
		f = P["ams"]
	}
	return P["frames"] * f
}

func genP02(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	P := map[string]int64{"wait": int64(r.Intn(3)) * 50, "linger": pick64(r, 0, 0, 20, 300)}
	streamKnobs(r, P)
	if r.Bool(0.2) {
		P["burst"] = 1
		P["burstms"] = 1
	}
	if P["nokey"] == 0 && r.Bool(0.04) {
		// a group may be longer than what is kept of a stream without key frames
		P["frames"], P["gop"], P["fms"], P["ams"], P["body"] = 900+int64(r.Intn(900)), pick64(r, 700, 1100, 1300), 5, pick64(r, 5, 23), 60
		delete(P, "irr")
	}
	randChunking(r, P, r.Bool(0.5))
	P["cs"] = pick64(r, 0, 128, 500, 4096, 65536)
	delete(P, "abort")
	P["end"] = pick64(r, 0, 0, 0, 1, 2)
	if r.Bool(0.2) {
		P["cts"], P["negcts"], P["bigcts"] = 1, 1, int64(r.Intn(2))
	}
	if r.Bool(0.2) {
		P["abits"] = int64(r.Intn(16))
	}
	p.Ops = append(p.Ops, Op{K: "pub", I: 1, A: "live", N: "s", P: P})
	ms := P["wait"] + streamMs(P)
	if P["burst"] != 0 {
		ms = 60
	}
	n := 1 + r.Intn(5)
	for i := 0; i < n; i++ {
		o := Op{K: liveProtos[r.Intn(3)], I: int64(10 + i), A: "live", N: "s", T: int64(30000 + r.Intn(int(ms+1))*1000 + r.Intn(1000)), P: map[string]int64{}}
		if r.Bool(0.3) { // land near a key frame
			k := P["gop"] * P["fms"]
			o.T = (30+P["wait"])*1000 + int64(r.Intn(int(ms/k+1)))*k*1000 + int64(r.Intn(6000))
		}
		if !p.NoFault {
			switch r.Pick(5, 2, 2, 1, 1) {
			case 1:
				o.P["rate"] = 1 + int64(r.Intn(60))
				o.P["vwin"] = pick64(r, 2048, 8192, 65536)
			case 2:
				o.P["stall"] = 1 + int64(r.Intn(20000))
				o.P["stallms"] = int64(10 + r.Intn(1500))
				o.P["vwin"] = pick64(r, 2048, 8192, 65536)
			case 3:
				o.P["rst"] = 1 + int64(r.Intn(30000))
			case 4:
				o.P["quit"] = int64(r.Intn(int(ms+1))) * 1000
				o.P["qrst"] = int64(r.Intn(2))
				if o.P["quit"] == 0 {
					o.P["quit"] = 1
				}
			}
		}
		p.Ops = append(p.Ops, o)
	}
	if r.Bool(0.2) { // someone else's stream
		Q := map[string]int64{"frames": 20, "gop": 4, "fms": 30}
		p.Ops = append(p.Ops, Op{K: "pub", I: 2, A: []string{"live", "tv"}[r.Intn(2)], N: "other", P: Q})
	}
	p.K["hls"] = int64(r.Intn(4))
}

func setupP02(w *World) {
	h := w.plan.k("hls", 0)
	w.startServer(ServerCfg{Hls: h&1 != 0, Dash: h&2 != 0, Rtsp: h == 3})
	w.std()
	w.finish(700 * time.Millisecond)
	w.done = append(w.done, func() { w.checkLive(true) })
}

// checkLive evaluates every viewer of a run against all publishers.
func (w *World) checkLive(harmOK bool) {
	for _, p := range w.pubs {
		p.udpGuaranteed()
		if p.State != "accepted" && p.State != "refused" {
			w.mustAccept(p)
		} else if p.Err != "" && p.EndKind == "fin" {
			w.mustAccept(p)
		}
	}
	for _, v := range w.viewers {
		burst := false
		for i := range w.plan.Ops {
			if w.plan.Ops[i].p("burst", 0) != 0 {
				burst = true
			}
		}
		free := !v.Harmed && !v.Quit && !w.plan.stalls()
		o := recvOpts{Start: !w.plan.stalls() && !w.held, D: w.procBound()}
		if free && !burst {
			o.Complete, o.Timely = true, !w.held && !w.narrow()
		}
		if v.State == "error" && free {
			w.fail(v.Proto+"-join-failed", "%v could not join: %s %s", v, v.EndWhy, v.Bad)
		}
		if v.State == "notfound" {
			for _, p := range w.pubs {
				if p.App == v.App && p.Nm == v.Nm && p.State == "accepted" && p.AckAt > 0 && p.AckAt < v.T0 && (p.EndAt == 0 || p.EndAt > v.AckAt) {
					w.fail(v.Proto+"-notfound", "%v was told at %v that %s/%s does not exist; session %d publishes it since %v", v, v.AckAt, v.App, v.Nm, p.ID, p.AckAt)
				}
			}
		}
		w.checkSplit(v, o)
	}
}

// checkSplit checks a viewer's audio and video apart where the tracks of
// the stream took different ways to the server.
func (w *World) checkSplit(v *Viewer, o recvOpts) {
	udp := false
	for _, p := range w.pubs {
		udp = udp || p.UDP && p.App == v.App && p.Nm == v.Nm
	}
	if !udp {
		w.checkViewer(v, o)
		return
	}
	if v.Proto == "rtsp" && !w.rtspRecv(v) {
		return
	}
	want, excuse := v.Want, v.Excuse
	for _, audio := range []bool{false, true} {
		x := *v
		x.recvDone = true
		x.Recv = nil
		for _, rt := range v.Recv {
			t := rt.F
			if t == nil {
				_, t = w.frameOf(v, &rt)
			}
			if t == nil && audio && rt.F == nil && w.classify(&rt) == kEOS {
				continue // ends the pictures
			}
			if t == nil || (t.Kind == kAudio) == audio {
				x.Recv = append(x.Recv, rt)
			}
		}
		x.Want = func(t *Tag) bool { return t.isFrame() && (t.Kind == kAudio) == audio && (want == nil || want(t)) }
		x.Excuse = func(t *Tag) bool { return !t.Sent || excuse != nil && excuse(t) }
		y := o
		if audio {
			x.NoVideo = true
			y.Start = false
			if v.Harmed || v.Quit || w.plan.stalls() {
				x.Lossy = true // only the order counts
			}
		}
		w.checkViewer(&x, y)
	}
}

// ---- P05 -------------------------------------------------------------------------

func genP05(r *simrt.Rand, p *Plan) {
	p.NoFault = false
	randNet(r, p)
	p.Net.Window = 1 << 20 // the network itself must not be the bottleneck
	p.Sched.StallP = 0
	P := map[string]int64{"wait": 30, "linger": 100}
	streamKnobs(r, P)
	P["frames"] = 60 + int64(r.Intn(80))
	P["body"] = pick64(r, 3000, 9000, 30000)
	P["fms"] = pick64(r, 20, 33, 40)
	P["gop"] = pick64(r, 2, 5, 10, 25)
	P["cs"] = pick64(r, 4096, 65536)
	P["wr"] = 0
	kind := "pub"
	seg := r.Bool(0.3)
	if seg { // segmenters are watched too
		segKnobs(r, P)
		delete(P, "hchg")
		delete(P, "video")
		P["frames"] = (2500 + int64(r.Intn(5000))) / P["fms"]
		P["body"] = pick64(r, 3000, 9000, 30000)
		P["cs"] = pick64(r, 4096, 65536)
		P["wait"] = 30
	}
	rtsp := r.Bool(0.35)
	if rtsp {
		p.K["rtsp"] = 1
		delete(P, "video")
		delete(P, "hchg")
		if r.Bool(0.3) {
			kind = "rpub"
			rtspPubKnobs(r, P)
			P["udp"], P["burst"], P["mtu"], P["end"] = 0, 0, 1400, 0
		}
	}
	p.Ops = append(p.Ops, Op{K: kind, I: 1, A: "live", N: "s", P: P})
	ms := P["wait"] + streamMs(P)
	protos := append([]string{}, liveProtos[:3]...)
	if rtsp {
		protos = append(protos, "rtsp", "rtsp")
	}
	viewer := func(o *Op) {
		if o.K = protos[r.Intn(len(protos))]; o.K == "rtsp" {
			rtspKnobs(r, o.P)
			if o.P["harmed"] != 0 {
				o.P["udp"] = 0
			}
		}
	}
	healthy := 1 + r.Intn(2)
	for i := 0; i < healthy; i++ {
		o := Op{I: int64(10 + i), A: "live", N: "s", T: int64(25000 + r.Intn(int(ms))*500), P: map[string]int64{}}
		viewer(&o)
		p.Ops = append(p.Ops, o)
	}
	n := 1 + r.Intn(5)
	for i := 0; i < n; i++ {
		o := Op{I: int64(20 + i), A: "live", N: "s", T: int64(25000 + r.Intn(int(ms))*800), P: map[string]int64{"harmed": 1}}
		viewer(&o)
		o.P["vwin"] = pick64(r, 1024, 4096, 16384)
		switch r.Pick(2, 4, 2, 2, 2, 1) {
		case 0:
			o.P["rate"] = 1 + int64(r.Intn(20))
		case 1:
			o.P["stall"] = 1 + int64(r.Intn(20000))
			if r.Bool(0.4) {
				o.P["stallms"] = int64(100 + r.Intn(3000))
			}
		case 2:
			o.P["rst"] = 1 + int64(r.Intn(30000))
		case 3:
			o.P["quit"] = 1 + int64(r.Intn(int(ms)))*1000
			o.P["qrst"] = int64(r.Intn(2))
			o.P["stall"] = 1 + int64(r.Intn(8000))
		case 4: // partitioned away, perhaps healed later
			o.P["part"] = int64(r.Intn(int(ms))) * 1000
			if r.Bool(0.5) {
				o.P["heal"] = int64(50+r.Intn(2000)) * 1000
			}
		case 5: // connects and never says anything
			o.K = "mute"
		}
		p.Ops = append(p.Ops, o)
	}
	if r.Bool(0.5) {
		Q := map[string]int64{"frames": 40, "gop": 5, "fms": 40, "wait": 30}
		p.Ops = append(p.Ops, Op{K: "pub", I: 2, A: "live", N: "other", P: Q},
			Op{K: liveProtos[r.Intn(3)], I: 15, A: "live", N: "other", T: 30000, P: map[string]int64{}})
	}
	p.K["hls"] = int64(r.Intn(4))
	if seg {
		p.K["hls"] |= 1
		p.Ops = append(p.Ops, Op{K: "hls", I: 40, A: "live", N: "s", T: 25000, P: map[string]int64{"every": pick64(r, 150, 300)}})
		if r.Bool(0.5) { // one that reads slowly
			p.Ops = append(p.Ops, Op{K: "hls", I: 41, A: "live", N: "s", T: 25000, P: map[string]int64{"every": 200, "slow": pick64(r, 1, 10)}})
		}
		if p.K["hls"]&2 != 0 {
			p.Ops = append(p.Ops, Op{K: "dash", I: 42, A: "live", N: "s", T: 25000, P: map[string]int64{"every": pick64(r, 150, 300)}})
		}
	}
}

func setupP05(w *World) {
	h := w.plan.k("hls", 0)
	w.startServer(ServerCfg{Hls: h&1 != 0, Dash: h&2 != 0, Rtsp: h == 3 || w.plan.k("rtsp", 0) != 0})
	w.std()
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		node := w.client(o.I)
		if o.K == "mute" {
			w.actor(node, "mute", o.T, func() {
				c, err := simrt.DialTimeout("tcp", fmt.Sprintf("10.0.0.1:%d", []int{portRTMP, portFLV}[o.I&1]), 10*time.Second)
				if err != nil {
					return
				}
				w.s.Faults["mute_client"]++
				for !w.stop {
					simrt.Sleep(50 * time.Millisecond)
				}
				c.Close()
			})
		}
		if t := o.p("part", -1); t >= 0 {
			w.s.After(time.Duration(o.T+t)*time.Microsecond, func() {
				w.s.Faults["partition"]++
				w.s.Partition(node.Name, w.srv.Name, true)
			})
			if h := o.p("heal", 0); h > 0 {
				w.s.After(time.Duration(o.T+t+h)*time.Microsecond, func() { w.s.Partition(node.Name, w.srv.Name, false) })
			}
		}
	}
	w.finish(700 * time.Millisecond)
	w.done = append(w.done, func() {
		w.checkLive(true)
		w.checkAllHLS()
		w.checkAllDASH()
		// the publisher is read at full rate: no tag was held back longer
		// than the processing bound
		for _, p := range w.pubs {
			if p.State != "accepted" {
				continue
			}
			var due time.Duration
			base := time.Duration(0)
			begun := false
			tags := p.Pub
			if p.RP != nil { // paced as generated, whatever is sent together
				tags = p.Tags
			}
			for _, t := range tags {
				if p.RP != nil && !t.isFrame() { // in its ANNOUNCE
					continue
				}
				if p.RP != nil && t.Kind == kAudio { // waits for others
					due += t.Pace
					continue
				}
				if !begun {
					base, due, begun = t.SentAt, 0, true
				} else {
					due += t.Pace
				}
				if !t.Sent {
					w.fail("publisher-blocked", "session %d could not deliver %v to the server", p.ID, t)
					break
				}
				if late := t.SentAt - base - due; late > w.procBound() {
					w.fail("publisher-delayed", "session %d was held back: %v was taken %v late", p.ID, t, late)
					break
				}
				w.ok("paced")
			}
		}
	})
}
