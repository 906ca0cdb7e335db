package main

import (
	"bufio"
	"fmt"
	"net"
	"sort"
	"time"

	"verif/simrt"
)

func init() {
	scenarios["P03"] = &Scenario{Gen: genP03, Setup: setupP03}
}

func genP03(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	p.Net.Window = 256 << 10
	names := [][2]string{{"live", "s"}, {"live", "t"}, {"tv", "s"}}[:1+r.Intn(3)]
	n := 2 + r.Intn(6)
	mixed := r.Bool(0.4)
	if mixed {
		p.K["rtsp"] = 1
		p.K["srt"] = int64(r.Intn(2))
	}
	slots := []int64{0, int64(r.Intn(300)), int64(200 + r.Intn(900))}
	for i := 0; i < n; i++ {
		nm := names[r.Intn(len(names))]
		P := map[string]int64{}
		streamKnobs(r, P)
		P["frames"] = 5 + int64(r.Intn(40))
		P["fms"] = pick64(r, 10, 20, 33)
		P["body"] = 400
		P["cs"] = pick64(r, 0, 128, 4096)
		P["shake"] = int64(r.Intn(3))
		P["end"] = pick64(r, 0, 0, 1, 2)
		P["wait"] = pick64(r, 0, 0, 100)
		P["linger"] = pick64(r, 0, 0, 100, 500)
		if r.Bool(0.3) {
			P["force"] = 1
		}
		if r.Bool(0.2) {
			P["cut"] = 1 + int64(r.Intn(5000))
		}
		kind := "pub"
		if mixed && r.Bool(0.5) {
			kind = "rpub"
			rtspPubKnobs(r, P)
			if p.K["srt"] != 0 && nm[0] == "live" && nm[1] == "s" && r.Bool(0.5) {
				kind = "spub"
				srtPubKnobs(r, P)
				P["intr"] = 1
				delete(P, "cut")
				delete(P, "pausems")
				delete(P, "force")
			}
			if P["udp"] == 1 {
				delete(P, "cut")
			}
		}
		o := Op{K: kind, I: int64(1 + i), A: nm[0], N: nm[1], T: slots[r.Intn(3)]*1000 + int64(r.Intn(2))*int64(r.Intn(4000)), P: P}
		p.Ops = append(p.Ops, o)
	}
	nv := 1 + r.Intn(4)
	for i := 0; i < nv; i++ {
		nm := names[r.Intn(len(names))]
		k := liveProtos[r.Intn(3)]
		if mixed && r.Bool(0.3) {
			k = "rtsp"
		}
		p.Ops = append(p.Ops, Op{K: k, I: int64(30 + i), A: nm[0], N: nm[1], T: int64(20000 + r.Intn(1200)*1000), P: map[string]int64{}})
	}
	if r.Bool(0.6) {
		for i := 0; i < 1+r.Intn(2); i++ {
			nm := names[r.Intn(len(names))]
			P := map[string]int64{"mode": int64(r.Intn(6)), "frames": 10, "gop": pick64(r, 1, 5), "fms": pick64(r, 5, 20), "hdr": int64(r.Intn(6))}
			p.Ops = append(p.Ops, Op{K: "inject", I: int64(50 + i), A: nm[0], N: nm[1], T: int64(20000 + r.Intn(900)*1000), P: P})
		}
	}
	if mixed && r.Bool(0.7) {
		for i := 0; i < 1+r.Intn(2); i++ {
			nm := names[r.Intn(len(names))]
			P := map[string]int64{"mode": int64(r.Intn(4)), "frames": 10, "gop": pick64(r, 1, 5), "fms": pick64(r, 5, 20), "mtu": 1400, "hdr": int64(r.Intn(2))}
			p.Ops = append(p.Ops, Op{K: "rinject", I: int64(60 + i), A: nm[0], N: nm[1], T: int64(20000 + r.Intn(900)*1000), P: P})
		}
	}
	if p.K["srt"] != 0 {
		p.K["maxrun"] = 400
		if r.Bool(0.3) {
			p.Ops = append(p.Ops, Op{K: "sforge", I: 70, A: "live", N: "s", T: int64(20000 + r.Intn(900)*1000), P: map[string]int64{"n": 1 + int64(r.Intn(40))}})
		}
	}
	p.K["hls"] = int64(r.Intn(4))
}

func setupP03(w *World) {
	h := w.plan.k("hls", 0)
	srt := w.plan.k("srt", 0) != 0
	w.startServer(ServerCfg{Hls: h&1 != 0, Dash: h&2 != 0, Rtsp: w.plan.k("rtsp", 0) != 0, Srt: srt, SrtApp: "live", SrtStream: "s"})
	w.std()
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		switch o.K {
		case "inject":
			w.runInject(o)
		case "rinject":
			w.runRInject(o)
		case "sforge":
			w.forgeSRT(o)
		}
	}
	w.finish(700 * time.Millisecond)
	w.done = append(w.done, func() {
		w.checkOwnership()
		if srt {
			w.checkSRT()
		}
		w.checkLive(true)
	})
}

// runInject is a connection that sends media for a stream it does not own.
func (w *World) runInject(o *Op) {
	p := w.newSession(o.A, o.N, "inject", opStream(o), uint64(o.I))
	p.State = "refused"
	node := w.client(o.I)
	r := w.rng(15, uint64(o.I))
	w.hold++
	w.actor(node, fmt.Sprintf("inject%d", p.ID), o.T, func() {
		defer func() { w.hold--; p.Ended = true; p.EndAt = w.now() }()
		rc, err := w.dialRTMP(node, "10.0.0.1:1935", "inject", r)
		if err != nil {
			return
		}
		defer rc.close(false)
		if rc.shake(0, false) != nil {
			return
		}
		w.actor(node, "inject-rd", 0, rc.readLoop)
		rc.cmd("connect", 1.0, map[string]any{"app": o.A})
		if rc.waitReply(5*time.Second, func(r *reply) bool { return r.Txn == 1 }) == nil {
			return
		}
		rc.cmd("createStream", 2.0, nil)
		rc.waitReply(5*time.Second, func(r *reply) bool { return r.Txn == 2 })
		play := func() {
			rc.cmd("play", 3.0, nil, o.N)
			rc.waitReply(5*time.Second, func(r *reply) bool { return r.Name == "onStatus" })
		}
		own := func() {
			rc.cmd("publish", 5.0, nil, fmt.Sprintf("own%d", o.I), "live")
			rc.waitReply(5*time.Second, func(r *reply) bool { return r.code() == "NetStream.Publish.Start" })
		}
		w.s.Faults["inject"]++
		switch o.p("mode", 0) {
		case 0:
			play()
		case 1:
		case 2:
			play()
			rc.cmd("FCUnpublish", 6.0, nil, o.N)
			rc.cmd("deleteStream", 7.0, nil, 1.0)
			rc.cmd("closeStream", 8.0, nil, 1.0)
			rc.cmd("releaseStream", 9.0, nil, o.N)
		case 3:
			play()
			own()
		case 4:
			own()
			play()
		case 5: // asks to publish, is refused or accepted: does it again
			play()
			play()
		}
		w.sendTags(o, p, rc, r)
		for _, t := range p.Pub {
			t.Sent = false
		}
		simrt.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
	})
}

// runRInject is an RTSP client, or a host that sends datagrams to the ports
// of RTSP publishers, with media for a stream it does not own.
func (w *World) runRInject(o *Op) {
	sp := opStream(o)
	sp.MetaOn = false
	p := w.newSession(o.A, o.N, "inject", sp, uint64(o.I))
	rtspTags(p)
	p.State = "refused"
	node := w.client(o.I)
	r := w.rng(15, uint64(o.I))
	w.hold++
	w.actor(node, fmt.Sprintf("rinject%d", p.ID), o.T, func() {
		defer func() { w.hold--; p.Ended = true; p.EndAt = w.now() }()
		w.s.Faults["rtsp_inject"]++
		vt := &pubTrack{Clock: 90000, PT: 96, Ch: 0, SSRC: uint32(r.U64()), Seq: uint16(r.U64())}
		at := &pubTrack{Audio: true, Clock: 44100, PT: 97, Ch: 2, SSRC: uint32(r.U64()), Seq: uint16(r.U64())}
		if o.p("mode", 0) == 3 { // datagrams from somewhere else
			u, err := simrt.ListenUDP("udp", &net.UDPAddr{Port: forgePort})
			if err != nil {
				return
			}
			defer u.Close()
			for _, t := range p.Tags {
				if w.stop {
					return
				}
				simrt.Sleep(t.Pace)
				var ports []int
				for k := range w.rtpIn {
					ports = append(ports, k)
				}
				sort.Ints(ports)
				for _, k := range ports {
					x := w.rtpIn[k]
					if r.Bool(0.5) { // a guess of where the stream is
						vt.SSRC, vt.Seq = x.SSRC, x.Seq+uint16(r.Intn(3))
						at.SSRC, at.Seq = vt.SSRC, vt.Seq
					}
					var pk [][]byte
					switch {
					case t.Kind == kAudio && x.Audio:
						pl := []byte{0, 16, byte(len(t.Nals[0]) >> 5), byte(len(t.Nals[0]) << 3)}
						pk = [][]byte{at.rtp(o, r, t.Ts*44, true, append(pl, t.Nals[0]...))}
					case t.isFrame() && t.Kind != kAudio && !x.Audio:
						pk = vt.video(o, r, t.Ts*90, t.Nals)
					}
					for _, b := range pk {
						b[1] = b[1]&0x80 | x.PT
						w.s.Faults["rtp_forged"]++
						u.WriteToUDP(b, &net.UDPAddr{IP: net.ParseIP("10.0.0.1"), Port: k})
					}
				}
			}
			return
		}
		c, err := w.dialRTSP("rinject")
		if err != nil {
			return
		}
		c.br = bufio.NewReaderSize(c.c, 4096)
		w.actor(node, "rinject-rd", 0, c.readLoop)
		defer c.c.Close()
		url := "rtsp://10.0.0.1:554/" + o.A + "/" + o.N
		tr := "Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d\r\n"
		own := fmt.Sprintf("rtsp://10.0.0.1:554/%s/own%d", o.A, o.I)
		sdp := "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=x\r\nc=IN IP4 10.0.0.1\r\nt=0 0\r\n" +
			"m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=Z0IAHp2oFAWQ,aM48gA==\r\na=control:streamid=0\r\n" +
			"m=audio 0 RTP/AVP 97\r\na=rtpmap:97 MPEG4-GENERIC/44100/2\r\na=fmtp:97 mode=AAC-hbr;sizelength=13;indexlength=3;indexdeltalength=3;config=1210\r\na=control:streamid=1\r\n"
		switch o.p("mode", 0) {
		case 0: // a player that sends
			c.do("DESCRIBE", url, "", nil)
			x, _ := c.do("SETUP", url+"/streamid=0", fmt.Sprintf(tr, 0, 1), nil)
			if x != nil && x.Hdr["session"] != "" {
				c.do("SETUP", url+"/streamid=1", fmt.Sprintf(tr, 2, 3), nil)
			}
			c.do([]string{"PLAY", "RECORD"}[r.Intn(2)], url, "", nil)
		case 1: // never announced
			c.do("SETUP", url+"/streamid=0", fmt.Sprintf(tr, 0, 1), nil)
			c.do("RECORD", url, "", nil)
		case 2: // announced something else
			c.do("ANNOUNCE", own, "Content-Type: application/sdp\r\n", []byte(sdp))
			c.do("SETUP", url+"/streamid=0", fmt.Sprintf(tr, 0, 1), nil)
			c.do("SETUP", url+"/streamid=1", fmt.Sprintf(tr, 2, 3), nil)
			c.do("RECORD", url, "", nil)
			if r.Bool(0.5) {
				c.do("PLAY", url, "", nil)
			}
		}
		w.sendRTP(o, p, &rtspPub{C: c, Tr: []*pubTrack{vt, at}}, r, url)
		if r.Bool(0.5) {
			c.do("TEARDOWN", url, "", nil)
		}
		simrt.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
	})
}

// checkOwnership: at most one owner per name at any time, and nobody is
// refused without one.
func (w *World) checkOwnership() {
	D := w.procBound()
	for i, a := range w.pubs {
		if a.Proto == "inject" {
			continue
		}
		for _, b := range w.pubs[i+1:] {
			if b.Proto == "inject" || a.SRT != nil || b.SRT != nil || a.App != b.App || a.Nm != b.Nm || a.State != "accepted" || b.State != "accepted" {
				continue
			}
			// each surely owns the name from its acceptance to its end
			if a.AckAt < b.EndAt && b.AckAt < a.EndAt {
				w.fail("two-owners", "sessions %d and %d were both accepted as publisher of %s/%s: %v-%v and %v-%v", a.ID, b.ID, a.App, a.Nm, a.AckAt, a.EndAt, b.AckAt, b.EndAt)
				return
			}
		}
		w.ok("ownership")
	}
	if w.plan.stalls() {
		return
	}
	for _, a := range w.pubs {
		if a.State != "refused" || a.Proto == "inject" || a.SRT != nil {
			continue
		}
		ok := false
		for _, b := range w.pubs {
			if b != a && b.Proto != "inject" && b.App == a.App && b.Nm == a.Nm && (b.State != "refused" || b.SRT != nil) && b.ReqAt > 0 && b.ReqAt <= a.AckAt+1 && (b.EndAt == 0 || b.endsBy()+D+w.diskLag() >= a.ReqAt) {
				ok = true
			}
		}
		if !ok {
			w.fail("refused-free-name", "session %d was refused %s/%s at %v although nobody owned it", a.ID, a.App, a.Nm, a.AckAt)
			return
		}
	}
}
