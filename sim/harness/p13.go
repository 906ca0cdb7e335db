package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math"
	"net"
	"strings"
	"time"

	"verif/simrt"
)

// P13: hostile peers on every listener, and a hostile upstream, beside
// ordinary sessions that must not notice.
//
// Three kinds of hostility: ordinary clients whose bytes are damaged on the
// way out (op keys with the prefix "x"), scripted clients that know the
// protocol and abuse it (evil-*), and peers that break off or fall silent at
// an arbitrary byte.

func init() {
	scenarios["P13"] = &Scenario{Gen: genP13, Setup: setupP13}
}

var evilKinds = []string{"evil-rtmp", "evil-rtmp", "evil-media", "evil-media", "evil-rtsp", "evil-http", "evil-srt", "evil-raw"}

func genP13(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	p.K["horizon"] = 1500
	// the ordinary sessions
	P := map[string]int64{"wait": 30, "linger": 100}
	streamKnobs(r, P)
	delete(P, "video")
	k := "pub"
	if r.Bool(0.3) {
		k = "rpub"
		rtspPubKnobs(r, P)
		P["udp"] = 0
	} else if r.Bool(0.3) {
		segKnobs(r, P)
	}
	P["cs"] = pick64(r, 0, 128, 4096, 65536)
	P["end"] = 0
	p.Ops = append(p.Ops, Op{K: k, I: 1, A: "live", N: "s", P: P})
	ms := P["wait"] + streamMs(P)
	n := 1 + r.Intn(2)
	for i := 0; i < n; i++ {
		o := Op{K: []string{"rtmp", "flv", "ws", "rtsp"}[r.Intn(4)], I: int64(10 + i), A: "live", N: "s", T: int64(30000 + r.Intn(int(ms/2+1))*1000 + r.Intn(1000)), P: map[string]int64{}}
		if o.K == "rtsp" {
			if P["hchg"] != 0 {
				o.K = "flv"
			} else {
				rtspKnobs(r, o.P)
				o.P["udp"] = 0
			}
		}
		p.Ops = append(p.Ops, o)
	}
	// the hostile ones
	n = 1 + r.Intn(5)
	for i := 0; i < n; i++ {
		o := Op{I: int64(100 + 10*i), A: []string{"live", "tv"}[r.Intn(2)], T: int64(30000 + r.Intn(int(ms)+500)*1000 + r.Intn(1000)), P: map[string]int64{}}
		o.N = []string{"s", fmt.Sprintf("hostile%d", i), "hostile0", "hostile1"}[r.Intn(4)]
		if o.N == "s" {
			o.A = "live"
			o.T += 700000 // the name is taken by then
		}
		if r.Bool(0.5) {
			o.K = []string{"xpub", "xpub", "xrpub", "xrtmp", "xflv", "xws", "xrtsp", "xhls", "xdash"}[r.Intn(9)]
			switch o.K {
			case "xpub", "xrpub":
				streamKnobs(r, o.P)
				if o.K == "xpub" {
					randChunking(r, o.P, true)
					o.P["end"] = pick64(r, 0, 1, 2)
					o.P["force"] = int64(r.Intn(2))
				} else {
					rtspPubKnobs(r, o.P)
				}
				if o.N == "s" && r.Bool(0.5) {
					o.N = fmt.Sprintf("hostile%d", i)
				}
			case "xrtsp":
				rtspKnobs(r, o.P)
				o.P["tear"] = pick64(r, 0, 100, 1000)
			case "xws":
				o.P["pings"] = 20
				o.P["big"], o.P["frag"] = 1, 1
				o.P["wsclose"] = pick64(r, 0, 300)
			case "xhls", "xdash":
				o.P["every"] = 100
				o.P["quit"] = 3000000
			}
			o.P["muts"] = pick64(r, 1, 1, 1, 2, 3, 8)
			o.P["mseed"] = int64(r.U64() >> 20)
			o.P["mat"] = int64(math.Exp(r.F() * math.Log(30000)))
			if (o.K == "xpub" || o.K == "xrtmp") && r.Bool(0.6) {
				o.P["mat"] += 3073
			}
			if o.P["muts"] == 1 && r.Bool(0.3) {
				o.P["mend"] = 1 + int64(r.Intn(3)) // break off there
			}
		} else {
			o.K = evilKinds[r.Intn(len(evilKinds))]
			o.P["eseed"] = int64(r.U64() >> 20)
			o.P["n"] = 1 + int64(r.Intn(25))
			o.P["gap"] = pick64(r, 0, 0, 3, 40)
			o.P["state"] = int64(r.Intn(6))
			o.P["end"] = int64(r.Intn(3))
			if o.K == "evil-media" && o.N == "s" {
				o.N = fmt.Sprintf("hostile%d", i)
			}
			if o.K == "evil-media" && r.Bool(0.2) {
				o.P["hevc"] = 1
			}
			if o.K == "evil-rtmp" && r.Bool(0.01) {
				o.P["deep"] = 16000000
			}
		}
		p.Ops = append(p.Ops, o)
	}
	if r.Bool(0.25) { // a hostile upstream
		for i := 0; i < 1+r.Intn(3); i++ {
			Q := map[string]int64{"wait": 50, "u": 0}
			streamKnobs(r, Q)
			randChunking(r, Q, true)
			Q["mode"] = int64(r.Pick(10, 1, 1, 1, 1, 1, 1, 1, 1))
			Q["muts"] = 1 + int64(r.Intn(3))
			Q["mseed"] = int64(r.U64() >> 20)
			Q["mat"] = int64(math.Exp(r.F() * math.Log(20000)))
			if r.Bool(0.7) {
				Q["mat"] += 3073
			}
			p.Ops = append(p.Ops, Op{K: "upstep", I: 0, A: "live", N: "pulled", P: Q})
		}
	}
	if r.Bool(0.12) { // more connections than there are descriptors
		p.K["fds"] = 40 + int64(r.Intn(30))
		n := p.K["fds"] + int64(r.Intn(20))
		o := Op{K: "evil-fds", I: 400, T: 400000 + 4*int64(p.Net.LatMax/time.Microsecond) + int64(r.Intn(int(ms)))*1000, P: map[string]int64{"n": n, "port": int64(r.Intn(6)), "for": pick64(r, 50, 500, 3000, 12000), "end": int64(r.Intn(2))}}
		if r.Bool(0.5) {
			o.P["knock"] = 1
		}
		p.Ops = append(p.Ops, o)
	}
	if r.Bool(0.4) { // somebody watches what the hostile publish
		for i := 0; i < 1+r.Intn(2); i++ {
			o := Op{K: []string{"xrtmp", "xflv", "xws", "xrtsp", "xhls", "xdash"}[r.Intn(6)], I: int64(300 + i), A: "live", N: fmt.Sprintf("hostile%d", r.Intn(2)), T: int64(r.Intn(int(ms)+500)) * 1000, P: map[string]int64{"retry": 1, "every": 200}}
			p.Ops = append(p.Ops, o)
		}
	}
	p.Ops = append(p.Ops, Op{K: "after", I: 2, A: "live", N: "after", P: map[string]int64{"frames": 30, "gop": 5, "fms": 33, "wait": 30, "linger": 50}})
	p.K["hls"] = int64(r.Intn(4))
	if k == "pub" && P["fms"] >= 100 {
		p.K["hls"] |= 1
		p.Ops = append(p.Ops, Op{K: "hls", I: 20, A: "live", N: "s", T: 700000, P: map[string]int64{"every": 300}})
	}
}

func setupP13(w *World) {
	h := w.plan.k("hls", 0)
	cfg := ServerCfg{Hls: h&1 != 0, Dash: h&2 != 0, Rtsp: true, Srt: true, SrtApp: "live", SrtStream: "hostile-srt"}
	hw := w.hostile()
	var u *upstream
	var lastT int64
	foul := false
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		if o.K == "upstep" {
			if u == nil {
				u = &upstream{w: hw, failed: map[int]time.Duration{}, app: o.A, nm: o.N, remote: "r", nodeN: "up"}
				u.node = w.s.Node("up", "10.0.0.50", true)
				cfg.Pulls = append(cfg.Pulls, [3]string{"rtmp://10.0.0.50/src/r", o.A, o.N})
				u.node.OnConn = func(c *simrt.TCPConn) {
					k := min(u.done, len(u.steps)-1)
					hw.spoil(u.steps[k], c, uint64(len(u.conns)))
				}
			}
			u.steps = append(u.steps, o)
		}
		if o.K[0] == 'x' || strings.HasPrefix(o.K, "evil") {
			lastT = max(lastT, o.T+1000*o.p("for", 0))
			if o.N == "s" && (o.K == "xpub" || o.K == "xrpub" || o.K == "evil-rtmp" || o.K == "evil-rtsp") {
				foul = true
			}
		}
	}
	w.startServer(cfg)
	hw.srv, hw.ports, hw.srtOn = w.srv, w.ports, w.srtOn
	w.srv.FDs = int(w.plan.k("fds", 0))
	if u != nil {
		w.s.GoOn(u.node, "upstream", u.listen)
		w.s.GoOn(u.node, "upstop", func() {
			for !hw.stop {
				simrt.Sleep(50 * time.Millisecond)
			}
			if u.lis != nil {
				u.lis.Close()
			}
		})
	}
	w.std()
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		node := w.client(o.I)
		if o.p("muts", 0) > 0 && o.K != "upstep" {
			n := uint64(0)
			node.OnConn = func(c *simrt.TCPConn) { n++; hw.spoil(o, c, n) }
			r := hw.rng(41, uint64(o.p("mseed", 0)))
			left := int(o.p("muts", 0))
			node.MutUDP = func(b []byte) []byte {
				if left == 0 || r.Intn(30) > 0 {
					return b
				}
				left--
				w.s.Faults["hostile_udp"]++
				return spoilOne(r, b, r.Intn(len(b)+1))
			}
		}
		switch o.K {
		case "xpub":
			hw.runPub(o, o.A, o.N)
		case "xrpub":
			hw.runRTSPPub(o, o.A, o.N)
		case "xrtmp", "xflv", "xws", "xrtsp":
			hw.runView(o, o.K[1:], o.A, o.N)
		case "xhls":
			hw.runHLS(o, o.A, o.N)
		case "xdash":
			hw.runDASH(o, o.A, o.N)
		case "evil-rtmp":
			hw.actor(node, "evil-rtmp", o.T, func() { hw.evilRTMP(o, node) })
		case "evil-media":
			hw.actor(node, "evil-media", o.T, func() { hw.evilMedia(o, node) })
		case "evil-rtsp":
			hw.actor(node, "evil-rtsp", o.T, func() { hw.evilRTSP(o, node) })
		case "evil-http":
			hw.actor(node, "evil-http", o.T, func() { hw.evilHTTP(o, node) })
		case "evil-srt":
			hw.actor(node, "evil-srt", o.T, func() { hw.evilSRT(o, node) })
		case "evil-fds":
			w.hold++ // done before "after"
			hw.actor(node, "evil-fds", o.T, func() { hw.evilFDs(o, node); w.hold-- })
		case "evil-raw":
			hw.actor(node, "evil-raw", o.T, func() { hw.evilRaw(o, node) })
		case "after":
			w.hold++
			w.actor(node, "after", 0, func() {
				defer func() { w.hold-- }()
				w.waitUntil(200*time.Second, func() bool {
					return w.stop || w.now() > time.Duration(lastT)*time.Microsecond+time.Second && (len(w.pubs) == 0 || w.pubs[0].Ended)
				})
				if w.stop {
					return
				}
				p := w.newSession(o.A, o.N, "rtmp", opStream(o), uint64(o.I))
				for i, k := range []string{"rtmp", "flv", "ws", "rtsp"} {
					if w.plan.Seed>>uint(i)&1 != 0 || i == 1 {
						w.runView(&Op{K: k, I: int64(60 + i), A: o.A, N: o.N, T: int64(w.now()/time.Microsecond) + 400000, P: map[string]int64{"retry": 1}}, k, o.A, o.N)
					}
				}
				w.rtmpPublish(o, p, node, w.rng(29, uint64(p.ID)))
				p.Ended = true
			})
		}
	}
	b := w.procBound() + 20*time.Second
	if w.plan.stalls() {
		b += 120 * time.Second
	}
	w.finishClean(700*time.Millisecond, b)
	w.done = append(w.done, func() {
		if foul && len(w.pubs) > 0 {
			// once the session is over, a hostile publisher may have its name
			var vs []*Viewer
			for _, v := range w.viewers {
				if v.Nm != "s" || v.State != "joined" || w.pubs[0].EndAt == 0 || v.AckAt > 0 && v.AckAt < w.pubs[0].EndAt && v.Proto != "rtsp" {
					vs = append(vs, v)
				}
			}
			w.viewers, w.hlsKeys = vs, nil
		}
		if full := w.srv.FDFull; len(full) > 0 {
			// whoever came meanwhile had to wait, or was turned away
			var vs []*Viewer
			for _, v := range w.viewers {
				ok := true
				for _, t := range full {
					t := time.Duration(t)
					ok = ok && !(t > time.Duration(v.Op.T)*time.Microsecond-time.Millisecond && (v.AckAt == 0 || t < v.AckAt))
				}
				if ok {
					vs = append(vs, v)
				}
			}
			w.viewers, w.hlsKeys = vs, nil
		}
		w.checkLive(true)
		w.checkAllHLS()
		// what was asked of the allocator stays in proportion to the input
		in := w.s.Tot.TCPBytes + 1500*w.s.Tot.UDPPackets
		w.ok("memory")
		if w.srv.Made > 512<<20+200*in {
			w.fail("memory", "the server allocated %d MB while %d MB were exchanged", w.srv.Made>>20, in>>20)
		}
	})
}

// ---- damage ------------------------------------------------------------------------

var oddBytes = []byte{0, 1, 2, 0x7f, 0x80, 0xc0, 0xfe, 0xff, '\r', '\n', ' ', '$', '-', ';', ':', '/', '.', 0x47}
var oddNums = []string{"-1", "0", "1", "65536", "4294967295", "4294967296", "99999999999999999999", "-9223372036854775808", "2147483648", "1e9", "0x7f", ""}

// spoilOne damages b near position i.
func spoilOne(r *simrt.Rand, b []byte, i int) []byte {
	if len(b) == 0 {
		return b
	}
	if i >= len(b) {
		i = len(b) - 1
	}
	n := 1 + r.Intn(16)
	switch r.Pick(4, 4, 2, 2, 2, 4, 4, 1) {
	case 0:
		b[i] ^= 1 << r.Intn(8)
	case 1:
		b[i] = oddBytes[r.Intn(len(oddBytes))]
	case 2: // insert
		x := make([]byte, n)
		for j := range x {
			x[j] = oddBytes[r.Intn(len(oddBytes))]
			if r.Bool(0.5) {
				x[j] = byte(r.U64())
			}
		}
		b = append(b[:i:i], append(x, b[i:]...)...)
	case 3: // drop
		b = append(b[:i:i], b[min(len(b), i+n):]...)
	case 4: // repeat
		j := min(len(b), i+1+r.Intn(200))
		b = append(b[:j:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
	case 5: // a number in binary
		v := []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xffffff, 0xffff, 0x8000, 0x10000}[r.Intn(9)]
		k := 2 + r.Intn(3)
		for j := 0; j < k && i+j < len(b); j++ {
			b[i+j] = byte(v >> uint(8*(k-1-j)))
		}
	case 6: // a number in text
		s := -1
		for j := i; j < len(b); j++ {
			if b[j] >= '0' && b[j] <= '9' {
				s = j
				break
			}
		}
		if s < 0 {
			b[i] ^= 0x80
			return b
		}
		e := s
		for e < len(b) && b[e] >= '0' && b[e] <= '9' {
			e++
		}
		b = append(b[:s:s], append([]byte(oddNums[r.Intn(len(oddNums))]), b[e:]...)...)
	case 7: // a line of a text protocol goes, or comes twice
		s := bytes.LastIndexByte(b[:i], '\n') + 1
		e := bytes.IndexByte(b[i:], '\n')
		if e < 0 {
			b[i] = 0xff
			return b
		}
		e += i + 1
		if r.Bool(0.5) {
			b = append(b[:s:s], b[e:]...)
		} else {
			b = append(b[:e:e], append(append([]byte(nil), b[s:e]...), b[e:]...)...)
		}
	}
	return b
}

// spoil damages what a connection sends, as the operation says.
func (w *World) spoil(o *Op, c *simrt.TCPConn, n uint64) {
	if o.p("muts", 0) == 0 {
		return
	}
	r := w.rng(40, uint64(o.p("mseed", 0)), n)
	next, left := o.p("mat", 0), o.p("muts", 0)
	if n > 1 { // later connections elsewhere
		next = int64(math.Exp(r.F() * math.Log(30000)))
	}
	var pos int64
	dead := false
	c.Mut = func(b []byte) ([]byte, func()) {
		if dead {
			return nil, nil
		}
		at := pos
		pos += int64(len(b))
		if left == 0 || next >= pos {
			return b, nil
		}
		for left > 0 && next < pos {
			i := int(max(0, next-at))
			if e := o.p("mend", 0); e > 0 {
				left = 0
				dead = true
				w.s.Faults["hostile_break"]++
				return b[:min(len(b), i)], func() {
					switch e {
					case 1:
						c.Reset()
					case 2:
						c.CloseWrite()
					}
				}
			}
			w.s.Faults["hostile_bytes"]++
			b = spoilOne(r, b, i)
			left--
			next += 1 + int64(math.Exp(r.F()*math.Log(3000)))
		}
		return b, nil
	}
}

// ---- scripted hostility ---------------------------------------------------------------

func (o *Op) evilRng(w *World) *simrt.Rand { return w.rng(42, uint64(o.p("eseed", 0))) }

func (w *World) evilEnd(o *Op, c *simrt.TCPConn, r *simrt.Rand) {
	simrt.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
	switch o.p("end", 0) {
	case 0:
		c.Close()
	case 1:
		c.Reset()
	default: // stays
		for !w.stop && w.now() < time.Duration(o.T)*time.Microsecond+20*time.Second {
			simrt.Sleep(50 * time.Millisecond)
		}
		c.Close()
	}
}

// drink reads whatever comes.
func drink(w *World, node *simrt.Node, c net.Conn) {
	w.s.GoOn(node, "drink", func() {
		b := make([]byte, 4096)
		for {
			if _, err := c.Read(b); err != nil {
				return
			}
		}
	})
}

func rnd(r *simrt.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

var u32odd = []uint32{0, 1, 2, 3, 4, 7, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x3fffffff, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff}

func odd32(r *simrt.Rand) uint32 {
	if r.Bool(0.2) {
		return uint32(r.U64())
	}
	return u32odd[r.Intn(len(u32odd))]
}

// evilAMF is one AMF0 value, seldom a sound one.
func evilAMF(r *simrt.Rand, depth int) []byte {
	switch r.Intn(20) {
	case 0, 1, 2:
		return amfEnc(float64(r.Intn(10)))
	case 3:
		return binary.BigEndian.AppendUint64([]byte{0}, []uint64{0x7ff0000000000000, 0x7ff8000000000001, 0xfff0000000000000, 0xc3e0000000000000, 0x7fefffffffffffff}[r.Intn(5)])
	case 4:
		return []byte{1, byte(r.Intn(3))}
	case 5, 6:
		return amfEnc([]string{"", "live", "s", "app", "x", "../x", strings.Repeat("y", 70000), "\x00", "hostile"}[r.Intn(9)])
	case 7, 8:
		return []byte{5 + byte(r.Intn(2))}
	case 9: // object
		b := []byte{3}
		for i := 0; i < r.Intn(4); i++ {
			k := []string{"app", "tcUrl", "", "level", "code", "width"}[r.Intn(6)]
			b = append(b, byte(len(k)>>8), byte(len(k)))
			b = append(b, k...)
			if depth < 6 {
				b = append(b, evilAMF(r, depth+1)...)
			}
		}
		if r.Bool(0.8) {
			b = append(b, 0, 0, 9)
		}
		return b
	case 10: // ECMA array
		b := binary.BigEndian.AppendUint32([]byte{8}, odd32(r))
		b = append(b, 0, 1, 'k')
		if depth < 6 {
			b = append(b, evilAMF(r, depth+1)...)
		}
		return append(b, 0, 0, 9)
	case 11: // strict array
		b := binary.BigEndian.AppendUint32([]byte{10}, odd32(r))
		for i := 0; i < r.Intn(4) && depth < 6; i++ {
			b = append(b, evilAMF(r, depth+1)...)
		}
		return b
	case 12: // long string, XML
		return append(binary.BigEndian.AppendUint32([]byte{[]byte{12, 15}[r.Intn(2)]}, odd32(r)), rnd(r, r.Intn(20))...)
	case 13: // string
		return append([]byte{2, byte(r.U64()), byte(r.U64())}, rnd(r, r.Intn(20))...)
	case 14: // date
		return append([]byte{11}, rnd(r, r.Intn(12))...)
	case 15: // typed object
		return append([]byte{16, 0, 1, 'T', 0, 1, 'k'}, append(evilAMF(r, depth+1), 0, 0, 9)...)
	case 16: // reference
		return []byte{7, byte(r.U64()), byte(r.U64())}
	case 17:
		return []byte{byte(r.U64())}
	case 18: // nested deep, within reason
		n := 1 + r.Intn(400)
		b := bytes.Repeat([]byte{10, 0, 0, 0, 1}, n)
		if r.Bool(0.5) {
			b = bytes.Repeat([]byte{3, 0, 1, 'k'}, n)
		}
		return b
	default:
		return rnd(r, r.Intn(12))
	}
}

var cmdNames = []string{"connect", "createStream", "publish", "play", "play2", "deleteStream", "closeStream", "FCPublish", "FCUnpublish", "releaseStream",
	"seek", "pause", "getStreamLength", "receiveAudio", "receiveVideo", "_result", "_error", "onStatus", "call", "_checkbw", "onBWDone", "@setDataFrame", "onMetaData", "", "nonsense"}

func evilCommand(r *simrt.Rand, o *Op) []byte {
	var b []byte
	if r.Bool(0.9) {
		b = amfEnc(cmdNames[r.Intn(len(cmdNames))])
	} else {
		b = evilAMF(r, 0)
	}
	if r.Bool(0.9) {
		b = append(b, amfEnc(float64(r.Intn(8)))...)
	}
	for i := 0; i < r.Intn(5); i++ {
		switch r.Intn(4) {
		case 0:
			b = append(b, amfEnc(nil)...)
		case 1:
			b = append(b, amfEnc(o.N)...)
		case 2:
			b = append(b, amfEnc(map[string]any{"app": o.A, "tcUrl": "rtmp://s/" + o.A})...)
		default:
			b = append(b, evilAMF(r, 0)...)
		}
	}
	if r.Bool(0.2) {
		b = b[:r.Intn(len(b)+1)]
	}
	return b
}

// evilMsg is an RTMP message nobody should send.
func (w *World) evilMsg(r *simrt.Rand, o *Op) *outMsg {
	m := &outMsg{csid: uint32([]int{2, 3, 4, 5, 6, 63, 64, 319, 320, 65599}[r.Intn(10)]), msid: uint32(r.Intn(3)), ts: odd32(r)}
	switch r.Intn(12) {
	case 0, 1, 2, 3:
		m.typ, m.body = 20, evilCommand(r, o)
		if r.Bool(0.1) {
			m.typ = 17
		}
	case 4: // control, short or odd
		m.typ = byte(1 + r.Intn(6))
		m.csid = 2
		m.body = binary.BigEndian.AppendUint32(nil, odd32(r))
		if m.typ == 6 {
			m.body = append(m.body, byte(r.Intn(5)))
		}
		if m.typ == 4 {
			m.body = append([]byte{0, byte(r.Intn(40))}, m.body...)
		}
		if r.Bool(0.3) {
			m.body = m.body[:r.Intn(len(m.body)+1)]
		}
	case 5: // script data
		m.typ = []byte{18, 15}[r.Intn(2)]
		m.body = evilCommand(r, o)
	case 6: // any type
		m.typ = byte(r.Intn(40))
		m.body = rnd(r, r.Intn(30))
	case 7: // aggregate
		m.typ = 22
		for i := 0; i < 1+r.Intn(4); i++ {
			n := r.Intn(20)
			h := append([]byte{[]byte{8, 9, 18, 22, 20, 1, 0}[r.Intn(7)], 0, 0, byte(n), 0, 0, 0, 0, 0, 0, 0}, rnd(r, n)...)
			h = append(h, 0, 0, 0, byte(n+11))
			if r.Bool(0.3) {
				h = spoilOne(r, h, r.Intn(11))
			}
			m.body = append(m.body, h...)
		}
		if r.Bool(0.3) && len(m.body) > 0 {
			m.body = m.body[:r.Intn(len(m.body))]
		}
	case 8: // tiny media
		m.typ = []byte{8, 9}[r.Intn(2)]
		m.body = []byte{[]byte{0x17, 0x27, 0xaf, 0x1c, 0x2c, 0x90, 0x97, 0x00, 0xff, 0x57}[r.Intn(10)], byte(r.Intn(4)), 0, 0, 0}
		m.body = m.body[:r.Intn(6)]
	case 9: // configurations
		m.typ = 9
		rec, _, _ := avcConfig(r.Intn(4), r.Bool(0.5))
		if r.Bool(0.3) {
			rec, _, _, _ = hevcConfig(r.Intn(4), r.Bool(0.5))
			m.body = videoBody(1, true, 0, 0, evilBytes(r, rec))
		} else {
			m.body = videoBody(1, false, 0, 0, evilBytes(r, rec))
		}
	case 10:
		m.typ = 8
		m.body = append([]byte{0xaf, 0}, evilBytes(r, aacConfig(r.Intn(4)))...)
	case 11: // a frame whose NAL lengths lie
		m.typ = 9
		m.body = videoBody(byte(1+r.Intn(5)), r.Bool(0.2), byte(r.Intn(4)), int32(r.U64()), append(binary.BigEndian.AppendUint32(nil, odd32(r)), rnd(r, r.Intn(40))...))
	}
	return m
}

// evilBytes damages a structure near its beginning.
func evilBytes(r *simrt.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for i := 0; i < 1+r.Intn(3); i++ {
		switch r.Intn(5) {
		case 0:
			if len(b) > 0 {
				b = b[:r.Intn(len(b)+1)]
			}
		default:
			b = spoilOne(r, b, r.Intn(len(b)+1))
		}
	}
	return b
}

func (w *World) evilRTMP(o *Op, node *simrt.Node) {
	r := o.evilRng(w)
	rc, err := w.dialRTMP(node, "10.0.0.1:1935", "evil", r)
	if err != nil {
		return
	}
	w.s.Faults["hostile_rtmp"]++
	defer w.evilEnd(o, rc.c, r)
	st := o.p("state", 0)
	if st == 0 && r.Bool(0.3) { // no proper handshake
		drink(w, node, rc.c)
		b := rnd(r, 1537+1536)
		b[0] = byte(r.Intn(8))
		if r.Bool(0.5) {
			copy(b[1:], bytes.Repeat([]byte{0xff}, 800))
		}
		rc.write(b[:1+r.Intn(len(b))])
		return
	}
	if rc.shake(r.Intn(3), r.Bool(0.5)) != nil {
		return
	}
	w.actor(node, "evil-rd", 0, rc.readLoop)
	wait := func(f func(x *reply) bool) { rc.waitReply(2*time.Second, f) }
	if st >= 1 {
		rc.cmd("connect", 1.0, map[string]any{"app": o.A, "tcUrl": "rtmp://s/" + o.A})
		wait(func(x *reply) bool { return x.Txn == 1 })
	}
	if st >= 2 {
		rc.cmd("createStream", 2.0, nil)
		wait(func(x *reply) bool { return x.Txn == 2 })
	}
	switch {
	case st == 3 || st == 5:
		rc.cmd("publish", 3.0, nil, o.N, "live")
		wait(func(x *reply) bool { return x.Name == "onStatus" })
	case st == 4:
		rc.cmd("play", 3.0, nil, o.N)
		wait(func(x *reply) bool { return x.Name == "onStatus" })
	}
	if n := o.p("deep", 0); n > 0 {
		w.s.Faults["hostile_deep"]++
		u := []byte{10, 0, 0, 0, 1}
		if r.Bool(0.5) {
			u = []byte{3, 0, 1, 'k'}
		}
		b := bytes.Repeat(u, int(n)/len(u))
		rc.write(rc.out.one(rc.out.setSize(1 << 24)))
		rc.write(rc.out.one(&outMsg{typ: 20, csid: 3, body: append(append(amfEnc("connect"), amfEnc(1.0)...), b...)}))
		return
	}
	for i := 0; i < int(o.p("n", 1)) && !w.stop && !rc.RdDone; i++ {
		var b []byte
		switch {
		case r.Bool(0.06): // an announced giant on ever new chunk streams
			for k := 0; k < 30; k++ {
				cs := 64 + r.Intn(65000)
				b = append(b, 1, byte(cs-64), byte((cs-64)>>8), 0, 0, 0, 0xff, 0xff, 0xff, 9, 1, 0, 0, 0)
				b = append(b, rnd(r, min(rc.out.size, 128))...)
			}
		case r.Bool(0.05): // a chunk of a stream never begun
			b = append([]byte{0xc0 | byte(r.Intn(64))}, rnd(r, r.Intn(200))...)
		default:
			m := w.evilMsg(r, o)
			if m.typ == 1 && len(m.body) >= 4 {
				v := binary.BigEndian.Uint32(m.body)
				if v > 0 && v < 1<<31 && r.Bool(0.7) {
					m.newSz = int(v)
				}
			}
			if len(m.body) == 0 && r.Bool(0.5) {
				m.body = []byte{0}
			}
			b = rc.out.one(m)
			if len(m.body) == 0 {
				b = rc.out.chunk(m)
			}
		}
		if r.Bool(0.05) {
			b = spoilOne(r, b, r.Intn(14))
		}
		if rc.write(b) != nil {
			return
		}
		if g := o.p("gap", 0); g > 0 {
			simrt.Sleep(time.Duration(r.Intn(int(g)*1000)) * time.Microsecond)
		}
	}
}

// evilMedia publishes a stream some of whose messages are damaged inside.
func (w *World) evilMedia(o *Op, node *simrt.Node) {
	r := o.evilRng(w)
	rc, err := w.dialRTMP(node, "10.0.0.1:1935", "evil", r)
	if err != nil {
		return
	}
	w.s.Faults["hostile_media"]++
	defer w.evilEnd(o, rc.c, r)
	if rc.shake(0, false) != nil {
		return
	}
	w.actor(node, "evil-rd", 0, rc.readLoop)
	rc.write(rc.out.one(rc.out.setSize(65536)))
	rc.cmd("connect", 1.0, map[string]any{"app": o.A, "tcUrl": "rtmp://s/" + o.A})
	rc.waitReply(2*time.Second, func(x *reply) bool { return x.Txn == 1 })
	rc.cmd("createStream", 2.0, nil)
	rc.waitReply(2*time.Second, func(x *reply) bool { return x.Txn == 2 })
	rc.cmd("publish", 3.0, nil, o.N, "live")
	rc.waitReply(2*time.Second, func(x *reply) bool { return x.Name == "onStatus" })
	sp := opStream(&Op{P: map[string]int64{"frames": 20 + int64(r.Intn(60)), "gop": int64(1 + r.Intn(6)), "fms": pick64(r, 40, 300, 1000), "ams": pick64(r, 23, 300), "hevc": o.p("hevc", 0),
		"hchg": int64(r.Intn(2)), "hdr": int64(r.Intn(6)), "cts": 1, "inband": int64(r.Intn(2)), "rich": int64(r.Intn(2)), "nals": 1 + int64(r.Intn(3))}})
	p := w.newSession(o.A, o.N, "evil", sp, uint64(o.I))
	rate := []int{2, 10, 50}[r.Intn(3)]
	lies := r.Bool(0.2)
	for _, t := range p.Tags {
		if w.stop || rc.RdDone {
			return
		}
		b, ts, typ := t.B, t.Ts, t.T
		n := rate
		if t.Kind == kVHdr || t.Kind == kAHdr || t.Kind == kMeta {
			n = 50
		}
		if r.Intn(100) < n {
			switch r.Intn(5) {
			case 0:
				b = append([]byte(nil), b[:min(len(b), r.Intn(20))]...)
			case 1: // NAL lengths
				b = append([]byte(nil), b...)
				if len(b) > 9 {
					binary.BigEndian.PutUint32(b[5:], odd32(r))
				}
			default:
				k := len(b)
				if r.Bool(0.7) {
					k = min(k, 24)
				}
				b = spoilOne(r, append([]byte(nil), b...), r.Intn(k+1))
			}
		}
		if lies && r.Bool(0.2) {
			ts = odd32(r)
		}
		simrt.Sleep(t.Pace)
		if len(b) == 0 {
			b = []byte{0}
		}
		if rc.write(rc.out.one(&outMsg{typ: typ, csid: uint32(typ), msid: 1, ts: ts, body: b})) != nil {
			return
		}
	}
}

func (w *World) evilRTSP(o *Op, node *simrt.Node) {
	r := o.evilRng(w)
	cc, err := simrt.DialTimeout("tcp", fmt.Sprintf("10.0.0.1:%d", portRTSP), 10*time.Second)
	if err != nil {
		return
	}
	w.s.Faults["hostile_rtsp"]++
	c := cc.(*simrt.TCPConn)
	drink(w, node, c)
	defer w.evilEnd(o, c, r)
	num := func() string {
		if r.Bool(0.5) {
			return fmt.Sprint(r.Intn(6))
		}
		return oddNums[r.Intn(len(oddNums))]
	}
	url := func() string {
		base := []string{"rtsp://s/" + o.A + "/" + o.N, "rtsp://s:554/" + o.A + "/" + o.N + "/trackID=" + num(), "*", "", "/", "rtsp://", "rtsp:///", "/" + o.A + "/" + o.N, "rtsp://s/" + o.A,
			"rtsp://s/" + o.A + "/" + o.N + "/streamid=" + num(), "rtsp://s/%zz/x", "rtsp://s/" + o.A + "/" + o.N + "/../x"}
		if r.Bool(0.6) {
			return base[r.Intn(2)]
		}
		return base[r.Intn(len(base))]
	}
	sdp := func() string {
		cfg := []string{"1190", "", "zz", "11", "ffffffff"}[r.Intn(5)]
		_, sps, pps := avcConfig(r.Intn(3), false)
		sp := base64.StdEncoding.EncodeToString(evilBytes(r, sps)) + "," + base64.StdEncoding.EncodeToString(pps)
		if r.Bool(0.3) {
			sp = []string{"", ",", "!!!", "AA==", "Z0IA,,aM4=", "Zw==,aA=="}[r.Intn(6)]
		}
		l := []string{"v=0", "o=- 0 0 IN IP4 127.0.0.1", "s=x", "c=IN IP4 0.0.0.0", "t=0 0",
			"m=video " + num() + " RTP/AVP " + []string{"96", num(), "96 97", ""}[r.Intn(4)],
			"a=rtpmap:96 H264/" + []string{"90000", num()}[r.Intn(2)],
			"a=fmtp:96 packetization-mode=" + num() + ";sprop-parameter-sets=" + sp, "a=control:" + []string{"trackID=0", "", "*", url()}[r.Intn(4)],
			"m=audio 0 RTP/AVP 97", "a=rtpmap:97 MPEG4-GENERIC/" + []string{"44100/2", "0", num() + "/" + num(), "", "/"}[r.Intn(5)],
			"a=fmtp:97 streamtype=5;mode=AAC-hbr;config=" + cfg + ";SizeLength=" + []string{"13", num()}[r.Intn(2)] + ";IndexLength=3;IndexDeltaLength=" + []string{"3", num()}[r.Intn(2)], "a=control:trackID=1"}
		for i := 0; i < r.Intn(3); i++ {
			k := r.Intn(len(l))
			switch r.Intn(3) {
			case 0:
				l = append(l[:k:k], l[k+1:]...)
			case 1:
				l[k] = string(spoilOne(r, []byte(l[k]), r.Intn(len(l[k])+1)))
			case 2:
				l = append(l, l[k])
			}
		}
		return strings.Join(l, "\r\n") + "\r\n"
	}
	tr := func() string {
		return []string{"RTP/AVP/TCP;unicast;interleaved=" + num() + "-" + num(), "RTP/AVP/TCP;unicast;interleaved=0-1", "RTP/AVP/TCP;interleaved=" + num(), "RTP/AVP/TCP", "RTP/AVP;unicast;client_port=" + num() + "-" + num(), "RTP/AVP;unicast;client_port=5000-5001",
			"RTP/AVP;multicast", "", "RTP/AVP/TCP;unicast;interleaved=-", "RTP/AVP;unicast;client_port=", "RAW/RAW/UDP", "RTP/AVP/TCP;unicast;interleaved=2-3;mode=record"}[r.Intn(12)]
	}
	ms := []string{"OPTIONS", "DESCRIBE", "ANNOUNCE", "ANNOUNCE", "SETUP", "SETUP", "SETUP", "PLAY", "RECORD", "PAUSE", "TEARDOWN", "GET_PARAMETER", "SET_PARAMETER", "REDIRECT", "X", ""}
	frame := func() []byte {
		n := r.Intn(60)
		pl := rnd(r, n)
		switch r.Intn(6) {
		case 0: // FU-A
			pl = append([]byte{28, []byte{0x85, 0x05, 0x45, 0xc5, 0x00, 0xff}[r.Intn(6)]}, pl...)
		case 1: // STAP-A
			pl = append([]byte{24, 0, byte(r.Intn(80))}, pl...)
		case 2: // AAC
			pl = append([]byte{0, byte(r.Intn(64)), byte(r.U64()), byte(r.U64())}, pl...)
		case 3:
			pl = append([]byte{byte(r.U64())}, pl[:r.Intn(len(pl)+1)]...)
		}
		b := []byte{byte(0x80 | r.Intn(2)*r.Intn(64)), byte(96 + r.Intn(3)), 0, byte(r.Intn(9))}
		b = append(b, rnd(r, 8)...)
		b = append(b, pl...)
		if r.Bool(0.2) {
			b = b[:r.Intn(len(b)+1)]
		}
		return append([]byte{'$', byte(r.Intn(5)), byte(len(b) >> 8), byte(len(b))}, b...)
	}
	for i := 0; i < int(o.p("n", 1)) && !w.stop; i++ {
		var b []byte
		if i < 4 && o.p("state", 0) >= 3 { // first be recorded, or play
			u := "rtsp://s/" + o.A + "/" + o.N
			good := "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=x\r\nt=0 0\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1\r\na=control:trackID=0\r\nm=audio 0 RTP/AVP 97\r\na=rtpmap:97 MPEG4-GENERIC/44100/2\r\na=fmtp:97 mode=AAC-hbr;config=1210;SizeLength=13;IndexLength=3;IndexDeltaLength=3\r\na=control:trackID=1\r\n"
			if r.Bool(0.4) {
				good = sdp()
			}
			req := []string{fmt.Sprintf("ANNOUNCE %s RTSP/1.0\r\nCSeq: 1\r\nContent-Type: application/sdp\r\nContent-Length: %d\r\n\r\n%s", u, len(good), good),
				"SETUP " + u + "/trackID=0 RTSP/1.0\r\nCSeq: 2\r\nTransport: RTP/AVP/TCP;unicast;interleaved=0-1;mode=record\r\n\r\n",
				"SETUP " + u + "/trackID=1 RTSP/1.0\r\nCSeq: 3\r\nTransport: RTP/AVP/TCP;unicast;interleaved=2-3;mode=record\r\n\r\n",
				"RECORD " + u + " RTSP/1.0\r\nCSeq: 4\r\nSession: 1\r\n\r\n"}
			if o.p("state", 0) == 5 {
				req[0] = "DESCRIBE " + u + " RTSP/1.0\r\nCSeq: 1\r\n\r\n"
				req[3] = "PLAY " + u + " RTSP/1.0\r\nCSeq: 4\r\n\r\n"
			}
			b = []byte(req[i])
		} else if r.Bool(0.5) && o.p("state", 0) >= 2 {
			b = frame()
		} else {
			m := ms[r.Intn(len(ms))]
			body := ""
			if m == "ANNOUNCE" || r.Bool(0.1) {
				body = sdp()
			}
			s := m + " " + url() + []string{" RTSP/1.0", " RTSP/1.0", " RTSP/1.0", " HTTP/1.1", ""}[r.Intn(5)] + "\r\n"
			if r.Bool(0.9) {
				s += "CSeq: " + num() + "\r\n"
			}
			if m == "SETUP" || r.Bool(0.1) {
				s += "Transport: " + tr() + "\r\n"
			}
			if r.Bool(0.3) {
				s += "Session: " + num() + "\r\n"
			}
			switch {
			case len(body) > 0 && r.Bool(0.7):
				s += fmt.Sprintf("Content-Length: %d\r\n", len(body))
			case r.Bool(0.15):
				s += "Content-Length: " + num() + "\r\n"
			}
			if r.Bool(0.1) {
				s += []string{":\r\n", "x\r\n", strings.Repeat("h", 9000) + ": 1\r\n", " : \r\n"}[r.Intn(4)]
			}
			b = []byte(s + "\r\n" + body)
		}
		if r.Bool(0.1) {
			b = spoilOne(r, b, r.Intn(len(b)+1))
		}
		if _, err := c.Write(b); err != nil {
			return
		}
		if g := o.p("gap", 0); g > 0 {
			simrt.Sleep(time.Duration(r.Intn(int(g)*1000)) * time.Microsecond)
		}
	}
}

func (w *World) evilHTTP(o *Op, node *simrt.Node) {
	r := o.evilRng(w)
	w.s.Faults["hostile_http"]++
	for i := 0; i < int(o.p("n", 1)) && !w.stop; i++ {
		port := []int{portFLV, portHLS, portHLS}[r.Intn(3)]
		if !w.srv.Listening(port) {
			port = portFLV
		}
		cc, err := simrt.DialTimeout("tcp", fmt.Sprintf("10.0.0.1:%d", port), 10*time.Second)
		if err != nil {
			return
		}
		c := cc.(*simrt.TCPConn)
		drink(w, node, c)
		paths := []string{"/", "", "//", "/live", "/live/", "/live//", "/live/s", "/live/.flv", "/live/s.flv.flv", "/a/b/c/d/e.flv", "/nope/s.flv", "/live/s/index.m3u8", "/live/s/", "/live/s/x.ts", "/live/s/s-0.ts", "/live//index.m3u8",
			"/live/s/index.mpd", "/live/s/s-init.mp4", "/live/s/s-1.m4s", "/live/s/s--1.m4s", "/live/s/.ts", "/live/s/..ts", "/%2e%2e/x.ts", "/live/nope/index.m3u8", "*", "/live/s/index.m3u8/", "/x.flv", "/.flv", "/live/" + strings.Repeat("z", 3000) + ".flv"}
		path := paths[r.Intn(len(paths))]
		if r.Bool(0.5) {
			path += "?_HLS_msn=" + oddNums[r.Intn(len(oddNums)-1)] + "&_HLS_part=" + oddNums[r.Intn(len(oddNums)-1)]
			path = strings.ReplaceAll(path, " ", "")
		}
		s := []string{"GET", "GET", "GET", "POST", "HEAD", "OPTIONS", "PUT"}[r.Intn(7)] + " " + path + " HTTP/1.1\r\nHost: s\r\n"
		if r.Bool(0.5) {
			h := []string{"Upgrade: websocket", "Connection: Upgrade", "Sec-WebSocket-Key: " + []string{"", "x", "dGhlIHNhbXBsZSBub25jZQ=="}[r.Intn(3)], "Sec-WebSocket-Version: " + []string{"13", "8", "-1", ""}[r.Intn(4)], "Upgrade: h2c", "Range: bytes=" + oddNums[r.Intn(len(oddNums))] + "-", "Range: bytes=0-0,1-1,2-", "Content-Length: 5"}
			for _, x := range h {
				if r.Bool(0.6) {
					s += x + "\r\n"
				}
			}
		}
		b := []byte(s + "\r\n")
		if r.Bool(0.4) {
			b = append(b, rnd(r, r.Intn(300))...)
		}
		if r.Bool(0.1) {
			b = spoilOne(r, b, r.Intn(len(b)))
		}
		if r.Bool(0.1) {
			b = b[:r.Intn(len(b))]
		}
		c.Write(b)
		simrt.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
		switch r.Intn(3) {
		case 0:
			c.Reset()
		default:
			c.Close()
		}
	}
}

// evilRaw sends noise to any listener.
func (w *World) evilRaw(o *Op, node *simrt.Node) {
	r := o.evilRng(w)
	w.s.Faults["hostile_noise"]++
	ports := w.ports
	for i := 0; i < min(6, int(o.p("n", 1))) && !w.stop; i++ {
		cc, err := simrt.DialTimeout("tcp", fmt.Sprintf("10.0.0.1:%d", ports[r.Intn(len(ports))]), 10*time.Second)
		if err != nil {
			return
		}
		c := cc.(*simrt.TCPConn)
		if r.Bool(0.5) {
			drink(w, node, c)
		}
		b := rnd(r, int(math.Exp(r.F()*math.Log(5000))))
		if r.Bool(0.5) && len(b) > 0 {
			b[0] = []byte{3, '$', 'G', 0}[r.Intn(4)]
		}
		c.Write(b)
		simrt.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
		switch r.Intn(3) {
		case 0:
			c.Reset()
		default:
			c.Close()
		}
	}
}

// evilTS is a transport stream with something wrong in most packets.
func evilTS(r *simrt.Rand, n int) []byte {
	var out []byte
	pids := []int{0, 0x1000, 0x100, 0x101, 0x1fff}
	for i := 0; i < n; i++ {
		pid := pids[r.Intn(len(pids))]
		if i < 2 && r.Bool(0.8) {
			pid = pids[i]
		}
		p := make([]byte, 188)
		for j := range p {
			p[j] = 0xff
		}
		p[0], p[1], p[2], p[3] = 0x47, byte(pid>>8), byte(pid), 0x10|byte(i&15)
		if r.Bool(0.7) {
			p[1] |= 0x40
		}
		body := p[4:]
		if r.Bool(0.3) {
			p[3] |= 0x20
			n := r.Intn(186)
			p[4] = byte(n)
			if r.Bool(0.2) {
				p[4] = byte(r.U64())
				n = 0
			}
			if n < 183 {
				body = p[5+n:]
			} else {
				body = p[187:]
			}
		}
		put := func(b ...byte) { body = body[copy(body, b):] }
		switch pid {
		case 0:
			put(0, 0, 0xb0, 13, 0, 1, 0xc1, 0, 0, 0, 1, 0xf0, 0x00, 1, 2, 3, 4)
		case 0x1000:
			put(0, 2, 0xb0, 23, 0, 1, 0xc1, 0, 0, 0xe1, 0, 0xf0, 0, []byte{0x1b, 0x24}[r.Intn(2)], 0xe1, 0, 0xf0, 0, 0x0f, 0xe1, 1, 0xf0, 0, 1, 2, 3, 4)
		case 0x100, 0x101:
			put(0, 0, 1, 0xe0, 0, 0, 0x80)
			switch r.Intn(3) {
			case 0:
				put(0x80, 5, 0x21, 0, 1, 0, 1)
			case 1:
				put(0xc0, 10, 0x31, 0, 9, 0, 1, 0x11, 0, 1, 0, 1)
			case 2:
				put(0, 0)
			}
			if pid == 0x100 {
				_, sps, pps := avcConfig(r.Intn(3), false)
				if r.Bool(0.4) {
					sps = sps[:r.Intn(5)]
				}
				if r.Bool(0.4) {
					pps = pps[:r.Intn(2)]
				}
				for _, x := range [][]byte{{9, 0xf0}, append([]byte(nil), sps...), pps, {0x65, 1, 2}, {}, {0x41}} {
					if r.Bool(0.7) {
						put(0, 0, 1)
						put(x...)
					}
				}
			} else {
				put(0xff, 0xf1, byte(r.U64()), byte(r.U64()), byte(r.U64()), byte(r.U64()), 0xfc, 1, 2, 3)
			}
		}
		if r.Bool(0.4) {
			p = spoilOne(r, p, r.Intn(30))
		}
		out = append(out, p...)
	}
	if r.Bool(0.1) {
		out = out[:r.Intn(len(out))]
	}
	return out
}

func (w *World) evilSRT(o *Op, node *simrt.Node) {
	r := o.evilRng(w)
	w.s.Faults["hostile_srt"]++
	u, err := simrt.ListenUDP("udp", &net.UDPAddr{Port: 21000 + int(o.I)})
	if err != nil {
		return
	}
	to := &net.UDPAddr{IP: net.ParseIP("10.0.0.1"), Port: portSRT}
	var cookie, dest uint32
	up := false
	w.s.GoOn(node, "srt-rd", func() {
		b := make([]byte, 2048)
		for {
			n, _, err := u.ReadFromUDP(b)
			if err != nil {
				return
			}
			if n >= 64 && binary.BigEndian.Uint32(b) == 1<<31 {
				if int32(binary.BigEndian.Uint32(b[36:])) == 1 {
					cookie = binary.BigEndian.Uint32(b[44:])
				} else {
					up = true
				}
				dest = binary.BigEndian.Uint32(b[40:])
			}
		}
	})
	defer u.Close()
	sock, isn := uint32(r.U64())|1, uint32(r.U64())&srtMask
	u.WriteToUDP(srtCtl(0, 0, 0, 0, srtHS(4, isn, 1, sock, 0)), to)
	w.waitUntil(time.Second, func() bool { return cookie != 0 })
	u.WriteToUDP(srtCtl(0, 0, 0, 0, srtHS(5, isn, -1, sock, cookie)), to)
	w.waitUntil(time.Second, func() bool { return up })
	for i := 0; i < 4*int(o.p("n", 1)) && !w.stop; i++ {
		var b []byte
		if r.Bool(0.15) {
			b = srtJunk(r, dest)
		} else {
			b = binary.BigEndian.AppendUint32(nil, (isn+uint32(i))&srtMask)
			b = binary.BigEndian.AppendUint32(b, 0xc0000001)
			b = binary.BigEndian.AppendUint32(b, uint32(i))
			b = binary.BigEndian.AppendUint32(b, dest)
			b = append(b, evilTS(r, 1+r.Intn(7))...)
		}
		if r.Bool(0.05) {
			b = spoilOne(r, b, r.Intn(len(b)+1))
		}
		u.WriteToUDP(b, to)
		simrt.Sleep(time.Duration(r.Intn(3000)+int(o.p("gap", 0))*100) * time.Microsecond)
	}
	u.WriteToUDP(srtCtl(5, 0, 0, dest, make([]byte, 4)), to)
}

// evilFDs opens more connections than the server has descriptors for, and
// leaves them alone for a while.
func (w *World) evilFDs(o *Op, node *simrt.Node) {
	ports := []int{portRTMP, portFLV, portHLS, portRTSP, portRTMP, portRTSP}
	var cs []*simrt.TCPConn
	n := 0
	port := ports[o.p("port", 0)%6]
	for i := int64(0); i < o.p("n", 50); i++ {
		n++
		w.s.GoOn(node, "evil-fd", func() {
			defer func() { n-- }()
			c, err := simrt.DialTimeout("tcp", fmt.Sprintf("10.0.0.1:%d", port), 20*time.Second)
			if err == nil {
				cs = append(cs, c.(*simrt.TCPConn))
			}
		})
		simrt.Sleep(time.Millisecond)
	}
	w.s.Faults["hostile_fds"]++
	end := w.now() + time.Duration(o.p("for", 0))*time.Millisecond
	for i := 0; w.now() < end && !w.stop; i++ {
		if o.p("knock", 0) != 0 { // on every door
			if c, err := simrt.DialTimeout("tcp", fmt.Sprintf("10.0.0.1:%d", ports[i%4]), time.Second); err == nil {
				cs = append(cs, c.(*simrt.TCPConn))
			}
		}
		simrt.Sleep(100 * time.Millisecond)
	}
	w.waitUntil(60*time.Second, func() bool { return n == 0 })
	for _, c := range cs {
		if o.p("end", 0) != 0 {
			c.Reset()
		} else {
			c.Close()
		}
	}
	simrt.Sleep(100*time.Millisecond + 4*w.plan.Net.LatMax)
}
