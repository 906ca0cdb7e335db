package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"verif/simrt"
)

// ---- RTSP publisher -------------------------------------------------------------------

// pubTrack is one track of an RTSP publisher.
type pubTrack struct {
	Audio   bool
	Clock   int
	PT      byte
	SSRC    uint32
	Seq     uint16
	seq0    uint16
	Base    uint32 // RTP timestamp of media time 0
	Ctl     string
	Ch      int // interleaved channel, or -1
	UDP     *simrt.UDPConn
	SrvPort int
	n       int       // packets sent
	units   []pubUnit // what each unit took
	arrived []int     // packet numbers in order of arrival at the server
}

type pubUnit struct {
	t    *Tag
	a, b int // first and last packet
}

type rtspPub struct {
	C  *rtspC
	Tr []*pubTrack
}

// rtspTags gives a session the tags the server makes of the media: decoder
// configurations at time 0 and audio on the sample clock.
func rtspTags(p *Session) {
	var hs, fs []*Tag
	n := int64(0)
	rate := int64(44100)
	mono := p.SP.Mono
	for _, t := range p.Tags {
		switch t.Kind {
		case kVHdr:
			rec := t.B[5:]
			l := int(binary.BigEndian.Uint16(rec[6:]))
			sps := rec[8 : 8+l]
			m := int(binary.BigEndian.Uint16(rec[9+l:]))
			pps := rec[11+l : 11+l+m]
			c := []byte{1, sps[1], sps[2], sps[3], 0xff, 0xe1, byte(l >> 8), byte(l)}
			c = append(append(c, sps...), 1, byte(m>>8), byte(m))
			t.B = videoBody(1, false, 0, 0, append(c, pps...))
			t.Ts = 0
			hs = append([]*Tag{t}, hs...)
		case kAHdr:
			t.Ts = 0
			mono = mono || t.B[3]>>3&15 == 1
			rate = int64(aacRates[(int(t.B[2])&7)<<1|int(t.B[3])>>7])
			hs = append(hs, t)
		case kAudio:
			t.Ts = p.SP.BaseTs + uint32(n*1024*1000/rate)
			t.Samp = n * 1024
			n++
			fs = append(fs, t)
		default:
			fs = append(fs, t)
		}
		if mono && t.T == 8 {
			t.B[0] = 0xae
		}
	}
	p.Tags = append(hs, fs...)
	for i, t := range p.Tags {
		t.Idx = i
	}
}

func (w *World) newRTSPPub(o *Op, app, nm string) (*Session, func()) {
	sp := opStream(o)
	sp.EOS = 0
	sp.MetaOn, sp.HEVC, sp.Cts, sp.HdrChange, sp.RepeatHdr, sp.MetaChange, sp.JunkData, sp.LateHdr = false, false, false, 0, false, false, false, false
	sp.Mono = o.p("mono", 0) != 0
	p := w.newSession(app, nm, "rtsp", sp, uint64(o.I))
	node := w.client(o.I)
	r := w.rng(15, uint64(o.I), uint64(p.ID))
	return p, func() {
		w.rtspPublish(o, p, node, r)
		p.Ended = true
		if p.EndAt == 0 {
			p.EndAt = w.now()
			w.s.Arm()
		}
		w.logf("pub %d %s/%s (rtsp) ends: %s %s err=%q tags=%d/%d", p.ID, p.App, p.Nm, p.State, p.EndKind, p.Err, len(p.Pub), len(p.Tags))
	}
}

func (w *World) runRTSPPub(o *Op, app, nm string) *Session {
	p, run := w.newRTSPPub(o, app, nm)
	w.actor(w.client(o.I), fmt.Sprintf("pub%d", p.ID), o.T, run)
	return p
}

func (w *World) rtspPublish(o *Op, p *Session, node *simrt.Node, r *simrt.Rand) {
	fail := func(f string, a ...any) {
		if p.Err == "" {
			p.Err = fmt.Sprintf(f, a...)
		}
	}
	c, err := w.dialRTSP(fmt.Sprintf("pub%d", p.ID))
	if err != nil {
		p.State = "error"
		fail("dial: %v", err)
		return
	}
	if seg := o.p("seg", -1); seg >= 0 {
		c.c.Seg = int(seg)
	}
	c.br = bufio.NewReaderSize(c.c, 4096)
	w.actor(node, fmt.Sprintf("pub%d-rd", p.ID), 0, c.readLoop)
	rp := &rtspPub{C: c}
	p.RP = rp
	url := "rtsp://10.0.0.1:554/" + p.App + "/" + p.Nm
	closeNow := func(rst bool) {
		if p.EndAt == 0 {
			p.EndAt = w.now()
			w.s.Arm()
		}
		if rst {
			c.c.Reset()
			return
		}
		c.c.Close()
	}
	defer func() {
		for _, t := range rp.Tr {
			if t.UDP != nil {
				u := t.UDP
				w.s.GoOn(node, "udp-close", func() {
					simrt.Sleep(w.procBound() + time.Second)
					u.Close()
				})
			}
		}
		if c.Bad != "" && p.Err == "" {
			p.Err = c.Bad
			p.State = "error"
		}
		if p.EndKind != "" {
			return
		}
		switch end := o.p("end", 0); end {
		case 1:
			p.EndKind = "rst"
			w.s.Faults["pub_reset"]++
			closeNow(true)
		case 2:
			p.EndKind = "unpublish"
			p.EndAt = w.now()
			w.s.Arm()
			x, err := c.do("TEARDOWN", url, "", nil)
			if p.State == "accepted" && (err != nil && !errors.Is(err, io.EOF) || x != nil && x.Status != 200) {
				fail("TEARDOWN: %v %v", x, err)
			}
			closeNow(false)
		case 3:
			p.EndKind = "held"
			for !w.stop {
				simrt.Sleep(50 * time.Millisecond)
			}
			closeNow(false)
		default:
			p.EndKind = "fin"
			if o.p("ka", 0) > 0 || r.Bool(0.5) {
				c.c.CloseWrite()
				p.EndAt = w.now()
				w.s.Arm()
				w.waitUntil(500*time.Millisecond, func() bool { return c.Done || w.stop })
				closeNow(false)
			} else {
				closeNow(false)
			}
		}
	}()
	// description
	var ts []*pubTrack
	var sps, pps, cfg []byte
	chans := 2
	for _, t := range p.Tags {
		switch t.Kind {
		case kVHdr:
			ps, _ := paramSets(t.B)
			sps, pps = ps[0], ps[1]
			ts = append(ts, &pubTrack{Clock: 90000, PT: 96, Ch: -1})
		case kAHdr:
			cfg = t.B[2:]
			chans = int(cfg[1] >> 3 & 15)
			ts = append(ts, &pubTrack{Audio: true, Clock: aacRates[(int(cfg[0])&7)<<1|int(cfg[1])>>7], PT: 97, Ch: -1})
		}
	}
	if p.SP.Mono {
		chans = 1
	}
	style := o.p("sdp", 0)
	if style&1 != 0 && len(ts) == 2 {
		ts[0], ts[1] = ts[1], ts[0]
	}
	var sdp strings.Builder
	fmt.Fprintf(&sdp, "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=No Name\r\nc=IN IP4 10.0.0.1\r\nt=0 0\r\na=tool:sim\r\n")
	if style&2 != 0 {
		sdp.WriteString("a=control:*\r\na=range:npt=0-\r\n")
	}
	for i, t := range ts {
		if style&4 != 0 {
			t.PT = byte(98 + 3*i)
		}
		t.Ctl = fmt.Sprintf([]string{"streamid=%d", "trackID=%d", "track%d"}[style>>3%3], i+int(style>>5&1))
		if style&64 != 0 {
			t.Ctl = url + "/" + t.Ctl
		}
		if t.Audio {
			fmt.Fprintf(&sdp, "m=audio 0 RTP/AVP %d\r\nb=AS:128\r\n", t.PT)
			rm := fmt.Sprintf("a=rtpmap:%d MPEG4-GENERIC/%d/%d\r\n", t.PT, t.Clock, chans)
			if chans == 1 && style&128 != 0 {
				rm = fmt.Sprintf("a=rtpmap:%d mpeg4-generic/%d\r\n", t.PT, t.Clock)
			}
			hx := strings.ToUpper(hex.EncodeToString(cfg))
			fm := fmt.Sprintf("a=fmtp:%d profile-level-id=1;mode=AAC-hbr;sizelength=13;indexlength=3;indexdeltalength=3; config=%s\r\n", t.PT, hx)
			if style&256 != 0 {
				fm = fmt.Sprintf("a=fmtp:%d streamtype=5; profile-level-id=1; mode=AAC-hbr; config=%s; SizeLength=13; IndexLength=3; IndexDeltaLength=3;\r\n", t.PT, strings.ToLower(hx))
			}
			sdp.WriteString(rm + fm)
		} else {
			fmt.Fprintf(&sdp, "m=video 0 RTP/AVP %d\r\na=rtpmap:%d H264/90000\r\n", t.PT, t.PT)
			b64 := base64.StdEncoding.EncodeToString
			f := []string{"packetization-mode=1", "sprop-parameter-sets=" + b64(sps) + "," + b64(pps), fmt.Sprintf("profile-level-id=%02X%02X%02X", sps[1], sps[2], sps[3])}
			sep := "; "
			if style&256 != 0 {
				sep = ";"
				f[0], f[1] = f[1], f[0]
			}
			fmt.Fprintf(&sdp, "a=fmtp:%d %s\r\n", t.PT, strings.Join(f, sep))
		}
		fmt.Fprintf(&sdp, "a=control:%s\r\n", t.Ctl)
	}
	if style&512 != 0 { // another kind of media, which nobody asks to set up
		sdp.WriteString("m=application 0 RTP/AVP 107\r\na=rtpmap:107 vnd.onvif.metadata/90000\r\na=control:meta\r\n")
	}
	for _, t := range p.Tags {
		if t.Kind == kVHdr || t.Kind == kAHdr {
			p.publish(t)
			t.SentAt = max(w.now(), 1) // 0 is "not sent"
		}
	}
	if o.p("opt", 0) != 0 {
		if x, err := c.do("OPTIONS", url, "", nil); err != nil || x.Status != 200 {
			p.State = "error"
			fail("OPTIONS: %v %v", x, err)
			return
		}
	}
	p.ReqAt = max(w.now(), 1) // 0 is "not yet"
	w.s.Arm()
	x, err := c.do("ANNOUNCE", url, "Content-Type: application/sdp\r\n", []byte(sdp.String()))
	if err != nil {
		p.State = "error"
		fail("ANNOUNCE: %v", err)
		return
	}
	switch x.Status {
	case 200:
		p.State, p.AckAt = "accepted", x.At
	case 461:
		p.State, p.AckAt = "refused", x.At
	default:
		p.State = "error"
		fail("ANNOUNCE answered %d %s", x.Status, x.Reason)
	}
	w.logf("pub %d %s/%s (rtsp): %s", p.ID, p.App, p.Nm, p.State)
	force := p.State == "refused" && o.p("force", 0) != 0 // goes on as if nothing was
	if p.State != "accepted" && !force {
		return
	}
	if force {
		w.s.Faults["rtsp_force"]++
		defer func() { p.State, p.Err = "refused", "" }()
	}
	for _, t := range p.Pub {
		t.Sent = true
	}
	if o.p("idle", 0) == 1 { // gives up before RECORD
		return
	}
	udp := o.p("udp", 0)
	order := append([]*pubTrack(nil), ts...)
	if o.p("order", 0) != 0 && len(order) == 2 {
		order[0], order[1] = order[1], order[0]
	}
	vch, ach := int(o.p("vch", 0)), int(o.p("ach", 2))
	for _, t := range order {
		t.Seq = uint16(r.U64())
		if r.Bool(0.4) {
			t.Seq = uint16(-1 - r.Intn(60))
		}
		t.seq0 = t.Seq
		t.SSRC = uint32(r.U64())
		t.Base = uint32(r.U64())
		if r.Bool(0.4) {
			t.Base = uint32(-r.Intn(3 * t.Clock))
		}
		var hdr string
		cp := 0
		over := udp == 1 || udp == 2 && !t.Audio || udp == 3 && t.Audio
		if over {
			p.UDP = true
			cp = 30000 + 8*int(o.I)%1000
			if t.Audio {
				cp += 2
			}
			t.UDP, err = simrt.ListenUDP("udp", &net.UDPAddr{Port: cp})
			if err != nil {
				panic(fmt.Sprint("harness: ", err))
			}
			hdr = fmt.Sprintf("Transport: RTP/AVP/UDP;unicast;client_port=%d-%d;mode=record\r\n", cp, cp+1)
			if style&2 != 0 {
				hdr = fmt.Sprintf("Transport: RTP/AVP;unicast;client_port=%d-%d;mode=record\r\n", cp, cp+1)
			}
		} else {
			t.Ch = vch
			if t.Audio {
				t.Ch = ach
			}
			hdr = fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d;mode=record\r\n", t.Ch, t.Ch+1)
		}
		ctl := t.Ctl
		if !strings.Contains(ctl, "://") {
			ctl = url + "/" + ctl
		}
		if o.p("resetup", 0) != 0 && !force {
			// a track that does not exist, then the same track with other transports
			for _, y := range [][2]string{
				{url + "/nosuchtrack", hdr},
				{ctl, fmt.Sprintf("Transport: RTP/AVP;unicast;client_port=%d-%d;mode=record\r\n", 30000, 30001)},
				{ctl, "Transport: RTP/AVP/TCP;unicast;interleaved=240-241;mode=record\r\n"},
				{ctl, hdr}} {
				if r.Bool(0.5) {
					continue
				}
				w.s.Faults["resetup"]++
				x, err := c.do("SETUP", y[0], y[1], nil)
				if err != nil || y[0] == ctl && x.Status != 200 {
					p.State = "error"
					fail("SETUP: %v %v", x, err)
					return
				}
			}
		}
		x, err := c.do("SETUP", ctl, hdr, nil)
		if force && (err != nil || x.Status != 200) {
			if t.UDP != nil {
				t.UDP.Close()
				t.UDP, t.Ch = nil, vch
				if t.Audio {
					t.Ch = ach
				}
			}
			rp.Tr = append(rp.Tr, t)
			continue
		}
		if err != nil || x.Status != 200 {
			p.State = "error"
			fail("SETUP: %v %v", x, err)
			return
		}
		rp.Tr = append(rp.Tr, t)
		if over {
			var a, b int
			for _, s := range strings.Split(x.Hdr["transport"], ";") {
				if s, ok := strings.CutPrefix(s, "server_port="); ok {
					fmt.Sscanf(s, "%d-%d", &a, &b)
				}
			}
			if a <= 0 || b != a+1 {
				p.State = "error"
				fail("SETUP answered transport %q", x.Hdr["transport"])
				return
			}
			t.SrvPort = a
			if w.rtpIn == nil {
				w.rtpIn = map[int]*pubTrack{}
				if !w.mute {
					w.s.OnUDP = w.udpArrived
				}
			}
			w.rtpIn[a] = t
		}
	}
	if x, err := c.do("RECORD", url, "Range: npt=0.000-\r\n", nil); (err != nil || x.Status != 200) && !force {
		p.State = "error"
		fail("RECORD: %v %v", x, err)
		return
	}
	if n := o.p("wait", 0); n > 0 {
		simrt.Sleep(time.Duration(n) * time.Millisecond)
	}
	w.sendRTP(o, p, rp, r, url)
	if n := o.p("linger", 0); n > 0 {
		simrt.Sleep(time.Duration(n) * time.Millisecond)
	}
	if p.UDP && !p.Cut && (o.p("end", 0) == 2 || o.p("end", 0) == 0) {
		simrt.Sleep(w.procBound() + 100*time.Millisecond) // what is on its way by UDP is lost otherwise
	}
}

// rtp makes one packet of a track.
func (t *pubTrack) rtp(o *Op, r *simrt.Rand, ts uint32, m bool, pl []byte) []byte {
	h := make([]byte, 12, 12+len(pl)+40)
	h[0] = 0x80
	h[1] = t.PT
	if m {
		h[1] |= 0x80
	}
	binary.BigEndian.PutUint16(h[2:], t.Seq)
	binary.BigEndian.PutUint32(h[4:], ts)
	binary.BigEndian.PutUint32(h[8:], t.SSRC)
	t.Seq++
	t.n++
	odd := int(o.p("ext", 0))
	if odd > 0 && r.Intn(100) < odd { // contributing sources
		n := 1 + r.Intn(3)
		h[0] |= byte(n)
		for i := 0; i < n; i++ {
			h = binary.BigEndian.AppendUint32(h, uint32(r.U64()))
		}
	}
	if odd > 0 && r.Intn(100) < odd { // header extension
		h[0] |= 0x10
		n := r.Intn(3)
		h = append(h, 0xbe, 0xde, 0, byte(n))
		for i := 0; i < n; i++ {
			h = binary.BigEndian.AppendUint32(h, uint32(r.U64()))
		}
	}
	h = append(h, pl...)
	if odd > 0 && r.Intn(100) < odd { // padding
		n := 1 + r.Intn(8)
		h[0] |= 0x20
		for i := 1; i < n; i++ {
			h = append(h, 0)
		}
		h = append(h, byte(n))
	}
	return h
}

// video packetises an access unit.
func (t *pubTrack) video(o *Op, r *simrt.Rand, ts uint32, ns [][]byte) (out [][]byte) {
	mtu := int(o.p("mtu", 1400))
	stap := int(o.p("stap", 0))
	var pls [][]byte
	for i := 0; i < len(ns); i++ {
		n := ns[i]
		if stap > 0 && r.Intn(100) < stap { // aggregate what fits
			b := []byte{24 | n[0]&0x60}
			k := i
			for k < len(ns) && len(b)+2+len(ns[k]) <= mtu && r.Intn(5) > 0 {
				b = binary.BigEndian.AppendUint16(b, uint16(len(ns[k])))
				b = append(b, ns[k]...)
				k++
			}
			if k > i {
				pls = append(pls, b)
				i = k - 1
				continue
			}
		}
		if len(n) <= mtu {
			pls = append(pls, n)
			continue
		}
		body := n[1:]
		first := true
		for len(body) > 0 {
			k := mtu - 2
			if k > len(body) {
				k = len(body)
			}
			if first && k == len(body) { // a NAL unit is never one fragment
				k--
			}
			h := n[0] & 31
			if first {
				h |= 0x80
			}
			if k == len(body) {
				h |= 0x40
			}
			pls = append(pls, append([]byte{n[0]&0xe0 | 28, h}, body[:k]...))
			body, first = body[k:], false
		}
	}
	for i, pl := range pls {
		out = append(out, t.rtp(o, r, ts, i == len(pls)-1, pl))
	}
	return
}

func (w *World) sendRTP(o *Op, p *Session, rp *rtspPub, r *simrt.Rand, url string) {
	c := rp.C
	var vt, at *pubTrack
	for _, t := range rp.Tr {
		if t.Audio {
			at = t
		} else {
			vt = t
		}
	}
	cut := o.p("cut", 0)
	var sent int64
	write := func(b []byte) bool {
		if cut > 0 && sent+int64(len(b)) > cut {
			b = b[:cut-sent]
			p.Cut = true
			p.EndKind = "cut"
			w.s.Faults["pub_cut"]++
			if len(b) > 0 {
				c.c.Write(b)
			}
			p.EndAt = w.now()
			w.s.Arm()
			if o.p("end", 0) == 1 {
				c.c.Reset()
			} else {
				c.c.Close()
			}
			return false
		}
		sent += int64(len(b))
		if _, err := c.c.Write(b); err != nil {
			if p.Err == "" {
				p.Err = "write: " + err.Error()
			}
			return false
		}
		return true
	}
	// send puts packets out; whole units end with their last one
	var buf []byte
	flush := func() bool {
		b := buf
		buf = nil
		return len(b) == 0 || write(b)
	}
	var fin []*Tag
	send := func(t *pubTrack, pkts [][]byte, ts []*Tag) bool {
		a := t.n - len(pkts)
		for _, tg := range ts {
			t.units = append(t.units, pubUnit{tg, a, t.n - 1})
		}
		if t.UDP != nil {
			for i, b := range pkts {
				if i == len(pkts)-1 {
					for _, tg := range ts {
						p.publish(tg)
						tg.SentAt = w.now()
					}
				}
				if _, err := t.UDP.WriteToUDP(b, &net.UDPAddr{IP: net.ParseIP("10.0.0.1"), Port: t.SrvPort}); err != nil {
					p.Err = "udp: " + err.Error()
					return false
				}
			}
			for _, tg := range ts {
				tg.Sent = true
				p.Sent++
			}
			return true
		}
		for i, b := range pkts {
			f := append([]byte{'$', byte(t.Ch), byte(len(b) >> 8), byte(len(b))}, b...)
			buf = append(buf, f...)
			if i == len(pkts)-1 {
				for _, tg := range ts {
					if cut == 0 || sent+int64(len(buf)) <= cut {
						p.publish(tg)
						tg.SentAt = w.now()
						fin = append(fin, tg)
					}
				}
			}
			if o.p("rtcp", 0) != 0 && r.Bool(0.1) {
				buf = append(buf, rtcpFrame(r, t.Ch+1)...)
			}
			if o.p("wr", 0) == 1 && r.Bool(0.7) && !flush() {
				return false
			}
		}
		if o.p("burst", 0) == 0 || len(buf) > 16384 || r.Bool(0.1) {
			if !flush() {
				return false
			}
			for _, tg := range fin {
				tg.Sent = true
				p.Sent++
			}
			fin = nil
		}
		return true
	}
	var held []*Tag // audio units waiting for their packet
	want := 1
	sendAudio := func() bool {
		if len(held) == 0 {
			return true
		}
		pl := binary.BigEndian.AppendUint16(nil, uint16(16*len(held)))
		for _, t := range held {
			pl = binary.BigEndian.AppendUint16(pl, uint16(len(t.Nals[0])<<3))
		}
		for _, t := range held {
			pl = append(pl, t.Nals[0]...)
		}
		ts := held
		held = nil
		if room := int(o.p("mtu", 1400)) - 4; len(ts) == 1 && len(pl)-4 > room && o.p("aufrag", 0) != 0 {
			var pks [][]byte
			for b := pl[4:]; len(b) > 0; {
				n := min(room, len(b))
				if n > 1 && r.Bool(0.2) {
					n = 1 + r.Intn(n)
				}
				f := append(append([]byte(nil), pl[:4]...), b[:n]...)
				b = b[n:]
				pks = append(pks, at.rtp(o, r, at.Base+uint32(ts[0].Samp), len(b) == 0, f))
			}
			return send(at, pks, ts)
		}
		pk := at.rtp(o, r, at.Base+uint32(ts[0].Samp), true, pl)
		return send(at, [][]byte{pk}, ts)
	}
	ka := o.p("ka", 0)
	next := w.now() + time.Duration(ka)*time.Millisecond
	for _, t := range p.Tags {
		if t.Kind == kVHdr || t.Kind == kAHdr {
			continue
		}
		if w.stop || c.Done {
			if c.Done {
				p.Err = fmt.Sprintf("server closed: %v %s", c.Err, c.Bad)
			}
			break
		}
		if t.Pace > 0 {
			simrt.Sleep(t.Pace)
		}
		if ka > 0 && w.now() >= next {
			next = w.now() + time.Duration(1+r.Intn(int(2*ka)))*time.Millisecond
			var hdr string
			var body []byte
			if r.Bool(0.3) {
				hdr, body = "Content-Type: text/parameters\r\n", []byte("$\r\n\r\n")
			}
			buf = append(buf, c.request([]string{"GET_PARAMETER", "OPTIONS"}[r.Intn(2)], url, hdr, body)...)
			if !flush() {
				return
			}
		}
		if t.Kind == kAudio {
			if at == nil {
				continue
			}
			if len(held) == 0 {
				want = 1 + r.Intn(int(o.p("aus", 1)))
			}
			big := o.p("aufrag", 0) != 0 && len(t.Nals[0]) > int(o.p("mtu", 1400))-4
			if big {
				if !sendAudio() {
					return
				}
				want = 1
			}
			held = append(held, t)
			if len(held) >= want && !sendAudio() {
				return
			}
			continue
		}
		if vt == nil {
			continue
		}
		if !send(vt, vt.video(o, r, vt.Base+(t.Ts-p.SP.BaseTs)*90, t.Nals), []*Tag{t}) {
			return
		}
	}
	if !sendAudio() || !flush() {
		return
	}
	for _, tg := range fin {
		tg.Sent = true
		p.Sent++
	}
	p.SentAll = true
}

const forgePort = 29000

// rtpArrived notes a packet of a publisher that reached the server.
func (w *World) rtpArrived(to *simrt.Node, port int, from *net.UDPAddr, b []byte) {
	if t := w.rtpIn[port]; t != nil && from.Port != forgePort && to == w.srv && len(b) >= 12 && binary.BigEndian.Uint32(b[8:]) == t.SSRC {
		k := int(int16(binary.BigEndian.Uint16(b[2:]) - t.seq0)) // streams are short
		t.arrived = append(t.arrived, k)
	}
}

// udpGuaranteed withdraws, for UDP tracks, what a receiver that does not
// reorder need not have been able to put together: units of which a packet,
// or the packet before, was lost or late.
func (p *Session) udpGuaranteed() {
	if p.SRT != nil {
		p.SRT.guaranteed()
	}
	if p.RP == nil {
		return
	}
	for _, t := range p.RP.Tr {
		if t.UDP == nil {
			continue
		}
		have := map[int]bool{}
		max := -1
		for _, k := range t.arrived {
			if k > max {
				have[k] = true
				max = k
			}
		}
		for _, u := range t.units {
			for k := u.a - 1; k <= u.b; k++ {
				if k >= 0 && !have[k] {
					u.t.Sent = false
				}
			}
		}
	}
}

// headLost says whether ns can be what is left of the first unit of a
// track, t, whose beginning was lost: nothing tells a receiver that there
// was more.
func (p *Session) headLost(t *Tag, ns [][]byte) bool {
	if p.SRT != nil {
		return p.SRT.tailLost(t, ns)
	}
	if p.RP == nil || t.Sent || len(ns) == 0 || len(ns) >= len(t.Nals) {
		return false
	}
	for _, tr := range p.RP.Tr {
		if tr.UDP == nil || len(tr.arrived) == 0 {
			continue
		}
		first := tr.arrived[0]
		hit := false
		for _, u := range tr.units {
			hit = hit || u.t == t && u.a < first && first <= u.b
		}
		if !hit {
			continue
		}
		for i, n := range t.Nals[len(t.Nals)-len(ns):] {
			if !bytes.Equal(n, ns[i]) {
				return false
			}
		}
		return true
	}
	return false
}
