package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"time"

	"verif/simrt"
)

// ---- SRT caller that publishes MPEG-TS -------------------------------------------------

const (
	tsVid = 0x100
	tsAud = 0x101
	tsPMT = 0x1000
)

// srtUnit is one access unit or audio frame on its way.
type srtUnit struct {
	t       *Tag
	hdrs    []*Tag // decoder configurations it carries
	a, b    int    // datagrams with its beginning and with what ends its PES
	damaged bool   // a TS packet of it is missing
	fin     bool
	early   bool // the configurations come ahead, in packets of their own
}

// tsItem is a TS packet with what begins, what is complete and what must
// have been put together by then.
type tsItem struct {
	pid             int
	b               []byte
	start, fin, due []*srtUnit
	pat, pmt        bool
	hdrs            []*Tag // what this packet completes the configuration for
}

type srtPub struct {
	p       *Session
	o       *Op
	w       *World
	r       *simrt.Rand
	u       *simrt.UDPConn
	isn     uint32
	sock    uint32
	dest    uint32
	cookie  uint32
	up      bool
	shut    bool // the server has ended the session
	shutAt  time.Duration
	data0   time.Duration // the first datagram with data was sent
	t0      time.Duration
	n       int      // datagrams sent
	sent    [][]byte // for retransmission
	again   []uint32 // reported lost
	arrived []int    // datagrams in order of arrival at the server
	over    bool     // the end has arrived there
	units   []*srtUnit
	open    map[int][]*srtUnit // begun, and not yet ended, by PID
	psi     [][2]int           // datagrams with PAT and PMT
	cc      map[int]byte
	pids    map[int]int // actual PIDs of tsVid, tsAud and tsPMT
	ver     byte        // of the tables
	dg      []tsItem
	lastPAT int
	have    map[int]bool
	base    uint64
	lastSnd time.Duration
}

// srtTags gives a session the tags the server makes of the media: decoder
// configurations where they first appear, audio on the sample clock.
func srtTags(p *Session) {
	var out []*Tag
	var vh, ah *Tag
	var lastV, lastA []byte
	var asc []byte
	acc := 0.0 // audio clock, 90 kHz
	mono := false
	for _, t := range p.Tags {
		switch t.Kind {
		case kVHdr:
			vh = t
		case kAHdr:
			ah = t
		case kAudio:
			if ah != nil {
				asc = ah.B[2:4]
				mono = asc[1]>>3&15 == 1
				if string(asc) != string(lastA) {
					lastA = asc
					out = append(out, ah)
					ah.Ts = p.SP.BaseTs + uint32(acc/90)
					if mono {
						ah.B[0] = 0xae
					}
				}
				ah = nil
			}
			if mono {
				t.B[0] = 0xae
			}
			t.Ts = p.SP.BaseTs + uint32(acc/90)
			t.Samp = int64(acc + 0.5)
			acc += 1024 * 90000 / float64(aacRates[(int(asc[0])&7)<<1|int(asc[1])>>7])
			t.Asc = asc
			out = append(out, t)
		case kKey:
			if vh != nil {
				sps, pps := avcSets(vh.B[5:])
				c := []byte{1, sps[1], sps[2], sps[3], 0xff, 0xe1, byte(len(sps) >> 8), byte(len(sps))}
				c = append(append(c, sps...), 1, byte(len(pps)>>8), byte(len(pps)))
				vh.B = videoBody(1, false, 0, 0, append(c, pps...))
				vh.Ts = t.Ts
				if string(vh.B) != string(lastV) {
					lastV = vh.B
					out = append(out, vh)
				}
				vh = nil
			}
			out = append(out, t)
		default:
			out = append(out, t)
		}
	}
	p.gen, p.Tags = p.Tags, out
}

// avcSets is the first SPS and PPS of a record.
func avcSets(rec []byte) (sps, pps []byte) {
	l := int(binary.BigEndian.Uint16(rec[6:]))
	m := int(binary.BigEndian.Uint16(rec[9+l:]))
	return rec[8 : 8+l], rec[11+l : 11+l+m]
}

// noAUD is ns without access unit delimiters: a server may drop them.
func noAUD(ns [][]byte) (out [][]byte) {
	for _, n := range ns {
		if len(n) == 0 || n[0]&31 != 9 {
			out = append(out, n)
		}
	}
	return
}

func (w *World) newSRTPub(o *Op, app, nm string) (*Session, func()) {
	sp := opStream(o)
	sp.EOS = 0
	sp.MetaOn, sp.HEVC, sp.RepeatHdr, sp.MetaChange, sp.JunkData, sp.LateHdr, sp.NegCts, sp.RichHdr, sp.InBand = false, false, false, false, false, false, false, false, false
	p := w.newSession(app, nm, "srt", sp, uint64(o.I))
	p.UDP = true
	p.Op = o
	node := w.client(o.I)
	s := &srtPub{p: p, o: o, w: w, r: w.rng(16, uint64(o.I), uint64(p.ID)), open: map[int][]*srtUnit{}, cc: map[int]byte{}}
	p.SRT = s
	return p, func() {
		s.run(node)
		p.Ended = true
		if p.EndAt == 0 {
			p.EndAt = w.now()
			w.s.Arm()
		}
		w.logf("pub %d %s/%s (srt) ends: %s %s err=%q tags=%d/%d datagrams=%d", p.ID, p.App, p.Nm, p.State, p.EndKind, p.Err, len(p.Pub), len(p.Tags), s.n)
	}
}

func (w *World) runSRTPub(o *Op, app, nm string) *Session {
	p, run := w.newSRTPub(o, app, nm)
	w.actor(w.client(o.I), fmt.Sprintf("pub%d", p.ID), o.T, run)
	return p
}

func (s *srtPub) send(b []byte) {
	s.lastSnd = s.w.now()
	s.u.WriteToUDP(b, &net.UDPAddr{IP: net.ParseIP("10.0.0.1"), Port: portSRT})
}

func (s *srtPub) us() uint32 { return uint32((s.w.now() - s.t0) / time.Microsecond) }

func (s *srtPub) readLoop() {
	b := make([]byte, 2048)
	for {
		n, _, err := s.u.ReadFromUDP(b)
		if err != nil {
			return
		}
		if n < 16 || b[0]&0x80 == 0 {
			continue
		}
		switch binary.BigEndian.Uint32(b) >> 16 & 0x7fff {
		case 0:
			if n >= 64 {
				if int32(binary.BigEndian.Uint32(b[36:])) == 1 {
					s.cookie = binary.BigEndian.Uint32(b[44:])
				} else {
					s.up = true
				}
				s.dest = binary.BigEndian.Uint32(b[40:])
			}
		case 3:
			for i := 16; i+4 <= n; i += 4 {
				a := binary.BigEndian.Uint32(b[i:])
				z := a
				if a&(1<<31) != 0 && i+8 <= n {
					i += 4
					a, z = a&srtMask, binary.BigEndian.Uint32(b[i:])
				}
				for k := 0; k < 50; k++ {
					s.again = append(s.again, a)
					if a == z {
						break
					}
					a = (a + 1) & srtMask
				}
			}
		case 5:
			s.w.logf("pub %d: SHUTDOWN from the server", s.p.ID)
			s.shut, s.shutAt = true, s.w.now()
		}
	}
}

func (s *srtPub) run(node *simrt.Node) {
	w, o, p, r := s.w, s.o, s.p, s.r
	u, err := simrt.ListenUDP("udp", &net.UDPAddr{Port: 22000 + p.ID})
	if err != nil {
		panic(err)
	}
	defer u.Close()
	s.u = u
	if w.srtIn == nil {
		w.srtIn = map[string]*srtPub{}
		w.s.OnUDP = w.udpArrived
	}
	w.srtIn[u.LocalAddr().String()] = s
	w.s.GoOn(node, fmt.Sprintf("pub%d-rd", p.ID), s.readLoop)
	s.sock, s.isn = uint32(r.U64())|1, uint32(r.U64())&srtMask
	if o.p("isn", 0) != 0 {
		s.isn = srtMask - uint32(r.Intn(40))
	}
	s.t0 = w.now()
	p.ReqAt = max(w.now(), 1) // 0 is "not yet"
	w.s.Arm()
	try := func(b []byte, ok func() bool) bool {
		for n := 0; n < 40 && !w.stop; n++ {
			s.send(b)
			if w.waitUntil(400*time.Millisecond, ok) {
				return true
			}
		}
		return false
	}
	if !try(srtCtl(0, 0, 0, 0, srtHS(4, s.isn, 1, s.sock, 0)), func() bool { return s.cookie != 0 }) ||
		!try(srtCtl(0, 0, 0, 0, srtHS(5, s.isn, -1, s.sock, s.cookie)), func() bool { return s.up }) {
		p.State = "error"
		p.Err = "no answer to the handshake"
		if w.plan.stalls() || w.plan.k("lossy", 0) != 0 { // given up on a server that is still at what came before
			p.State, p.Refusal = "refused", p.Err
		}
		return
	}
	p.State = "accepted"
	if n := o.p("wait", 0); n > 0 {
		simrt.Sleep(time.Duration(n) * time.Millisecond)
	}
	p.FirstTag = w.now()
	done := s.stream()
	if s.shut {
		p.State, p.Refusal = "refused", "SHUTDOWN"
		p.EndKind = "refused"
		p.EndAt = w.now()
		w.s.Arm()
		return
	}
	if !done {
		p.Cut = true
		p.EndKind = "vanish"
		w.s.Faults["srt_cut"]++
	} else if o.p("end", 0) == 1 {
		p.EndKind = "vanish"
		w.s.Faults["srt_vanish"]++
	} else {
		if r.Bool(0.5) {
			simrt.Sleep(w.procBound() + 100*time.Millisecond)
		}
		p.EndKind = "fin"
		for _, us := range [][]*srtUnit{s.open[tsVid], s.open[tsAud]} {
			for _, x := range us {
				if x.fin {
					x.t.DueAt, x.b = w.now(), s.n
					x.t.Sent = true
				}
			}
		}
		s.send(srtCtl(5, 0, s.us(), s.dest, make([]byte, 4)))
	}
	p.EndAt = w.now()
	w.s.Arm()
	p.SentAll = done
	// the end is the server's to find
	simrt.Sleep(w.procBound() + 300*time.Millisecond)
	if p.EndKind != "fin" || w.plan.k("lossy", 0) != 0 {
		simrt.Sleep(7 * time.Second)
	}
	switch {
	case s.shut && s.shutAt < p.EndAt+4*time.Second: // everything was sent before the answer came
		p.State, p.Refusal = "refused", "SHUTDOWN"
		p.EndKind = "refused"
	case s.shut && p.EndKind == "vanish":
		w.logf("pub %d: ended by the server", p.ID)
	}
}

// packets splits a PES or a section into TS packets.
func (s *srtPub) packets(pid int, data []byte, pcr int64) (out []tsItem) {
	for first := true; len(data) > 0; first = false {
		q := s.pid(pid)
		h := []byte{0x47, byte(q >> 8), byte(q), 0x10 | s.cc[q]}
		s.cc[q] = (s.cc[q] + 1) & 15
		if first {
			h[1] |= 0x40
		}
		var af []byte
		if first && pcr >= 0 {
			b := uint64(pcr) & (1<<33 - 1)
			af = []byte{0x10, byte(b >> 25), byte(b >> 17), byte(b >> 9), byte(b >> 1), byte(b<<7) | 0x7e, 0}
		}
		room := 184
		if af != nil {
			room -= 1 + len(af)
		}
		if n := len(data); n < room {
			pad := room - n
			switch {
			case af != nil:
				for ; pad > 0; pad-- {
					af = append(af, 0xff)
				}
			case pad == 1:
				af = []byte{}
			default:
				af = []byte{0}
				for ; pad > 2; pad-- {
					af = append(af, 0xff)
				}
			}
			room = n
		}
		if af != nil {
			h[3] |= 0x20
			h = append(append(h, byte(len(af))), af...)
		}
		h = append(h, data[:room]...)
		data = data[room:]
		if len(h) != 188 {
			panic(fmt.Sprintf("TS packet of %d bytes", len(h)))
		}
		out = append(out, tsItem{pid: pid, b: h})
	}
	return
}

func ts33(v uint64, tag byte) []byte {
	return []byte{tag<<4 | byte(v>>29)&0xe | 1, byte(v >> 22), byte(v>>14) | 1, byte(v >> 7), byte(v<<1) | 1}
}

// pes makes a PES; pts < 0: without a timestamp.
func (s *srtPub) pes(audio bool, pts, dts int64, body []byte) []byte {
	sid := byte(0xe0)
	if audio {
		sid = 0xc0
	}
	var ext []byte
	fl := byte(0)
	switch {
	case pts < 0:
	case dts == pts && (audio || s.o.p("dts", 0) == 0):
		fl = 0x80
		ext = ts33(uint64(pts), 2)
	default:
		fl = 0xc0
		ext = append(ts33(uint64(pts), 3), ts33(uint64(dts), 1)...)
	}
	if s.o.p("hstuff", 0) != 0 {
		for n := s.r.Intn(12); n > 0; n-- {
			ext = append(ext, 0xff)
		}
	}
	n := 3 + len(ext) + len(body)
	if n > 0xffff || !audio && s.o.p("vlen", 0) == 0 {
		n = 0
	}
	b := []byte{0, 0, 1, sid, byte(n >> 8), byte(n), 0x80 | byte(s.r.Intn(2)<<2), fl, byte(len(ext))}
	return append(append(b, ext...), body...)
}

func section(b []byte) []byte {
	c := crcMPEG(b)
	return append(append([]byte{0}, b...), byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
}

// pid is the PID in use for a stream.
func (s *srtPub) pid(k int) int {
	if q, ok := s.pids[k]; ok {
		return q
	}
	return k
}

// renumber gives the streams other PIDs. That of the audio stays as it is
// in the middle of a frame.
func (s *srtPub) renumber(audio bool) {
	s.ver = (s.ver + 1) & 31
	if s.pids == nil {
		s.pids = map[int]int{}
	}
	if audio && s.r.Bool(0.3) {
		s.pids[tsVid], s.pids[tsAud] = s.pid(tsAud), s.pid(tsVid)
		return
	}
	for _, k := range []int{tsVid, tsAud, tsPMT} {
		if k == tsAud && !audio || s.r.Bool(0.3) {
			continue
		}
	again:
		q := 0x20 + s.r.Intn(0x1fff-0x20)
		if q >= 0x100 && q < 0x120 || q == 0x300 || q == 0x301 || q == 0x1000 || q == 0x1234 {
			goto again
		}
		for _, x := range []int{tsVid, tsAud, tsPMT} {
			if s.pid(x) == q {
				goto again
			}
		}
		s.pids[k] = q
	}
}

func (s *srtPub) psiItems() []tsItem {
	pm := s.pid(tsPMT)
	pat := []byte{0, 0xb0, 13, 0, 1, 0xc1 | s.ver<<1, 0, 0, 0, 1, 0xe0 | byte(pm>>8), byte(pm)}
	var es []byte
	desc := func() []byte {
		if s.o.p("desc", 0) == 0 {
			return []byte{0xf0, 0}
		}
		return []byte{0xf0, 6, 0x0a, 4, 'e', 'n', 'g', 0}
	}
	vid, aud := s.pid(tsVid), s.pid(tsAud)
	pcr := aud
	v := append([]byte{0x1b, 0xe0 | byte(vid>>8), byte(vid)}, 0xf0, 0)
	a := append([]byte{0x0f, 0xe0 | byte(aud>>8), byte(aud)}, desc()...)
	if s.p.SP.Video {
		pcr = vid
		es = append(es, v...)
	}
	if s.p.SP.Audio {
		if s.o.p("order", 0) != 0 {
			es = append(a, es...)
		} else {
			es = append(es, a...)
		}
	}
	if s.o.p("other", 0) != 0 { // subtitles
		es = append(es, 0x06, 0xe1, 0x10, 0xf0, 0)
	}
	pi := []byte{0xf0, 0}
	if s.o.p("desc", 0) != 0 {
		pi = []byte{0xf0, 6, 5, 4, 'H', 'D', 'M', 'V'}
	}
	psi := s.o.p("psi", 0)
	if psi&1 != 0 { // descriptors that do not fit into a packet
		for n := 1 + s.o.I%3 + int64(simrt.Hash(s.w.plan.Seed, 71)%3); n > 0; n-- {
			d := make([]byte, 2+100+simrt.Hash(s.w.plan.Seed, 72, uint64(n))%150)
			for k := range d {
				d[k] = byte(k*7) + byte(n)
			}
			d[0], d[1] = 0xc0, byte(len(d)-2)
			pi = append(pi, d...)
		}
		pi[0], pi[1] = 0xf0|byte((len(pi)-2)>>8), byte(len(pi)-2)
	}
	table := func(prog, cur byte, pi, es []byte) []byte {
		n := 9 + len(pi) - 2 + len(es) + 4
		b := append([]byte{2, 0xb0 | byte(n>>8), byte(n), 0, prog, 0xc0 | cur | s.ver<<1, 0, 0, 0xe0 | byte(pcr>>8), byte(pcr)}, pi...)
		return section(append(b, es...))[1:]
	}
	alien := []byte{0x1b, 0xe3, 0, 0xf0, 0, 0x0f, 0xe3, 1, 0xf0, 0}
	var pats [][]byte
	if psi&2 != 0 { // the network's own table
		pat = append(append(append([]byte(nil), pat[:8]...), 0, 0, 0xe0, 0x10), pat[8:]...)
	}
	if psi&4 != 0 { // a second program
		pat = append(pat, 0, 2, 0xe0|byte(pm>>8), byte(pm))
	}
	pat[2] = byte(len(pat) - 3 + 4)
	if psi&8 != 0 && s.r.Bool(0.5) { // what will be on the air next
		x := append(append([]byte(nil), pat[:8]...), 0, 1, 0xf2, 0x34)
		x[2], x[5] = 13, 0xc2
		pats = append(pats, section(x)[1:])
	}
	pats = append(pats, section(pat)[1:])
	var pmts [][]byte
	if psi&4 != 0 && s.r.Bool(0.7) {
		pmts = append(pmts, table(2, 1, []byte{0xf0, 0}, alien))
	}
	if psi&8 != 0 && s.r.Bool(0.5) {
		pmts = append(pmts, table(1, 0, []byte{0xf0, 0}, alien))
	}
	if psi&16 != 0 && s.r.Bool(0.7) { // a private table
		x := []byte{0xc0, 0xb0, 0, 0, 1, 0xc1, 0, 0, 0xe1, 0, 0xf0, 0}
		for k := s.r.Intn(300); k >= 0; k-- {
			x = append(x, alien[k%len(alien)])
		}
		x[1], x[2] = 0xb0|byte((len(x)+1)>>8), byte(len(x)+1)
		pmts = append(pmts, section(x)[1:])
	}
	pmts = append(pmts, table(1, 1, pi, es))
	if s.r.Bool(0.3) {
		k, n := s.r.Intn(len(pmts)), len(pmts)-1
		pmts[k], pmts[n] = pmts[n], pmts[k]
	}
	its := s.tables(0, pats, false)
	its[0].pat = true
	y := s.tables(tsPMT, pmts, psi&32 != 0)
	y[len(y)-1].pmt = true
	return append(its, y...)
}

// tables puts sections into packets: each into its own, or back to back.
func (s *srtPub) tables(pid int, secs [][]byte, packed bool) (its []tsItem) {
	if !packed && len(secs) > 1 {
		for _, x := range secs {
			its = append(its, s.tables(pid, [][]byte{x}, false)...)
		}
		return
	}
	var b []byte
	starts := map[int]bool{}
	for _, x := range secs {
		starts[len(b)] = true
		b = append(b, x...)
	}
	for pos := 0; pos < len(b); {
		q := s.pid(pid)
		h := []byte{0x47, byte(q >> 8), byte(q), 0x10 | s.cc[q]}
		s.cc[q] = (s.cc[q] + 1) & 15
		first := -1
		for k := 182; k >= 0; k-- {
			if starts[pos+k] {
				first = k
			}
		}
		if first >= 0 {
			h[1] |= 0x40
			h = append(h, byte(first))
		} else if starts[pos+183] { // must begin in a packet that says so
			h[3] |= 0x20
			h = append(h, 0)
		}
		n := min(188-len(h), len(b)-pos)
		h = append(h, b[pos:pos+n]...)
		pos += n
		for len(h) < 188 {
			h = append(h, 0xff)
		}
		its = append(its, tsItem{pid: pid, b: h})
	}
	return
}

// flush sends the datagram in the making.
func (s *srtPub) flush() bool {
	if len(s.dg) == 0 {
		return !s.shut
	}
	if c := int(s.o.p("cut", 0)); c > 0 && s.n >= c {
		return false
	}
	w, p := s.w, s.p
	b := binary.BigEndian.AppendUint32(nil, (s.isn+uint32(s.n))&srtMask)
	b = binary.BigEndian.AppendUint32(b, 0xc0000000|uint32(s.n+1)&0x3ffffff)
	b = binary.BigEndian.AppendUint32(b, s.us())
	b = binary.BigEndian.AppendUint32(b, s.dest)
	var fin, due []*srtUnit
	for _, it := range s.dg {
		b = append(b, it.b...)
		for _, h := range it.hdrs {
			p.publish(h)
			h.SentAt = w.now()
		}
		fin = append(fin, it.fin...)
		due = append(due, it.due...)
		if it.pat {
			s.lastPAT = s.n
		}
		if it.pmt {
			s.psi = append(s.psi, [2]int{s.lastPAT, s.n})
		}
	}
	for _, x := range fin {
		x.fin = true
		for _, h := range x.hdrs {
			if x.early {
				break
			}
			p.publish(h)
			h.SentAt = w.now()
		}
		p.publish(x.t)
		x.t.SentAt = w.now()
	}
	for _, x := range due {
		x.t.DueAt, x.b = w.now(), s.n
		x.t.Sent = true
		p.Sent++
	}
	if s.n == 0 {
		s.data0 = w.now()
	}
	s.send(b)
	s.sent = append(s.sent, b)
	s.n++
	s.dg = nil
	if s.o.p("retx", 0) != 0 {
		for _, q := range s.again {
			if k := int((q - s.isn) & srtMask); k < len(s.sent) {
				w.s.Faults["srt_retx"]++
				c := append([]byte(nil), s.sent[k]...)
				c[4] |= 4
				s.send(c)
			}
		}
	}
	s.again = nil
	return !s.shut
}

// put adds a TS packet.
func (s *srtPub) put(it tsItem) bool {
	av := it.pid == tsVid || it.pid == tsAud
	for _, x := range it.due {
		os := s.open[it.pid]
		for i := range os {
			if os[i] == x {
				s.open[it.pid] = append(append([]*srtUnit{}, os[:i]...), os[i+1:]...)
				break
			}
		}
	}
	for _, x := range it.start {
		x.a = s.n
		s.open[it.pid] = append(s.open[it.pid], x)
		s.units = append(s.units, x)
	}
	drop := false
	if n := s.o.p("tsdrop", 0); av && n > 0 && s.r.Intn(1000) < int(n) {
		drop = true
		s.w.s.Faults["ts_drop"]++
		for _, x := range s.open[it.pid] {
			x.damaged = true
		}
		for _, x := range it.due {
			x.damaged = true
		}
	}
	if drop {
		it.b = nil
	} else if n := s.o.p("tsdup", 0); av && n > 0 && s.r.Intn(1000) < int(n) {
		s.w.s.Faults["ts_dup"]++
		d := tsItem{pid: it.pid, b: it.b}
		it.b = append(append([]byte(nil), it.b...), d.b...)
	}
	s.dg = append(s.dg, it)
	size := 0
	for _, x := range s.dg {
		size += len(x.b)
	}
	if per := int(s.o.p("per", 7)); size >= per*188 || per <= 7 && size+2*188 > 1456 {
		return s.flush()
	}
	return true
}

func (s *srtPub) putAll(its []tsItem) bool {
	for _, it := range its {
		if s.o.p("other", 0) != 0 && s.r.Bool(0.03) {
			n := tsItem{pid: 0x1fff, b: append([]byte{0x47, 0x1f, 0xff, 0x10}, make([]byte, 184)...)}
			if s.o.p("psi", 0)&4 != 0 && s.r.Bool(0.5) { // of another program
				n.pid = 0x300 + s.r.Intn(2)
				n.b[1], n.b[2] = 0x43, byte(n.pid)
				copy(n.b[4:], s.pes(n.pid&1 != 0, int64(s.base), int64(s.base), []byte{0, 0, 0, 1, 0x65, 1, 2, 3, 4, 5}))
			} else if s.r.Bool(0.5) {
				n.pid = 0x110
				n.b[1], n.b[2] = 0x41, 0x10
				copy(n.b[4:], s.pes(true, int64(s.base), int64(s.base), []byte("subtitle")))
			}
			if !s.put(n) {
				return false
			}
		}
		if !s.put(it) {
			return false
		}
	}
	return true
}

func adts(asc, raw []byte, crc bool, mpeg2 bool) []byte {
	idx, ch := (int(asc[0])&7)<<1|int(asc[1])>>7, int(asc[1])>>3&15
	n := 7 + len(raw)
	f := byte(0xf1)
	if crc {
		n += 2
		f = 0xf0
	}
	if mpeg2 {
		f |= 8
	}
	b := []byte{0xff, f, byte(int(asc[0]>>3)-1)<<6 | byte(idx<<2) | byte(ch>>2), byte(ch<<6) | byte(n>>11), byte(n >> 3), byte(n<<5) | 0x1f, 0xfc}
	if crc {
		b = append(b, 0x12, 0x34)
	}
	return append(b, raw...)
}

// stream sends the media; false: it stopped in the middle.
func (s *srtPub) stream() bool {
	w, o, p, r := s.w, s.o, s.p, s.r
	const wrap = 1 << 33
	switch o.p("tsb", 0) {
	case 0:
		s.base = 126000
	case 1:
		s.base = r.U64() % wrap
	case 2:
		// Where the wrap may be the first thing to be received, what is late
		// from before it would have a time before zero: there is none.
		if x := uint64(r.Intn(180000)); w.plan.k("lossy", 0) == 0 && o.p("tsdrop", 0) == 0 {
			s.base = wrap - x
		} else {
			s.base = wrap - x - 60*90000
		}
	case 3:
		s.base = 0
	}
	at := func(ms int64) int64 { return int64((s.base + uint64(ms*90)) % wrap) }
	var vprev *srtUnit  // video unit not yet due
	var adue []*srtUnit // audio units to end with the next audio PES
	var held []*Tag     // frames waiting for their PES
	var rest []byte     // part of a frame left over from the last PES
	var restU *srtUnit  // the frame
	var pend []tsItem   // video packets that audio may come between
	var sets [][]byte   // parameter sets in force
	want := 1
	merge := func(a, b []tsItem) (out []tsItem) {
		for len(a)+len(b) > 0 {
			if len(b) == 0 || len(a) > 0 && r.Intn(len(a)+len(b)) < len(a) {
				out, a = append(out, a[0]), a[1:]
			} else {
				out, b = append(out, b[0]), b[1:]
			}
		}
		return
	}
	var hdrA []*Tag
	sendAudio := func(last bool) bool {
		if len(held) == 0 && (len(rest) == 0 || !last) {
			return true
		}
		body := rest
		var us, fin []*srtUnit
		if restU != nil {
			fin = append(fin, restU)
		}
		rest, restU = nil, nil
		pts := int64(-1)
		for i, t := range held {
			x := &srtUnit{t: t}
			if t.AHd != nil {
				x.hdrs = []*Tag{t.AHd}
			}
			if i == 0 {
				pts = int64((s.base + uint64(t.Samp)) % wrap)
			}
			us = append(us, x)
			f := adts(t.Asc, t.Nals[0], o.p("crc", 0) != 0 && r.Bool(0.5), o.p("crc", 0) > 1)
			if i == len(held)-1 && !last && o.p("span", 0) != 0 && r.Bool(0.5) {
				k := 1 + r.Intn(len(f)-1)
				rest, restU = f[k:], x
				f = f[:k]
			} else {
				fin = append(fin, x)
			}
			body = append(body, f...)
		}
		held = nil
		pcr := int64(-1)
		if !p.SP.Video {
			pcr = pts
		}
		its := s.packets(tsAud, s.pes(true, pts, pts, body), pcr)
		its[0].start, its[0].due = us, adue
		its[len(its)-1].fin = fin
		adue = fin
		if o.p("mix", 0) != 0 {
			its = merge(pend, its)
			pend = nil
		}
		return s.putAll(its) && (o.p("full", 0) != 0 || s.flush())
	}
	sendVideo := func() bool {
		its := pend
		pend = nil
		return s.putAll(its) && (o.p("full", 0) != 0 || s.flush())
	}
	nt := 0
	for i, t := range p.Tags {
		if t.Kind == kVHdr {
			sps, pps := avcSets(t.B[5:])
			sets = [][]byte{sps, pps}
			continue
		}
		if t.Kind == kAHdr {
			hdrA = append(hdrA, t)
			continue
		}
		if w.stop || s.shut {
			return false
		}
		if t.Pace > 0 {
			d := t.Pace
			if n := o.p("pausems", 0); n > 0 && i == len(p.Tags)/2 {
				for ; n > 900; n -= 900 {
					simrt.Sleep(900 * time.Millisecond)
					s.send(srtCtl(1, 0, s.us(), s.dest, nil))
				}
			}
			simrt.Sleep(d)
		}
		if w.now()-s.lastSnd > time.Second || o.p("ka", 0) != 0 && r.Bool(0.05) {
			s.send(srtCtl(1, 0, s.us(), s.dest, nil))
		}
		if nt%40 == 0 || t.Kind == kKey || r.Bool(0.02) {
			if !sendVideo() {
				return false
			}
			if n := o.p("pids", 0); n > 0 && nt == 0 || n > 1 && nt > 0 && r.Bool(0.1) && w.plan.k("lossy", 0) == 0 && w.plan.Net.UDPErr == 0 && o.p("tsdrop", 0) == 0 {
				s.renumber(nt == 0 || len(rest) == 0)
			}
			if !s.putAll(s.psiItems()) {
				return false
			}
		}
		nt++
		if t.Kind == kAudio {
			if len(hdrA) > 0 {
				t.AHd = hdrA[len(hdrA)-1]
				hdrA = nil
			}
			if len(held) == 0 {
				want = 1 + r.Intn(int(o.p("aus", 1)))
			}
			held = append(held, t)
			if len(held) >= want && !sendAudio(false) {
				return false
			}
			continue
		}
		if !sendVideo() {
			return false
		}
		x := &srtUnit{t: t}
		ns := t.Nals
		var pre [][]byte
		if o.p("aud", 0) != 0 {
			pre = append(pre, []byte{9, 0xf0})
		}
		if i > 0 && p.Tags[i-1].Kind == kVHdr {
			x.hdrs = []*Tag{p.Tags[i-1]}
		}
		if t.Kind == kKey && (x.hdrs != nil || o.p("rep", 0) != 0) {
			pre = append(pre, sets...)
		}
		// The parameter sets may come ahead in packets of their own.
		apart := len(pre) > 1 && o.p("pspes", 0) != 0
		if !apart {
			ns = append(pre, ns...)
		}
		annexB := func(ns [][]byte) (body []byte) {
			for k, n := range ns {
				if k == 0 || r.Bool(0.5) {
					body = append(body, 0)
				}
				body = append(append(body, 0, 0, 1), n...)
			}
			return
		}
		body := annexB(ns)
		if o.p("tz", 0) != 0 && r.Bool(0.3) {
			body = append(body, 0, 0, 0, 0)[:len(body)+r.Intn(5)]
		}
		dts := at(int64(t.Ts - p.SP.BaseTs))
		pts := at(int64(t.Ts-p.SP.BaseTs) + int64(t.Cts))
		var its []tsItem
		if apart {
			k := len(pre) - 1
			for _, ps := range [][][]byte{pre[:k], pre[k:]} {
				its = append(its, s.packets(tsVid, s.pes(false, pts, dts, annexB(ps)), dts)...)
			}
			its[len(its)-1].hdrs, x.early = x.hdrs, true
		}
		its = append(its, s.packets(tsVid, s.pes(false, pts, dts, body), dts)...)
		its[0].start = []*srtUnit{x}
		if vprev != nil {
			its[0].due = []*srtUnit{vprev}
		}
		vprev = x
		its[len(its)-1].fin = []*srtUnit{x}
		pend = its
		if o.p("mix", 0) == 0 && !sendVideo() {
			return false
		}
	}
	return sendAudio(true) && sendVideo() && s.flush()
}

// udpArrived notes a datagram of a publisher that reached the server.
func (w *World) udpArrived(to *simrt.Node, port int, from *net.UDPAddr, b []byte) {
	w.rtpArrived(to, port, from, b)
	if port != portSRT || to != w.srv || len(b) < 16 {
		return
	}
	s := w.srtIn[from.String()]
	if s == nil || s.over {
		return
	}
	if b[0]&0x80 != 0 {
		if binary.BigEndian.Uint32(b)>>16&0x7fff == 5 {
			s.over = true
		}
		return
	}
	if s.p.AckAt == 0 {
		s.p.AckAt = w.now() + w.procBound()
		if w.plan.stalls() || w.plan.k("lossy", 0) != 0 { // it may have been refused, unheard
			s.p.AckAt += 1000 * time.Hour
		}
	}
	s.arrived = append(s.arrived, int((binary.BigEndian.Uint32(b)-s.isn)&srtMask))
}

// guaranteed withdraws what a receiver that does not reorder need not have
// been able to put together.
func (s *srtPub) guaranteed() {
	lossy := s.w.plan.k("lossy", 0) != 0
	have := map[int]bool{}
	max := -1
	for _, k := range s.arrived {
		if k > max {
			have[k] = true
			max = k
		}
	}
	psi := 1 << 30 // no datagram but those after this one
	for _, x := range s.psi {
		all := true
		for k := x[0]; k <= x[1]; k++ {
			all = all && have[k]
		}
		if all && x[1] < psi {
			psi = x[1]
		}
	}
	for _, x := range s.units {
		t := x.t
		ok := t.Sent && !x.damaged && (x.a > psi || x.a == psi && !lossy)
		for k := x.a; k <= x.b && ok; k++ {
			ok = have[k] || k == s.n && !lossy
		}
		t.Sent = ok
		for _, h := range x.hdrs {
			h.Sent, h.DueAt = ok, t.DueAt
		}
	}
	s.have = have
	sure := true
	for i, t := range s.p.Pub {
		if t.Kind == kKey {
			sure = sure || t.Sent
			if i > 0 && s.p.Pub[i-1].Kind == kVHdr {
				sure = t.Sent
			}
		}
		if t.isVideo() && !sure {
			t.VH = -1
		}
	}
}

// tailLost says whether ns can be what is left of t where the end of it and
// all that came after was lost, and the stream then ended: nothing tells a
// receiver that there was more, if the PES has no length.
func (s *srtPub) tailLost(t *Tag, ns [][]byte) bool {
	ns = noAUD(ns)
	if t.Sent || !t.isVideo() || s.o.p("vlen", 0) != 0 || s.p.EndKind != "fin" || len(ns) > len(t.Nals) {
		return false
	}
	for i, n := range ns {
		if w := t.Nals[i]; i < len(ns)-1 && !bytes.Equal(n, w) || !bytes.HasPrefix(w, n) {
			return false
		}
	}
	after := false
	for _, x := range s.units {
		if after && x.t.isVideo() && s.have[x.a] && !x.damaged {
			return false
		}
		after = after || x.t == t
	}
	return after
}
