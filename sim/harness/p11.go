package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/sbraveyoung/GGmpeg/libsrt"
	"verif/simrt"
)

// P11: the SRT listener through its public interface, with simulated callers
// (several, restarting, misbehaving) on a network that loses, duplicates,
// delays and replays datagrams. The scenario plays the embedding program.

func init() {
	scenarios["P11"] = &Scenario{Gen: genP11, Setup: setupP11}
}

func genP11(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	if r.Bool(0.6) && !p.NoFault {
		p.Net.UDPLoss = []float64{0, 0.01, 0.1, 0.2}[r.Intn(4)]
		p.Net.UDPDup = []float64{0, 0.02, 0.3}[r.Intn(3)]
		p.Net.UDPReorder = []float64{0, 0.05, 0.4}[r.Intn(3)]
		p.Net.UDPExtra = []time.Duration{time.Millisecond, 20 * time.Millisecond, 300 * time.Millisecond}[r.Intn(3)]
	}
	if !p.NoFault && r.Bool(0.2) {
		p.Net.UDPErr = []float64{0.002, 0.02, 0.05}[r.Intn(3)]
	}
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		P := map[string]int64{"n": 1 + int64(r.Intn(150)), "us": pick64(r, 0, 100, 1000, 5000, 12000, 30000), "sess": 1 + int64(r.Intn(3)),
			"end": int64(r.Intn(3)), "gap": pick64(r, 0, 1, 50, 700), "size": pick64(r, 9, 188, 1316, 1316, 1456, 8900)}
		if r.Bool(0.5) {
			P["isn"] = pick64(r, 0, 1, 0x7fffffff, 0x7ffffffe, 0x7fffff80, 0x3fffffff, 0x40000000)
		}
		if r.Bool(0.4) {
			P["replay"] = pick64(r, 2, 10, 30)
		}
		if r.Bool(0.3) {
			P["jump"] = pick64(r, 1, 5, 20)
		}
		if r.Bool(0.3) {
			P["junk"] = pick64(r, 2, 10, 30)
		}
		if r.Bool(0.3) {
			P["retx"] = 1
		}
		if r.Bool(0.2) {
			P["err"] = 1 + int64(r.Intn(100))
		}
		if r.Bool(0.3) {
			P["pause"] = pick64(r, 15, 300, 1500, 3500)
		}
		if r.Bool(0.06) {
			P["silent"] = pick64(r, 17000, 25000, 40000)
		}
		p.Ops = append(p.Ops, Op{K: "caller", I: int64(1 + i), T: int64(r.Intn(3)) * int64(r.Intn(400000)), P: P})
	}
	if r.Bool(0.4) {
		p.Ops = append(p.Ops, Op{K: "forger", I: 20, T: int64(r.Intn(500000)), P: map[string]int64{"n": 5 + int64(r.Intn(40)), "us": pick64(r, 500, 5000, 30000), "on": pick64(r, 20, 1+int64(r.Intn(n)))}})
	}
}

type srtArr struct {
	k  int
	at time.Duration
}

// srtSess is one session of a caller, as the network saw it.
type srtSess struct {
	c        *srtCaller
	id       int
	sock     uint32
	isn      uint32
	cookies  map[uint32]bool // issued to it
	srvSock  uint32
	Live     time.Duration // when a valid conclusion had arrived
	Agreed   bool          // the caller knows
	Shut     time.Duration // when a shutdown had arrived
	LastArr  time.Duration
	Idle     bool // it was silent for so long that it may have been dropped
	Dead     bool // for so long that it must have been
	arr      []srtArr
	arrived  map[int]bool
	top      int
	reveal   map[int]time.Duration // numbers known to be missing, since when
	late     map[int]bool          // of those, the ones that came after all
	naked    map[int]bool
	got      []srtArr
	ErrAt    time.Duration // the consumer refused it
	ackNum   uint32
	ackLast  int // next number acknowledged
	AckAt    time.Duration
	kaIn     int
	kaOut    int
	kaAt     time.Duration
	conReply bool
}

type srtCaller struct {
	l     *srtWorld
	id    int
	op    *Op
	addr  string
	u     *simrt.UDPConn
	cur   *srtSess
	sess  []*srtSess
	old   [][]byte
	in    int // datagrams received
	again []uint32
	have  map[*srtSess]uint32 // cookies received
}

type srtWorld struct {
	w     *World
	l     *libsrt.Listener
	calls []*srtCaller
	by    map[string]*srtCaller
	ran   bool
}

func setupP11(w *World) {
	w.srv = w.s.Node("srv", "10.0.0.1", false)
	sw := &srtWorld{w: w, by: map[string]*srtCaller{}}
	w.s.OnUDP = sw.arrive
	w.s.OnUDPOut = sw.leave
	w.s.GoOn(w.srv, "listener", func() {
		l, err := libsrt.Listen(fmt.Sprintf(":%d", portSRT), "s", sw.deliver)
		if err != nil {
			panic(err)
		}
		sw.l = l
		l.Run()
		sw.ran = true
	})
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		switch o.K {
		case "caller":
			c := &srtCaller{l: sw, id: int(o.I), op: o}
			sw.calls = append(sw.calls, c)
			w.hold++
			w.actor(w.client(o.I), fmt.Sprintf("caller%d", o.I), o.T, func() { c.run(); w.hold-- })
		case "forger":
			w.hold++
			w.actor(w.client(o.p("on", o.I)), "forger", o.T, func() { sw.forge(o); w.hold-- })
		}
	}
	dir := w.s.Node("director", "10.9.9.9", true)
	w.s.GoOn(dir, "director", func() {
		w.waitUntil(300*time.Second, func() bool { return w.hold == 0 })
		w.sleep(w.procBound() + p11B)
		w.stop = true
		w.StopAt = w.now()
		w.s.Calm()
		for _, c := range sw.calls {
			if c.u != nil {
				c.u.Close()
			}
		}
		if sw.l != nil {
			sw.l.Close()
			if !w.waitUntil(w.procBound()+2*time.Second, func() bool { return sw.ran }) {
				w.fail("srt-close", "Run has not returned after Close")
			}
		}
		w.waitUntil(5*time.Second, func() bool { return w.alive == 0 })
		w.s.Stop("done")
	})
	w.done = append(w.done, sw.check)
}

// srtB bounds how long the listener takes to act on a datagram.
func (w *World) srtB() time.Duration {
	if w.plan.stalls() {
		return time.Hour
	}
	return w.procBound() + p11B
}

const p11B = 100 * time.Millisecond // within which the listener acts

const srtMask = 1<<31 - 1

func (s *srtSess) seq(k int) uint32 { return (s.isn + uint32(k)) & srtMask }

// num is the packet number of a sequence number near those used.
func (s *srtSess) num(seq uint32) int {
	d := (seq - s.isn) & srtMask
	if d > 1<<30 {
		return int(d) - 1<<31
	}
	return int(d)
}

func (s *srtSess) String() string {
	return fmt.Sprintf("caller %d session %d (isn %d)", s.c.id, s.id, s.isn)
}

func (s *srtSess) up() bool { return s.Live > 0 && s.Shut == 0 && s.ErrAt == 0 && !s.Dead }

// deliver is the listener's consumer.
func (sw *srtWorld) deliver(id string, b []byte) error {
	w := sw.w
	if id != "s" {
		w.fail("srt-stream-id", "the consumer got stream id %q", id)
	}
	w.ok("payloads")
	if len(b) < 9 || b[0] != 'S' {
		w.fail("srt-invented", "the consumer got %d bytes %s, which no session sent", len(b), hexs(b, 24))
		return nil
	}
	ci, si, k := int(binary.BigEndian.Uint16(b[1:])), int(binary.BigEndian.Uint16(b[3:])), int(binary.BigEndian.Uint32(b[5:]))
	var s *srtSess
	for _, c := range sw.calls {
		if c.id == ci && si < len(c.sess) {
			s = c.sess[si]
		}
	}
	if s == nil {
		panic("harness: payload of no session")
	}
	for i := 9; i < len(b); i++ {
		if b[i] != byte(k+i) {
			w.fail("srt-payload", "%v: payload %d is damaged at byte %d of %d", s, k, i, len(b))
			return nil
		}
	}
	if want := s.c.size(k); len(b) != want {
		w.fail("srt-payload", "%v: payload %d has %d bytes, sent %d", s, k, len(b), want)
	}
	if s.Live == 0 {
		w.fail("srt-not-concluded", "%v: payload %d handed over although no conclusion with its cookie had arrived", s, k)
	}
	if s.ErrAt > 0 {
		w.fail("srt-after-error", "%v: payload %d handed over after the consumer had refused the session", s, k)
	}
	if s.Dead {
		w.fail("srt-after-silence", "%v: payload %d handed over although the peer had been silent for more than 15 s before", s, k)
	}
	if n := len(s.got); n > 0 && s.got[n-1].k >= k {
		kind := "srt-order"
		for _, g := range s.got {
			if g.k == k {
				kind = "srt-twice"
			}
		}
		w.fail(kind, "%v: payload %d handed over after %d", s, k, s.got[n-1].k)
	}
	if s.Shut > 0 && w.now() > s.Shut+w.srtB() {
		w.fail("srt-after-shutdown", "%v: payload %d handed over at %v, its shutdown had arrived at %v", s, k, w.now(), s.Shut)
	}
	s.got = append(s.got, srtArr{k, w.now()})
	if e := int(s.c.op.p("err", 0)); e > 0 && len(s.got) == e && s.id == 0 {
		s.ErrAt = max(w.now(), 1)
		return errors.New("enough")
	}
	return nil
}

// arrive notes what reaches the listener, in order.
func (sw *srtWorld) arrive(to *simrt.Node, port int, from *net.UDPAddr, b []byte) {
	w := sw.w
	if to != w.srv || port != portSRT || len(b) < 16 {
		return
	}
	c := sw.by[from.String()]
	if c == nil {
		return
	}
	now := max(w.now(), 1)
	dest := binary.BigEndian.Uint32(b[12:])
	if b[0]&0x80 != 0 && binary.BigEndian.Uint16(b)&0x7fff == 0 {
		if len(b) < 64 {
			return
		}
		h := b[16:]
		sock := binary.BigEndian.Uint32(h[24:])
		for _, s := range c.sess {
			if s.sock == sock && int32(binary.BigEndian.Uint32(h[20:])) == -1 && s.cookies[binary.BigEndian.Uint32(h[28:])] && s.Live == 0 {
				s.Live = now
				s.LastArr = now
			}
		}
		return
	}
	var s *srtSess
	for _, x := range c.sess {
		if x.srvSock == dest && dest != 0 {
			s = x
		}
	}
	if s == nil || s.Live == 0 {
		return
	}
	if s.Shut == 0 {
		if now-s.LastArr > 4*time.Second {
			s.Idle = true
		}
		if now-s.LastArr > 15*time.Second && !w.plan.stalls() {
			s.Dead = true
			w.ok("silent")
		}
		s.LastArr = now
	}
	if b[0]&0x80 != 0 {
		switch binary.BigEndian.Uint16(b) & 0x7fff {
		case 1:
			if s.up() {
				s.kaIn++
				s.kaAt = now
			}
		case 5:
			if s.Shut == 0 {
				s.Shut = now
			}
		}
		return
	}
	if s.Shut > 0 || len(b) < 25 || b[16] != 'S' || int(binary.BigEndian.Uint16(b[17:])) != c.id || int(binary.BigEndian.Uint16(b[19:])) != s.id {
		return
	}
	k := s.num(binary.BigEndian.Uint32(b))
	if k < 0 || s.arrived[k] {
		return
	}
	s.arrived[k] = true
	s.arr = append(s.arr, srtArr{k, now})
	if k < s.top {
		s.late[k] = true
		return
	}
	for ; s.top < k; s.top++ {
		s.reveal[s.top] = now
	}
	s.top = k + 1
}

// leave looks at what the listener sends.
func (sw *srtWorld) leave(from *simrt.Node, port int, to *net.UDPAddr, b []byte) {
	w := sw.w
	if from != w.srv || port != portSRT {
		return
	}
	now := max(w.now(), 1)
	if len(b) < 16 || b[0]&0x80 == 0 {
		w.fail("srt-sent", "the listener sent %s to %v", hexs(b, 32), to)
		return
	}
	dest := binary.BigEndian.Uint32(b[12:])
	c := sw.by[to.String()]
	typ := binary.BigEndian.Uint16(b) & 0x7fff
	var s *srtSess
	if c != nil {
		for _, x := range c.sess {
			if x.sock == dest {
				s = x
			}
		}
	}
	if s == nil {
		if typ == 5 || typ == 0 && len(b) >= 64 && int32(binary.BigEndian.Uint32(b[36:])) != -1 {
			return
		}
		w.fail("srt-sent", "the listener sent control type %d to %v, socket %08x, which has no session", typ, to, dest)
		return
	}
	body := b[16:]
	switch typ {
	case 0:
		if len(body) < 48 {
			w.fail("srt-handshake", "a handshake reply of %d bytes", len(body))
			return
		}
		switch ht := int32(binary.BigEndian.Uint32(body[20:])); ht {
		case 1:
			s.cookies[binary.BigEndian.Uint32(body[28:])] = true
		case -1:
			if s.Live == 0 {
				w.fail("srt-accepted", "%v was accepted although no conclusion with its cookie had arrived", s)
			}
			if id := binary.BigEndian.Uint32(body[24:]); s.srvSock != 0 && id != s.srvSock {
				w.fail("srt-handshake", "%v: the listener's socket id changes from %08x to %08x", s, s.srvSock, id)
			} else {
				for _, x := range sw.calls {
					for _, y := range x.sess {
						if y != s && y.srvSock == id {
							w.fail("srt-handshake", "%v and %v were given the same socket id %08x", s, y, id)
						}
					}
				}
				s.srvSock = id
			}
		}
		return
	case 1:
		if s.kaOut++; s.kaOut > s.kaIn {
			w.fail("srt-keepalive", "%v was sent %d keep-alives, it had sent %d", s, s.kaOut, s.kaIn)
		}
		return
	}
	if typ == 5 {
		return
	}
	if s.Live == 0 || s.Dead || s.Shut > 0 && now > s.Shut+w.srtB() {
		w.fail("srt-sent", "%v was sent control type %d while it was not live (concluded %v, shut down %v, silent for long %v)", s, typ, s.Live, s.Shut, s.Dead)
		return
	}
	switch typ {
	case 2:
		w.ok("acks")
		if len(body) < 4 {
			w.fail("srt-ack", "an ACK of %d bytes", len(body))
			return
		}
		if n := binary.BigEndian.Uint32(b[4:]); n != s.ackNum+1 {
			w.fail("srt-ack", "%v: ACK number %d follows %d", s, n, s.ackNum)
		} else {
			s.ackNum = n
		}
		v := binary.BigEndian.Uint32(body)
		k := s.num(v)
		ok := k == 0
		for _, g := range s.got {
			ok = ok || g.k == k-1
		}
		last := -1
		if n := len(s.got); n > 0 {
			last = s.got[n-1].k
		}
		if v > srtMask || !ok || k < s.ackLast {
			w.fail("srt-ack", "%v: ACK of %d (packet %d); the last one handed over is %d (packet %d), acknowledged before: %d packets", s, v, k, s.seq(last), last, s.ackLast)
		}
		s.ackLast = k
		s.AckAt = now
	case 3:
		w.ok("naks")
		var rs [][2]uint32
		for o := 0; o+4 <= len(body); o += 4 {
			x := binary.BigEndian.Uint32(body[o:])
			if x>>31 == 0 {
				rs = append(rs, [2]uint32{x, x})
				continue
			}
			if o+8 > len(body) {
				w.fail("srt-nak", "%v: a NAK ends in the middle of a range: %x", s, body)
				return
			}
			y := binary.BigEndian.Uint32(body[o+4:])
			if y>>31 != 0 {
				w.fail("srt-nak", "%v: a NAK's range ends with %08x", s, y)
				return
			}
			rs = append(rs, [2]uint32{x & srtMask, y})
			o += 4
		}
		if len(rs) == 0 {
			w.fail("srt-nak", "%v: an empty NAK", s)
		}
		for _, r := range rs {
			a, z := s.num(r[0]), s.num(r[1])
			if z < a || z-a > 1<<20 {
				w.fail("srt-nak", "%v: NAK of %d..%d", s, r[0], r[1])
				return
			}
			for k := a; k <= z; k++ {
				if _, ok := s.reveal[k]; !ok {
					w.fail("srt-nak", "%v: NAK of %d..%d: %d is not missing", s, r[0], r[1], s.seq(k))
					return
				}
				s.naked[k] = true
			}
		}
	}
}

func (c *srtCaller) size(k int) int {
	n := int(c.op.p("size", 188))
	if n < 25 {
		return max(n, 9)
	}
	return 9 + int(simrt.Hash(uint64(c.id), uint64(k))%uint64(n-8))
}

func (c *srtCaller) send(b []byte) {
	if _, err := c.u.WriteToUDP(b, &net.UDPAddr{IP: net.ParseIP("10.0.0.1"), Port: portSRT}); err == nil && len(c.old) < 4000 {
		c.old = append(c.old, b)
	}
}

func srtCtl(typ uint16, info, ts, dest uint32, body []byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, 1<<31|uint32(typ)<<16)
	b = binary.BigEndian.AppendUint32(b, info)
	b = binary.BigEndian.AppendUint32(b, ts)
	b = binary.BigEndian.AppendUint32(b, dest)
	return append(b, body...)
}

func srtHS(ver, isn uint32, typ int32, sock, cookie uint32) []byte {
	b := make([]byte, 48)
	binary.BigEndian.PutUint32(b, ver)
	binary.BigEndian.PutUint32(b[8:], isn)
	binary.BigEndian.PutUint32(b[12:], 9000)
	binary.BigEndian.PutUint32(b[16:], 8192)
	binary.BigEndian.PutUint32(b[20:], uint32(typ))
	binary.BigEndian.PutUint32(b[24:], sock)
	binary.BigEndian.PutUint32(b[28:], cookie)
	copy(b[32:], []byte{1, 0, 0, 10})
	return b
}

// run plays the caller's sessions one after the other from one port.
func (c *srtCaller) run() {
	w := c.l.w
	u, err := simrt.ListenUDP("udp", &net.UDPAddr{Port: 20000 + c.id})
	if err != nil {
		panic(err)
	}
	c.u = u
	c.addr = u.LocalAddr().String()
	c.l.by[c.addr] = c
	w.actor(w.client(c.op.I), fmt.Sprintf("caller%d-rd", c.id), 0, c.readLoop)
	r := w.rng(21, uint64(c.id))
	o := c.op
	odd := func(what string) bool { return r.Intn(100) < int(o.p(what, 0)) }
	for i := 0; i < int(o.p("sess", 1)) && !w.stop; i++ {
		s := &srtSess{c: c, id: i, sock: uint32(r.U64()) | 1, isn: uint32(o.p("isn", int64(r.U64()&srtMask))),
			cookies: map[uint32]bool{}, arrived: map[int]bool{}, reveal: map[int]time.Duration{}, late: map[int]bool{}, naked: map[int]bool{}}
		c.sess = append(c.sess, s)
		c.cur = s
		c.again = nil
		// handshake
		rtt := time.Duration(0) // nothing gets lost, and an answer takes no longer
		if w.plan.Net.UDPLoss == 0 && !w.plan.stalls() && c.l.l != nil {
			rtt = w.srtB() + 4*(w.plan.Net.LatMax+w.plan.Net.UDPExtra)
		}
		try := func(f func() []byte, ok func() bool) bool {
			for n := 0; n < 30 && !w.stop; n++ {
				c.send(f())
				if w.waitUntil(max(400*time.Millisecond, rtt), ok) {
					return true
				}
				if rtt > 0 {
					return false
				}
			}
			return false
		}
		if !try(func() []byte { return srtCtl(0, 0, 0, 0, srtHS(4, s.isn, 1, s.sock, 0)) }, func() bool { return c.cookieOf(s) != 0 }) {
			if !w.plan.stalls() { // a held-up server may lag behind its queue for long
				w.fail("srt-no-answer", "%v: no answer to its inductions", s)
			}
			return
		}
		cookie := c.cookieOf(s)
		if !try(func() []byte { return srtCtl(0, 0, 0, 0, srtHS(5, s.isn, -1, s.sock, cookie)) }, func() bool { return s.Agreed }) {
			if !w.plan.stalls() { // a held-up server may lag behind its queue for long
				w.fail("srt-no-answer", "%v: no answer to its conclusions with cookie %08x", s, cookie)
			}
			return
		}
		w.logf("%v up, socket %08x", s, s.srvSock)
		t0 := w.now()
		pkt := func(k int) []byte {
			b := binary.BigEndian.AppendUint32(nil, s.seq(k))
			b = binary.BigEndian.AppendUint32(b, 0xc0000000|uint32(k+1)&0x3ffffff)
			b = binary.BigEndian.AppendUint32(b, uint32((w.now()-t0)/time.Microsecond))
			b = binary.BigEndian.AppendUint32(b, s.srvSock)
			b = append(b, 'S', byte(c.id>>8), byte(c.id), byte(i>>8), byte(i))
			b = binary.BigEndian.AppendUint32(b, uint32(k))
			for n := 9; n < c.size(k); n++ {
				b = append(b, byte(k+n))
			}
			return b
		}
		k := 0
		ka := w.now()
		for n := 0; n < int(o.p("n", 1)) && !w.stop; n++ {
			if odd("jump") {
				k += 1 + r.Intn(60)
			}
			c.send(pkt(k))
			k++
			if odd("replay") && len(c.old) > 0 {
				w.s.Faults["srt_replay"]++
				c.u.WriteToUDP(c.old[r.Intn(len(c.old))], &net.UDPAddr{IP: net.ParseIP("10.0.0.1"), Port: portSRT})
			}
			if odd("junk") {
				w.s.Faults["srt_junk"]++
				c.send(srtJunk(r, s.srvSock))
			}
			if o.p("retx", 0) != 0 {
				for _, q := range c.again {
					if r.Bool(0.8) {
						c.send(pkt(s.num(q)))
					}
				}
				c.again = nil
			}
			if r.Bool(0.02) || w.now()-ka > time.Second {
				ka = w.now()
				c.send(srtCtl(1, 0, uint32((w.now()-t0)/time.Microsecond), s.srvSock, nil))
			}
			if t := o.p("pause", 0); t > 0 && r.Intn(60) == 0 {
				simrt.Sleep(time.Duration(t) * time.Millisecond)
			}
			if t := o.p("us", 0); t > 0 && r.Intn(4) > 0 {
				simrt.Sleep(time.Duration(t) * time.Microsecond)
			}
		}
		// let the listener have it all before the end
		if r.Bool(0.7) {
			simrt.Sleep(w.procBound() + p11B)
		}
		switch o.p("end", 0) {
		case 1: // gone without a word
			w.s.Faults["srt_vanish"]++
		case 2:
			for n := 0; n < 3; n++ {
				c.send(srtCtl(5, 0, uint32((w.now()-t0)/time.Microsecond), s.srvSock, make([]byte, 4)))
			}
		default:
			c.send(srtCtl(5, 0, uint32((w.now()-t0)/time.Microsecond), s.srvSock, make([]byte, 4)))
		}
		if t := o.p("gap", 0); t > 0 {
			simrt.Sleep(time.Duration(t) * time.Millisecond)
		}
		if t := o.p("silent", 0); t > 0 && o.p("end", 0) == 1 && i == 0 {
			w.s.Faults["srt_silent"]++
			simrt.Sleep(time.Duration(t) * time.Millisecond)
			for n := 0; n < 3; n++ {
				c.send(pkt(k))
				c.send(srtCtl(1, 0, uint32((w.now()-t0)/time.Microsecond), s.srvSock, nil))
				k++
				simrt.Sleep(20 * time.Millisecond)
			}
		}
		for n := 0; n < int(o.p("replay", 0))/4; n++ {
			w.s.Faults["srt_replay"]++
			c.u.WriteToUDP(c.old[r.Intn(len(c.old))], &net.UDPAddr{IP: net.ParseIP("10.0.0.1"), Port: portSRT})
		}
	}
}

// cookieOf is the cookie the caller has received for the session.
func (c *srtCaller) cookieOf(s *srtSess) uint32 { return c.have[s] }

func srtJunk(r *simrt.Rand, dest uint32) []byte {
	b := make([]byte, r.Intn(90))
	r.Read(b)
	switch r.Intn(6) {
	case 0:
		return b
	case 1: // acknowledges an acknowledgement
		return srtCtl(6, uint32(r.Intn(5)), 0, dest, nil)
	case 2: // a handshake that is too short
		return srtCtl(0, 0, 0, 0, b[:min(len(b), 47)])
	case 3: // a user-defined or unknown message
		return srtCtl(uint16([]int{4, 7, 8, 0x7fff}[r.Intn(4)]), 1, 0, dest, b)
	case 4: // a handshake of another kind
		return srtCtl(0, 0, 0, 0, srtHS(5, 1, []int32{0, -2, 1002, 7}[r.Intn(4)], uint32(r.U64()), 0))
	default:
		if len(b) > 0 {
			b[0] |= 0x80
		}
		return b
	}
}

// readLoop receives what the listener sends.
func (c *srtCaller) readLoop() {
	b := make([]byte, 2048)
	for {
		n, _, err := c.u.ReadFromUDP(b)
		if err != nil {
			return
		}
		c.in++
		if n < 16 || c.cur == nil || binary.BigEndian.Uint32(b[12:]) != c.cur.sock {
			continue
		}
		s := c.cur
		switch binary.BigEndian.Uint16(b) & 0x7fff {
		case 0:
			if n < 64 {
				continue
			}
			switch int32(binary.BigEndian.Uint32(b[36:])) {
			case 1:
				if c.have == nil {
					c.have = map[*srtSess]uint32{}
				}
				if c.have[s] == 0 {
					c.have[s] = binary.BigEndian.Uint32(b[44:])
				}
			case -1:
				s.Agreed = true
			}
		case 3:
			for o := 16; o+4 <= n; o += 4 {
				x := binary.BigEndian.Uint32(b[o:])
				if x>>31 == 0 {
					c.again = append(c.again, x)
				} else if o+8 <= n {
					y := binary.BigEndian.Uint32(b[o+4:])
					for i := 0; i < 50 && (x+uint32(i))&srtMask != (y+1)&srtMask; i++ {
						c.again = append(c.again, (x+uint32(i))&srtMask)
					}
					o += 4
				}
			}
		}
	}
}

// forge sends, from an address of its own, what only others may.
func (sw *srtWorld) forge(o *Op) {
	w := sw.w
	r := w.rng(22, uint64(o.I))
	u, err := simrt.ListenUDP("udp", &net.UDPAddr{Port: 20000 + int(o.I)})
	if err != nil {
		panic(err)
	}
	defer u.Close()
	for n := 0; n < int(o.p("n", 1)) && !w.stop; n++ {
		var l []*srtSess
		for _, c := range sw.calls {
			if c.cur != nil && c.cur.srvSock != 0 {
				l = append(l, c.cur)
			}
		}
		var b []byte
		var dest, cookie, seq uint32
		if len(l) > 0 {
			s := l[r.Intn(len(l))]
			dest, seq, cookie = s.srvSock, s.seq(s.top), sw.cookie(s)
		}
		switch r.Intn(6) {
		case 0: // concludes what it never began
			b = srtCtl(0, 0, 0, 0, srtHS(5, seq, -1, uint32(r.U64())|1, 0))
		case 1: // with another's cookie
			b = srtCtl(0, 0, 0, 0, srtHS(5, seq, -1, uint32(r.U64())|1, cookie))
		case 2: // ends another's session
			b = srtCtl(5, 0, 0, dest, make([]byte, 4))
		case 3, 4: // feeds another's session
			b = binary.BigEndian.AppendUint32(nil, seq)
			b = binary.BigEndian.AppendUint32(b, 0xc0000001)
			b = binary.BigEndian.AppendUint32(b, 0)
			b = binary.BigEndian.AppendUint32(b, dest)
			b = append(b, "Forged payload"...)
		default:
			b = srtJunk(r, dest)
		}
		w.s.Faults["srt_forged"]++
		u.WriteToUDP(b, &net.UDPAddr{IP: net.ParseIP("10.0.0.1"), Port: portSRT})
		simrt.Sleep(time.Duration(o.p("us", 1000)) * time.Microsecond)
	}
}

func (sw *srtWorld) cookie(s *srtSess) uint32 {
	return s.c.have[s]
}

func (sw *srtWorld) check() {
	w := sw.w
	B := w.srtB()
	if w.plan.stalls() {
		return // packets may queue for long
	}
	for _, c := range sw.calls {
		for _, s := range c.sess {
			got := map[int]time.Duration{}
			for _, g := range s.got {
				got[g.k] = g.at
			}
			end := w.StopAt
			if s.Shut > 0 {
				end = s.Shut
			}
			if s.ErrAt > 0 && s.ErrAt < end {
				end = s.ErrAt
			}
			if s.Idle {
				continue
			}
			top := -1
			for _, a := range s.arr {
				if a.k < top {
					continue
				}
				top = a.k
				at, ok := got[a.k]
				if s.ErrAt > 0 && (a.at >= s.ErrAt || !ok && a.at+B >= s.ErrAt) {
					break
				}
				if !ok && a.at < end-B || ok && at > a.at+B {
					w.fail("srt-lost", "%v: packet %d arrived at %v in order and was handed over: %v %v", s, a.k, a.at, ok, at)
					break
				}
				w.ok("delivered")
			}
			if end-s.LastArr > 4*time.Second {
				end = s.LastArr + 4*time.Second
			}
			for k := 0; k < s.top; k++ {
				if at, ok := s.reveal[k]; ok && !s.naked[k] && at+B < end {
					w.fail("srt-no-nak", "%v: packet %d was known to be missing from %v and no NAK names it", s, k, at)
					break
				}
			}
			if n := len(s.got); n > 0 && s.got[n-1].at+B < end && s.ackLast != s.got[n-1].k+1 {
				w.fail("srt-no-ack", "%v: packet %d was handed over at %v; the last acknowledgement (at %v) is of packets before %d", s, s.got[n-1].k, s.got[n-1].at, s.AckAt, s.ackLast)
			}
			if s.kaOut < s.kaIn && s.kaAt+B < end {
				w.fail("srt-keepalive", "%v: %d of %d keep-alives were answered (last at %v, shut %v err %v idle %v end %v)", s, s.kaOut, s.kaIn, s.kaAt, s.Shut, s.ErrAt, s.Idle, end)
			}
		}
	}
}
