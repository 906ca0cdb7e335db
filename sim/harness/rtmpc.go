package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"verif/simrt"
)

// RMsg is one RTMP message received from the server.
type RMsg struct {
	Type byte
	Ts   uint32
	Csid uint32
	Msid uint32
	Body []byte
	At   time.Duration
}

type rstate struct {
	ts, delta uint32
	ln        int
	typ       byte
	msid      uint32
	ext       bool
	part      []byte
	open      bool
	hdr       bool
}

type reply struct {
	Name string
	Txn  float64
	Args []any
	At   time.Duration
	Raw  []byte
}

// RC is an independent RTMP client connection.
type RC struct {
	w    *World
	node *simrt.Node
	c    *simrt.TCPConn
	name string

	in      map[uint32]*rstate
	inChunk int
	out     *Chunker
	r       *simrt.Rand
	pr      *pacedReader

	OnMsg   func(m *RMsg)
	Replies []reply
	Acks    []ackRec
	Pongs   []uint32
	PongAt  []time.Duration
	tx, rx  int64
	txMax   int64 // tx, counting writes under way
	closed  bool
	RdErr   error
	RdDone  bool
	RdAt    time.Duration
	Bad     string // malformed server stream
	MidMsg  bool   // stream ended inside a message
	inAck   uint32
	lastAck uint32
	noAck   bool
	cutAt   int64 // drop the connection after this many bytes
	cutRst  bool
	OnCut   func()
	stallAt int64 // write nothing beyond this many bytes
	OnStall func()
	stalled bool
	amf3    bool // uses the AMF3 message types, too
}

// typed gives a command or data message its AMF3 type, at times: the AMF0
// values follow a format byte.
func (rc *RC) typed(m *outMsg) *outMsg {
	if rc.amf3 && (m.typ == 20 || m.typ == 18) && rc.r.Bool(0.6) {
		m.typ -= 3
		m.body = append([]byte{0}, m.body...)
	}
	return m
}

func (w *World) dialRTMP(node *simrt.Node, addr string, name string, r *simrt.Rand) (*RC, error) {
	c, err := simrt.DialTimeout("tcp", addr, 10*time.Second)
	if err != nil {
		return nil, err
	}
	rc := &RC{w: w, node: node, c: c.(*simrt.TCPConn), name: name, in: map[uint32]*rstate{}, inChunk: 128, r: r}
	rc.out = &Chunker{size: 128, st: map[uint32]*wstate{}, r: r}
	rc.pr = &pacedReader{w: w, c: rc.c}
	return rc, nil
}

func (rc *RC) write(b []byte) error {
	if rc.cutAt > 0 && rc.tx+int64(len(b)) >= rc.cutAt {
		if !rc.closed {
			rc.w.s.Faults["conn_cut"]++
			n, _ := rc.c.Write(b[:max(0, rc.cutAt-rc.tx)])
			rc.tx += int64(n)
			rc.OnCut()
			rc.close(rc.cutRst)
		}
		return io.ErrClosedPipe
	}
	if rc.stallAt > 0 && rc.tx+int64(len(b)) >= rc.stallAt {
		if !rc.stalled {
			rc.stalled = true
			rc.w.s.Faults["peer_stall"]++
			n, _ := rc.c.Write(b[:max(0, rc.stallAt-rc.tx)])
			rc.tx += int64(n)
			if rc.OnStall != nil {
				rc.OnStall()
			}
		}
		return io.ErrClosedPipe
	}
	rc.txMax += int64(len(b))
	n, err := rc.c.Write(b)
	rc.tx += int64(n)
	return err
}

func (rc *RC) full(n int) ([]byte, error) {
	b := make([]byte, n)
	_, err := io.ReadFull(rc.pr, b)
	rc.rx += int64(n)
	return b, err
}

var fmsKey = append([]byte("Genuine Adobe Flash Media Server 001"),
	0xf0, 0xee, 0xc2, 0x4a, 0x80, 0x68, 0xbe, 0xe8, 0x2e, 0x00, 0xd0, 0xd1, 0x02, 0x9e, 0x7e, 0x57,
	0x6e, 0xec, 0x5d, 0x2d, 0x29, 0x80, 0x6f, 0xab, 0x93, 0xb8, 0xe6, 0x36, 0xcf, 0xeb, 0x31, 0xae)
var fpKey = append([]byte("Genuine Adobe Flash Player 001"),
	0xf0, 0xee, 0xc2, 0x4a, 0x80, 0x68, 0xbe, 0xe8, 0x2e, 0x00, 0xd0, 0xd1, 0x02, 0x9e, 0x7e, 0x57,
	0x6e, 0xec, 0x5d, 0x2d, 0x29, 0x80, 0x6f, 0xab, 0x93, 0xb8, 0xe6, 0x36, 0xcf, 0xeb, 0x31, 0xae)

func mac(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// digestAt is the position of the digest for the scheme (1: after the key
// block, 0: first block).
func digestAt(b []byte, scheme int) int {
	base := 8
	if scheme == 1 {
		base = 8 + 764
	}
	return base + 4 + (int(b[base])+int(b[base+1])+int(b[base+2])+int(b[base+3]))%728
}

// shake performs the client side of the handshake: 0 simple, 1 digest scheme
// 1, 2 digest scheme 0. cut says how C0/C1/C2 are cut into writes.
func (rc *RC) shake(mode int, eager bool) error {
	c1 := make([]byte, 1536)
	for i := range c1 {
		c1[i] = byte(rc.r.U64())
	}
	var cdig []byte
	scheme := -1
	switch mode {
	case 0:
		copy(c1[4:8], []byte{0, 0, 0, 0})
	default:
		copy(c1[4:8], []byte{9, 0, 124, 2})
		scheme = 1
		if mode == 2 {
			scheme = 0
		}
		o := digestAt(c1, scheme)
		cdig = mac(fpKey[:30], c1[:o], c1[o+32:])
		copy(c1[o:], cdig)
	}
	if err := rc.write(append([]byte{3}, c1...)); err != nil {
		return err
	}
	s0, err := rc.full(1)
	if err != nil {
		return err
	}
	if s0[0] != 3 {
		rc.Bad = fmt.Sprintf("S0 is %d", s0[0])
		return errors.New(rc.Bad)
	}
	var s1, s2 []byte
	if s1, err = rc.full(1536); err != nil {
		return err
	}
	if eager { // C2 may follow S1 at once
		if err = rc.write(rc.c2(mode, scheme, s1)); err != nil {
			return err
		}
	}
	if s2, err = rc.full(1536); err != nil {
		return err
	}
	if !eager {
		if err = rc.write(rc.c2(mode, scheme, s1)); err != nil {
			return err
		}
	}
	if mode == 0 {
		if !bytes.Equal(s2[8:], c1[8:]) || !bytes.Equal(s2[:4], c1[:4]) {
			rc.Bad = "S2 of the simple handshake does not echo C1"
		}
	} else {
		o := digestAt(s1, scheme)
		if !bytes.Equal(s1[o:o+32], mac(fmsKey[:36], s1[:o], s1[o+32:])) {
			rc.Bad = "S1 of the digest handshake has a wrong digest"
		}
		k := mac(fmsKey, cdig)
		if !bytes.Equal(s2[1504:], mac(k, s2[:1504])) {
			rc.Bad = "S2 of the digest handshake has a wrong signature"
		}
	}
	return nil
}

func (rc *RC) c2(mode, scheme int, s1 []byte) []byte {
	c2 := make([]byte, 1536)
	if mode == 0 {
		copy(c2, s1)
		return c2
	}
	for i := range c2 {
		c2[i] = byte(rc.r.U64())
	}
	o := digestAt(s1, scheme)
	k := mac(fpKey, s1[o:o+32])
	copy(c2[1504:], mac(k, c2[:1504]))
	return c2
}

// readLoop parses the server's chunk stream until the connection ends.
func (rc *RC) readLoop() {
	defer func() { rc.RdDone = true; rc.RdAt = rc.w.now() }()
	for {
		if err := rc.readChunk(); err != nil {
			rc.RdErr = err
			return
		}
		if rc.Bad != "" {
			return
		}
	}
}

func (rc *RC) readChunk() error {
	b, err := rc.full(1)
	if err != nil {
		for _, st := range rc.in {
			if st.open {
				rc.MidMsg = true
			}
		}
		return err
	}
	fm := b[0] >> 6
	csid := uint32(b[0] & 63)
	rd := func(n int) ([]byte, error) {
		x, e := rc.full(n)
		if e != nil {
			rc.MidMsg = true
		}
		return x, e
	}
	switch csid {
	case 0:
		if b, err = rd(1); err != nil {
			return err
		}
		csid = uint32(b[0]) + 64
	case 1:
		if b, err = rd(2); err != nil {
			return err
		}
		csid = uint32(b[0]) + uint32(b[1])*256 + 64
	}
	st := rc.in[csid]
	if st == nil {
		if fm != 0 {
			rc.Bad = fmt.Sprintf("chunk type %d on new chunk stream %d", fm, csid)
			return errors.New(rc.Bad)
		}
		st = &rstate{}
		rc.in[csid] = st
	}
	if st.open && fm != 3 {
		rc.Bad = fmt.Sprintf("a new message header (type %d) inside an unfinished message on chunk stream %d", fm, csid)
		return errors.New(rc.Bad)
	}
	var f uint32
	switch fm {
	case 0:
		if b, err = rd(11); err != nil {
			return err
		}
		st.msid = binary.LittleEndian.Uint32(b[7:])
	case 1:
		if b, err = rd(7); err != nil {
			return err
		}
	case 2:
		if b, err = rd(3); err != nil {
			return err
		}
	}
	if fm < 3 {
		f = uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
		st.ext = f == 0xffffff
		if fm < 2 {
			st.ln = int(b[3])<<16 | int(b[4])<<8 | int(b[5])
			st.typ = b[6]
		}
	}
	if st.ext {
		e, err := rd(4)
		if err != nil {
			return err
		}
		v := binary.BigEndian.Uint32(e)
		if fm == 3 && st.open {
			want := st.ts
			if st.hdr {
				want = st.delta
			}
			if v != want {
				rc.Bad = fmt.Sprintf("extended timestamp %d in a continuation chunk, want %d", v, want)
				return errors.New(rc.Bad)
			}
		}
		f = v
	}
	if !st.open {
		switch fm {
		case 0:
			st.ts, st.delta, st.hdr = f, f, false
		case 1, 2:
			st.ts += f
			st.delta, st.hdr = f, true
		case 3:
			st.ts += st.delta
		}
		st.part = st.part[:0]
		st.open = true
		if st.typ == 0 || st.typ > 22 || st.ln > 8<<20 {
			rc.Bad = fmt.Sprintf("impossible message type %d length %d", st.typ, st.ln)
			return errors.New(rc.Bad)
		}
	}
	n := st.ln - len(st.part)
	if n > rc.inChunk {
		n = rc.inChunk
	}
	d, err := rd(n)
	if err != nil {
		return err
	}
	st.part = append(st.part, d...)
	rc.sendAcks()
	if len(st.part) < st.ln {
		return nil
	}
	st.open = false
	m := &RMsg{Type: st.typ, Ts: st.ts, Csid: csid, Msid: st.msid, Body: append([]byte(nil), st.part...), At: rc.w.now()}
	return rc.handle(m)
}

func (rc *RC) sendAcks() {
	if rc.inAck == 0 || rc.noAck || uint32(rc.rx)-rc.lastAck < rc.inAck {
		return
	}
	rc.lastAck = uint32(rc.rx)
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, rc.lastAck)
	// best effort; a real player does the same
	rc.write(rc.out.one(&outMsg{typ: 3, csid: 2, body: b}))
}

func (rc *RC) handle(m *RMsg) error {
	need := func(n int) bool {
		if len(m.Body) < n {
			rc.Bad = fmt.Sprintf("control message type %d with %d bytes", m.Type, len(m.Body))
			return false
		}
		return true
	}
	switch m.Type {
	case 1:
		if !need(4) {
			return errors.New(rc.Bad)
		}
		n := binary.BigEndian.Uint32(m.Body)
		if n == 0 || n > 0x7fffffff {
			rc.Bad = fmt.Sprintf("chunk size %d announced", n)
			return errors.New(rc.Bad)
		}
		rc.inChunk = int(n)
	case 3:
		if !need(4) {
			return errors.New(rc.Bad)
		}
		rc.Acks = append(rc.Acks, ackRec{binary.BigEndian.Uint32(m.Body), m.At, rc.txMax})
	case 4:
		if !need(6) {
			return errors.New(rc.Bad)
		}
		if ev := binary.BigEndian.Uint16(m.Body); ev == 7 {
			rc.Pongs = append(rc.Pongs, binary.BigEndian.Uint32(m.Body[2:]))
			rc.PongAt = append(rc.PongAt, m.At)
		}
	case 5:
		if !need(4) {
			return errors.New(rc.Bad)
		}
		rc.inAck = binary.BigEndian.Uint32(m.Body)
	case 6:
		if !need(5) {
			return errors.New(rc.Bad)
		}
	case 20:
		vs, err := amfDec(m.Body)
		if err != nil || len(vs) < 2 {
			rc.Bad = fmt.Sprintf("undecodable command %x", m.Body)
			return errors.New(rc.Bad)
		}
		nm, ok := vs[0].(string)
		tx, ok2 := vs[1].(float64)
		if !ok || !ok2 {
			rc.Bad = fmt.Sprintf("malformed command %v", vs)
			return errors.New(rc.Bad)
		}
		rc.Replies = append(rc.Replies, reply{nm, tx, vs[2:], m.At, m.Body})
	}
	if rc.OnMsg != nil {
		rc.OnMsg(m)
	}
	return nil
}

// statusCode is the code field of an onStatus reply.
func (r *reply) code() string {
	for _, a := range r.Args {
		if m, ok := a.(map[string]any); ok {
			if c, ok := m["code"].(string); ok {
				return c
			}
			if c, ok := m["Code"].(string); ok {
				return c
			}
		}
	}
	return ""
}

func (rc *RC) waitReply(d time.Duration, f func(r *reply) bool) *reply {
	var got *reply
	rc.w.waitUntil(d, func() bool {
		for i := range rc.Replies {
			if f(&rc.Replies[i]) {
				got = &rc.Replies[i]
				return true
			}
		}
		return rc.RdDone || rc.closed
	})
	return got
}

func (rc *RC) cmd(vs ...any) error {
	var b []byte
	for _, v := range vs {
		b = append(b, amfEnc(v)...)
	}
	return rc.write(rc.out.one(rc.typed(&outMsg{typ: 20, csid: 3, body: b})))
}

func (rc *RC) close(rst bool) {
	if rc.closed {
		return
	}
	rc.closed = true
	if rst {
		rc.c.Reset()
	} else {
		rc.c.Close()
	}
}

// ---- chunk writer ------------------------------------------------------------------

type outMsg struct {
	typ     byte
	csid    uint32
	msid    uint32
	ts      uint32
	body    []byte
	tag     *Tag
	off     int
	first   bool
	ext     uint32
	useExt  bool
	abort   int // abandon after this many bytes (0: never)
	newSz   int
	started bool
}

type wstate struct {
	ts, delta uint32
	ln        int
	typ       byte
	msid      uint32
	valid     bool
	hasDelta  bool
}

// Chunker turns messages into RTMP chunks in any legal way.
type Chunker struct {
	size     int
	st       map[uint32]*wstate
	r        *simrt.Rand
	compress int // 0: FMT0 only .. 3: use every legal compression
	wide     bool
	fmtUsed  [4]int
}

func (c *Chunker) basic(fm byte, csid uint32) []byte {
	switch {
	case csid < 64 && !(false):
		return []byte{fm<<6 | byte(csid)}
	case csid < 320 && !(c.wide && c.r.Bool(0.5)):
		return []byte{fm << 6, byte(csid - 64)}
	default:
		return []byte{fm<<6 | 1, byte((csid - 64) & 255), byte((csid - 64) >> 8)}
	}
}

// chunk emits the next chunk of m.
func (c *Chunker) chunk(m *outMsg) []byte {
	var b []byte
	if !m.started {
		m.started = true
		st := c.st[m.csid]
		if st == nil {
			st = &wstate{}
			c.st[m.csid] = st
		}
		fm := byte(0)
		delta := m.ts - st.ts
		if st.valid && st.msid == m.msid && delta < 1<<31 && c.compress > 0 {
			fm = 1
			if c.compress > 1 && st.ln == len(m.body) && st.typ == m.typ {
				fm = 2
				if c.compress > 2 && st.hasDelta && st.delta == delta {
					fm = 3
				}
			}
			if c.r.Bool(0.15) {
				fm = byte(c.r.Intn(int(fm) + 1))
			}
		}
		c.fmtUsed[fm]++
		f := m.ts
		if fm > 0 {
			f = delta
		}
		b = c.basic(fm, m.csid)
		in := f
		m.useExt = f >= 0xffffff
		if fm == 3 {
			m.useExt = st.delta >= 0xffffff
		}
		if m.useExt {
			in = 0xffffff
		}
		m.ext = f
		if fm < 3 {
			b = append(b, byte(in>>16), byte(in>>8), byte(in))
		}
		if fm < 2 {
			n := len(m.body)
			b = append(b, byte(n>>16), byte(n>>8), byte(n), m.typ)
		}
		if fm == 0 {
			b = binary.LittleEndian.AppendUint32(b, m.msid)
		}
		st.ts, st.ln, st.typ, st.msid, st.valid = m.ts, len(m.body), m.typ, m.msid, true
		if fm == 0 {
			st.hasDelta = false
		} else {
			st.delta, st.hasDelta = delta, true
		}
	} else {
		b = c.basic(3, m.csid)
	}
	if m.useExt {
		b = binary.BigEndian.AppendUint32(b, m.ext)
	}
	n := len(m.body) - m.off
	if n > c.size {
		n = c.size
	}
	b = append(b, m.body[m.off:m.off+n]...)
	m.off += n
	if m.off == len(m.body) && m.newSz > 0 {
		c.size = m.newSz
	}
	return b
}

func (m *outMsg) done() bool { return m.started && m.off >= len(m.body) }

// one encodes a message on its own.
func (c *Chunker) one(m *outMsg) []byte {
	var b []byte
	for !m.done() {
		b = append(b, c.chunk(m)...)
	}
	return b
}

func (c *Chunker) setSize(n int) *outMsg {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(n))
	return &outMsg{typ: 1, csid: 2, body: b, newSz: n}
}

// merge interleaves the messages of different chunk streams; emit receives
// each chunk and, when it finished a message, that message.
func (c *Chunker) merge(ms []*outMsg, emit func(b []byte, fin *outMsg)) {
	queues := map[uint32][]*outMsg{}
	var order []uint32
	for _, m := range ms {
		if len(queues[m.csid]) == 0 {
			order = append(order, m.csid)
		}
		queues[m.csid] = append(queues[m.csid], m)
	}
	for len(order) > 0 {
		i := c.r.Intn(len(order))
		q := queues[order[i]]
		m := q[0]
		if m.typ == 1 {
			emit(c.one(m), m)
			q = q[1:]
		} else if m.abort > 0 && m.off >= m.abort && !m.done() {
			b := make([]byte, 4)
			binary.BigEndian.PutUint32(b, m.csid)
			emit(c.one(&outMsg{typ: 2, csid: 2, body: b}), nil)
			delete(c.st, m.csid)
			q = q[1:]
		} else {
			b := c.chunk(m)
			if m.done() {
				emit(b, m)
				q = q[1:]
			} else {
				emit(b, nil)
			}
		}
		queues[order[i]] = q
		if len(q) == 0 {
			order = append(order[:i], order[i+1:]...)
		}
	}
}

// ---- paced reader -------------------------------------------------------------------

// pacedReader reads from a connection the way the plan says: at full speed,
// slowly, with a stall, or until it resets.
type pacedReader struct {
	w       *World
	c       *simrt.TCPConn
	Rate    int64 // bytes per ms, 0: unlimited
	StallAt int64 // byte offset, 0: never
	StallMs int64 // -1: for ever
	RstAt   int64
	n       int64
	stalled bool
	dead    bool
	OnRst   func()
	buf     []byte
}

var errQuit = errors.New("client quit")

func (p *pacedReader) Read(b []byte) (int, error) {
	if p.dead {
		return 0, errQuit
	}
	if len(p.buf) == 0 {
		lim := int64(8192)
		if p.Rate > 0 && lim > p.Rate*4 {
			lim = p.Rate * 4
		}
		if p.StallAt > 0 && !p.stalled {
			if p.n >= p.StallAt {
				p.stalled = true
				p.w.s.Faults["viewer_stall"]++
				if p.StallMs < 0 {
					for !p.w.stopping() && !p.dead && !p.c.Closed() {
						simrt.Sleep(100 * time.Millisecond)
					}
					return 0, errQuit
				}
				simrt.Sleep(time.Duration(p.StallMs) * time.Millisecond)
			} else if d := p.StallAt - p.n; lim > d {
				lim = d
			}
		}
		if p.RstAt > 0 {
			if p.n >= p.RstAt {
				p.dead = true
				p.w.s.Faults["viewer_reset"]++
				p.c.Reset()
				if p.OnRst != nil {
					p.OnRst()
				}
				return 0, errQuit
			}
			if d := p.RstAt - p.n; lim > d {
				lim = d
			}
		}
		t := make([]byte, lim)
		n, err := p.c.Read(t)
		p.n += int64(n)
		if n == 0 {
			if err == nil {
				err = io.ErrNoProgress
			}
			return 0, err
		}
		p.buf = t[:n]
		if p.Rate > 0 {
			p.w.s.Faults["slow_read"]++
			simrt.Sleep(time.Duration(int64(n)*int64(time.Millisecond)/p.Rate + 1))
		}
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, nil
}

func (w *World) stopping() bool { return w.plan == nil || w.stop }

var _ net.Conn
