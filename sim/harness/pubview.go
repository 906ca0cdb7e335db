package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net/url"
	"strconv"
	"strings"
	"time"

	"verif/simrt"
)

// ---- RTMP publisher -------------------------------------------------------------------

// opStream reads stream parameters from an operation.
func opStream(o *Op) StreamParams {
	b := func(k string) bool { return o.p(k, 0) != 0 }
	return StreamParams{
		Video: o.p("video", 1) != 0, Audio: o.p("audio", 1) != 0, MetaOn: o.p("meta", 1) != 0,
		HEVC: b("hevc"), Frames: int(o.p("frames", 30)), GOP: int(o.p("gop", 10)),
		FrameMs: int(o.p("fms", 40)), AudioMs: int(o.p("ams", 23)), MaxBody: int(o.p("body", 400)),
		BaseTs: uint32(o.p("base", 0)), HdrOrder: int(o.p("hdr", 0)), LateHdr: b("late"),
		HdrChange: int(o.p("hchg", 0)), RepeatHdr: b("hrep"), MetaChange: b("mchg"), Cts: b("cts"),
		Nals: int(o.p("nals", 1)), Burst: b("burst"), JunkData: b("junk"), EOS: int(o.p("eos", 0)), NoKeyFirst: b("nokey"),
		Irregular: b("irr"), InBand: b("inband"), NegCts: b("negcts"), BigCts: b("bigcts"), ABits: int(o.p("abits", 0)), RichHdr: b("rich"), TinyV: b("tiny"), Edge: b("edge"), BigA: b("biga"), Skew: int(o.p("skew", 0)), ACodec: int(o.p("acodec", 10)),
	}
}

// runPub performs an RTMP publishing session described by op.
func (w *World) runPub(o *Op, app, nm string) *Session {
	sp := opStream(o)
	p := w.newSession(app, nm, "rtmp", sp, uint64(o.I))
	node := w.client(o.I)
	r := w.rng(9, uint64(o.I), uint64(p.ID))
	w.actor(node, fmt.Sprintf("pub%d", p.ID), o.T, func() {
		w.rtmpPublish(o, p, node, r)
		p.Ended = true
		if p.EndAt == 0 {
			p.EndAt = w.now()
			w.s.Arm()
		}
		w.logf("pub %d %s/%s ends: %s %s err=%q tags=%d/%d", p.ID, p.App, p.Nm, p.State, p.EndKind, p.Err, len(p.Pub), len(p.Tags))
	})
	return p
}

func (w *World) rtmpPublish(o *Op, p *Session, node *simrt.Node, r *simrt.Rand) {
	fail := func(f string, a ...any) { p.Err = fmt.Sprintf(f, a...) }
	rc, err := w.dialRTMP(node, "10.0.0.1:1935", fmt.Sprintf("pub%d", p.ID), r)
	if err != nil {
		p.State = "error"
		fail("dial: %v", err)
		return
	}
	p.RC = rc
	rc.amf3 = o.p("amf3", 0) != 0
	if seg := o.p("seg", -1); seg >= 0 {
		rc.c.Seg = int(seg)
	}
	if n := o.p("hcut", 0); n > 0 {
		rc.cutAt, rc.cutRst = n, o.p("end", 0) == 1
		rc.OnCut = func() { p.EndAt, p.EndKind, p.Cut = w.now(), "cut", true }
	}
	defer func() {
		if p.EndKind == "cut" {
			return
		}
		p.EndAt = w.now()
		w.s.Arm()
		if o.p("poison", 0) > 0 && p.State == "accepted" && !p.Cut {
			// something no server can accept: it may drop the connection
			w.s.Faults["pub_poison"]++
			switch o.p("poison", 0) {
			case 1:
				rc.write(rc.out.one(&outMsg{typ: 8, csid: 4, msid: 1, body: []byte{0xaf}}))
			case 2:
				rc.write(rc.out.one(&outMsg{typ: 20, csid: 3, body: []byte{2, 0xff, 0xff, 1}}))
			case 3:
				rc.write(rc.out.one(&outMsg{typ: 1, csid: 2, body: []byte{0, 0, 0, 0}}))
			}
			w.waitUntil(300*time.Millisecond, func() bool { return rc.RdDone })
		}
		switch o.p("end", 0) {
		case 0:
			p.EndKind = "fin"
			w.pubClose(rc, o.p("ctl", 0) > 0 || o.p("win", 0) > 0 || r.Bool(0.3))
		case 1:
			p.EndKind = "rst"
			w.s.Faults["pub_reset"]++
			rc.close(true)
		case 2: // commands first, then close
			p.EndKind = "unpublish"
			if p.Cut {
				// mid-message: a command would be read as its continuation
				p.EndKind = "fin"
				rc.close(false)
				return
			}
			rc.cmd("FCUnpublish", 6.0, nil, p.Nm)
			rc.cmd("deleteStream", 7.0, nil, 1.0)
			simrt.Sleep(time.Duration(r.Intn(5000)) * time.Microsecond)
			w.pubClose(rc, true)
		case 3: // stays connected and silent until told to stop
			p.EndKind = "held"
			for !w.stop {
				simrt.Sleep(50 * time.Millisecond)
			}
			p.EndAt = w.now()
			w.s.Arm()
			rc.close(false)
		case 4: // host vanishes: nothing is ever sent again
			p.EndKind = "vanish"
			w.s.Faults["pub_vanish"]++
			rc.closed = true
		case 5: // half close
			p.EndKind = "halfclose"
			rc.closed = true
			rc.c.CloseWrite()
		}
	}()
	if err := rc.shake(int(o.p("shake", 0)), o.p("eager", 0) != 0); err != nil {
		p.State = "error"
		fail("handshake: %v", err)
		return
	}
	rc.out.compress = int(o.p("comp", 1))
	rc.out.wide = o.p("wide", 0) != 0
	w.actor(node, fmt.Sprintf("pub%d-rd", p.ID), 0, rc.readLoop)
	if o.p("win", 0) > 0 { // announce a window: the server must acknowledge
		b := make([]byte, 4)
		binary.BigEndian.PutUint32(b, uint32(o.p("win", 0)))
		p.Win = uint32(o.p("win", 0))
		rc.write(rc.out.one(&outMsg{typ: 5, csid: 2, body: b}))
	}
	if err := rc.cmd("connect", 1.0, map[string]any{"app": p.App, "type": "nonprivate", "flashVer": "FMLE/3.0", "tcUrl": "rtmp://s/" + p.App}); err != nil {
		fail("connect: %v", err)
		return
	}
	if x := rc.waitReply(20*time.Second, func(r *reply) bool { return r.Txn == 1 }); x == nil || x.Name != "_result" {
		p.State = "error"
		fail("no connect result")
		return
	}
	if r.Bool(0.5) {
		rc.cmd("releaseStream", 2.0, nil, p.Nm)
		rc.cmd("FCPublish", 3.0, nil, p.Nm)
	}
	rc.cmd("createStream", 4.0, nil)
	if x := rc.waitReply(20*time.Second, func(r *reply) bool { return r.Txn == 4 }); x == nil || x.Name != "_result" {
		p.State = "error"
		fail("no createStream result")
		return
	}
	p.ReqAt = w.now()
	w.s.Arm()
	rc.cmd("publish", 5.0, nil, p.Nm, "live")
	x := rc.waitReply(20*time.Second, func(r *reply) bool { return r.Name == "onStatus" })
	if x == nil {
		p.State = "error"
		fail("no publish status")
		return
	}
	switch c := x.code(); c {
	case "NetStream.Publish.Start":
		p.State = "accepted"
		p.AckAt = w.now()
	case "NetStream.Publish.BadName":
		p.State = "refused"
		p.AckAt = w.now()
	default:
		p.State = "error"
		fail("publish status %q", c)
	}
	w.logf("pub %d %s/%s: %s", p.ID, p.App, p.Nm, p.State)
	if p.State != "accepted" && o.p("force", 0) == 0 {
		return
	}
	if n := o.p("wait", 0); n > 0 {
		simrt.Sleep(time.Duration(n) * time.Millisecond)
	}
	w.sendTags(o, p, rc, r)
	if n := o.p("linger", 0); n > 0 {
		simrt.Sleep(time.Duration(n) * time.Millisecond)
	}
}

// pubClose ends the connection in order. A plain close with answers still
// on their way would make TCP send a reset, which may cost the server the
// tail; linger avoids that by ending only the sending side first.
func (w *World) pubClose(rc *RC, linger bool) {
	if linger && !rc.closed {
		rc.c.CloseWrite()
		w.waitUntil(500*time.Millisecond, func() bool { return rc.RdDone || w.stop })
	}
	rc.close(false)
}

// sendTags sends the session's tags with the chunking the operation asks for.
func (w *World) sendTags(o *Op, p *Session, rc *RC, r *simrt.Rand) {
	mix := int(o.p("mix", 0)) // how many messages may be in flight at once
	sizes := []int{1, 2, 64, 100, 127, 128, 129, 200, 1000, 1024, 4096, 5000, 65536, 0xffffff, 0x1000000, 0x7fffffff}
	if cs := o.p("cs", 0); cs > 0 {
		rc.write(rc.out.one(rc.out.setSize(int(cs))))
	}
	acs, vcs, dcs := uint32(4), uint32(6), uint32(5)
	switch o.p("csid", 0) {
	case 1: // all media on one chunk stream
		acs, vcs, dcs = 4, 4, 4
	case 2:
		acs, vcs, dcs = 64, 319, 70
	case 3:
		acs, vcs, dcs = 320, 65599, 1000
	case 4:
		acs, vcs, dcs = 63, 64, 65
	}
	msid := uint32(1)
	if o.p("msid", 0) > 0 {
		msid = uint32(o.p("msid", 0))
	}
	cut := o.p("cut", 0) // drop the connection after this many bytes of media
	var sent int64
	var buf []byte
	var fin []*Tag
	flush := func() bool {
		if len(buf) == 0 {
			return true
		}
		if cut > 0 && sent+int64(len(buf)) > cut {
			buf = buf[:cut-sent]
			w.s.Faults["pub_cut"]++
			p.Cut = true
			for _, t := range fin {
				t.SentAt = w.now()
			}
			if len(buf) > 0 {
				rc.write(buf)
			}
			return false
		}
		for _, t := range fin {
			t.SentAt = w.now()
		}
		err := rc.write(buf)
		sent += int64(len(buf))
		p.SentB = rc.tx
		buf = nil
		if err != nil {
			p.Err = "write: " + err.Error()
			return false
		}
		for _, t := range fin {
			t.Sent = true
			p.Sent++
		}
		fin = nil
		return true
	}
	abortN := 0
	ctl := int(o.p("ctl", 0)) // pings and other harmless messages in between
	for i := 0; i < len(p.Tags); {
		if w.stop || rc.closed || rc.RdDone {
			if rc.RdDone {
				p.Err = fmt.Sprintf("server closed: %v %s", rc.RdErr, rc.Bad)
			}
			break
		}
		n := 1
		if mix > 1 {
			n = 1 + r.Intn(mix)
		}
		var ms []*outMsg
		resized := false
		var wait time.Duration
		for k := 0; k < n && i < len(p.Tags); k++ {
			t := p.Tags[i]
			i++
			if k == 0 {
				wait = t.Pace
			} else {
				wait += t.Pace
			}
			cs := vcs
			switch t.T {
			case 8:
				cs = acs
			case 18:
				cs = dcs
			}
			m := rc.typed(&outMsg{typ: t.T, csid: cs, msid: msid, ts: t.Ts, body: t.B, tag: t})
			ms = append(ms, m)
			if t.Kind == kVHdr || t.Kind == kAHdr || t.Kind == kMeta {
				break // keep the relative order of configuration and frames
			}
			if i < len(p.Tags) && p.Tags[i].Kind != kAudio && p.Tags[i].Kind != kInter {
				break
			}
		}
		if wait > 0 {
			if !flush() {
				return
			}
			simrt.Sleep(wait)
		}
		if o.p("rsz", 0) > 0 && r.Bool(float64(o.p("rsz", 0))/100) {
			sz := sizes[r.Intn(len(sizes))]
			if sz < 3 && len(ms[0].body) > 600 {
				sz = 64
			}
			at := r.Intn(len(ms) + 1)
			m := rc.out.setSize(sz)
			resized = true
			ms = append(ms[:at], append([]*outMsg{m}, ms[at:]...)...)
		}
		if o.p("abort", 0) > 0 && r.Bool(float64(o.p("abort", 0))/100) {
			abortN++
			bogus := payload(r, p.ID, 0xf00000+abortN, 3000)
			am := &outMsg{typ: 9, csid: vcs, msid: msid, ts: ms[0].ts, body: videoBody(2, false, 1, 0, lenPrefixed([][]byte{append([]byte{0x41}, bogus...)})), abort: 1}
			if rc.out.size < 2000 && !resized {
				if r.Bool(0.5) {
					am.csid = acs
				}
				ms = append([]*outMsg{am}, ms...)
				w.s.Faults["rtmp_abort"]++
			}
		}
		if ctl > 0 && r.Intn(100) < ctl {
			b := make([]byte, 6)
			switch r.Intn(4) {
			case 0:
				binary.BigEndian.PutUint16(b, 6)
				v := uint32(r.U64())
				binary.BigEndian.PutUint32(b[2:], v)
				p.Pings = append(p.Pings, v)
				buf = append(buf, rc.out.one(&outMsg{typ: 4, csid: 2, body: b})...)
			case 1:
				binary.BigEndian.PutUint16(b, 3)
				buf = append(buf, rc.out.one(&outMsg{typ: 4, csid: 2, body: append(b, 0, 0, 1, 0)})...)
			case 2:
				binary.BigEndian.PutUint32(b, uint32(rc.rx))
				buf = append(buf, rc.out.one(&outMsg{typ: 3, csid: 2, body: b[:4]})...)
			case 3:
				binary.BigEndian.PutUint32(b, 2500000)
				b[4] = 2
				buf = append(buf, rc.out.one(&outMsg{typ: 6, csid: 2, body: b[:5]})...)
			}
		}
		bad := false
		emit := func(b []byte, m *outMsg) {
			buf = append(buf, b...)
			if m != nil && m.tag != nil {
				p.publish(m.tag)
				m.tag.SentAt = w.now()
				fin = append(fin, m.tag)
			}
			if o.p("wr", 0) == 1 && !flush() {
				bad = true
			}
		}
		if agg := o.p("agg", 0); agg > 0 && len(ms) > 1 && r.Intn(100) < int(agg) && allMedia(ms) {
			m := aggregate(ms)
			m.csid, m.msid = vcs, msid
			buf = append(buf, rc.out.one(m)...)
			for _, x := range ms {
				p.publish(x.tag)
				x.tag.SentAt = w.now()
				fin = append(fin, x.tag)
			}
		} else if len(ms) == 1 {
			m := ms[0]
			for !m.done() && !bad {
				b := rc.out.chunk(m)
				if m.done() {
					emit(b, m)
				} else {
					emit(b, nil)
				}
			}
		} else {
			rc.out.merge(ms, emit)
		}
		if bad {
			return
		}
		if len(buf) > 16384 || !(o.p("burst", 0) != 0) || r.Bool(0.1) {
			if !flush() {
				return
			}
		}
		if n := o.p("win2", 0); n > 0 && p.Win > 0 && r.Intn(12) == 0 { // another window from here on
			if !flush() {
				return
			}
			p.Win = uint32(1 + r.Intn(int(n)))
			if rc.write(rc.out.one(&outMsg{typ: 5, csid: 2, body: binary.BigEndian.AppendUint32(nil, p.Win)})) != nil {
				return
			}
		}
		if p.Win > 0 && o.p("strictack", 0) != 0 {
			// a publisher that honours its window stops until it is acknowledged
			d := 10 * time.Second
			if w.plan.stalls() { // the server itself may be held back for long
				d = 100 * time.Second
			}
			if !w.waitUntil(d, func() bool {
				var a uint32
				if k := len(rc.Acks); k > 0 {
					a = rc.Acks[k-1].V
				}
				// the handshake may or may not be counted
				return uint32(rc.tx)-3073-a < p.Win || a > uint32(rc.tx)-3073 || rc.RdDone || w.stop
			}) {
				p.AckStall = !w.plan.stalls()
				return
			}
		}
	}
	if !flush() {
		return
	}
	p.SentAll = len(p.Pub) == len(p.Tags)
}

func allMedia(ms []*outMsg) bool {
	for _, m := range ms {
		if m.tag == nil || m.abort > 0 {
			return false
		}
	}
	return true
}

// aggregate packs messages into one aggregate message.
func aggregate(ms []*outMsg) *outMsg {
	var b []byte
	for _, m := range ms {
		n := len(m.body)
		h := []byte{m.typ, byte(n >> 16), byte(n >> 8), byte(n), byte(m.ts >> 16), byte(m.ts >> 8), byte(m.ts), byte(m.ts >> 24), 0, 0, 0}
		b = append(b, h...)
		b = append(b, m.body...)
		b = binary.BigEndian.AppendUint32(b, uint32(n+11))
	}
	return &outMsg{typ: 22, ts: ms[0].ts, body: b}
}

// ---- viewers ----------------------------------------------------------------------------

// RTag is one FLV tag a viewer received.
type RTag struct {
	T  byte
	Ts uint32
	B  []byte
	At time.Duration
	// RTSP: already identified
	F   *Tag
	P   *Session
	Ord int
}

// Viewer is one viewing session and all it saw.
type Viewer struct {
	ID      int
	Proto   string
	App, Nm string
	ReqAt   time.Duration
	AckAt   time.Duration
	State   string // joined, notfound, error, ""
	Recv    []RTag
	EndAt   time.Duration
	EndWhy  string
	Harmed  bool // slow, stalled, reset, partitioned, or leaves early
	Quit    bool // ended by its own doing
	Bad     string
	Ended   bool
	Done    bool
	Op      *Op
	RC      *RC
	conn    *simrt.TCPConn
	// WebSocket
	WS *wsState
	// RTSP
	RTSP     *rtspPlay
	Excuse   func(*Tag) bool // frames that may be missing
	recvDone bool
	Want     func(*Tag) bool // the frames it asked for (nil: all)
	NoVideo  bool
	Lossy    bool // datagrams to it may be lost
	tsOff    map[tsKey]int64
	T0       time.Duration
	Late     bool
}

func (v *Viewer) String() string {
	return fmt.Sprintf("viewer %d (%s %s/%s)", v.ID, v.Proto, v.App, v.Nm)
}

func (w *World) newViewer(o *Op, proto, app, nm string) *Viewer {
	v := &Viewer{ID: len(w.viewers) + 1, Proto: proto, App: app, Nm: nm, Op: o}
	v.Harmed = o.p("rate", 0) > 0 || o.p("stall", 0) > 0 || o.p("rst", 0) > 0 || o.p("harmed", 0) > 0 || (o.p("vwin", 0) > 0 && o.p("vwin", 0) < 32768)
	w.viewers = append(w.viewers, v)
	return v
}

func (w *World) pace(v *Viewer, p *pacedReader) {
	o := v.Op
	p.Rate, p.StallAt, p.StallMs, p.RstAt = o.p("rate", 0), o.p("stall", 0), o.p("stallms", -1), o.p("rst", 0)
	if n := o.p("vwin", 0); n > 0 {
		p.c.Window = int(n)
	}
	p.OnRst = func() { v.Quit = true; v.EndAt = w.now(); v.EndWhy = "own reset" }
}

// runView starts a viewer.
func (w *World) runView(o *Op, proto, app, nm string) *Viewer {
	v := w.newViewer(o, proto, app, nm)
	node := w.client(o.I)
	w.actor(node, fmt.Sprintf("view%d", v.ID), o.T, func() {
		switch proto {
		case "rtmp":
			w.rtmpView(v, node)
		case "flv":
			w.flvView(v, node)
		case "ws":
			w.wsView(v, node)
		case "rtsp":
			w.rtspView(v, node)
		}
		v.Ended = true
		if v.EndAt == 0 {
			v.EndAt = w.now()
			w.s.Arm()
		}
		w.logf("%v ends: %s %s recv=%d bad=%q", v, v.State, v.EndWhy, len(v.Recv), v.Bad)
	})
	return v
}

// quitter closes the viewer's connection at its planned end.
func (w *World) quitter(v *Viewer, c *simrt.TCPConn) {
	v.conn = c
	o := v.Op
	if t := o.p("quit", 0); t > 0 {
		w.s.After(time.Duration(t)*time.Microsecond, func() {
			if v.Ended {
				return
			}
			v.Quit = true
			v.EndAt = w.now()
			w.s.Arm()
			v.EndWhy = "own quit"
			w.s.GoOn(w.client(o.I), "quit", func() {
				if o.p("qrst", 0) != 0 {
					c.Reset()
				} else {
					c.Close()
				}
			})
		})
	}
}

func (w *World) endView(v *Viewer, err error, mid bool) {
	if v.Quit {
		return
	}
	v.EndAt = w.now()
	w.s.Arm()
	switch {
	case err == io.EOF || errors.Is(err, io.ErrUnexpectedEOF):
		v.EndWhy = "eof"
		o := v.Op
		slow := o.p("rate", 0) > 0 || o.p("stall", 0) > 0 || w.plan.stalls()
		if v.WS != nil && v.WS.KillAt > 0 && slow {
			// it asked for the end of the session and then did not take what
			// had been written: the server need not wait for it
			mid = false
		}
		if mid && v.Bad == "" && !w.stop {
			v.Bad = "the stream was ended in the middle of a tag or message"
		}
	case err == nil:
		v.EndWhy = "end"
	default:
		v.EndWhy = err.Error()
	}
}

func (w *World) rtmpView(v *Viewer, node *simrt.Node) {
	o := v.Op
	r := w.rng(10, uint64(o.I), uint64(v.ID))
	v.T0 = w.now()
	rc, err := w.dialRTMP(node, "10.0.0.1:1935", fmt.Sprintf("view%d", v.ID), r)
	if err != nil {
		v.State, v.EndWhy = "error", err.Error()
		return
	}
	v.RC = rc
	rc.noAck = o.p("noack", 0) != 0
	w.quitter(v, rc.c)
	if err := rc.shake(int(o.p("shake", 0)), false); err != nil {
		v.State = "error"
		w.endView(v, err, false)
		rc.close(false)
		return
	}
	w.pace(v, rc.pr)
	rc.OnMsg = func(m *RMsg) {
		if m.Type == 8 || m.Type == 9 || m.Type == 18 {
			v.Recv = append(v.Recv, RTag{T: m.Type, Ts: m.Ts, B: m.Body, At: m.At})
		}
	}
	w.actor(node, fmt.Sprintf("view%d-rd", v.ID), 0, func() {
		rc.readLoop()
		if v.Bad == "" {
			v.Bad = rc.Bad
		}
		w.endView(v, rc.RdErr, rc.MidMsg)
	})
	rc.cmd("connect", 1.0, map[string]any{"app": v.App, "flashVer": "LNX", "tcUrl": "rtmp://s/" + v.App, "fpad": false, "capabilities": 15.0, "audioCodecs": 4071.0, "videoCodecs": 252.0, "videoFunction": 1.0})
	if x := rc.waitReply(60*time.Second, func(r *reply) bool { return r.Txn == 1 }); x == nil || x.Name != "_result" {
		if v.State == "" {
			v.State = "error"
		}
		rc.close(false)
		return
	}
	rc.cmd("createStream", 2.0, nil)
	if x := rc.waitReply(60*time.Second, func(r *reply) bool { return r.Txn == 2 }); x == nil {
		v.State = "error"
		rc.close(false)
		return
	}
	v.ReqAt = w.now()
	w.s.Arm()
	rc.cmd("play", 3.0, nil, v.Nm)
	x := rc.waitReply(60*time.Second, func(r *reply) bool {
		c := r.code()
		return r.Name == "onStatus" && (c == "NetStream.Play.Start" || c == "NetStream.Play.StreamNotFound")
	})
	if x == nil {
		if v.State == "" {
			v.State = "error"
		}
		rc.close(false)
		return
	}
	v.AckAt = x.At
	if x.code() == "NetStream.Play.StreamNotFound" {
		v.State = "notfound"
		v.EndWhy = "not found"
		rc.close(false)
		return
	}
	v.State = "joined"
	for !rc.RdDone && !w.stop {
		simrt.Sleep(20 * time.Millisecond)
	}
	if !rc.RdDone {
		rc.close(false)
	}
}

// ---- HTTP -------------------------------------------------------------------------------

type httpResp struct {
	Status int
	Hdr    map[string]string
	Body   io.Reader
	Raw    *bufio.Reader
	CL     int64
}

type chunkedBody struct {
	br   *bufio.Reader
	left int64
	done bool
	bad  string
	err  error
}

func (c *chunkedBody) Read(p []byte) (int, error) {
	if c.err != nil {
		return 0, c.err
	}
	n, err := c.read(p)
	c.err = err
	return n, err
}

func (c *chunkedBody) read(p []byte) (int, error) {
	if c.done {
		return 0, io.EOF
	}
	if c.left == 0 {
		l, err := c.br.ReadString('\n')
		if err != nil {
			return 0, err
		}
		n, err := strconv.ParseInt(strings.TrimSpace(l), 16, 32)
		if err != nil {
			c.bad = "bad chunk header " + strconv.Quote(l)
			return 0, errors.New(c.bad)
		}
		if n == 0 {
			c.br.ReadString('\n')
			c.done = true
			return 0, io.EOF
		}
		c.left = n
	}
	if int64(len(p)) > c.left {
		p = p[:c.left]
	}
	n, err := c.br.Read(p)
	c.left -= int64(n)
	if c.left == 0 && err == nil {
		if _, e := c.br.ReadString('\n'); e != nil {
			return n, e
		}
	}
	return n, err
}

func readHTTP(br *bufio.Reader) (*httpResp, error) {
	l, err := br.ReadString('\n')
	if err != nil {
		return nil, err
	}
	f := strings.SplitN(strings.TrimSpace(l), " ", 3)
	if len(f) < 2 || !strings.HasPrefix(f[0], "HTTP/1.") {
		return nil, fmt.Errorf("bad status line %q", l)
	}
	st, err := strconv.Atoi(f[1])
	if err != nil {
		return nil, fmt.Errorf("bad status line %q", l)
	}
	r := &httpResp{Status: st, Hdr: map[string]string{}, Raw: br, CL: -1}
	for {
		l, err := br.ReadString('\n')
		if err != nil {
			return nil, err
		}
		l = strings.TrimRight(l, "\r\n")
		if l == "" {
			break
		}
		i := strings.IndexByte(l, ':')
		if i < 0 {
			return nil, fmt.Errorf("bad header %q", l)
		}
		r.Hdr[strings.ToLower(l[:i])] = strings.TrimSpace(l[i+1:])
	}
	switch {
	case st == 101:
		r.Body = br
	case strings.EqualFold(r.Hdr["transfer-encoding"], "chunked"):
		r.Body = &chunkedBody{br: br}
	case r.Hdr["content-length"] != "":
		n, err := strconv.ParseInt(r.Hdr["content-length"], 10, 64)
		if err != nil {
			return nil, err
		}
		r.CL = n
		r.Body = io.LimitReader(br, n)
	default:
		r.Body = br
	}
	return r, nil
}

// httpGet fetches one resource completely.
func (w *World) httpGet(node *simrt.Node, port int, path string, hdr string, d time.Duration) (*httpResp, []byte, error) {
	return w.httpGetSlow(node, port, path, hdr, d, 0)
}

// httpGetSlow is httpGet by a client that reads slowly (rate in bytes per ms).
func (w *World) httpGetSlow(node *simrt.Node, port int, path string, hdr string, d time.Duration, rate int) (*httpResp, []byte, error) {
	c, err := simrt.DialTimeout("tcp", fmt.Sprintf("10.0.0.1:%d", port), 10*time.Second)
	if err != nil {
		return nil, nil, err
	}
	defer c.Close()
	if d > 0 {
		c.SetDeadline(simrt.Now().Add(d))
	}
	var rd io.Reader = c
	if rate > 0 {
		rd = &pacedReader{c: c.(*simrt.TCPConn), w: w, Rate: int64(rate)}
		c.(*simrt.TCPConn).Window = 4096
	}
	if _, err := c.Write([]byte("GET " + path + " HTTP/1.1\r\nHost: s\r\nConnection: close\r\n" + hdr + "\r\n")); err != nil {
		return nil, nil, err
	}
	r, err := readHTTP(bufio.NewReader(rd))
	if err != nil {
		return nil, nil, err
	}
	b, err := io.ReadAll(r.Body)
	if err == nil && r.CL >= 0 && int64(len(b)) < r.CL {
		err = io.ErrUnexpectedEOF
	}
	return r, b, err
}

// ---- FLV --------------------------------------------------------------------------------

// readFLV parses an FLV byte stream into tags until it ends.
func (w *World) readFLV(v *Viewer, rd io.Reader) {
	h := make([]byte, 13)
	n, err := io.ReadFull(rd, h)
	if err != nil {
		w.endView(v, err, n > 0)
		return
	}
	if !bytes.Equal(h[:4], []byte("FLV\x01")) || h[4]&^5 != 0 || !bytes.Equal(h[5:], []byte{0, 0, 0, 9, 0, 0, 0, 0}) {
		v.Bad = fmt.Sprintf("bad FLV header %x", h)
		return
	}
	for {
		th := make([]byte, 11)
		n, err := io.ReadFull(rd, th)
		if err != nil {
			w.endView(v, err, n > 0)
			return
		}
		ln := int(th[1])<<16 | int(th[2])<<8 | int(th[3])
		ts := uint32(th[4])<<16 | uint32(th[5])<<8 | uint32(th[6]) | uint32(th[7])<<24
		if th[0] != 8 && th[0] != 9 && th[0] != 18 || th[8]|th[9]|th[10] != 0 {
			v.Bad = fmt.Sprintf("bad FLV tag header %x after %d tags", th, len(v.Recv))
			return
		}
		b := make([]byte, ln+4)
		if _, err := io.ReadFull(rd, b); err != nil {
			w.endView(v, err, true)
			return
		}
		if int(binary.BigEndian.Uint32(b[ln:])) != ln+11 {
			v.Bad = fmt.Sprintf("bad PreviousTagSize %d after a tag of %d bytes", binary.BigEndian.Uint32(b[ln:]), ln+11)
			return
		}
		v.Recv = append(v.Recv, RTag{T: th[0], Ts: ts, B: b[:ln:ln], At: w.now()})
	}
}

func (w *World) flvView(v *Viewer, node *simrt.Node) {
	v.T0 = w.now()
	c, err := simrt.DialTimeout("tcp", "10.0.0.1:8080", 10*time.Second)
	if err != nil {
		v.State, v.EndWhy = "error", err.Error()
		return
	}
	tc := c.(*simrt.TCPConn)
	w.quitter(v, tc)
	pr := &pacedReader{w: w, c: tc}
	w.pace(v, pr)
	v.ReqAt = w.now()
	w.s.Arm()
	c.Write([]byte("GET /" + v.App + "/" + url.PathEscape(v.Nm) + ".flv" + w.query(0, uint64(v.ID)) + " HTTP/1.1\r\nHost: s\r\n\r\n"))
	r, err := readHTTP(bufio.NewReaderSize(pr, 4096))
	if err != nil {
		v.State = "error"
		w.endView(v, err, false)
		return
	}
	v.AckAt = w.now()
	if r.Status == 404 {
		v.State = "notfound"
		v.EndWhy = "not found"
		c.Close()
		return
	}
	if r.Status != 200 {
		v.State = "error"
		v.EndWhy = fmt.Sprint("status ", r.Status)
		c.Close()
		return
	}
	v.State = "joined"
	w.stopWatch(v, tc)
	w.readFLV(v, r.Body)
	if cb, ok := r.Body.(*chunkedBody); ok && cb.bad != "" {
		v.Bad = cb.bad
	}
	if !tc.Closed() {
		tc.Close()
	}
}

// stopWatch closes the connection when the run is being ended.
func (w *World) stopWatch(v *Viewer, c *simrt.TCPConn) {
	w.s.GoOn(w.client(v.Op.I), "stopwatch", func() {
		for !w.stop && !v.Ended {
			simrt.Sleep(50 * time.Millisecond)
		}
		if !v.Ended {
			v.Quit = true
			v.EndWhy = "run over"
			v.EndAt = w.now()
			w.s.Arm()
			c.Close()
		}
	})
}

// ---- WebSocket --------------------------------------------------------------------------

type wsCtl struct {
	Op byte
	P  []byte
	At time.Duration
}

type wsState struct {
	r          io.Reader
	left       int
	frag       bool
	Ctl        []wsCtl
	Bad        string
	Frames     int
	PingsTx    [][]byte
	PingAt     []time.Duration
	KillAt     time.Duration // sent something that may end the session
	Noise      bool          // sent random bytes: may have contained pings
	SrvCloseAt time.Duration
	conn       *simrt.TCPConn
	Closed     bool
	ClosedAt   time.Duration
	partial    bool
}

func (s *wsState) Read(p []byte) (int, error) {
	for s.left == 0 {
		h := make([]byte, 2)
		n, err := io.ReadFull(s.r, h)
		if err != nil {
			if n > 0 {
				s.partial = true
				return 0, io.ErrUnexpectedEOF
			}
			return 0, err
		}
		fin, op := h[0]&0x80 != 0, h[0]&15
		if h[0]&0x70 != 0 || h[1]&0x80 != 0 {
			s.Bad = fmt.Sprintf("server frame header %x: reserved bits or mask set", h)
			return 0, errors.New(s.Bad)
		}
		ln := int(h[1] & 127)
		var ext []byte
		switch ln {
		case 126:
			ext = make([]byte, 2)
		case 127:
			ext = make([]byte, 8)
		}
		if len(ext) > 0 {
			if _, err := io.ReadFull(s.r, ext); err != nil {
				s.partial = true
				return 0, io.ErrUnexpectedEOF
			}
			if len(ext) == 2 {
				ln = int(binary.BigEndian.Uint16(ext))
				if ln < 126 {
					s.Bad = "frame length not in its shortest form"
					return 0, errors.New(s.Bad)
				}
			} else {
				u := binary.BigEndian.Uint64(ext)
				if u > 1<<26 || u < 65536 {
					s.Bad = fmt.Sprintf("frame length %d", u)
					return 0, errors.New(s.Bad)
				}
				ln = int(u)
			}
		}
		switch {
		case op >= 8:
			if !fin || ln > 125 || (op != 8 && op != 9 && op != 10) {
				s.Bad = fmt.Sprintf("malformed control frame op=%d fin=%v len=%d", op, fin, ln)
				return 0, errors.New(s.Bad)
			}
			b := make([]byte, ln)
			if _, err := io.ReadFull(s.r, b); err != nil {
				s.partial = true
				return 0, io.ErrUnexpectedEOF
			}
			s.Ctl = append(s.Ctl, wsCtl{op, b, simrt.S.Elapsed()})
			if op == 8 {
				s.Closed = true
				s.SrvCloseAt = simrt.S.Elapsed()
				if s.ClosedAt == 0 && s.conn != nil { // answer it
					s.conn.Write(wsFrame(8, true, b, 99))
				}
				// nothing may follow
				x := make([]byte, 1)
				if n, _ := io.ReadFull(s.r, x); n > 0 {
					s.Bad = fmt.Sprintf("byte %02x after the close frame", x[0])
					return 0, errors.New(s.Bad)
				}
				return 0, io.EOF
			}
		case op == 2 && !s.frag || op == 0 && s.frag:
			s.Frames++
			s.frag = !fin
			s.left = ln
		default:
			s.Bad = fmt.Sprintf("unexpected data frame opcode %d (fragmented=%v)", op, s.frag)
			return 0, errors.New(s.Bad)
		}
	}
	if len(p) > s.left {
		p = p[:s.left]
	}
	n, err := s.r.Read(p)
	s.left -= n
	return n, err
}

func wsFrame(op byte, fin bool, p []byte, key uint32) []byte {
	b := []byte{op}
	if fin {
		b[0] |= 0x80
	}
	n := len(p)
	switch {
	case n < 126:
		b = append(b, 0x80|byte(n))
	case n < 65536:
		b = append(b, 0x80|126, byte(n>>8), byte(n))
	default:
		b = append(b, 0x80|127)
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	var k [4]byte
	binary.BigEndian.PutUint32(k[:], key)
	b = append(b, k[:]...)
	for i, c := range p {
		b = append(b, c^k[i&3])
	}
	return b
}

func (w *World) wsView(v *Viewer, node *simrt.Node) {
	o := v.Op
	r := w.rng(12, uint64(o.I), uint64(v.ID))
	v.T0 = w.now()
	c, err := simrt.DialTimeout("tcp", "10.0.0.1:8080", 10*time.Second)
	if err != nil {
		v.State, v.EndWhy = "error", err.Error()
		return
	}
	tc := c.(*simrt.TCPConn)
	w.quitter(v, tc)
	pr := &pacedReader{w: w, c: tc}
	w.pace(v, pr)
	kb := make([]byte, 16)
	r.Read(kb)
	key := base64.StdEncoding.EncodeToString(kb)
	v.ReqAt = w.now()
	w.s.Arm()
	c.Write([]byte("GET /" + v.App + "/" + url.PathEscape(v.Nm) + ".flv" + w.query(0, uint64(v.ID)) + " HTTP/1.1\r\nHost: s\r\nUpgrade: " + []string{"websocket", "WebSocket"}[v.ID&1] + "\r\nConnection: keep-alive, Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: " + key + "\r\n\r\n"))
	br := bufio.NewReaderSize(pr, 4096)
	h, err := readHTTP(br)
	if err != nil {
		v.State = "error"
		w.endView(v, err, false)
		return
	}
	v.AckAt = w.now()
	if h.Status == 404 {
		v.State = "notfound"
		v.EndWhy = "not found"
		c.Close()
		return
	}
	if h.Status != 101 {
		v.State = "error"
		v.EndWhy = fmt.Sprint("status ", h.Status)
		v.Bad = fmt.Sprintf("upgrade answered with status %d", h.Status)
		c.Close()
		return
	}
	want := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	if h.Hdr["sec-websocket-accept"] != base64.StdEncoding.EncodeToString(want[:]) || !strings.EqualFold(h.Hdr["upgrade"], "websocket") || !strings.Contains(strings.ToLower(h.Hdr["connection"]), "upgrade") {
		v.Bad = fmt.Sprintf("bad upgrade answer %v", h.Hdr)
		c.Close()
		return
	}
	v.State = "joined"
	v.WS = &wsState{r: br, conn: tc}
	w.stopWatch(v, tc)
	if o.p("pings", 0) > 0 || o.p("wsclose", 0) > 0 || o.p("evil", 0) > 0 {
		w.actor(node, fmt.Sprintf("ws%d-ctl", v.ID), 0, func() { w.wsControl(v, tc, r) })
	}
	w.readFLV(v, v.WS)
	if v.WS.Bad != "" {
		v.Bad = v.WS.Bad
	}
	if !tc.Closed() {
		tc.Close()
	}
}

// wsControl sends control and data frames while media flows.
func (w *World) wsControl(v *Viewer, c *simrt.TCPConn, r *simrt.Rand) {
	o := v.Op
	s := v.WS
	ping := func(p []byte) []byte {
		r.Read(p)
		s.PingsTx = append(s.PingsTx, p)
		s.PingAt = append(s.PingAt, w.now())
		return wsFrame(9, true, p, uint32(r.U64()))
	}
	kill := func() {
		v.Harmed = true
		if s.KillAt == 0 {
			s.KillAt = w.now()
		}
	}
	n := int(o.p("pings", 0))
	for i := 0; i < n && !v.Ended && !c.Closed() && !w.stop; i++ {
		if g := o.p("pgap", 2000); g > 0 {
			simrt.Sleep(time.Duration(r.Intn(int(g))) * time.Microsecond)
		}
		var b []byte
		switch r.Pick(6, 1, 1, 1, 1) {
		case 0:
			b = ping(make([]byte, r.Intn(126)))
		case 1: // unsolicited pong: ignored
			b = wsFrame(10, true, []byte("x"), uint32(r.U64()))
		case 2: // text message
			p := make([]byte, r.Intn(300))
			r.Read(p)
			b = wsFrame(1, true, p, uint32(r.U64()))
		case 3: // fragmented message with a ping between the fragments
			if o.p("frag", 0) == 0 {
				continue
			}
			kill() // a server without support for fragments may close
			p := make([]byte, 1+r.Intn(100))
			r.Read(p)
			b = wsFrame(2, false, p, uint32(r.U64()))
			b = append(b, ping(make([]byte, r.Intn(20)))...)
			b = append(b, wsFrame(0, true, p, uint32(r.U64()))...)
		case 4: // large message
			if o.p("big", 0) == 0 {
				continue
			}
			p := make([]byte, 126+r.Intn(70000))
			b = wsFrame(2, true, p, uint32(r.U64()))
		}
		if _, err := c.Write(b); err != nil {
			return
		}
	}
	if t := o.p("wsclose", 0); t > 0 && !v.Ended {
		simrt.Sleep(time.Duration(t) * time.Millisecond)
		if v.Ended {
			return
		}
		kill()
		s.ClosedAt = w.now()
		var pl []byte
		if r.Bool(0.5) {
			pl = []byte{3, 232}
		}
		c.Write(wsFrame(8, true, pl, uint32(r.U64())))
		return
	}
	if e := o.p("evil", 0); e > 0 && !v.Ended {
		kill()
		w.s.Faults["ws_evil"]++
		var b []byte
		switch e {
		case 1: // enormous length, nothing behind it
			b = []byte{0x82, 0xff, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4}
		case 2:
			b = []byte{0x82, 0xff, 0, 0, 0, 0x80, 0, 0, 0, 0, 1, 2, 3, 4}
		case 3:
			b = []byte{0x82, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4}
		case 4: // a ping that is too long
			b = wsFrame(9, true, make([]byte, 126+r.Intn(400)), uint32(r.U64()))
		case 5: // a fragmented ping
			b = wsFrame(9, false, []byte("abc"), uint32(r.U64()))
		case 6: // reserved bits and opcodes
			b = wsFrame(byte(r.Intn(16))|byte(r.Intn(8))<<4, true, []byte("abc"), uint32(r.U64()))
			if b[0]&15 == 9 {
				b[0] ^= 8
			}
		case 7: // noise
			b = make([]byte, 1+r.Intn(3000))
			r.Read(b)
			s.Noise = true
		case 8: // cut frame
			b = wsFrame(9, true, make([]byte, 60), 7)[:1+r.Intn(60)]
		}
		c.Write(b)
		if r.Bool(0.5) {
			simrt.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
			v.Quit = true
			v.EndAt = w.now()
			w.s.Arm()
			v.EndWhy = "own close"
			c.Close()
		}
	}
}
