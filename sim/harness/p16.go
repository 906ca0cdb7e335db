package main

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"verif/simrt"
)

func init() {
	scenarios["P16"] = &Scenario{Gen: genP16, Setup: setupP16}
}

func genP16(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	if p.Net.Window < 32768 {
		p.Net.Window = 32768
	}
	P := map[string]int64{"wait": int64(r.Intn(3)) * 30, "linger": pick64(r, 0, 300)}
	streamKnobs(r, P)
	P["edge"] = pick64(r, 0, 0, 1)
	P["frames"] = 10 + int64(r.Intn(50))
	P["fms"] = pick64(r, 5, 20, 33)
	P["cs"] = pick64(r, 0, 128, 1000, 4096, 65536)
	P["wr"] = int64(r.Intn(2))
	P["shake"] = int64(r.Intn(3))
	P["eager"] = int64(r.Intn(2))
	P["comp"] = int64(r.Intn(4))
	P["ctl"] = pick64(r, 0, 10, 40)
	P["end"] = pick64(r, 0, 2)
	P["amf3"] = pick64(r, 0, 0, 0, 1)
	if r.Bool(0.7) {
		P["win"] = pick64(r, 1, 100, 500, 1000, 2500, 5000, 20000, 65536)
		P["strictack"] = int64(r.Intn(2))
		P["win2"] = pick64(r, 0, 0, 200, 5000, 60000)
	}
	p.Ops = append(p.Ops, Op{K: "pub", I: 1, A: "live", N: "s", P: P})
	ms := P["wait"] + streamMs(P)
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		o := Op{K: "rsess", I: int64(10 + i), A: "live", N: "s", T: int64(r.Intn(int(ms)+1)) * 900, P: map[string]int64{}}
		o.P["n"] = 1 + int64(r.Intn(14))
		o.P["pipe"] = int64(r.Intn(2))
		o.P["shake"] = int64(r.Intn(3))
		o.P["eager"] = int64(r.Intn(2))
		o.P["gap"] = pick64(r, 0, 0, 500, 5000)
		o.P["cs"] = pick64(r, 0, 1, 64, 4096)
		o.P["comp"] = int64(r.Intn(4))
		o.P["amf3"] = pick64(r, 0, 0, 0, 1)
		o.P["ts"] = pick64(r, 0, 0, 5, 0xffffff, 0xfffffff0)
		if r.Bool(0.6) {
			o.P["bigtxn"] = int64(r.Intn(2))
			o.P["win"] = pick64(r, 1, 50, 300, 1000, 5000, 20000)
			o.P["fill"] = pick64(r, 0, 100, 5000, 30000)
		}
		if r.Bool(0.15) && !p.NoFault {
			o.P["cutms"] = 1 + int64(r.Intn(400))
		}
		if r.Bool(0.1) {
			o.P["badapp"] = 1
		}
		p.Ops = append(p.Ops, o)
	}
	if r.Bool(0.4) {
		p.Ops = append(p.Ops, Op{K: "rtmp", I: 30, A: "live", N: "s", T: 25000, P: map[string]int64{"shake": int64(r.Intn(3))}})
	}
}

func setupP16(w *World) {
	w.startServer(ServerCfg{})
	w.std()
	var ss []*rsess
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		if o.K == "rsess" {
			ss = append(ss, w.runRsess(o))
		}
	}
	w.finish(700 * time.Millisecond)
	w.done = append(w.done, func() {
		w.checkLive(true)
		for _, p := range w.pubs {
			w.mustAccept(p)
			if p.AckStall {
				w.fail("ack-stall", "session %d announced a window of %d bytes, sent %d bytes and waited 10 s for an acknowledgement (last: %v)", p.ID, p.Win, p.RC.tx, lastAck(p.RC))
			}
			if p.RC != nil {
				w.checkAcks(p.RC, fmt.Sprintf("session %d", p.ID), p.Win, p.EndKind == "fin" || p.EndKind == "unpublish")
				w.checkPongs(p.RC, fmt.Sprintf("session %d", p.ID), p.Pings, p.Err == "" && p.SentAll && p.RC.RdDone)
			}
		}
		for _, s := range ss {
			w.checkRsess(s)
		}
	})
}

func lastAck(rc *RC) any {
	if len(rc.Acks) == 0 {
		return "none"
	}
	return rc.Acks[len(rc.Acks)-1].V
}

// checkAcks: acknowledgements never decrease and never exceed what was sent.
func (w *World) checkAcks(rc *RC, who string, win uint32, settled bool) {
	if rc.Bad != "" {
		w.fail("malformed", "%s: %s", who, rc.Bad)
	}
	var prev uint32
	for i, a := range rc.Acks {
		if a.V < prev {
			w.fail("ack-decrease", "%s: acknowledgement %d says %d bytes after %d", who, i, a.V, prev)
			return
		}
		if int64(a.V) > a.Tx {
			w.fail("ack-ahead", "%s: acknowledgement %d says %d bytes when %d had been sent", who, i, a.V, a.Tx)
			return
		}
		prev = a.V
		w.ok("acks")
	}
	_ = settled
}

func (w *World) checkPongs(rc *RC, who string, pings []uint32, all bool) {
	for i, x := range rc.Pongs {
		if i >= len(pings) {
			w.fail("pong-extra", "%s: got %d ping responses to %d pings", who, len(rc.Pongs), len(pings))
			return
		}
		if x != pings[i] {
			w.fail("pong-wrong", "%s: ping response %d carries %d, the ping carried %d", who, i, x, pings[i])
			return
		}
		w.ok("pongs")
	}
	if all && len(rc.Pongs) < len(pings) && !w.plan.stalls() {
		w.fail("pong-missing", "%s: %d pings, %d responses", who, len(pings), len(rc.Pongs))
	}
}

// rcmd is one command a session sent and what it may be answered with.
type rcmd struct {
	name string
	txn  float64
	arg  string
	at   time.Duration
	flag bool
}

type rsess struct {
	op     *Op
	rc     *RC
	cmds   []rcmd
	pings  []uint32
	media  []RTag
	state  string
	err    string
	ctl    []string // control messages before the connect result
	full   bool     // stayed long enough to get every answer
	win    uint32
	winTx  uint32 // bytes sent before it was in force
	fillTx int64
	name   string
	endAt  time.Duration
}

func (w *World) runRsess(o *Op) *rsess {
	s := &rsess{op: o, name: fmt.Sprintf("client %d", o.I)}
	node := w.client(o.I)
	r := w.rng(16, uint64(o.I))
	w.hold++
	w.actor(node, s.name, o.T, func() {
		defer func() { w.hold--; s.endAt = w.now() }()
		rc, err := w.dialRTMP(node, "10.0.0.1:1935", s.name, r)
		if err != nil {
			s.err = err.Error()
			return
		}
		s.rc = rc
		if t := o.p("cutms", 0); t > 0 {
			w.s.After(time.Duration(t)*time.Millisecond, func() {
				w.s.GoOn(node, "cut", func() {
					w.s.Faults["client_cut"]++
					s.state = "cut"
					rc.close(r.Bool(0.5))
				})
			})
		}
		if err := rc.shake(int(o.p("shake", 0)), o.p("eager", 0) != 0); err != nil {
			if s.state == "" {
				s.err = "handshake: " + err.Error()
			}
			rc.close(false)
			return
		}
		rc.out.compress = int(o.p("comp", 0))
		rc.OnMsg = func(m *RMsg) {
			switch m.Type {
			case 8, 9, 18:
				s.media = append(s.media, RTag{T: m.Type, Ts: m.Ts, B: m.Body, At: m.At})
			case 1, 5, 6:
				if len(rc.Replies) == 0 {
					s.ctl = append(s.ctl, fmt.Sprint(m.Type))
				}
			}
		}
		w.actor(node, s.name+"-rd", 0, rc.readLoop)
		if cs := o.p("cs", 0); cs > 0 {
			rc.write(rc.out.one(rc.out.setSize(int(cs))))
		}
		rc.amf3 = o.p("amf3", 0) != 0
		txn := 0.0
		ts := uint32(o.p("ts", 0))
		if o.p("bigtxn", 0) != 0 {
			txn = float64([]int64{100, 254, 65533, 1<<24 - 2, 1<<31 - 6}[r.Intn(5)])
		}
		send := func(c rcmd, args ...any) {
			txn++
			c.txn, c.at = txn, w.now()
			if c.name == "connect" {
				c.txn = 1
			}
			s.cmds = append(s.cmds, c)
			var b []byte
			for _, v := range append([]any{c.name, c.txn}, args...) {
				b = append(b, amfEnc(v)...)
			}
			rc.write(rc.out.one(rc.typed(&outMsg{typ: 20, csid: 3, ts: ts, msid: uint32(r.Intn(3)), body: b})))
			if o.p("pipe", 0) == 0 {
				want := len(s.cmds)
				w.waitUntil(400*time.Millisecond, func() bool { return rc.RdDone || s.answered() >= want })
			}
			if g := o.p("gap", 0); g > 0 {
				simrt.Sleep(time.Duration(r.Intn(int(g))) * time.Microsecond)
			}
		}
		app := o.A
		if o.p("badapp", 0) != 0 {
			app = "nosuchapp"
		}
		send(rcmd{name: "connect"}, map[string]any{"app": app, "tcUrl": "rtmp://s/" + app, "objectEncoding": 0.0})
		own := fmt.Sprintf("r%d", o.I)
		n := int(o.p("n", 5))
		for i := 0; i < n && !rc.closed && !rc.RdDone && !w.stop; i++ {
			switch r.Pick(2, 1, 3, 2, 4, 1, 1, 1, 1, 1, 1, 3, 3, 2, 1) {
			case 0:
				send(rcmd{name: "releaseStream"}, nil, own)
			case 1:
				send(rcmd{name: "FCPublish"}, nil, own)
			case 2:
				send(rcmd{name: "createStream"}, nil)
			case 3:
				nm := own
				if r.Bool(0.4) && w.pubs[0].State == "accepted" {
					nm = o.N
				}
				send(rcmd{name: "publish", arg: nm}, nil, nm, "live")
			case 4:
				nm := []string{o.N, o.N, "none", own}[r.Intn(4)]
				send(rcmd{name: "play", arg: nm}, nil, nm)
			case 5:
				f := r.Bool(0.5)
				send(rcmd{name: "pause", flag: f}, nil, f, float64(r.Intn(1000)))
			case 6:
				send(rcmd{name: "seek"}, nil, float64(r.Intn(100000)))
			case 7:
				send(rcmd{name: "receiveAudio"}, nil, true)
			case 8:
				send(rcmd{name: "receiveVideo"}, nil, true)
			case 9:
				send(rcmd{name: "FCUnpublish"}, nil, own)
			case 10:
				send(rcmd{name: []string{"deleteStream", "closeStream"}[r.Intn(2)]}, nil, 1.0)
			case 11: // ping
				b := make([]byte, 6)
				binary.BigEndian.PutUint16(b, 6)
				v := uint32(r.U64())
				binary.BigEndian.PutUint32(b[2:], v)
				s.pings = append(s.pings, v)
				rc.write(rc.out.one(&outMsg{typ: 4, csid: 2, body: b}))
			case 12: // bytes to acknowledge
				if f := int(o.p("fill", 0)); f > 0 {
					b := make([]byte, 2+r.Intn(f))
					r.Read(b)
					if o.p("cs", 0) == 1 && len(b) > 500 {
						b = b[:500]
					}
					rc.write(rc.out.one(&outMsg{typ: 19, csid: 6, msid: 1, ts: ts, body: b}))
				}
			case 13: // window
				if wn := o.p("win", 0); wn > 0 && s.win == 0 {
					b := make([]byte, 4)
					binary.BigEndian.PutUint32(b, uint32(wn))
					s.win = uint32(wn)
					rc.write(rc.out.one(&outMsg{typ: 5, csid: 2, body: b}))
					s.winTx = uint32(rc.tx) - 3073
				}
			case 14:
				send(rcmd{name: "_checkbw"}, nil)
			}
		}
		if s.state == "" && !rc.RdDone {
			d := 300*time.Millisecond + w.procBound()
			w.waitUntil(d, func() bool {
				return s.state != "" || rc.RdDone || s.answered() >= len(s.cmds) && len(rc.Pongs) >= len(s.pings)
			})
			simrt.Sleep(100*time.Millisecond + 4*w.plan.Net.LatMax)
			if s.state == "" && !w.stop {
				s.full = true
			}
		}
		if !rc.closed {
			w.pubClose(rc, true)
		}
	})
	return s
}

// answered counts the commands answered so far (roughly: last statuses).
func (s *rsess) answered() int {
	n, _, _ := s.match()
	return n
}

// match consumes the replies command by command. It returns how many
// commands are fully answered and, if a reply fits none, what is wrong.
func (s *rsess) match() (done int, played []string, bad string) {
	rs := s.rc.Replies
	i := 0
	skip := func() {
		for i < len(rs) && rs[i].Name == "onStatus" {
			c := rs[i].code()
			if c != "NetStream.Play.UnpublishNotify" && c != "NetStream.Play.Stop" {
				break
			}
			i++
		}
	}
	for _, c := range s.cmds {
		skip()
		if c.name == "_checkbw" {
			if i < len(rs) && (rs[i].Name == "_error" || rs[i].Name == "_result") && rs[i].Txn == c.txn {
				i++
			}
			done++
			continue
		}
		if i >= len(rs) {
			return
		}
		r := &rs[i]
		result := func() bool { return r.Name == "_result" && r.Txn == c.txn }
		status := func(codes ...string) bool {
			if r.Name != "onStatus" || r.Txn != 0 && r.Txn != c.txn {
				return false
			}
			for _, x := range codes {
				if r.code() == x {
					return true
				}
			}
			return false
		}
		ok := false
		switch c.name {
		case "connect":
			ok = result() && r.code() == "NetConnection.Connect.Success"
		case "createStream":
			if ok = result() && len(r.Args) > 0; ok {
				_, ok = r.Args[len(r.Args)-1].(float64)
			}
		case "releaseStream", "FCPublish", "receiveAudio", "receiveVideo":
			ok = result()
		case "publish":
			ok = status("NetStream.Publish.Start", "NetStream.Publish.BadName")
		case "pause":
			if c.flag {
				ok = status("NetStream.Pause.Notify")
			} else {
				ok = status("NetStream.Unpause.Notify")
			}
		case "seek":
			ok = status("NetStream.Seek.Notify")
		case "FCUnpublish", "deleteStream", "closeStream":
			ok = status("NetStream.Unpublish.Success")
		case "play":
			if status("NetStream.Play.StreamNotFound") {
				ok = true
				break
			}
			if status("NetStream.Play.Reset") {
				i++
				if i >= len(rs) {
					return
				}
				r = &rs[i]
			}
			if ok = status("NetStream.Play.Start"); ok {
				played = append(played, c.arg)
				for i+1 < len(rs) {
					x := rs[i+1].code()
					if rs[i+1].Name != "onStatus" || x != "NetStream.Data.Start" && x != "NetStream.Play.PublishNotify" {
						break
					}
					i++
				}
			}
		}
		if !ok {
			bad = fmt.Sprintf("%s (transaction %v) was answered with %s %v %v", c.name, c.txn, r.Name, r.Txn, r.Args)
			return
		}
		i++
		done++
	}
	skip()
	if i < len(rs) {
		bad = fmt.Sprintf("a reply that answers no command: %s %v %v", rs[i].Name, rs[i].Txn, rs[i].Args)
	}
	return
}

func (w *World) checkRsess(s *rsess) {
	if s.rc == nil {
		if s.state == "" {
			w.fail("session-refused", "%s could not connect: %s", s.name, s.err)
		}
		return
	}
	if s.rc.Bad != "" {
		w.fail("malformed", "%s: %s", s.name, s.rc.Bad)
		return
	}
	if s.err != "" {
		w.fail("handshake", "%s: %s", s.name, s.err)
		return
	}
	if len(s.cmds) == 0 {
		return
	}
	o := s.op
	if o.p("badapp", 0) != 0 {
		for _, r := range s.rc.Replies {
			if r.Name == "_result" && r.Txn == 1 {
				w.fail("reply-wrong", "%s connected to an app that does not exist: %v", s.name, r.Args)
			}
		}
		return
	}
	done, played, bad := s.match()
	if bad != "" {
		w.fail("reply-wrong", "%s: %s", s.name, bad)
		return
	}
	w.checked["replies"] += int64(done)
	if done > 0 {
		if l := strings.Join(s.ctl, ","); !strings.Contains(l, "5") || !strings.Contains(l, "6") {
			w.fail("connect-control", "%s: connect was answered without announcing window and bandwidth first (control messages: %s)", s.name, l)
		}
	}
	if s.full && !w.plan.stalls() {
		if s.rc.RdDone && s.rc.RdAt < s.endAt-400*time.Millisecond && s.state == "" {
			w.fail("dropped", "%s was disconnected (%v) after %d of %d commands", s.name, s.rc.RdErr, done, len(s.cmds))
			return
		}
		if done < len(s.cmds) {
			w.fail("reply-missing", "%s: %s (transaction %v) sent at %v was never answered (%d of %d)", s.name, s.cmds[done].name, s.cmds[done].txn, s.cmds[done].at, done, len(s.cmds))
			return
		}
	}
	w.checkAcks(s.rc, s.name, s.win, s.full)
	w.checkPongs(s.rc, s.name, s.pings, s.full)
	if s.win > 0 && s.full && !w.plan.stalls() {
		var a uint32
		if k := len(s.rc.Acks); k > 0 {
			a = s.rc.Acks[k-1].V
		}
		b := uint32(s.rc.tx) - 3073
		from := a
		if from < s.winTx {
			from = s.winTx
		}
		if from < b && b-from >= s.win {
			w.fail("ack-missing", "%s announced a window of %d bytes; of %d bytes sent (without the handshake) only %d are acknowledged", s.name, s.win, b, a)
		}
		w.ok("ack-windows")
	}
	// Publish outcomes.
	seen := false
	k := 0
	for i := range s.rc.Replies {
		c := s.rc.Replies[i].code()
		if c != "NetStream.Publish.Start" && c != "NetStream.Publish.BadName" {
			continue
		}
		for k < len(s.cmds) && s.cmds[k].name != "publish" {
			k++
		}
		if k == len(s.cmds) {
			break
		}
		nm := s.cmds[k].arg
		at := s.cmds[k].at
		k++
		if nm == fmt.Sprintf("r%d", o.I) && !seen && c != "NetStream.Publish.Start" {
			w.fail("publish-refused", "%s: publishing the free name %s was refused", s.name, nm)
			return
		}
		if p := w.pubs[0]; nm == p.Nm && c == "NetStream.Publish.Start" && p.State == "accepted" && p.AckAt < at && p.EndAt > s.rc.Replies[i].At {
			w.fail("publish-accepted", "%s: publishing %s was accepted although session %d publishes it", s.name, nm, p.ID)
			return
		}
		if c == "NetStream.Publish.Start" {
			seen = true
		}
	}
	for i := range s.rc.Replies {
		if s.rc.Replies[i].code() == "NetStream.Play.StreamNotFound" {
			w.ok("notfound")
		}
	}
	// The media on the connection is one player's view after the other.
	seg := 0
	var last *Tag
	var sess *Session
	for i := range s.media {
		rt := &s.media[i]
		switch w.classify(rt) {
		case kMeta, kVHdr, kAHdr, kEOS:
			continue
		}
		p, t := w.frameOf(&Viewer{}, rt)
		if t == nil || t.Pos < 0 {
			w.fail("media-invented", "%s received a tag nobody published: type %d ts %d %s", s.name, rt.T, rt.Ts, hexs(rt.B, 40))
			return
		}
		if t.Kind != kData && string(t.B) != string(rt.B) || t.Ts != rt.Ts {
			w.fail("media-body", "%s received %v altered", s.name, t)
			return
		}
		w.ok("frames")
		if p == sess && last != nil && t.Pos > last.Pos {
			last = t
			continue
		}
		if last != nil || sess != nil {
			seg++
		}
		for seg < len(played) && played[seg] != p.Nm {
			seg++
		}
		if s.full && seg >= len(played) {
			w.fail("media-mixed", "%s: %v of %s after %v does not fit the plays it asked for (%v)", s.name, t, p.Nm, last, played)
			return
		}
		sess, last = p, t
	}
}
