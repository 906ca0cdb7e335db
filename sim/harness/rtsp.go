package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/simrt"
)

// ---- RTSP connection ------------------------------------------------------------------

const noTrack = "trackID=7" // no stream has it

type rtspReq struct {
	Method string
	URL    string
	CSeq   int
	At     time.Duration
}

type rtspReply struct {
	Status int
	Reason string
	Hdr    map[string]string
	Body   []byte
	At     time.Duration
	Req    rtspReq
}

type rtspC struct {
	w       *World
	c       *simrt.TCPConn
	br      *bufio.Reader
	who     string
	cseq    int
	sent    []rtspReq
	got     []*rtspReply
	Bad     string
	Done    bool
	Err     error
	Mid     bool // the byte stream ended inside a packet or reply
	OnRTP   func(ch int, b []byte)
	session string
	base    string
	pipe    []byte // requests held back to be written together
}

func (w *World) dialRTSP(who string) (*rtspC, error) {
	c, err := simrt.DialTimeout("tcp", fmt.Sprintf("10.0.0.1:%d", portRTSP), 10*time.Second)
	if err != nil {
		return nil, err
	}
	return &rtspC{w: w, c: c.(*simrt.TCPConn), who: who}, nil
}

func (c *rtspC) request(method, url, hdr string, body []byte) []byte {
	c.cseq++
	c.sent = append(c.sent, rtspReq{method, url, c.cseq, c.w.now()})
	s := fmt.Sprintf("%s %s RTSP/1.0\r\nCSeq: %d\r\nUser-Agent: sim\r\n", method, url, c.cseq)
	if c.session != "" {
		s += "Session: " + c.session + "\r\n"
	}
	s += hdr
	if len(body) > 0 {
		s += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	// names of header fields have no case, and space around values no meaning
	id := uint64(0)
	for _, x := range []byte(c.who) {
		id = id*31 + uint64(x)
	}
	if h := simrt.Hash(c.w.plan.Seed, 83, id); h%3 == 0 {
		ls := strings.Split(s, "\r\n")
		for i, l := range ls {
			k, v, ok := strings.Cut(l, ": ")
			if i == 0 || !ok {
				continue
			}
			switch h >> 8 % 4 {
			case 0:
				k = strings.ToLower(k)
			case 1:
				k = strings.ToUpper(k)
			}
			ls[i] = k + []string{":", ": ", ":  "}[h>>16%3] + v + []string{"", "", " "}[h>>24%3]
		}
		s = strings.Join(ls, "\r\n")
	}
	return append([]byte(s+"\r\n"), body...)
}

// do sends a request and waits for its reply.
func (c *rtspC) do(method, url, hdr string, body []byte) (*rtspReply, error) {
	n := len(c.sent)
	if _, err := c.c.Write(c.request(method, url, hdr, body)); err != nil {
		return nil, err
	}
	if !c.w.waitUntil(60*time.Second, func() bool { return len(c.got) > n || c.Done }) {
		return nil, errors.New("no reply to " + method)
	}
	if len(c.got) <= n {
		if c.Err != nil {
			return nil, c.Err
		}
		return nil, io.EOF
	}
	return c.got[n], nil
}

// readLoop takes the byte stream from the server apart: it must be a
// sequence of whole replies and whole interleaved packets.
func (c *rtspC) readLoop() {
	defer func() { c.Done = true }()
	bad := func(f string, a ...any) { c.Bad = fmt.Sprintf(f, a...) }
	stop := func(err error, mid bool) { c.Err, c.Mid = err, mid }
	for {
		b, err := c.br.ReadByte()
		if err != nil {
			stop(err, false)
			return
		}
		if b == '$' {
			h := make([]byte, 3)
			if _, err := io.ReadFull(c.br, h); err != nil {
				stop(err, true)
				return
			}
			p := make([]byte, binary.BigEndian.Uint16(h[1:]))
			if _, err := io.ReadFull(c.br, p); err != nil {
				stop(err, true)
				return
			}
			if c.OnRTP == nil {
				bad("interleaved packet on channel %d before anything was set up", h[0])
				return
			}
			c.OnRTP(int(h[0]), p)
			continue
		}
		c.br.UnreadByte()
		l, err := c.br.ReadString('\n')
		if err != nil {
			stop(err, true)
			return
		}
		f := strings.SplitN(strings.TrimRight(l, "\r\n"), " ", 3)
		if len(f) < 2 || f[0] != "RTSP/1.0" || !strings.HasSuffix(l, "\r\n") {
			bad("neither an interleaved packet nor a reply: %q", l)
			return
		}
		st, err := strconv.Atoi(f[1])
		if err != nil {
			bad("status line %q", l)
			return
		}
		r := &rtspReply{Status: st, Hdr: map[string]string{}, At: c.w.now()}
		for {
			l, err := c.br.ReadString('\n')
			if err != nil {
				stop(err, true)
				return
			}
			if l == "\r\n" {
				break
			}
			i := strings.IndexByte(l, ':')
			if i <= 0 || !strings.HasSuffix(l, "\r\n") {
				bad("header line %q", l)
				return
			}
			r.Hdr[strings.ToLower(l[:i])] = strings.TrimSpace(l[i+1:])
		}
		if s := r.Hdr["content-length"]; s != "" {
			n, err := strconv.Atoi(s)
			if err != nil || n < 0 || n > 1<<20 {
				bad("Content-Length %q", s)
				return
			}
			r.Body = make([]byte, n)
			if _, err := io.ReadFull(c.br, r.Body); err != nil {
				stop(err, true)
				return
			}
		}
		if len(c.got) >= len(c.sent) {
			bad("a reply (%d) nobody asked for", st)
			return
		}
		r.Req = c.sent[len(c.got)]
		if r.Hdr["cseq"] != fmt.Sprint(r.Req.CSeq) {
			bad("reply %d to %s has CSeq %q, the request had %d", st, r.Req.Method, r.Hdr["cseq"], r.Req.CSeq)
			return
		}
		if s := r.Hdr["session"]; s != "" {
			s, _, _ = strings.Cut(s, ";")
			if c.session != "" && c.session != s {
				bad("the session changed from %s to %s", c.session, s)
				return
			}
			c.session = s
		}
		c.got = append(c.got, r)
	}
}

// ---- RTP ----------------------------------------------------------------------------

type rtpPkt struct {
	Seq  uint16
	Ts   uint32
	M    bool
	PT   byte
	SSRC uint32
	P    []byte
	At   time.Duration
	Ord  int // arrival order over all tracks
	Ext  int // unwrapped sequence number
}

func parseRTP(b []byte) (*rtpPkt, string) {
	if len(b) < 12 || b[0]>>6 != 2 {
		return nil, "no RTP packet: " + hexs(b, 24)
	}
	p := &rtpPkt{Seq: binary.BigEndian.Uint16(b[2:]), Ts: binary.BigEndian.Uint32(b[4:]), SSRC: binary.BigEndian.Uint32(b[8:]), M: b[1]&0x80 != 0, PT: b[1] & 127}
	o := 12 + 4*int(b[0]&15)
	if b[0]&0x10 != 0 {
		if len(b) < o+4 {
			return nil, "truncated extension"
		}
		o += 4 + 4*int(binary.BigEndian.Uint16(b[o+2:]))
	}
	e := len(b)
	if b[0]&0x20 != 0 && e > 0 {
		e -= int(b[e-1])
	}
	if o >= e {
		return nil, "packet without payload: " + hexs(b, 24)
	}
	p.P = b[o:e]
	return p, ""
}

// sdpTrack is one media description.
type sdpTrack struct {
	Kind, Codec string
	PT          int
	Clock       int
	Chans       int
	Fmtp        map[string]string
	Control     string
}

func parseSDP(b []byte) (tr []*sdpTrack, err error) {
	lines := strings.Split(string(b), "\r\n")
	if len(lines) < 4 || lines[0] != "v=0" || lines[len(lines)-1] != "" {
		return nil, errors.New("no session description")
	}
	var cur *sdpTrack
	for _, l := range lines[:len(lines)-1] {
		if len(l) < 2 || l[1] != '=' {
			return nil, fmt.Errorf("line %q", l)
		}
		v := l[2:]
		switch l[0] {
		case 'm':
			f := strings.Fields(v)
			if len(f) != 4 || f[2] != "RTP/AVP" {
				return nil, fmt.Errorf("line %q", l)
			}
			cur = &sdpTrack{Kind: f[0], Fmtp: map[string]string{}}
			if cur.PT, err = strconv.Atoi(f[3]); err != nil || cur.PT < 0 || cur.PT > 127 {
				return nil, fmt.Errorf("line %q", l)
			}
			tr = append(tr, cur)
		case 'a':
			if cur == nil {
				continue
			}
			k, x, _ := strings.Cut(v, ":")
			switch k {
			case "control":
				cur.Control = x
			case "rtpmap", "fmtp":
				pt, y, ok := strings.Cut(x, " ")
				if !ok || pt != fmt.Sprint(cur.PT) {
					return nil, fmt.Errorf("line %q for payload type %d", l, cur.PT)
				}
				if k == "rtpmap" {
					f := strings.Split(y, "/")
					if len(f) < 2 {
						return nil, fmt.Errorf("line %q", l)
					}
					cur.Codec = f[0]
					if cur.Clock, err = strconv.Atoi(f[1]); err != nil || cur.Clock <= 0 {
						return nil, fmt.Errorf("line %q", l)
					}
					if len(f) > 2 {
						cur.Chans, _ = strconv.Atoi(f[2])
					}
				} else {
					for _, kv := range strings.Split(y, ";") {
						k, v, _ := strings.Cut(strings.TrimSpace(kv), "=")
						cur.Fmtp[strings.ToLower(k)] = v
					}
				}
			}
		}
	}
	return tr, nil
}

// ---- RTSP player ----------------------------------------------------------------------

type rtspTrack struct {
	Kind    string
	SDP     *sdpTrack
	Ch      int // interleaved channel, or -1
	UDP     [2]*simrt.UDPConn
	SrvPort int
	Pkts    []*rtpPkt
	Stray   string
}

type rtspPlay struct {
	C       *rtspC
	Tr      []*rtspTrack
	SDP     []byte
	SDPAt   time.Duration
	SDPReq  time.Duration
	ord     int
	GoneAt  time.Duration // the player tore down or closed the connection
	OutAt   time.Duration // and the server has answered
	Late    time.Duration // last packet after that
	TearAt  time.Duration
	Stopped bool
}

func (w *World) rtspView(v *Viewer, node *simrt.Node) {
	o := v.Op
	r := w.rng(14, uint64(o.I), uint64(v.ID))
	v.T0 = w.now()
	c, err := w.dialRTSP(fmt.Sprintf("view%d", v.ID))
	if err != nil {
		v.State, v.EndWhy = "error", err.Error()
		return
	}
	rp := &rtspPlay{C: c}
	v.RTSP = rp
	w.quitter(v, c.c)
	pr := &pacedReader{w: w, c: c.c}
	w.pace(v, pr)
	c.br = bufio.NewReaderSize(pr, 4096)
	if seg := o.p("seg", -1); seg >= 0 {
		c.c.Seg = int(seg)
	}
	w.actor(node, fmt.Sprintf("view%d-rd", v.ID), 0, c.readLoop)
	defer func() {
		// a disconnect by the player ends the flow as much as a TEARDOWN
		if v.Quit && rp.GoneAt == 0 {
			rp.GoneAt = v.EndAt
			rp.OutAt = v.EndAt
		}
		if rp.GoneAt == 0 {
			rp.GoneAt = w.now()
		}
		c.c.Close()
		w.waitUntil(w.procBound()*2+2*time.Second, func() bool { return false })
		rp.Stopped = true
		for _, t := range rp.Tr {
			for _, u := range t.UDP {
				if u != nil {
					u.Close()
				}
			}
		}
	}()
	fail := func(f string, a ...any) {
		if v.State == "" {
			v.State = "error"
		}
		if v.EndWhy == "" {
			v.EndWhy = fmt.Sprintf(f, a...)
		}
	}
	url := "rtsp://10.0.0.1:554/" + v.App + "/" + v.Nm
	if o.p("opt", 0) != 0 {
		if x, err := c.do("OPTIONS", url, "", nil); err != nil || x.Status != 200 {
			fail("OPTIONS: %v %v", x, err)
			return
		}
	}
	var d *rtspReply
	for n := 0; ; n++ {
		rp.SDPReq = w.now()
		d, err = c.do("DESCRIBE", url, "Accept: application/sdp\r\n", nil)
		if err != nil {
			fail("DESCRIBE: %v", err)
			return
		}
		rp.SDPAt = d.At
		if d.Status == 200 {
			break
		}
		v.ReqAt, v.AckAt = rp.SDPReq, d.At
		if d.Status == 404 && o.p("retry", 0) == 0 {
			v.State, v.EndWhy = "notfound", "not found"
			return
		}
		if d.Status != 503 && d.Status != 404 {
			fail("DESCRIBE answered %d %s", d.Status, d.Reason)
			return
		}
		if d.Status == 503 {
			w.s.Probe("rtsp-503")
		}
		if w.stop || n > 400 {
			v.State, v.EndWhy = "notready", fmt.Sprint("DESCRIBE answered ", d.Status)
			return
		}
		simrt.Sleep(time.Duration(20+r.Intn(200)) * time.Millisecond)
	}
	rp.SDP = d.Body
	if d.Hdr["content-type"] != "application/sdp" {
		v.Bad = fmt.Sprintf("DESCRIBE answered content type %q", d.Hdr["content-type"])
		return
	}
	tracks, err := parseSDP(d.Body)
	if err != nil {
		v.Bad = fmt.Sprintf("bad SDP (%v): %q", err, d.Body)
		return
	}
	base := d.Hdr["content-base"]
	if base == "" {
		base = url + "/"
	}
	if o.p("order", 0) != 0 {
		for i, j := 0, len(tracks)-1; i < j; i, j = i+1, j-1 {
			tracks[i], tracks[j] = tracks[j], tracks[i]
		}
	}
	vch, ach := int(o.p("vch", 0)), int(o.p("ach", 2))
	for _, t := range tracks {
		if t.Kind == "video" && o.p("only", 0) == 2 || t.Kind == "audio" && o.p("only", 0) == 1 {
			continue
		}
		tr := &rtspTrack{Kind: t.Kind, SDP: t, Ch: -1}
		udp := o.p("udp", 0)
		useUDP := udp == 1 || udp == 2 && t.Kind == "video" || udp == 3 && t.Kind == "audio"
		ctl := t.Control
		if !strings.Contains(ctl, "://") {
			ctl = base + ctl
		}
		var hdr string
		var cp int
		if useUDP {
			cp = 20000 + 2*int(o.I)%1000*4
			if t.Kind == "audio" {
				cp += 2
			}
			for k := range tr.UDP {
				u, err := simrt.ListenUDP("udp", &net.UDPAddr{Port: cp + k})
				if err != nil {
					panic(fmt.Sprint("harness: ", err))
				}
				tr.UDP[k] = u
			}
			hdr = fmt.Sprintf("Transport: RTP/AVP;unicast;client_port=%d-%d\r\n", cp, cp+1)
			w.s.GoOn(node, fmt.Sprintf("view%d-udp-%s", v.ID, t.Kind), func() { rp.udpLoop(w, v, tr) })
		} else {
			tr.Ch = vch
			if t.Kind == "audio" {
				tr.Ch = ach
			}
			hdr = fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d\r\n", tr.Ch, tr.Ch+1)
		}
		rp.Tr = append(rp.Tr, tr)
		if o.p("resetup", 0) != 0 {
			// a track that does not exist, then the same track with other transports
			for _, y := range [][2]string{
				{base + noTrack, hdr},
				{ctl, fmt.Sprintf("Transport: RTP/AVP;unicast;client_port=%d-%d\r\n", 30000, 30001)},
				{ctl, "Transport: RTP/AVP/TCP;unicast;interleaved=240-241\r\n"},
				{ctl, hdr}} {
				if r.Bool(0.5) {
					continue
				}
				w.s.Faults["resetup"]++
				x, err := c.do("SETUP", y[0], y[1], nil)
				if err != nil {
					fail("SETUP: %v", err)
					return
				}
				if want := 200; (x.Status == want) != (y[0] == ctl) {
					v.Bad = fmt.Sprintf("SETUP of %s answered %d", y[0], x.Status)
					return
				}
			}
		}
		x, err := c.do("SETUP", ctl, hdr, nil)
		if err != nil || x.Status != 200 {
			if err == nil {
				err = fmt.Errorf("status %d", x.Status)
			}
			fail("SETUP: %v", err)
			return
		}
		if c.session == "" {
			v.Bad = "SETUP answered without a session"
			return
		}
		tp := map[string]string{}
		for _, s := range strings.Split(x.Hdr["transport"], ";") {
			k, y, _ := strings.Cut(strings.TrimSpace(s), "=")
			tp[k] = y
		}
		pair := func(s string) (a, b int) {
			fmt.Sscanf(s, "%d-%d", &a, &b)
			return
		}
		if useUDP {
			a, b := pair(tp["client_port"])
			s, s2 := pair(tp["server_port"])
			if a != cp || b != cp+1 || s <= 0 || s2 != s+1 {
				v.Bad = fmt.Sprintf("SETUP for client_port=%d-%d answered with transport %q", cp, cp+1, x.Hdr["transport"])
				return
			}
			tr.SrvPort = s
		} else if a, b := pair(tp["interleaved"]); a != tr.Ch || b != tr.Ch+1 {
			v.Bad = fmt.Sprintf("SETUP for interleaved=%d-%d answered with transport %q", tr.Ch, tr.Ch+1, x.Hdr["transport"])
			return
		}
	}
	if len(rp.Tr) == 0 {
		v.State, v.EndWhy = "notracks", "no track to play"
		return
	}
	c.OnRTP = func(ch int, b []byte) {
		if v.Bad != "" {
			return
		}
		for _, t := range rp.Tr {
			if t.Ch == ch {
				rp.packet(w, v, t, b)
				return
			}
		}
		v.Bad = fmt.Sprintf("interleaved packet on channel %d, which no track uses", ch)
	}
	v.ReqAt = w.now()
	w.s.Arm()
	x, err := c.do("PLAY", url, "Range: npt=0.000-\r\n", nil)
	if err != nil {
		fail("PLAY: %v", err)
		return
	}
	v.AckAt = x.At
	if x.Status == 404 {
		v.State, v.EndWhy = "notfound", "not found"
		return
	}
	if x.Status != 200 {
		fail("PLAY answered %d", x.Status)
		return
	}
	v.State = "joined"
	tear := o.p("tear", 0)
	ka := o.p("ka", 0)
	next := w.now() + time.Duration(ka)*time.Millisecond
	for !c.Done && !w.stop && !v.Quit {
		if tear > 0 && w.now() > v.AckAt+time.Duration(tear)*time.Millisecond {
			break
		}
		if ka > 0 && w.now() >= next {
			next = w.now() + time.Duration(1+r.Intn(int(2*ka)))*time.Millisecond
			var b []byte
			for n := 1 + r.Intn(1+int(o.p("pipe", 0))); n > 0; n-- {
				switch r.Intn(6) {
				case 0:
					b = append(b, c.request("OPTIONS", url, "", nil)...)
				case 1:
					b = append(b, c.request("GET_PARAMETER", url, "", nil)...)
				case 2:
					b = append(b, c.request("GET_PARAMETER", url, "Content-Type: text/parameters\r\n", []byte("position\r\n"))...)
				case 3:
					b = append(b, c.request("PLAY", url, "", nil)...)
				case 4:
					b = append(b, c.request("SET_PARAMETER", url, "", nil)...)
				case 5:
					if o.p("rtcp", 0) != 0 { // receiver reports
						for _, t := range rp.Tr {
							if t.Ch >= 0 {
								b = append(b, rtcpFrame(r, t.Ch+1)...)
								w.s.Faults["rtcp"]++
							}
						}
					} else {
						b = append(b, c.request("DESCRIBE", url, "", nil)...)
					}
				}
			}
			if len(b) > 0 {
				if _, err := c.c.Write(b); err != nil {
					break
				}
			}
		}
		simrt.Sleep(10 * time.Millisecond)
	}
	if tear > 0 && !c.Done && !v.Quit && !w.stop {
		rp.TearAt = w.now()
		v.Quit = true
		v.EndAt = w.now()
		w.s.Arm()
		v.EndWhy = "teardown"
		rp.GoneAt = w.now()
		x, err := c.do("TEARDOWN", url, "", nil)
		if c.Mid && x == nil || err != nil && !errors.Is(err, io.EOF) {
			return
		}
		if x == nil || x.Status != 200 {
			v.Bad = fmt.Sprintf("TEARDOWN answered %v %v", x, err)
			return
		}
		rp.GoneAt = w.now()
		rp.OutAt = rp.GoneAt
		if !w.waitUntil(20*time.Second, func() bool { return c.Done }) {
			v.Bad = "the connection stayed open after TEARDOWN"
		}
		return
	}
	if c.Done && !v.Quit && !w.stop {
		w.endView(v, c.Err, c.Mid)
	}
}

func rtcpFrame(r *simrt.Rand, ch int) []byte {
	b := make([]byte, 32)
	r.Read(b)
	b[0], b[1], b[2], b[3] = 0x81, 201, 0, 7
	if r.Bool(0.5) { // what a text parser would take for line ends
		b[9], b[17] = '\r', '\n'
	}
	return append([]byte{'$', byte(ch), 0, 32}, b...)
}

func (rp *rtspPlay) packet(w *World, v *Viewer, t *rtspTrack, b []byte) {
	p, bad := parseRTP(b)
	if bad != "" {
		v.Bad = bad
		return
	}
	p.At = w.now()
	p.Ord = rp.ord
	rp.ord++
	t.Pkts = append(t.Pkts, p)
	if rp.OutAt > 0 {
		rp.Late = p.At
	}
}

func (rp *rtspPlay) udpLoop(w *World, v *Viewer, t *rtspTrack) {
	b := make([]byte, 65536)
	for {
		n, from, err := t.UDP[0].ReadFromUDP(b)
		if err != nil {
			return
		}
		if v.Bad != "" {
			continue
		}
		if from.IP.String() != "10.0.0.1" || t.SrvPort != 0 && from.Port != t.SrvPort {
			v.Bad = fmt.Sprintf("%s RTP from %v, SETUP named server port %d", t.Kind, from, t.SrvPort)
			continue
		}
		rp.packet(w, v, t, append([]byte(nil), b[:n]...))
	}
}

// ---- depacketising ----------------------------------------------------------------------

type rtspAU struct {
	T     byte
	Ts    uint32
	Nals  [][]byte
	At    time.Duration
	Ord   int
	Fresh bool // the packet before it was received
}

// order sorts a track's packets by sequence number.
func (t *rtspTrack) order(lossy bool) string {
	if len(t.Pkts) == 0 {
		return ""
	}
	hi := 0
	for i, p := range t.Pkts {
		if p.PT != t.Pkts[0].PT || p.SSRC != t.Pkts[0].SSRC {
			return fmt.Sprintf("payload type and SSRC change from %d/%08x to %d/%08x", t.Pkts[0].PT, t.Pkts[0].SSRC, p.PT, p.SSRC)
		}
		if i > 0 {
			d := int(int16(p.Seq - t.Pkts[i-1].Seq))
			p.Ext = t.Pkts[i-1].Ext + d
			if !lossy && d != 1 {
				return fmt.Sprintf("sequence number %d follows %d", p.Seq, t.Pkts[i-1].Seq)
			}
		}
		if p.Ext > hi {
			hi = p.Ext
		}
	}
	if lossy {
		sort.SliceStable(t.Pkts, func(i, j int) bool { return t.Pkts[i].Ext < t.Pkts[j].Ext })
		var l []*rtpPkt
		for _, p := range t.Pkts {
			if n := len(l); n > 0 && l[n-1].Ext == p.Ext {
				if !bytes.Equal(l[n-1].P, p.P) || l[n-1].Ts != p.Ts || l[n-1].M != p.M {
					return fmt.Sprintf("two different packets with sequence number %d", p.Seq)
				}
				continue
			}
			l = append(l, p)
		}
		t.Pkts = l
	}
	return ""
}

// units depacketises a track.
func (t *rtspTrack) units(lossy bool) (out []rtspAU, pre [][]byte, bad string) {
	hevc := t.SDP.Codec == "H265"
	if t.Kind == "audio" {
		for i, p := range t.Pkts {
			b := p.P
			if t.SDP.Codec == "opus" { // a packet is one frame
				out = append(out, rtspAU{8, p.Ts, [][]byte{b}, p.At, p.Ord, i == 0 || t.Pkts[i-1].Ext+1 == p.Ext})
				continue
			}
			if len(b) < 4 {
				return nil, nil, "AU header section missing: " + hexs(b, 16)
			}
			n := int(binary.BigEndian.Uint16(b))
			if n == 0 || n%16 != 0 || len(b) < 2+n/8 {
				return nil, nil, fmt.Sprintf("AU-headers-length %d", n)
			}
			if !p.M {
				return nil, nil, "audio packet without the marker bit"
			}
			h, body := b[2:2+n/8], b[2+n/8:]
			for k := 0; k < len(h); k += 2 {
				x := int(binary.BigEndian.Uint16(h[k:]))
				if x&7 != 0 || x>>3 > len(body) {
					return nil, nil, fmt.Sprintf("AU header %04x with %d bytes left", x, len(body))
				}
				out = append(out, rtspAU{8, p.Ts, [][]byte{body[:x>>3]}, p.At, p.Ord, i == 0 || t.Pkts[i-1].Ext+1 == p.Ext})
				body = body[x>>3:]
			}
			if len(body) > 0 {
				return nil, nil, fmt.Sprintf("%d bytes behind the last AU", len(body))
			}
		}
		return
	}
	var cur [][]byte
	var fu []byte
	var ts uint32
	inFU, open, broken := false, false, lossy // what came first may be lost
	isPS := func(n []byte) bool {
		if hevc {
			return n[0]>>1 >= 32 && n[0]>>1 <= 34
		}
		return n[0]&31 == 7 || n[0]&31 == 8
	}
	for i, p := range t.Pkts {
		if i > 0 && t.Pkts[i-1].Ext+1 != p.Ext { // packets are missing
			cur, inFU, open, broken = nil, false, false, true
		}
		if broken {
			if p.M {
				broken = false
			}
			continue
		}
		if open && p.Ts != ts {
			if inFU {
				return nil, nil, fmt.Sprintf("a fragmented NAL unit of timestamp %d goes on with timestamp %d", ts, p.Ts)
			}
			for _, n := range cur {
				if !isPS(n) {
					return nil, nil, fmt.Sprintf("the access unit of timestamp %d has no packet with the marker", ts)
				}
			}
			pre = append(pre, cur...)
			cur = nil
		}
		ts, open = p.Ts, true
		b := p.P
		var typ int
		min := 1
		if hevc {
			typ, min = int(b[0]>>1&63), 2
		} else {
			typ = int(b[0] & 31)
		}
		if len(b) < min {
			return nil, nil, "NAL unit too short"
		}
		fuT, agg := 28, 24
		if hevc {
			fuT, agg = 49, 48
		}
		if inFU && typ != fuT {
			return nil, nil, fmt.Sprintf("packet %d of type %d inside a fragmented NAL unit", p.Seq, typ)
		}
		switch {
		case typ == fuT:
			if len(b) < min+2 {
				return nil, nil, "fragment without payload"
			}
			h := b[min]
			s, e := h&0x80 != 0, h&0x40 != 0
			var nh []byte
			if hevc {
				nh = []byte{b[0]&0x81 | h&63<<1, b[1]}
			} else {
				nh = []byte{b[0]&0xe0 | h&31}
				if h&0x20 != 0 {
					return nil, nil, "reserved bit set in a fragment header"
				}
			}
			if s == inFU || s && e {
				return nil, nil, fmt.Sprintf("fragment %d start=%v end=%v while inside=%v", p.Seq, s, e, inFU)
			}
			if s {
				fu = append([]byte(nil), nh...)
			} else if !bytes.Equal(fu[:min], nh) {
				return nil, nil, fmt.Sprintf("fragment header changes from %x to %x", fu[:min], nh)
			}
			fu = append(fu, b[min+1:]...)
			inFU = !e
			if e {
				cur = append(cur, fu)
				fu = nil
			}
		case typ == agg:
			x := b[min:]
			for len(x) > 2 {
				n := int(binary.BigEndian.Uint16(x))
				if n == 0 || n > len(x)-2 {
					return nil, nil, "bad aggregation packet"
				}
				cur = append(cur, x[2:2+n])
				x = x[2+n:]
			}
		case typ > agg && (!hevc || typ > 50) || !hevc && typ == 0:
			return nil, nil, fmt.Sprintf("packet %d has payload structure %d", p.Seq, typ)
		default:
			cur = append(cur, b)
		}
		if p.M {
			if inFU {
				return nil, nil, fmt.Sprintf("marker on packet %d, which does not end its NAL unit", p.Seq)
			}
			out = append(out, rtspAU{9, p.Ts, cur, p.At, p.Ord, true})
			cur, open = nil, false
		}
	}
	return
}

// rtspRecv turns what an RTSP player got into received frames and checks
// everything that is particular to RTSP.
func (w *World) rtspRecv(v *Viewer) bool {
	rp := v.RTSP
	if rp == nil {
		return true
	}
	bad := func(kind, f string, a ...any) bool {
		w.fail(kind, "%v: %s", v, fmt.Sprintf(f, a...))
		return false
	}
	if rp.C.Bad != "" {
		return bad("rtsp-framing", "%s", rp.C.Bad)
	}
	if v.Bad != "" {
		return bad("rtsp-malformed", "%s", v.Bad)
	}
	for _, r := range rp.C.got {
		want := 200
		switch r.Req.Method {
		case "SET_PARAMETER":
			continue
		case "SETUP":
			if strings.HasSuffix(r.Req.URL, noTrack) {
				want = 404
			}
		case "DESCRIBE", "PLAY": // the stream may not (or no longer) be there
			if r.Status == 404 || r.Status == 503 {
				want = r.Status
			}
		}
		if r.Status != want {
			return bad("rtsp-reply", "%s answered %d", r.Req.Method, r.Status)
		}
	}
	d := w.procBound()
	if rp.Late > 0 && rp.Late > rp.OutAt+d+time.Second {
		return bad("rtsp-after-teardown", "a packet arrived at %v, the player left at %v", rp.Late, rp.OutAt)
	}
	if rp.SDP != nil {
		if why := w.checkSDP(v); why != "" {
			return bad("rtsp-sdp", "%s (asked %v, answered %v): %q", why, rp.SDPReq, rp.SDPAt, rp.SDP)
		}
	}
	udp := false
	for _, t := range rp.Tr {
		udp = udp || t.Ch < 0
	}
	// A PLAY that arrives when the stream has ended may play the end again.
	again := func(p *Session) bool {
		n := 0
		for i, q := range rp.C.sent {
			if q.Method == "PLAY" {
				if n++; n > 1 && p.EndAt > 0 && (i >= len(rp.C.got) || rp.C.got[i].At >= p.EndAt) {
					return true
				}
			}
		}
		return false
	}
	plays := 0
	for _, q := range rp.C.sent {
		if q.Method == "PLAY" {
			plays++
		}
	}
	var all []RTag
	tail := map[byte]int{} // the last unit received of each track
	for _, t := range rp.Tr {
		if why := t.order(t.Ch < 0 && v.Lossy); why != "" {
			return bad("rtsp-seq", "%s track: %s", t.Kind, why)
		}
		if len(t.Pkts) > 0 && int(t.Pkts[0].PT) != t.SDP.PT {
			return bad("rtsp-pt", "%s track has payload type %d, the SDP says %d", t.Kind, t.Pkts[0].PT, t.SDP.PT)
		}
		for _, u := range rp.Tr {
			if u != t && len(u.Pkts) > 0 && len(t.Pkts) > 0 && u.Pkts[0].SSRC == t.Pkts[0].SSRC {
				return bad("rtsp-ssrc", "both tracks have SSRC %08x", u.Pkts[0].SSRC)
			}
		}
		us, pre, why := t.units(t.Ch < 0 && v.Lossy)
		if why != "" {
			return bad("rtsp-payload", "%s track: %s", t.Kind, why)
		}
		hevc := t.SDP.Codec == "H265"
		for _, n := range pre {
			if !w.publishedPS(v, n) {
				return bad("rtsp-payload", "parameter set %s was never published for it", hexs(n, 40))
			}
		}
		var off int64
		var sess *Session
		fresh := false
		var prev *Tag
		var ext int64
		for i, u := range us {
			var p *Session
			var tg *Tag
			if u.T == 8 {
				p, tg = w.byUID(u.Nals[0])
			} else {
				p, tg = w.byNals(u.Nals, hevc)
			}
			if tg == nil {
				return bad("rtsp-invented", "access unit %d (%s, ts %d, %d NAL units, %s) was never published", i, t.Kind, u.Ts, len(u.Nals), hexs(u.Nals[0], 40))
			}
			if sess != nil && p != sess && again(sess) {
				break // it plays the next stream of that name
			}
			if sess != p {
				fresh = true
			}
			sess = p
			ns := u.Nals
			if (i == 0 || plays > 1) && u.T == 9 {
				for len(ns) > len(tg.Nals) && w.publishedPS(v, ns[0]) {
					ns = ns[1:]
				}
			}
			if p.Proto == "srt" && u.T == 9 {
				ns = noAUD(ns)
			}
			hs := ns
			if i == 0 && u.T == 9 {
				for len(hs) > 1 && w.publishedPS(v, hs[0]) {
					hs = hs[1:]
				}
			}
			if p.headLost(tg, ns) || p.headLost(tg, hs) {
				continue
			}
			if len(ns) != len(tg.Nals) {
				return bad("rtsp-body", "%v arrived with %d NAL units, published %d", tg, len(ns), len(tg.Nals))
			}
			for k := range ns {
				if !bytes.Equal(ns[k], tg.Nals[k]) {
					return bad("rtsp-body", "%v: unit %d differs: got %d bytes %s, published %d bytes %s", tg, k, len(ns[k]), hexs(ns[k], 40), len(tg.Nals[k]), hexs(tg.Nals[k], 40))
				}
			}
			if u.T == 9 {
				want := uint32(int64(tg.Ts)+int64(tg.Cts)) * 90
				if p.Proto != "rtmp" { // its clock starts anywhere
					if fresh {
						off = int64(int32(u.Ts - want))
						fresh = false
					}
					if dev := int32(u.Ts - want - uint32(off)); dev >= -180 && dev <= 180 {
						want = u.Ts
					}
				}
				if u.Ts != want {
					return bad("rtsp-timestamp", "%v (cts %d) has RTP timestamp %d, want %d (offset %d)", tg, tg.Cts, u.Ts, want, off)
				}
			} else {
				// the published clock goes on past 2^32 ms
				if prev == nil {
					ext = int64(tg.Ts)
				} else {
					ext += int64(int32(tg.Ts - prev.Ts))
				}
				prev = tg
				clk := int64(t.SDP.Clock)
				if fresh && p.Proto != "rtmp" {
					off = int64(int32(u.Ts - uint32(ext*clk/1000)))
					fresh = false
				}
				lim := clk/1000 + 1
				if p.Proto != "rtmp" {
					lim *= 2
				}
				dev := int64(int32(u.Ts - uint32(ext*clk/1000) - uint32(off)))
				if i == 0 && p != nil && (dev < -lim || dev > lim) {
					off = int64(1<<32) * clk / 1000 // joined after the wrap
					dev = int64(int32(u.Ts - uint32(ext*clk/1000) - uint32(off)))
				}
				if dev < -lim || dev > lim {
					return bad("rtsp-timestamp", "%v has RTP timestamp %d, want %d (clock %d)", tg, u.Ts, uint32(ext*clk/1000)+uint32(off), clk)
				}
			}
			if tg.Pos > tail[u.T] {
				tail[u.T] = tg.Pos
			}
			all = append(all, RTag{T: u.T, Ts: u.Ts, At: u.At, F: tg, P: p, Ord: u.Ord})
		}
	}
	if udp { // each track has its own path
		sort.SliceStable(all, func(i, j int) bool {
			a, b := all[i], all[j]
			if a.P != b.P {
				return a.P.ID < b.P.ID
			}
			return a.F.Pos < b.F.Pos
		})
		if rp.GoneAt > 0 { // the tracks' ends may differ
			v.Excuse = func(t *Tag) bool {
				if t.isVideo() {
					return t.Pos > tail[9]
				}
				return t.Pos > tail[8]
			}
		}
	} else {
		sort.SliceStable(all, func(i, j int) bool { return all[i].Ord < all[j].Ord })
	}
	var one *Session
	for _, x := range all {
		if x.P != nil && (one == nil || x.P.ID < one.ID) {
			one = x.P
		}
	}
	if one != nil && again(one) {
		var l []RTag
		for _, x := range all {
			if x.P == one {
				l = append(l, x)
			}
		}
		all = l
	}
	last := map[byte]RTag{}
	for i := 0; i < len(all); i++ {
		b := all[i]
		if a, ok := last[b.T]; ok && a.P == b.P && a.P != nil && b.F.Pos <= a.F.Pos && again(a.P) {
			if !udp {
				all = all[:i]
				break
			}
			all = append(all[:i], all[i+1:]...)
			i--
			continue
		}
		last[b.T] = b
	}
	v.Recv = all
	var wantV, wantA bool
	for _, t := range rp.Tr {
		wantV = wantV || t.Kind == "video"
		wantA = wantA || t.Kind == "audio"
	}
	v.Want = func(t *Tag) bool { return t.isVideo() && wantV || t.Kind == kAudio && wantA }
	v.NoVideo = !wantV
	return true
}

// publishedPS says whether n is a parameter set of a decoder configuration
// published for the stream.
func (w *World) publishedPS(v *Viewer, n []byte) bool {
	for _, p := range w.pubs {
		if p.App != v.App || p.Nm != v.Nm || p.State == "refused" {
			continue
		}
		for _, t := range p.Pub {
			if t.Kind == kVHdr {
				ps, _ := paramSets(t.B)
				for _, x := range ps {
					if bytes.Equal(x, n) {
						return true
					}
				}
			}
		}
	}
	return false
}

// checkSDP compares the description with the configuration in force.
func (w *World) checkSDP(v *Viewer) string {
	rp := v.RTSP
	tr, _ := parseSDP(rp.SDP)
	d := w.procBound()
	if w.srtIn != nil && w.plan.stalls() {
		d += time.Minute
	}
	// candidates: configurations that may have been in force
	var vs, as []*Tag
	var ps []*Session
	noA := true
	for _, p := range w.pubs {
		if p.App != v.App || p.Nm != v.Nm || p.State == "refused" || p.State == "error" && p.Proto != "rtsp" || p.ReqAt > rp.SDPAt || p.EndAt > 0 && p.endsBy()+d+w.diskLag() < rp.SDPReq {
			continue
		}
		ps = append(ps, p)
		for _, kind := range []int{kVHdr, kAHdr} {
			var l []*Tag
			for _, t := range p.Pub {
				if t.Kind != kind || t.SentAt == 0 || t.SentAt > rp.SDPAt {
					continue
				}
				if t.Sent && t.due()+d < rp.SDPReq {
					l = nil
					if kind == kAHdr {
						noA = false
					}
				}
				l = append(l, t)
			}
			if kind == kVHdr {
				vs = append(vs, l...)
			} else {
				as = append(as, l...)
			}
		}
	}
	var sv, sa *sdpTrack
	for _, t := range tr {
		switch t.Kind {
		case "video":
			sv = t
		case "audio":
			sa = t
		}
	}
	if sv == nil {
		return "no video track"
	}
	if sv.Control == "" || sa != nil && sa.Control == "" {
		return "track without control attribute"
	}
	if sa != nil && sa.PT == sv.PT {
		return "both tracks have the same payload type"
	}
	ok := false
	for _, t := range vs {
		sets, hevc := paramSets(t.B)
		var want, got []string
		for _, n := range sets {
			want = append(want, base64.StdEncoding.EncodeToString(n))
		}
		if hevc {
			if sv.Codec != "H265" || sv.Clock != 90000 {
				continue
			}
			got = []string{sv.Fmtp["sprop-vps"], sv.Fmtp["sprop-sps"], sv.Fmtp["sprop-pps"]}
		} else {
			if sv.Codec != "H264" || sv.Clock != 90000 || sv.Fmtp["packetization-mode"] != "1" {
				continue
			}
			if !strings.EqualFold(sv.Fmtp["profile-level-id"], fmt.Sprintf("%02x%02x%02x", sets[0][1], sets[0][2], sets[0][3])) {
				continue
			}
			got = strings.Split(sv.Fmtp["sprop-parameter-sets"], ",")
		}
		if strings.Join(got, ",") == strings.Join(want, ",") {
			ok = true
		}
	}
	if !ok {
		return fmt.Sprintf("the video description matches none of the %d decoder configurations that may have been in force", len(vs))
	}
	if sa == nil {
		if !noA && len(ps) == 1 {
			return "no audio track although its configuration had been published"
		}
		return ""
	}
	for _, t := range as {
		if t.B[0]>>4 == 13 {
			if sa.Codec == "opus" && sa.Clock == 48000 && sa.Chans == 2 { // RFC 7587: whatever the stream has
				return ""
			}
			continue
		}
		if sa.Codec == "mpeg4-generic" && sa.Fmtp["mode"] == "AAC-hbr" && strings.EqualFold(sa.Fmtp["config"], hex.EncodeToString(t.B[2:])) &&
			sa.Fmtp["sizelength"] == "13" && sa.Fmtp["indexlength"] == "3" && sa.Fmtp["indexdeltalength"] == "3" {
			return ""
		}
	}
	return fmt.Sprintf("the audio description matches none of the %d configurations that may have been in force", len(as))
}
