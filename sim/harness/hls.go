package main

import (
	"bytes"
	"fmt"
	"math"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/simrt"
)

// ---- playlists ----------------------------------------------------------------------

type m3Part struct {
	Dur      float64
	URI      string
	Off, Len int64
	Indep    bool
}

type m3Seg struct {
	Seq   int
	Name  string
	Dur   float64
	Parts []m3Part
}

type m3u8 struct {
	Version, Target, Seq int
	Segs                 []m3Seg
	PartTarget           float64
	Block                bool
	HoldBack             float64
	Tail                 []m3Part // parts of the segment in progress
	HintURI              string
	HintOff              int64
	End                  bool
}

func (m *m3u8) last() int { return m.Seq + len(m.Segs) - 1 }

func attrs(s string) (map[string]string, error) {
	out := map[string]string{}
	for s != "" {
		i := strings.IndexByte(s, '=')
		if i <= 0 {
			return nil, fmt.Errorf("bad attribute list %q", s)
		}
		k := s[:i]
		s = s[i+1:]
		if strings.HasPrefix(s, "\"") {
			j := strings.IndexByte(s[1:], '"')
			if j < 0 {
				return nil, fmt.Errorf("unclosed quote in %q", s)
			}
			out[k] = s[1 : 1+j]
			s = s[j+2:]
		} else {
			j := strings.IndexByte(s, ',')
			if j < 0 {
				j = len(s)
			}
			out[k] = s[:j]
			s = s[j:]
		}
		if s != "" {
			if s[0] != ',' {
				return nil, fmt.Errorf("bad attribute list near %q", s)
			}
			s = s[1:]
			if s == "" {
				return nil, fmt.Errorf("attribute list ends with a comma")
			}
		}
	}
	return out, nil
}

// parseM3U8 reads a media playlist (RFC 8216, and the LL-HLS additions).
func parseM3U8(b []byte) (*m3u8, error) {
	m := &m3u8{Version: 1, Target: -1, Seq: 0}
	ls := strings.Split(string(b), "\n")
	if len(ls) < 2 || strings.TrimRight(ls[0], "\r") != "#EXTM3U" {
		return m, fmt.Errorf("does not start with #EXTM3U")
	}
	if ls[len(ls)-1] != "" {
		return m, fmt.Errorf("last line is not terminated")
	}
	var inf float64 = -1
	var parts []m3Part
	sawSeq := false
	for _, l := range ls[1:] {
		l = strings.TrimRight(l, "\r")
		tag, val, _ := strings.Cut(l, ":")
		var err error
		switch {
		case l == "":
		case tag == "#EXT-X-VERSION":
			m.Version, err = strconv.Atoi(val)
		case tag == "#EXT-X-TARGETDURATION":
			if m.Target >= 0 {
				err = fmt.Errorf("twice")
			} else {
				m.Target, err = strconv.Atoi(val)
			}
		case tag == "#EXT-X-MEDIA-SEQUENCE":
			if sawSeq || len(m.Segs) > 0 {
				err = fmt.Errorf("twice or after a segment")
			} else {
				m.Seq, err = strconv.Atoi(val)
				sawSeq = true
			}
		case tag == "#EXTINF":
			d, _, ok := strings.Cut(val, ",")
			if !ok || inf >= 0 {
				err = fmt.Errorf("malformed")
			} else if inf, err = strconv.ParseFloat(d, 64); err == nil && !(inf >= 0) {
				err = fmt.Errorf("negative duration")
			}
		case tag == "#EXT-X-ENDLIST":
			m.End = true
		case tag == "#EXT-X-PART-INF":
			var a map[string]string
			if a, err = attrs(val); err == nil {
				m.PartTarget, err = strconv.ParseFloat(a["PART-TARGET"], 64)
			}
		case tag == "#EXT-X-SERVER-CONTROL":
			var a map[string]string
			if a, err = attrs(val); err == nil {
				m.Block = a["CAN-BLOCK-RELOAD"] == "YES"
				if a["PART-HOLD-BACK"] != "" {
					m.HoldBack, err = strconv.ParseFloat(a["PART-HOLD-BACK"], 64)
				}
			}
		case tag == "#EXT-X-PART":
			var a map[string]string
			if a, err = attrs(val); err == nil {
				p := m3Part{URI: a["URI"], Indep: a["INDEPENDENT"] == "YES"}
				if p.Dur, err = strconv.ParseFloat(a["DURATION"], 64); err == nil {
					if n, _ := fmt.Sscanf(a["BYTERANGE"], "%d@%d", &p.Len, &p.Off); n != 2 || p.Len <= 0 || p.Off < 0 {
						err = fmt.Errorf("bad BYTERANGE")
					}
				}
				if err == nil && (p.URI == "" || !(p.Dur >= 0)) {
					err = fmt.Errorf("bad part")
				}
				parts = append(parts, p)
			}
		case tag == "#EXT-X-PRELOAD-HINT":
			var a map[string]string
			if a, err = attrs(val); err == nil {
				if a["TYPE"] != "PART" || a["URI"] == "" || m.HintURI != "" {
					err = fmt.Errorf("bad hint")
				}
				m.HintURI = a["URI"]
				if s := a["BYTERANGE-START"]; s != "" {
					m.HintOff, err = strconv.ParseInt(s, 10, 64)
				}
			}
		case strings.HasPrefix(l, "#"):
		default:
			if inf < 0 {
				err = fmt.Errorf("segment without EXTINF")
				break
			}
			m.Segs = append(m.Segs, m3Seg{Seq: m.Seq + len(m.Segs), Name: l, Dur: inf, Parts: parts})
			inf, parts = -1, nil
		}
		if err != nil {
			return m, fmt.Errorf("line %q: %v", l, err)
		}
	}
	if inf >= 0 {
		return m, fmt.Errorf("EXTINF without a segment")
	}
	m.Tail = parts
	if m.Target < 0 {
		return m, fmt.Errorf("no EXT-X-TARGETDURATION")
	}
	return m, nil
}

// ---- players --------------------------------------------------------------------------

type hlsPoll struct {
	T0, T1 time.Duration
	Who    int64
	Status int
	Err    string
	M      *m3u8
}

type hlsGot struct {
	Seq    int
	Name   string
	T0     time.Duration
	Data   []byte
	Sess   *Session
	parsed *segInfo
}

// hlsObs is all that was ever served for one stream name.
type hlsObs struct {
	App, Nm string
	Sess    *Session // if set: only what is seen before its end counts
	Polls   []*hlsPoll
	Got     []*hlsGot // each distinct (name, content), in order of fetching
	Fetches int
	Missing []string
}

func (w *World) hlsOf(app, nm string) *hlsObs {
	k := app + "/" + nm
	if w.hls == nil {
		w.hls = map[string]*hlsObs{}
	}
	o := w.hls[k]
	if o == nil {
		o = &hlsObs{App: app, Nm: nm}
		w.hls[k] = o
		w.hlsKeys = append(w.hlsKeys, k)
	}
	return o
}

// over says whether what is served now no longer counts.
func (w *World) over(p *Session) bool { return w.stop || p != nil && p.EndAt > 0 }

// ending reports whether nobody publishes the stream (any more): what the
// server says about it is about to change.
func (w *World) ending(app, nm string) bool {
	for _, p := range w.pubs {
		if p.App == app && p.Nm == nm && p.State == "accepted" && p.EndAt == 0 {
			return false
		}
	}
	return true
}

// query is what a client may append to its URL.
func (w *World) query(kind int, n uint64) string {
	switch h := simrt.Hash(w.plan.Seed, 81, uint64(kind), n); h % 10 {
	case 0:
		return "?token=a%2Fb%3F..%2F&x=.flv"
	case 1:
		return "?"
	case 2: // not in low-latency mode
		if kind == 1 {
			return fmt.Sprintf("?_HLS_msn=%d&_HLS_part=%d", h>>8%20, h>>16%3)
		}
	}
	return ""
}

// poll fetches and records the playlist once.
func (w *World) poll(h *hlsObs, node *simrt.Node, who int64, d time.Duration) *hlsPoll {
	p := &hlsPoll{T0: w.now(), Who: who}
	r, b, err := w.httpGet(node, portHLS, "/"+h.App+"/"+url.PathEscape(h.Nm)+"/index.m3u8"+w.query(1, uint64(p.T0)), "", d)
	p.T1 = w.now()
	if h.Sess != nil && w.over(h.Sess) {
		return p
	}
	if err != nil {
		p.Err = err.Error()
	} else {
		p.Status = r.Status
		if r.Status == 200 {
			m, err := parseM3U8(b)
			if err != nil {
				w.fail("hls-playlist", "the playlist of %s/%s served at %v is malformed: %v\n%s", h.App, h.Nm, p.T1, err, b)
			}
			p.M = m
			if w.onHLS != nil {
				w.onHLS(h, p)
			}
			if ct := r.Hdr["content-type"]; ct != "application/vnd.apple.mpegurl" {
				w.fail("hls-type", "the playlist is served as %q", ct)
			}
		}
	}
	h.Polls = append(h.Polls, p)
	return p
}

// resolve resolves a reference found in a playlist or manifest.
func resolve(base, ref string) (string, error) {
	b, err := url.Parse(base)
	if err != nil {
		return "", err
	}
	u, err := b.Parse(ref)
	if err != nil {
		return "", err
	}
	if u.Host != "" || u.Scheme != "" {
		return "", fmt.Errorf("refers to %v", u)
	}
	return u.RequestURI(), nil
}

// fetch gets one listed segment.
func (w *World) fetch(h *hlsObs, node *simrt.Node, who int64, s m3Seg, slow int) bool {
	t0 := w.now()
	h.Fetches++
	ref, err := resolve("/"+h.App+"/"+url.PathEscape(h.Nm)+"/index.m3u8", s.Name)
	if err != nil {
		w.fail("hls-playlist", "the playlist of %s/%q lists %q: %v", h.App, h.Nm, s.Name, err)
		return false
	}
	r, b, err := w.httpGetSlow(node, portHLS, ref, "", 600*time.Second, slow)
	if h.Sess != nil && w.over(h.Sess) {
		return false
	}
	if err != nil {
		if !w.stop {
			w.fail("hls-fetch", "fetching %s of %s/%s, listed in the playlist, failed: %v (got %d bytes)", s.Name, h.App, h.Nm, err, len(b))
		}
		return false
	}
	if r.Status != 200 {
		return false
	}
	w.ok("segments")
	for _, g := range h.Got {
		if g.Name == s.Name && bytes.Equal(g.Data, b) {
			return true
		}
	}
	h.Got = append(h.Got, &hlsGot{Seq: s.Seq, Name: s.Name, T0: t0, Data: b})
	return true
}

// runHLS is a player: it polls the playlist and fetches what is listed.
func (w *World) runHLS(o *Op, app, nm string) {
	w.playHLS(o, w.hlsOf(app, nm))
}

func (w *World) playHLS(o *Op, h *hlsObs) {
	app, nm := h.App, h.Nm
	node := w.client(o.I)
	r := w.rng(31, uint64(o.I))
	w.actor(node, fmt.Sprintf("hls%d", o.I), o.T, func() {
		done := map[string]bool{}
		every := time.Duration(o.p("every", 400)) * time.Millisecond
		end := o.p("quit", 0)
		for !w.over(h.Sess) && (end == 0 || w.now() < time.Duration(o.T+end)*time.Microsecond) {
			p := w.poll(h, node, o.I, 30*time.Second)
			if p.M != nil {
				for _, s := range p.M.Segs {
					key := s.Name
					if done[key] && !r.Bool(0.1) {
						continue
					}
					if o.p("skip", 0) > 0 && r.Intn(100) < int(o.p("skip", 0)) {
						continue
					}
					if w.over(h.Sess) {
						break
					}
					if w.fetch(h, node, o.I, s, int(o.p("slow", 0))) {
						done[key] = true
						continue
					}
					q := w.poll(h, node, o.I, 30*time.Second)
					if q.M != nil && !w.over(h.Sess) && !w.ending(app, nm) {
						for _, x := range q.M.Segs {
							if x.Name == s.Name && x.Seq == s.Seq {
								w.fail("hls-listed-missing", "segment %s of %s/%s is listed (at %v and still at %v) but cannot be fetched", s.Name, app, nm, p.T1, q.T1)
							}
						}
					}
				}
			}
			for left := every/2 + time.Duration(r.Intn(int(every))); left > 0 && !w.over(h.Sess); left -= 50 * time.Millisecond {
				w.sleep(min(left, 50*time.Millisecond))
			}
		}
	})
}

// ---- checks ---------------------------------------------------------------------------

type vidAU struct {
	Tag *Tag
	pes *tsPES
}

type segInfo struct {
	f    *tsFile
	sess *Session
	V, A []vidAU
}

const mask33 = 1<<33 - 1

// readSegment validates one segment's bytes against everything published.
func (w *World) readSegment(kind string, g *hlsGot) *segInfo {
	if g.parsed != nil {
		return g.parsed
	}
	si := &segInfo{}
	g.parsed = si
	bad := func(f string, a ...any) *segInfo {
		w.fail(kind, "segment %s (%d bytes): %s", g.Name, len(g.Data), fmt.Sprintf(f, a...))
		return nil
	}
	f, err := parseTS(g.Data, nil, true)
	if err != nil {
		return bad("%v", err)
	}
	si.f = f
	for i, s := range f.PES {
		if i == 0 && (s.Type != 0x1b && s.Type != 0x24 || !s.RAI) {
			return bad("starts with PID %#x type %#x (random access %v), not with a key frame", s.PID, s.Type, s.RAI)
		}
		switch s.Type {
		case 0x1b, 0x24:
			hevc := s.Type == 0x24
			ns, err := splitAnnexB(s.Data)
			if err != nil {
				return bad("video PES %d: %v", i, err)
			}
			p, t := w.byNals(ns, hevc)
			if t == nil {
				return bad("video access unit %d (dts %d, %d bytes) is none that was published", i, s.DTS, len(s.Data))
			}
			if t.T != 9 || t.B[0]&15 == 12 != hevc {
				return bad("access unit %v is announced as stream type %#x", t, s.Type)
			}
			if si.sess == nil {
				si.sess = p
			}
			if si.sess != p {
				return bad("mixes frames of sessions %d and %d", si.sess.ID, p.ID)
			}
			if t.Pos < 0 {
				return bad("%v was never published", t)
			}
			if why := w.checkAU(p, t, ns, hevc); why != "" {
				return bad("%v: %s", t, why)
			}
			base, slack := p.tsBase(false, s.DTS-uint64(t.Ts)*90)
			if d := (uint64(t.Ts)*90 + base) & mask33; off33(s.DTS, d) > slack {
				return bad("%v has DTS %d, not %d", t, s.DTS, d)
			}
			if d := (uint64(int64(t.Ts)*90+int64(t.Cts)*90) + base) & mask33; off33(s.PTS, d) > 2*slack {
				return bad("%v (composition offset %d ms) has PTS %d, not %d", t, t.Cts, s.PTS, d)
			}
			if s.PCR && s.PID != f.PCRPID {
				return bad("PCR on PID %#x, the PMT says %#x", s.PID, f.PCRPID)
			}
			if s.PCR && s.Base != s.DTS && (s.DTS-s.Base)&mask33 > 90000*10 {
				return bad("%v: PCR %d, DTS %d", t, s.Base, s.DTS)
			}
			if t.Kind == kKey && !s.RAI {
				return bad("key frame %v is not marked as random access point", t)
			}
			if t.Kind != kKey && s.RAI {
				return bad("%v is marked as random access point", t)
			}
			if i == 0 && (t.Kind != kKey || !s.PCR) {
				return bad("starts with %v (PCR %v)", t, s.PCR)
			}
			si.V = append(si.V, vidAU{t, s})
			w.ok("video-units")
		case 0x0f:
			fs, err := splitADTS(s.Data)
			if err != nil {
				return bad("audio PES %d: %v", i, err)
			}
			for k, a := range fs {
				p, t := w.byUID(a.Raw)
				if t == nil || t.Kind != kAudio || !bytes.Equal(a.Raw, t.Nals[0]) {
					return bad("audio frame %d of PES %d (%s) is none that was published", k, i, hexs(a.Raw, 16))
				}
				if si.sess != p {
					return bad("mixes frames of sessions %d and %d", si.sess.ID, p.ID)
				}
				if t.Pos < 0 {
					return bad("%v was never published", t)
				}
				if k == 0 {
					base, slack := p.tsBase(true, s.PTS-uint64(t.Ts)*90)
					if d := off33(s.PTS, (uint64(t.Ts)*90+base)&mask33); d > 200+2*slack {
						return bad("%v has PTS %d, off by %d", t, s.PTS, d)
					}
				}
				if t.AH >= 0 {
					c := p.Pub[t.AH].B[2:]
					obj, rate, ch := int(c[0]>>3), int(c[0]&7)<<1|int(c[1]>>7), int(c[1]>>3&15)
					if a.Obj != obj || a.Rate != rate || a.Ch != ch {
						return bad("%v: ADTS header says object %d rate %d channels %d, the configuration in force %d %d %d", t, a.Obj, a.Rate, a.Ch, obj, rate, ch)
					}
				}
				si.A = append(si.A, vidAU{t, s})
				w.ok("audio-frames")
			}
		default:
			return bad("stream type %#x", s.Type)
		}
	}
	if len(si.V) == 0 {
		return bad("has no video")
	}
	g.Sess = si.sess
	return si
}

// tsBase is the 90 kHz time of a session's time 0, and how exact it is: the
// clocks of RTP and TS ingest may start anywhere.
func (p *Session) tsBase(audio bool, d uint64) (base, slack uint64) {
	switch p.Proto {
	case "rtsp":
		slack = 90
	case "srt":
		audio = false
		slack = 180
	default:
		return 0, 0
	}
	if p.hlsBase == nil {
		p.hlsBase = map[bool]uint64{}
	}
	if _, ok := p.hlsBase[audio]; !ok {
		p.hlsBase[audio] = d & mask33
	}
	return p.hlsBase[audio], slack
}

func off33(a, b uint64) uint64 {
	d := (a - b) & mask33
	if d > 1<<32 {
		d = 1<<33 - d
	}
	return d
}

// checkAU compares the NAL units of a delivered access unit with the
// published one.
func (w *World) checkAU(p *Session, t *Tag, ns [][]byte, hevc bool) string {
	isPS := func(n []byte) bool {
		if hevc {
			return n[0]>>1 >= 32 && n[0]>>1 <= 34
		}
		return n[0]&31 == 7 || n[0]&31 == 8
	}
	isAUD := func(n []byte) bool {
		if hevc {
			return n[0]>>1 == 35
		}
		return n[0]&31 == 9
	}
	split := func(ns [][]byte) (ps, rest [][]byte, late bool) {
		slice := false
		for _, n := range ns {
			switch {
			case len(n) == 0:
			case isAUD(n):
			case isPS(n):
				ps = append(ps, n)
				if slice {
					late = true
				}
			default:
				if hevc && n[0]>>1 < 32 || !hevc && n[0]&31 < 6 {
					slice = true
				}
				rest = append(rest, n)
			}
		}
		return
	}
	ps, rest, late := split(ns)
	wps, wrest, _ := split(t.Nals)
	if len(rest) != len(wrest) {
		return fmt.Sprintf("has %d NAL units besides parameter sets, %d were published", len(rest), len(wrest))
	}
	for i := range rest {
		if !bytes.Equal(rest[i], wrest[i]) {
			return fmt.Sprintf("NAL unit %d differs: %s, published %s", i, hexs(rest[i], 32), hexs(wrest[i], 32))
		}
	}
	if t.Kind != kKey {
		if len(ps) != len(wps) {
			return "has parameter sets in front of it"
		}
		return ""
	}
	if late {
		return "parameter sets come after the picture"
	}
	if len(wps) == 0 && t.VH >= 0 {
		wps, _ = paramSets(p.Pub[t.VH].B)
	}
	if len(ps) != len(wps) {
		return fmt.Sprintf("is preceded by %d parameter sets, %d are in force", len(ps), len(wps))
	}
	for i := range ps {
		if !bytes.Equal(ps[i], wps[i]) {
			return fmt.Sprintf("parameter set %d differs from the one in force: %s, not %s", i, hexs(ps[i], 64), hexs(wps[i], 64))
		}
	}
	return ""
}

type hlsOpts struct {
	Strict bool // paced and unharmed: no frame may be skipped, bounds hold
	First  bool // the first segment starts with the first key frame
	D      time.Duration

	Faulty bool            // disk faults were planned
	Lag    time.Duration   // how far a slow disk may hold the segmenter back
	Faults []time.Duration // when an operation on this stream's files failed
}

// between reports whether a disk fault can have cost what was published
// between two tags.
func (o *hlsOpts) between(a, b *Tag) bool {
	for _, f := range o.Faults {
		if f >= a.SentAt && f <= b.SentAt+o.D+2*time.Second+o.Lag {
			return true
		}
	}
	return false
}

// before is the time of the last fault that is not after at.
func (o *hlsOpts) before(at time.Duration) (l time.Duration) {
	l = -time.Hour
	for _, f := range o.Faults {
		if f <= at && f > l {
			l = f
		}
	}
	return
}

// checkHLS evaluates everything observed of one stream name that was
// published by a single session.
func (w *World) checkHLS(h *hlsObs, sess *Session, o hlsOpts) {
	polls := append([]*hlsPoll(nil), h.Polls...)
	sort.SliceStable(polls, func(i, j int) bool { return polls[i].T1 < polls[j].T1 })
	segs := map[int]m3Seg{}
	names := map[string]int{}
	for _, p := range polls {
		if p.Err != "" && p.T1 < w.StopAt {
			w.fail("hls-http", "polling the playlist of %s/%s at %v failed: %s", h.App, h.Nm, p.T0, p.Err)
			return
		}
		if p.M == nil {
			continue
		}
		w.ok("playlists")
		m := p.M
		if m.Seq < 0 || len(m.Segs) == 0 {
			w.fail("hls-playlist", "the playlist served at %v has %d segments and media sequence %d", p.T1, len(m.Segs), m.Seq)
			return
		}
		if m.End {
			w.fail("hls-playlist", "the live playlist served at %v claims to be complete", p.T1)
			return
		}
		for _, s := range m.Segs {
			if int(math.Floor(s.Dur+0.5)) > m.Target {
				w.fail("hls-target", "segment %s lasts %.3f s, the target duration is %d", s.Name, s.Dur, m.Target)
				return
			}
			if x, ok := segs[s.Seq]; ok && (x.Name != s.Name || x.Dur != s.Dur) {
				w.fail("hls-reuse", "media sequence number %d is %s (%.3f s) in one playlist and %s (%.3f s) in another", s.Seq, x.Name, x.Dur, s.Name, s.Dur)
				return
			}
			if q, ok := names[s.Name]; ok && q != s.Seq {
				w.fail("hls-reuse", "%s is listed as number %d and as %d", s.Name, q, s.Seq)
				return
			}
			segs[s.Seq] = s
			names[s.Name] = s.Seq
		}
		for _, q := range polls {
			if q.M == nil || q.T1 > p.T0 {
				if q.T1 > p.T0 {
					break
				}
				continue
			}
			if q.M.Seq > m.Seq || q.M.last() > m.last() {
				w.fail("hls-backwards", "a playlist served at %v covers segments %d..%d, a later one at %v only %d..%d", q.T1, q.M.Seq, q.M.last(), p.T1, m.Seq, m.last())
				return
			}
			if q.M.last()+1 < m.Seq && false {
				return
			}
		}
		// 404 after the first playlist while the stream lives
	}
	bySeq := map[int]*hlsGot{}
	for _, g := range h.Got {
		if x := bySeq[g.Seq]; x != nil {
			w.fail("hls-mutable", "segment %s was served with two different contents (%d and %d bytes)", g.Name, len(x.Data), len(g.Data))
			return
		}
		bySeq[g.Seq] = g
	}
	var seqs []int
	for s := range bySeq {
		seqs = append(seqs, s)
	}
	sort.Ints(seqs)
	var prev *segInfo
	prevSeq := -10
	for _, n := range seqs {
		g := bySeq[n]
		si := w.readSegment("hls-segment", g)
		if si == nil || len(w.viols) > 0 {
			return
		}
		if si.sess != sess {
			w.fail("hls-foreign", "segment %s of %s/%s carries frames of session %d (%s/%s)", g.Name, h.App, h.Nm, si.sess.ID, si.sess.App, si.sess.Nm)
			return
		}
		contig := prev != nil && n == prevSeq+1
		if !w.checkSeq("hls", sess, prev, si, contig, o, g.Name) {
			return
		}
		if prev == nil && n == 0 && o.First && o.Strict && (len(o.Faults) == 0 || o.Faults[0] > si.V[len(si.V)-1].Tag.SentAt+time.Second) {
			for _, t := range sess.Pub {
				if t.Kind == kKey {
					if si.V[0].Tag != t {
						w.fail("hls-first", "the first segment starts with %v, the first key frame is %v", si.V[0].Tag, t)
						return
					}
					break
				}
			}
		}
		// durations
		if contig && !o.between(prev.V[len(prev.V)-1].Tag, si.V[0].Tag) {
			a, b := prev.V[0].Tag, si.V[0].Tag
			if b.Ts > a.Ts {
				want := float64(b.Ts-a.Ts) / 1000
				if s, ok := segs[prevSeq]; ok && math.Abs(s.Dur-want) > 0.0015 {
					w.fail("hls-duration", "segment %s is listed with %.3f s, it lasts %.3f s (from %v to %v)", s.Name, s.Dur, want, a, b)
					return
				}
			}
		}
		prev, prevSeq = si, n
	}
	if !o.Strict {
		return
	}
	// the playlist follows the stream
	for _, p := range polls {
		if p.T0 > w.StopAt || (sess.EndAt > 0 && p.T1 > sess.EndAt) {
			continue
		}
		var k0, k *Tag
		lastF := o.before(p.T1)
		for _, t := range sess.Pub {
			if t.Kind == kKey && t.Sent {
				if k0 == nil && t.SentAt > lastF {
					k0 = t
				}
				if t.due()+o.D < p.T0 {
					k = t
				}
			}
		}
		if k == nil || k0 == nil || int32(k.Ts-k0.Ts) < 4000 || p.T0 < h.lazyFrom(w)+2*time.Second {
			continue
		}
		if p.M == nil {
			w.fail("hls-none", "no playlist at %v (status %d) although key frame %v was published at %v", p.T1, p.Status, k, k.SentAt)
			return
		}
		g := bySeq[p.M.last()]
		if g == nil || g.parsed == nil {
			continue
		}
		v := g.parsed.V[len(g.parsed.V)-1].Tag
		if v.Pos < k.Pos && int32(k.Ts-v.Ts) > 4000 {
			w.fail("hls-late", "the playlist served at %v ends with %v, key frame %v was published at %v", p.T1, v, k, k.SentAt)
			return
		}
	}
}

// lazyFrom is when a lazily started segmenter can have begun.
func (h *hlsObs) lazyFrom(w *World) time.Duration {
	if w.plan.k("delay", 0) == 0 {
		return -time.Hour
	}
	d := time.Hour
	for _, p := range h.Polls {
		if p.M != nil && p.T1 < d {
			d = p.T1
		}
	}
	return d
}

// checkSeq checks that the frames of one segment follow those of the one
// before it.
func (w *World) checkSeq(kind string, sess *Session, prev, si *segInfo, contig bool, o hlsOpts, name string) bool {
	run := func(what string, list, plist []vidAU, is func(t *Tag) bool) bool {
		var last *Tag
		if len(plist) > 0 {
			last = plist[len(plist)-1].Tag
		}
		for i, a := range list {
			t := a.Tag
			if last != nil {
				if t.Pos <= last.Pos {
					w.fail(kind+"-order", "segment %s: %v comes after %v", name, t, last)
					return false
				}
				if i > 0 || contig {
					for _, x := range sess.Pub[last.Pos+1 : t.Pos] {
						if !is(x) {
							continue
						}
						if i == 0 && o.between(last, t) {
							w.s.Probe("abandoned-segment")
							break
						}
						if o.Strict {
							w.fail(kind+"-lost", "segment %s: %v follows %v, %s frame %v is missing", name, t, last, what, x)
							return false
						}
						if what == "video" && (t.Kind != kKey || t.GOP < last.GOP+2) {
							w.fail(kind+"-skip", "segment %s: skips from %v (group %d) to %v (group %d); %v is missing", name, last, last.GOP, t, t.GOP, x)
							return false
						}
						w.s.Probe("legit-skip-hls")
						break
					}
				}
			}
			last = t
		}
		return true
	}
	var pv, pa []vidAU
	if prev != nil {
		pv, pa = prev.V, prev.A
	}
	if !run("video", si.V, pv, (*Tag).isVideo) {
		return false
	}
	if !run("audio", si.A, pa, func(t *Tag) bool { return t.Kind == kAudio }) {
		return false
	}
	if o.Faulty && o.Strict {
		// complete: it goes on until right before a key frame
		last := si.V[len(si.V)-1].Tag
		end := len(sess.Pub)
		for _, x := range sess.Pub[last.Pos+1:] {
			if !x.isVideo() || !x.Sent {
				continue
			}
			if x.Kind != kKey {
				w.fail(kind+"-incomplete", "segment %s was listed although it ends with %v, %v comes next", name, last, x)
				return false
			}
			end = x.Pos
			break
		}
		if len(si.A) > 0 && end < len(sess.Pub) {
			la := si.A[len(si.A)-1].Tag
			for _, x := range sess.Pub[la.Pos+1 : end] {
				// audio frames are packed together, across the boundary
				if x.Kind == kAudio && int32(sess.Pub[end].Ts-x.Ts) > 1000 {
					w.fail(kind+"-incomplete", "segment %s was listed although its audio ends with %v; %v, too, comes well before the next key frame, %v", name, la, x, sess.Pub[end])
					return false
				}
			}
		}
	}
	// (over UDP the tracks travel apart: either may overtake the other)
	if prev == nil && o.Strict && len(si.A) > 0 && !sess.UDP {
		k := si.V[0].Tag
		from := k.Pos
		if sess.Proto == "srt" {
			// a unit is only complete when the next one of its kind
			// begins: audio that came with the key frame overtakes it
			for n := 0; n < 2 && from+1 < len(sess.Pub); {
				from++
				if sess.Pub[from].isVideo() {
					n++
				}
			}
		}
		for _, t := range sess.Pub[from:] {
			if t.Kind == kAudio {
				if si.A[0].Tag.Pos > t.Pos {
					w.fail(kind+"-lost", "segment %s starts with %v; audio frame %v is missing (first is %v)", name, k, t, si.A[0].Tag)
					return false
				}
				break
			}
		}
	}
	return true
}
