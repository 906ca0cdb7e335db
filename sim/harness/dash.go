package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net/url"
	"sort"
	"time"

	"verif/simrt"
)

// ---- players ---------------------------------------------------------------------------

type dashPoll struct {
	T0, T1 time.Duration
	Status int
	Err    string
	M      *mpd
}

type dashGot struct {
	Num  int
	Name string
	T0   time.Duration
	Data []byte

	f  *mFrag
	si *segInfo
}

// dashObs is all that was ever served for one stream name.
type dashObs struct {
	App, Nm string
	Sess    *Session // if set: only what is seen before its end counts
	Polls   []*dashPoll
	Got     []*dashGot
	Inits   []*dashGot
	InitFor string
}

func (w *World) dashOf(app, nm string) *dashObs {
	for _, d := range w.dash {
		if d.App == app && d.Nm == nm {
			return d
		}
	}
	d := &dashObs{App: app, Nm: nm}
	w.dash = append(w.dash, d)
	return d
}

func (w *World) pollMPD(h *dashObs, node *simrt.Node, d time.Duration) *dashPoll {
	p := &dashPoll{T0: w.now()}
	r, b, err := w.httpGet(node, portHLS, "/"+h.App+"/"+url.PathEscape(h.Nm)+"/index.mpd"+w.query(2, uint64(p.T0)), "", d)
	p.T1 = w.now()
	if h.Sess != nil && w.over(h.Sess) {
		return p
	}
	if err != nil {
		p.Err = err.Error()
	} else {
		p.Status = r.Status
		if r.Status == 200 {
			m, err := parseMPD(b)
			if err != nil {
				w.fail("dash-manifest", "the manifest of %s/%s served at %v is malformed: %v\n%s", h.App, h.Nm, p.T1, err, b)
			}
			p.M = m
			if ct := r.Hdr["content-type"]; ct != "application/dash+xml" {
				w.fail("dash-type", "the manifest is served as %q", ct)
			}
		}
	}
	h.Polls = append(h.Polls, p)
	return p
}

func (w *World) fetchDASH(h *dashObs, node *simrt.Node, num int, name string, slow int) bool {
	t0 := w.now()
	ref, err := resolve("/"+h.App+"/"+url.PathEscape(h.Nm)+"/index.mpd", name)
	if err != nil {
		w.fail("dash-manifest", "the manifest of %s/%q lists %q: %v", h.App, h.Nm, name, err)
		return false
	}
	r, b, err := w.httpGetSlow(node, portHLS, ref, "", 600*time.Second, slow)
	if h.Sess != nil && w.over(h.Sess) {
		return false
	}
	if err != nil {
		if !w.stop {
			w.fail("dash-fetch", "fetching %s of %s/%s, listed in the manifest, failed: %v (got %d bytes)", name, h.App, h.Nm, err, len(b))
		}
		return false
	}
	if r.Status != 200 {
		return false
	}
	list := &h.Got
	if num < 0 {
		list = &h.Inits
		w.ok("inits")
	} else {
		w.ok("fragments")
	}
	for _, g := range *list {
		if g.Name == name && bytes.Equal(g.Data, b) {
			return true
		}
	}
	*list = append(*list, &dashGot{Num: num, Name: name, T0: t0, Data: b})
	return true
}

// runDASH is a player: it polls the manifest and fetches what is listed.
func (w *World) runDASH(o *Op, app, nm string) {
	w.playDASH(o, w.dashOf(app, nm))
}

func (w *World) playDASH(o *Op, h *dashObs) {
	app, nm := h.App, h.Nm
	node := w.client(o.I)
	r := w.rng(32, uint64(o.I))
	w.actor(node, fmt.Sprintf("dash%d", o.I), o.T, func() {
		done := map[int]bool{}
		every := time.Duration(o.p("every", 400)) * time.Millisecond
		slow := int(o.p("slow", 0))
		end := o.p("quit", 0)
		quit := func() bool { return w.over(h.Sess) || end > 0 && w.now() > time.Duration(o.T+end)*time.Microsecond }
		for !quit() {
			p := w.pollMPD(h, node, 30*time.Second)
			if p.M != nil {
				try := func(num int, name string) {
					if quit() || w.fetchDASH(h, node, num, name, slow) {
						done[num] = true
						return
					}
					q := w.pollMPD(h, node, 30*time.Second)
					if q.M == nil || w.over(h.Sess) || w.ending(app, nm) {
						return
					}
					if num < 0 && q.M.InitURL == name || num >= q.M.Start && num < q.M.Start+q.M.Count {
						w.fail("dash-listed-missing", "%s of %s/%s is listed (at %v and still at %v) but cannot be fetched", name, app, nm, p.T1, q.T1)
					}
				}
				if !done[-1] || r.Bool(0.2) {
					try(-1, p.M.InitURL)
				}
				for n := p.M.Start; n < p.M.Start+p.M.Count && !quit(); n++ {
					if done[n] && !r.Bool(0.1) || o.p("skip", 0) > 0 && r.Intn(100) < int(o.p("skip", 0)) {
						continue
					}
					try(n, p.M.url(n))
				}
			}
			for left := every/2 + time.Duration(r.Intn(int(every))); left > 0 && !w.over(h.Sess); left -= 50 * time.Millisecond {
				w.sleep(min(left, 50*time.Millisecond))
			}
		}
	})
}

// ---- checks ----------------------------------------------------------------------------

func splitLen4(b []byte) ([][]byte, error) {
	var out [][]byte
	for len(b) > 0 {
		if len(b) < 4 {
			return out, fmt.Errorf("%d stray bytes", len(b))
		}
		n := int(binary.BigEndian.Uint32(b))
		if n > len(b)-4 {
			return out, fmt.Errorf("NAL unit of %d bytes, %d are left", n, len(b)-4)
		}
		out = append(out, b[4:4+n])
		b = b[4+n:]
	}
	return out, nil
}

// readFrag validates one fragment's bytes against everything published.
func (w *World) readFrag(g *dashGot) *segInfo {
	if g.si != nil {
		return g.si
	}
	bad := func(f string, a ...any) *segInfo {
		w.fail("dash-fragment", "fragment %s (%d bytes): %s", g.Name, len(g.Data), fmt.Sprintf(f, a...))
		return nil
	}
	f, err := parseFrag(g.Data)
	if err != nil {
		return bad("%v", err)
	}
	si := &segInfo{}
	at := f.Base
	for i, s := range f.Samples {
		ns, err := splitLen4(s.Data)
		if err != nil {
			return bad("sample %d: %v", i, err)
		}
		var p *Session
		var t *Tag
		for _, hevc := range []bool{false, true} {
			if p, t = w.byNals(ns, hevc); t != nil {
				break
			}
		}
		if t == nil {
			return bad("sample %d (decode time %d, %d bytes) is no frame that was published", i, at, len(s.Data))
		}
		if si.sess == nil {
			si.sess = p
		}
		if si.sess != p {
			return bad("mixes frames of sessions %d and %d", si.sess.ID, p.ID)
		}
		if t.Pos < 0 || t.Kind != kKey && t.Kind != kInter {
			return bad("%v was never published as a frame", t)
		}
		if !bytes.Equal(s.Data, t.B[5:]) && !(p.SRT != nil && bytes.Equal(lenPrefixed(noAUD(ns)), t.B[5:])) {
			return bad("%v differs from what was published: %s", t, diffBytes(s.Data, t.B[5:]))
		}
		base, slack := p.tsBase(false, (at-uint64(t.Ts))*90)
		if d := off33(at*90, uint64(t.Ts)*90+base); d > slack && uint32(at) != t.Ts {
			return bad("%v has decode time %d, it was published with %d", t, at, t.Ts)
		}
		if s.Cts != int64(t.Cts) {
			return bad("%v has composition offset %d, it was published with %d", t, s.Cts, t.Cts)
		}
		sync := s.Flags&0x10000 == 0
		if sync != (t.Kind == kKey) {
			return bad("%v has sample flags %#x", t, s.Flags)
		}
		if dep := s.Flags >> 24 & 3; dep != 0 && (dep == 2) != (t.Kind == kKey) {
			return bad("%v has sample flags %#x", t, s.Flags)
		}
		if i == 0 && t.Kind != kKey {
			return bad("starts with %v", t)
		}
		if int32(s.Dur) < 0 {
			return bad("%v lasts %d", t, s.Dur)
		}
		at += uint64(s.Dur)
		si.V = append(si.V, vidAU{Tag: t})
		w.ok("samples")
	}
	g.f, g.si = f, si
	return si
}

func diffBytes(a, b []byte) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return fmt.Sprintf("lengths %d and %d, first difference at %d", len(a), len(b), i)
		}
	}
	return fmt.Sprintf("lengths %d and %d", len(a), len(b))
}

// checkInit compares an initialisation segment and the manifest with the
// configuration of the session.
func (w *World) checkInit(h *dashObs, sess *Session, g *dashGot, m *mpd) bool {
	bad := func(f string, a ...any) bool {
		w.fail("dash-init", "%s of %s/%s: %s", g.Name, h.App, h.Nm, fmt.Sprintf(f, a...))
		return false
	}
	in, err := parseInit(g.Data)
	if err != nil {
		return bad("%v", err)
	}
	var hd *Tag
	for _, t := range sess.Pub {
		if t.Kind == kVHdr {
			hd = t
			break
		}
	}
	if hd == nil {
		return bad("no configuration was published")
	}
	rec := hd.B[5:]
	hevc := hd.B[0]&15 == 12
	if hevc != (in.Entry[0] == 'h') {
		return bad("sample entry %q", in.Entry)
	}
	got, _ := paramSets(append(append([]byte{}, hd.B[:5]...), in.Conf...))
	want, _ := paramSets(hd.B)
	if len(got) != len(want) {
		return bad("carries %d parameter sets, %d were published", len(got), len(want))
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			return bad("parameter set %d is %s, %s was published", i, hexs(got[i], 64), hexs(want[i], 64))
		}
	}
	n := 4
	if hevc {
		n = 13
	}
	if !bytes.Equal(in.Conf[:n], rec[:n]) {
		return bad("configuration record starts with %s, %s was published", hexs(in.Conf[:n], n), hexs(rec[:n], n))
	}
	lenByte := 4
	if hevc {
		lenByte = 21
	}
	if in.Conf[lenByte]&3 != 3 {
		return bad("announces NAL unit lengths of %d bytes", in.Conf[lenByte]&3+1)
	}
	W, H := sess.videoSize(hd)
	if in.W != W || in.H != H || in.EW != W || in.EH != H {
		return bad("picture size %dx%d (sample entry %dx%d), the parameter sets say %dx%d", in.W, in.H, in.EW, in.EH, W, H)
	}
	if m.W != W || m.H != H {
		return bad("manifest says %dx%d, the parameter sets say %dx%d", m.W, m.H, W, H)
	}
	if int(in.Timescale) != m.Timescale {
		return bad("timescale %d, the manifest says %d", in.Timescale, m.Timescale)
	}
	if hevc {
		var pr, lv int
		var four string
		if c, _ := fmt.Sscanf(m.Codecs, "%4s.%d.", &four, &pr); c < 2 || four != "hvc1" && four != "hev1" || pr != int(rec[1]&31) {
			return bad("codecs %q, profile is %d", m.Codecs, rec[1]&31)
		}
		_ = lv
	} else if c := fmt.Sprintf("%s.%02X%02X%02X", in.Entry, rec[1], rec[2], rec[3]); m.Codecs != c {
		return bad("codecs %q, should be %q", m.Codecs, c)
	}
	for _, x := range h.Got {
		if x.f != nil && x.f.Track != in.Track {
			return bad("describes track %d, fragment %s belongs to %d", in.Track, x.Name, x.f.Track)
		}
	}
	return true
}

// checkDASH evaluates everything observed of one stream name that was
// published by a single session.
func (w *World) checkDASH(h *dashObs, sess *Session, o hlsOpts) {
	polls := append([]*dashPoll(nil), h.Polls...)
	sort.SliceStable(polls, func(i, j int) bool { return polls[i].T1 < polls[j].T1 })
	var lastM *mpd
	for i, p := range polls {
		if p.Err != "" && p.T1 < w.StopAt {
			w.fail("dash-http", "polling the manifest of %s/%s at %v failed: %s", h.App, h.Nm, p.T0, p.Err)
			return
		}
		if p.M == nil {
			continue
		}
		w.ok("manifests")
		m := p.M
		if lastM != nil && (!m.Avail.Equal(lastM.Avail) || m.InitURL != lastM.InitURL || m.Media != lastM.Media || m.Timescale != lastM.Timescale) {
			w.fail("dash-manifest", "the manifest of %s/%s changed its start time, addressing or time scale between polls (at %v)", h.App, h.Nm, p.T1)
			return
		}
		lastM = m
		if m.Publish.Before(m.Avail) {
			w.fail("dash-manifest", "the manifest served at %v was published (%v) before the stream was available (%v)", p.T1, m.Publish, m.Avail)
			return
		}
		for _, q := range polls[:i] {
			if q.M == nil || q.T1 > p.T0 {
				continue
			}
			if q.M.Start > m.Start || q.M.Start+q.M.Count > m.Start+m.Count {
				w.fail("dash-backwards", "a manifest served at %v covers fragments %d..%d, a later one at %v only %d..%d", q.T1, q.M.Start, q.M.Start+q.M.Count-1, p.T1, m.Start, m.Start+m.Count-1)
				return
			}
		}
	}
	byNum := map[int]*dashGot{}
	var nums []int
	for _, g := range h.Got {
		if x := byNum[g.Num]; x != nil {
			w.fail("dash-mutable", "fragment %s was served with two different contents (%d and %d bytes)", g.Name, len(x.Data), len(g.Data))
			return
		}
		byNum[g.Num] = g
		nums = append(nums, g.Num)
	}
	sort.Ints(nums)
	var prev *segInfo
	var pg *dashGot
	for _, n := range nums {
		g := byNum[n]
		si := w.readFrag(g)
		if si == nil || len(w.viols) > 0 {
			return
		}
		if si.sess != sess {
			w.fail("dash-foreign", "fragment %s of %s/%s carries frames of session %d (%s/%s)", g.Name, h.App, h.Nm, si.sess.ID, si.sess.App, si.sess.Nm)
			return
		}
		contig := prev != nil && n == pg.Num+1
		if !w.checkSeq("dash", sess, prev, si, contig, o, g.Name) {
			return
		}
		if pg != nil {
			if g.f.Seq <= pg.f.Seq {
				w.fail("dash-sequence", "fragment %s has sequence number %d, %s before it %d", g.Name, g.f.Seq, pg.Name, pg.f.Seq)
				return
			}
			end := pg.f.Base + pg.f.dur()
			if g.f.Base < end || contig && g.f.Base != end && !o.between(prev.V[len(prev.V)-1].Tag, si.V[0].Tag) {
				w.fail("dash-timeline", "fragment %s starts at %d, %s before it ends at %d", g.Name, g.f.Base, pg.Name, end)
				return
			}
		}
		if prev == nil && n == 0 && o.First && o.Strict && (len(o.Faults) == 0 || o.Faults[0] > si.V[len(si.V)-1].Tag.SentAt+time.Second) {
			for _, t := range sess.Pub {
				if t.Kind == kKey && t.VH >= 0 {
					if si.V[0].Tag != t {
						w.fail("dash-first", "the first fragment starts with %v, the first decodable key frame is %v", si.V[0].Tag, t)
						return
					}
					break
				}
			}
		}
		prev, pg = si, g
	}
	for _, p := range polls {
		if p.M == nil {
			continue
		}
		var lo, hi uint64
		all := true
		for n := p.M.Start; n < p.M.Start+p.M.Count; n++ {
			g := byNum[n]
			if g == nil || g.f == nil {
				all = false
				break
			}
			d := g.f.dur()
			if lo == 0 || d < lo {
				lo = d
			}
			hi = max(hi, d)
		}
		if all && (uint64(p.M.Dur) < lo || uint64(p.M.Dur) > hi) {
			w.fail("dash-duration", "the manifest served at %v announces fragments of %d, they last %d to %d", p.T1, p.M.Dur, lo, hi)
			return
		}
	}
	if len(h.Inits) > 1 {
		w.fail("dash-mutable", "the initialisation segment was served with two different contents (%d and %d bytes)", len(h.Inits[0].Data), len(h.Inits[1].Data))
		return
	}
	if len(h.Inits) > 0 && !w.checkInit(h, sess, h.Inits[0], lastM) {
		return
	}
	if !o.Strict {
		return
	}
	for _, p := range polls {
		if p.T0 > w.StopAt || (sess.EndAt > 0 && p.T1 > sess.EndAt) {
			continue
		}
		var k0, k *Tag
		lastF := o.before(p.T1)
		for _, t := range sess.Pub {
			if t.Kind == kKey && t.Sent && t.VH >= 0 {
				if k0 == nil && t.SentAt > lastF {
					k0 = t
				}
				if t.due()+o.D < p.T0 {
					k = t
				}
			}
		}
		if k == nil || k0 == nil || int32(k.Ts-k0.Ts) < 4000 || !o.First {
			continue
		}
		if p.M == nil {
			w.fail("dash-none", "no manifest at %v (status %d) although key frame %v was published at %v", p.T1, p.Status, k, k.SentAt)
			return
		}
		g := byNum[p.M.Start+p.M.Count-1]
		if g == nil || g.si == nil {
			continue
		}
		v := g.si.V[len(g.si.V)-1].Tag
		if v.Pos < k.Pos && int32(k.Ts-v.Ts) > 4000 {
			w.fail("dash-late", "the manifest served at %v ends with %v, key frame %v was published at %v", p.T1, v, k, k.SentAt)
			return
		}
	}
}

// videoSize is the picture size the parameter sets of a header describe.
func (p *Session) videoSize(hd *Tag) (w, h int) {
	ps, _ := paramSets(hd.B)
	hevc := hd.B[0]&15 == 12
	for _, n := range ps {
		var rb []byte
		for i := 0; i < len(n); i++ {
			if i >= 2 && n[i] == 3 && n[i-1] == 0 && n[i-2] == 0 {
				continue
			}
			rb = append(rb, n[i])
		}
		r := &bitr{b: rb}
		if hevc && n[0]>>1 == 33 {
			r.u(16)
			r.u(4)
			sub := r.u(3)
			r.u(1)
			r.u(88)
			r.u(8)
			var pf, lf [8]int
			for i := 0; i < sub; i++ {
				pf[i], lf[i] = r.u(1), r.u(1)
			}
			if sub > 0 {
				for i := sub; i < 8; i++ {
					r.u(2)
				}
			}
			for i := 0; i < sub; i++ {
				if pf[i] != 0 {
					r.u(88)
				}
				if lf[i] != 0 {
					r.u(8)
				}
			}
			r.ue()
			if r.ue() == 3 {
				r.u(1)
			}
			return r.ue(), r.ue()
		}
		if !hevc && n[0]&31 == 7 {
			for v := 0; v < 101; v++ {
				for _, rich := range []bool{false, true} {
					_, s, _ := avcConfig(v, rich)
					if bytes.Equal(s, n) {
						a, b := avcSize(v)
						return a * 16, b * 16
					}
				}
			}
		}
	}
	return 0, 0
}

type bitr struct {
	b []byte
	p int
}

func (r *bitr) u(n int) (v int) {
	for ; n > 0; n-- {
		bit := 0
		if r.p/8 < len(r.b) {
			bit = int(r.b[r.p/8]>>(7-r.p%8)) & 1
		}
		v = v<<1 | bit
		r.p++
	}
	return
}

func (r *bitr) ue() int {
	z := 0
	for r.u(1) == 0 && z < 32 {
		z++
	}
	return 1<<z - 1 + r.u(z)
}
