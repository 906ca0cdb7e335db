package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/sbraveyoung/GGmpeg/libflv"
	"github.com/sbraveyoung/GGmpeg/libhls"
	"verif/simrt"
)

// P07: the low-latency segmenter through its public interface. No server
// option turns it on, so the scenario plays the embedding program: it feeds
// tags, polls playlists, blocks on reloads and ends the stream.

func init() {
	scenarios["P07"] = &Scenario{Gen: genP07, Setup: setupP07}
}

func genP07(r *simrt.Rand, p *Plan) {
	P := map[string]int64{}
	segKnobs(r, P)
	P["fms"] = pick64(r, 33, 40, 66, 100, 200, 333, 400, 700)
	P["ams"] = pick64(r, 21, 23, 64, 128, 300)
	P["gop"] = pick64(r, 1, 2, 5, 10, 30, 60, 100)
	P["frames"] = min(int64(3+r.Intn(15))*1000/P["fms"], 250)
	if P["body"] > 3000 {
		P["body"] = 3000
	}
	if r.Bool(0.1) {
		P["burst"] = 1
	}
	p.Ops = append(p.Ops, Op{K: "feed", I: 1, A: "live", N: "s", P: P})
	n := 1 + r.Intn(4)
	if r.Bool(0.15) {
		n = 5 + r.Intn(12)
	}
	for i := 0; i < n; i++ {
		// mode: 0 next part, 1 next segment, 2 anything, 3 far ahead
		Q := map[string]int64{"mode": int64(r.Pick(5, 1, 3, 1)), "max": pick64(r, 0, 4, 20, 100, 400, 1000, 1000, 3000, 8000)}
		if r.Bool(0.2) {
			Q["idle"] = pick64(r, 5, 100, 600)
		}
		p.Ops = append(p.Ops, Op{K: "wait", I: int64(10 + i), T: int64(r.Intn(3000)) * 1000, P: Q})
	}
	p.K["every"] = pick64(r, 3, 7, 20, 50)
	if r.Bool(0.3) { // the publisher pauses
		p.K["pause"] = 1 + int64(r.Intn(int(2*P["frames"])))
		p.K["pausems"] = pick64(r, 500, 1500, 4000)
	}
	switch r.Intn(3) {
	case 0: // stopped by its owner
		p.K["stop"] = 500 + int64(r.Intn(12000))
	case 1: // the publisher goes away early
		p.K["cut"] = 1 + int64(r.Intn(200))
	}
}

// llWorld is everything known about one low-latency segmenter.
type llWorld struct {
	w       *World
	h       *libhls.HLS
	sess    *Session
	obs     *hlsObs
	first   map[[2]int]time.Duration // when a part was first seen
	done    map[int]time.Duration    // when a segment was first seen complete
	count   map[int]int              // parts of complete segments
	parts   map[string][]m3Part
	bytes   map[string][]byte // bytes of parts seen, from offset 0
	maxDur  float64
	durPart string
	missing map[string]time.Duration
	EndAt   time.Duration // when the stream had ended (0: not yet)
	StopAt  time.Duration // when Stop was called
	EofAt   time.Duration // when the segmenter was told that the publisher is gone
	closed  bool
	started bool
	top     [2]int
}

// llReader feeds the published tags in their own time.
type llReader struct {
	l   *llWorld
	pos int
	cut int
}

func (r *llReader) Read() (interface{}, bool) {
	l := r.l
	for {
		if r.pos >= len(l.sess.Tags) || r.cut > 0 && r.pos >= r.cut {
			l.EofAt = max(l.w.now(), 1)
			return nil, false
		}
		t := l.sess.Tags[r.pos]
		if !l.sess.SP.Burst && t.Pace > 0 {
			end := l.w.now() + t.Pace
			for l.w.now() < end && !l.closed {
				simrt.Sleep(min(end-l.w.now(), 50*time.Millisecond))
			}
		} else {
			simrt.SyncPoint()
		}
		if l.w.plan.k("pause", 0) == int64(r.pos) && r.pos > 0 {
			end := l.w.now() + time.Duration(l.w.plan.k("pausems", 0))*time.Millisecond
			for l.w.now() < end && !l.closed {
				simrt.Sleep(min(end-l.w.now(), 50*time.Millisecond))
			}
		}
		if l.closed {
			return nil, false
		}
		r.pos++
		l.sess.publish(t)
		t.Sent, t.SentAt = true, l.w.now()
		tb := libflv.TagBase{TagType: t.T, DataSize: uint32(len(t.B)), TimeStamp: t.Ts}
		b := append([]byte(nil), t.B...)
		switch t.T {
		case 8:
			if a, err := libflv.ParseAudioTag(tb, b); err == nil {
				return a, true
			}
		case 9:
			if v, err := libflv.ParseVideoTag(tb, b); err == nil {
				return v, true
			}
		}
	}
}

func setupP07(w *World) {
	w.srv = w.s.Node("srv", "10.0.0.1", false)
	l := &llWorld{w: w, first: map[[2]int]time.Duration{}, done: map[int]time.Duration{}, count: map[int]int{},
		parts: map[string][]m3Part{}, bytes: map[string][]byte{}, missing: map[string]time.Duration{}, top: [2]int{-1, -1}}
	dir := "/srv/ll"
	l.h = libhls.NewHls().WithLowLatency(true).WithStreamID("s").WithDir(dir)
	waiters := 0
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		switch o.K {
		case "feed":
			if l.sess != nil {
				continue
			}
			l.sess = w.newSession("live", "s", "api", opStream(o), uint64(o.I))
			l.sess.State = "accepted"
			l.obs = w.hlsOf("live", "s")
			w.s.GoOn(w.srv, "segmenter", func() {
				l.started = true
				err := l.h.Start(&llReader{l: l, cut: int(w.plan.k("cut", 0))})
				if err != nil {
					w.fail("ll-start", "the segmenter gave up: %v", err)
				}
				l.EndAt = max(w.now(), 1)
				l.sess.EndAt = l.EndAt
				l.sess.Ended = true
			})
		case "wait":
			waiters++
			l.waiter(o, func() { waiters-- })
		}
	}
	if ms := w.plan.k("stop", 0); ms > 0 {
		w.s.GoOn(w.srv, "owner", func() {
			simrt.Sleep(time.Duration(ms) * time.Millisecond)
			l.closed = true
			l.StopAt = max(w.now(), 1)
			l.h.Stop()
			l.h.Stop() // idempotent
		})
	}
	// an omniscient player
	w.alive++
	w.s.GoOn(w.srv, "observer", func() {
		for !w.stop {
			t := w.now()
			l.look(l.h.Playlist(), t, dir, true)
			simrt.Sleep(time.Duration(w.plan.k("every", 5)) * time.Millisecond)
		}
		w.alive--
	})
	w.finish(1500 * time.Millisecond)
	w.done = append(w.done, func() { l.finish(dir) })
}

// look checks one playlist; t is when it was asked for.
func (l *llWorld) look(b []byte, t time.Duration, dir string, watch bool) *m3u8 {
	w := l.w
	now := w.now()
	if len(b) == 0 {
		return nil
	}
	m, err := parseM3U8(b)
	if err != nil {
		w.fail("ll-playlist", "malformed playlist at %v: %v\n%s", now, err, b)
		return nil
	}
	w.ok("ll-playlists")
	bad := func(kind, f string, a ...any) *m3u8 {
		w.fail(kind, "playlist at %v: %s\n%s", now, fmt.Sprintf(f, a...), b)
		return nil
	}
	if m.Version < 6 || m.PartTarget <= 0 || !m.Block || m.HoldBack < 3*m.PartTarget-0.002 {
		return bad("ll-playlist", "version %d, part target %v, blocking %v, hold back %v", m.Version, m.PartTarget, m.Block, m.HoldBack)
	}
	read := func(name string) ([]byte, bool) { return w.srv.FS.Get(dir + "/" + name) }
	chain := func(name string, ps []m3Part) bool {
		var off int64
		old := l.parts[name]
		for i, p := range ps {
			if p.URI != name || p.Off != off || p.Len%188 != 0 {
				bad("ll-tile", "part %d of %s is %d@%d of %s, expected to start at %d and to be whole packets", i, name, p.Len, p.Off, p.URI, off)
				return false
			}
			off += p.Len
			if i < len(old) && old[i] != p {
				bad("ll-mutable", "part %d of %s changed from %+v to %+v", i, name, old[i], p)
				return false
			}
			if p.Dur > l.maxDur {
				l.maxDur = p.Dur
				l.durPart = fmt.Sprintf("part %d of %s", i, name)
			}
		}
		if len(ps) < len(old) && watch && t > l.first[[2]int{seqOf(name), len(old) - 1}] {
			bad("ll-backwards", "%s has %d parts, an earlier playlist had %d", name, len(ps), len(old))
			return false
		}
		if len(ps) == 0 {
			return true
		}
		data, ok := read(name)
		if !ok {
			return true // see missing
		}
		if int64(len(data)) < off {
			bad("ll-unreadable", "the parts of %s reach byte %d, only %d can be read", name, off, len(data))
			return false
		}
		known := l.bytes[name]
		if !bytes.Equal(known, data[:min(len(known), len(data))]) {
			bad("ll-mutable", "bytes already listed of %s have changed", name)
			return false
		}
		for i := len(old); i < len(ps); i++ {
			p := ps[i]
			d := data[p.Off : p.Off+p.Len]
			for k := 0; k < len(d); k += 188 {
				if d[k] != 0x47 {
					bad("ll-tile", "part %d of %s is not TS packets", i, name)
					return false
				}
			}
			if p.Indep {
				if why := l.independent(d); why != "" {
					bad("ll-independent", "part %d of %s is marked independent: %s", i, name, why)
					return false
				}
				w.ok("ll-independent")
			}
			if i == 0 && !p.Indep {
				bad("ll-independent", "the first part of %s, which starts with a key frame, is not marked independent", name)
				return false
			}
			w.ok("ll-parts")
		}
		if len(ps) > len(old) {
			l.parts[name] = append([]m3Part(nil), ps...)
			l.bytes[name] = append([]byte(nil), data[:off]...)
		}
		return true
	}
	note := func(seq, part int) {
		k := [2]int{seq, part}
		if x, ok := l.first[k]; !ok || now < x {
			l.first[k] = now
		}
	}
	for _, s := range m.Segs {
		if s.Seq != seqOf(s.Name) {
			return bad("ll-playlist", "segment number %d is %s", s.Seq, s.Name)
		}
		if !chain(s.Name, s.Parts) {
			return nil
		}
		for i := range s.Parts {
			note(s.Seq, i)
		}
		var off int64
		var sum float64
		for _, p := range s.Parts {
			off += p.Len
			sum += p.Dur
		}
		if n, ok := l.count[s.Seq]; ok && n != len(s.Parts) {
			return bad("ll-mutable", "complete segment %s had %d parts and has %d", s.Name, n, len(s.Parts))
		}
		data, ok := read(s.Name)
		if !ok {
			if x := l.missing[s.Name]; watch && x > 0 && x < t {
				return bad("ll-listed-missing", "%s is listed but was gone at %v", s.Name, x)
			}
			if l.missing[s.Name] == 0 {
				l.missing[s.Name] = now
			}
			continue
		}
		if off != int64(len(data)) {
			return bad("ll-cover", "the parts of %s cover %d bytes, it has %d", s.Name, off, len(data))
		}
		// the last frame's own duration may be left out
		if e := 0.001 * float64(1+len(s.Parts)); sum > s.Dur+e || sum > 0 && sum < s.Dur-l.gap()-0.003-e {
			return bad("ll-duration", "the parts of %s last %.3f s, it lasts %.3f s", s.Name, sum, s.Dur)
		}
		if _, ok := l.done[s.Seq]; !ok {
			l.done[s.Seq] = now
			l.count[s.Seq] = len(s.Parts)
			l.obs.Got = append(l.obs.Got, &hlsGot{Seq: s.Seq, Name: s.Name, T0: now, Data: append([]byte(nil), data...)})
			w.ok("ll-segments")
		}
	}
	if len(m.Tail) > 0 {
		if m.HintURI == "" {
			return bad("ll-hint", "no preload hint although a segment is in progress")
		}
		if !chain(m.Tail[0].URI, m.Tail) {
			return nil
		}
	}
	if m.HintURI != "" {
		seq := seqOf(m.HintURI)
		var off int64
		for i, p := range m.Tail {
			note(seq, i)
			off += p.Len
		}
		if len(m.Segs) > 0 && seq != m.last()+1 {
			return bad("ll-hint", "the hint names %s, the next segment is number %d", m.HintURI, m.last()+1)
		}
		if len(m.Tail) > 0 && m.Tail[0].URI != m.HintURI || m.HintOff != off {
			return bad("ll-hint", "the hint is %s from byte %d, the parts end at %d", m.HintURI, m.HintOff, off)
		}
		if _, ok := read(m.HintURI); !ok && watch {
			if x := l.missing[m.HintURI]; x > 0 && x < t {
				return bad("ll-listed-missing", "the hint names %s, which was gone at %v", m.HintURI, x)
			}
			if l.missing[m.HintURI] == 0 {
				l.missing[m.HintURI] = now
			}
		} else {
			delete(l.missing, m.HintURI)
		}
		w.ok("ll-hints")
	}
	if watch {
		top := [2]int{-1, -1}
		if len(m.Segs) > 0 {
			top = [2]int{m.last(), 1 << 20}
			l.obs.Polls = append(l.obs.Polls, &hlsPoll{T0: t, T1: now, Status: 200, M: m})
		}
		if m.HintURI != "" && len(m.Tail) > 0 {
			top = [2]int{seqOf(m.HintURI), len(m.Tail)}
		}
		if (top[0] < l.top[0] || top[0] == l.top[0] && top[1] < l.top[1]) && l.StopAt == 0 {
			return bad("ll-backwards", "ends at segment %d part %d, an earlier one at %d part %d", top[0], top[1], l.top[0], l.top[1])
		}
		l.top = top
	}
	return m
}

// gap is the longest step forward in time from one video frame to the next,
// in seconds, or that by which the audio goes on after the last one.
func (l *llWorld) gap() float64 {
	var gap, top, audio int32
	var base *Tag
	for _, t := range l.sess.Pub {
		if base == nil && t.isVideo() {
			base = t
		}
		if base == nil || t.Kind != kAudio && !t.isVideo() {
			continue
		}
		d := int32(t.Ts - base.Ts)
		if t.Kind == kAudio {
			audio = max(audio, d)
		} else if d > top {
			gap, top = max(gap, d-top), d
		}
	}
	return float64(max(gap, audio-top)) / 1000
}

func seqOf(name string) int {
	n := -1
	fmt.Sscanf(name, "s-%d.ts", &n)
	if fmt.Sprintf("s-%d.ts", n) != name {
		return -1
	}
	return n
}

// independent says why a part does not start with a key frame.
func (l *llWorld) independent(d []byte) string {
	f, err := parseTS(d, nil, true)
	if f == nil || len(f.PES) == 0 {
		return fmt.Sprintf("no access unit in it (%v)", err)
	}
	s := f.PES[0]
	ns, err := splitAnnexB(s.Data)
	if err != nil && len(f.PES) > 1 {
		return err.Error()
	}
	_, t := l.w.byNals(ns, s.Type == 0x24)
	if t == nil || t.Kind != kKey || !s.RAI {
		return fmt.Sprintf("it starts with %v (random access %v)", t, s.RAI)
	}
	return ""
}

// waiter is a low-latency player: it reloads the playlist, blocking.
func (l *llWorld) waiter(o *Op, fin func()) {
	w := l.w
	r := w.rng(41, uint64(o.I))
	w.alive++
	w.s.GoOn(w.srv, fmt.Sprintf("waiter%d", o.I), func() {
		defer func() { w.alive--; fin() }()
		if d := time.Duration(o.T)*time.Microsecond - w.now(); d > 0 {
			simrt.Sleep(d)
		}
		msn, part := 0, 0
		for n := 0; !w.stop && n < 150; n++ {
			limit := time.Duration(o.p("max", 1000)) * time.Millisecond
			wm, wp := msn, part
			switch o.p("mode", 0) {
			case 1:
				wm, wp = msn+1, 0
			case 2:
				wm, wp = msn-2+r.Intn(4), r.Intn(6)
			case 3:
				wm, wp = msn+5, r.Intn(3)
			}
			w.s.Arm()
			t0 := w.now()
			b := l.h.WaitForPlaylist(wm, wp, limit)
			t1 := w.now()
			m := l.look(b, t1, "/srv/ll", false)
			l.judge(wm, wp, t0, t1, limit, m, b)
			if len(w.viols) > 0 {
				return
			}
			if m != nil {
				if len(m.Tail) > 0 {
					msn, part = seqOf(m.HintURI), len(m.Tail)
				} else {
					msn, part = m.Seq+len(m.Segs), 0
				}
			}
			d := time.Duration(o.p("idle", 0)) * time.Millisecond
			if limit == 0 || l.EndAt > 0 || l.StopAt > 0 || wm < 0 || t1 == t0 {
				d += time.Duration(1+r.Intn(40)) * time.Millisecond
			}
			if d > 0 {
				simrt.Sleep(d)
			}
		}
	})
}

// judge checks one blocking reload.
func (l *llWorld) judge(wm, wp int, t0, t1, limit time.Duration, m *m3u8, b []byte) {
	w := l.w
	slack := 20*time.Millisecond + w.plan.fewBound()
	if w.plan.stalls() {
		slack += 60 * time.Duration(w.plan.Sched.StallMax)
	}
	w.ok("ll-reloads")
	if t1 > t0+limit+slack {
		w.fail("ll-bound", "a reload for segment %d part %d asked at %v with a bound of %v returned at %v", wm, wp, t0, limit, t1)
		return
	}
	if t1 > t0+time.Millisecond {
		w.ok("ll-blocked")
	}
	if wm < 0 {
		return
	}
	has := false
	if m != nil {
		has = len(m.Segs) > 0 && m.last() >= wm
		if m.HintURI != "" {
			s := seqOf(m.HintURI)
			has = has || s > wm || s == wm && len(m.Tail) > wp
		}
	}
	ended := l.EofAt > 0 || l.StopAt > 0
	if !has && !ended && t1 < t0+limit {
		w.fail("ll-early", "a reload for segment %d part %d asked at %v returned at %v, before its bound of %v, without the part:\n%s", wm, wp, t0, t1, limit, b)
		return
	}
	// the part was there all along
	if x, ok := l.first[[2]int{wm, wp}]; ok && t1 > max(x, t0)+slack {
		w.fail("ll-missed", "segment %d part %d could be seen at %v; a reload for it asked at %v returned at %v", wm, wp, x, t0, t1)
		return
	}
	if x, ok := l.done[wm]; ok && t1 > max(x, t0)+slack {
		w.fail("ll-missed", "segment %d was complete at %v; a reload for its part %d asked at %v returned at %v", wm, x, wp, t0, t1)
		return
	}
	for _, x := range []time.Duration{l.EndAt, l.StopAt} {
		if x > 0 && t1 > max(x, t0)+slack {
			w.fail("ll-after-end", "the stream ended at %v; a reload for segment %d part %d asked at %v returned at %v", x, wm, wp, t0, t1)
			return
		}
	}
}

func (l *llWorld) finish(dir string) {
	w := l.w
	if l.sess == nil || len(w.viols) > 0 {
		return
	}
	if l.EndAt == 0 {
		w.fail("ll-stuck", "the segmenter has not returned although its stream ended (stop at %v)", l.StopAt)
		return
	}
	// a part lasts at most one frame longer than announced
	if limit := 0.333 + l.gap() + 0.004; l.maxDur > limit {
		w.fail("ll-part-long", "%s lasts %.3f s; the part target is 0.333 s and frames are at most %.3f s apart", l.durPart, l.maxDur, l.gap())
		return
	}
	if l.StopAt > 0 {
		for _, f := range w.srv.FS.List() {
			w.fail("ll-leftover", "file %s is left after the segmenter was stopped", f)
			return
		}
	}
	w.checkHLS(l.obs, l.sess, hlsOpts{Strict: true, First: true, D: w.procBound()})
}
