package main

import (
	"bytes"
	"fmt"
	"time"
)

// recvOpts selects which rules hold for a viewer in a run.
type recvOpts struct {
	Start    bool          // check where the viewer starts
	Complete bool          // every frame after the start must arrive
	All      bool          // every frame of the session must arrive
	D        time.Duration // bound on the server's processing delay
	Timely   bool
	NoSkip   bool
}

// procBound is how long the server may take to process and forward a tag.
func (w *World) procBound() time.Duration {
	d := 150*time.Millisecond + 20*w.plan.Net.LatMax
	if w.plan.stalls() {
		d += 60 * time.Duration(w.plan.Sched.StallMax)
	}
	d += 20 * time.Duration(w.plan.k("fslow", 0)) * time.Millisecond
	return d + w.plan.fewBound()
}

// narrow says whether the windows are too small for the path's latency to
// carry the stream's largest tags at once.
func (w *World) narrow() bool {
	big := 0
	for _, p := range w.pubs {
		for _, t := range p.Tags {
			if len(t.B) > big {
				big = len(t.B)
			}
		}
	}
	n := w.plan.Net
	return n.Window > 0 && 2*n.LatMax*time.Duration(big)/time.Duration(n.Window) > 50*time.Millisecond
}

// checkViewer evaluates the delivery rules for one FLV-like viewer (RTMP,
// HTTP-FLV, WebSocket-FLV).
func (w *World) checkViewer(v *Viewer, o recvOpts) {
	tagp := v.Proto + "-"
	if v.Proto == "rtsp" && !v.recvDone && !w.rtspRecv(v) {
		return
	}
	want := v.Want
	if want == nil {
		want = (*Tag).isFrame
	}
	if v.Bad != "" {
		w.fail(tagp+"malformed", "%v: %s", v, v.Bad)
		return
	}
	var curV, curA []byte
	var curM map[string]any
	var last *Tag
	var sess *Session
	var first *Tag
	got := map[int]bool{}
	all := v.Want == nil // the tags without a picture too
	needs := func(t *Tag) bool { return want(t) || all && t.Kind == kEOS }
	for i := range v.Recv {
		rt := &v.Recv[i]
		kind := kInter
		if rt.F == nil {
			kind = w.classify(rt)
		}
		switch kind {
		case kEOS:
			p, t := w.eosOf(v, rt, sess, last)
			if t == nil {
				w.fail(tagp+"eos", "%v received an end of sequence (ts %d) after %v that is none published for it", v, rt.Ts, last)
				return
			}
			if first == nil && t.GOP > 0 && !v.Lossy && p.Pub[keyOf(p, t)].Sent && (v.Excuse == nil || !v.Excuse(p.Pub[keyOf(p, t)])) {
				w.fail(tagp+"start-not-key", "%v started at an end of sequence, %v, although key frames had been published before it", v, t)
				return
			}
			got[t.Pos] = true
			w.ok("eos")
		case kMeta:
			m := metaOf(rt.B)
			ok := false
			why := "not decodable"
			for _, p := range w.pubs {
				if p.App != v.App || p.Nm != v.Nm || p.State == "refused" {
					continue
				}
				for _, t := range p.Pub {
					if t.Kind == kMeta {
						if why = sameMeta(t.Meta, m); why == "" && t.Ts == rt.Ts {
							ok = true
						}
					}
				}
			}
			if !ok {
				w.fail(tagp+"meta", "%v received metadata (ts %d) that was never published for it: %s", v, rt.Ts, why)
				return
			}
			curM = m
		case kVHdr, kAHdr:
			ok := false
			for _, p := range w.pubs {
				if p.App != v.App || p.Nm != v.Nm || p.State == "refused" {
					continue
				}
				for _, t := range p.Pub {
					if (t.Kind == kVHdr || t.Kind == kAHdr) && t.T == rt.T && (t.Ts == rt.Ts || p.Proto == "srt") && bytes.Equal(t.B, rt.B) {
						ok = true
					}
				}
			}
			if !ok {
				w.fail(tagp+"header", "%v received a decoder configuration (type %d ts %d %s) that was never published for this stream", v, rt.T, rt.Ts, hexs(rt.B, 40))
				return
			}
			if rt.T == 9 {
				curV = rt.B
			} else {
				curA = rt.B
			}
		default:
			p, t := rt.P, rt.F
			if t == nil {
				p, t = w.frameOf(v, rt)
			}
			if t == nil {
				w.fail(tagp+"invented", "%v received tag %d (type %d ts %d %s) that nobody published", v, i, rt.T, rt.Ts, hexs(rt.B, 60))
				return
			}
			if p.App != v.App || p.Nm != v.Nm {
				w.fail(tagp+"foreign", "%v received %v of session %d, which publishes %s/%s", v, t, p.ID, p.App, p.Nm)
				return
			}
			if p.State == "refused" {
				w.fail(tagp+"foreign", "%v received %v of session %d, whose publish was refused", v, t, p.ID)
				return
			}
			if t.Pos < 0 {
				w.fail(tagp+"invented", "%v received %v, which session %d never completed", v, t, p.ID)
				return
			}
			if rt.F == nil && p.tsWrong(v, t, rt.Ts) {
				w.fail(tagp+"timestamp", "%v received %v with timestamp %d", v, t, rt.Ts)
				return
			}
			if rt.F == nil && t.Kind != kData && !bytes.Equal(rt.B, t.B) && !p.sameAU(t, rt) && !(rt.T == 9 && len(rt.B) > 5 && p.headLost(t, splitLen(rt.B[5:]))) {
				w.fail(tagp+"body", "%v received %v with a different body: got %d bytes %s want %d bytes %s", v, t, len(rt.B), hexs(rt.B, 48), len(t.B), hexs(t.B, 48))
				return
			}
			if sess != nil && sess != p {
				w.fail(tagp+"two-sessions", "%v received %v of session %d after frames of session %d", v, t, p.ID, sess.ID)
				return
			}
			sess = p
			if rt.At < t.SentAt {
				w.fail(tagp+"time", "%v received %v before it was sent", v, t)
				return
			}
			if last != nil && t.Pos <= last.Pos {
				w.fail(tagp+"order", "%v received %v after %v", v, t, last)
				return
			}
			if first == nil {
				first = t
				if t.GOP > 0 && t.Kind != kKey && !v.NoVideo && !v.Lossy && (v.Excuse == nil || !v.Excuse(p.Pub[keyOf(p, t)])) {
					w.fail(tagp+"start-not-key", "%v started at %v although key frames had been published before it", v, t)
					return
				}
			}
			if last != nil && t.Pos > last.Pos+1 {
				var miss *Tag
				for _, x := range p.Pub[last.Pos+1 : t.Pos] {
					if want(x) && (v.Excuse == nil || !v.Excuse(x)) {
						miss = x
						break
					}
				}
				if miss != nil && !v.Lossy {
					switch {
					case o.NoSkip || o.All:
						w.fail(tagp+"lost", "%v received %v after %v; %v is missing", v, t, last, miss)
						return
					case t.Kind != kKey && !v.NoVideo && (v.Excuse == nil || !v.Excuse(p.Pub[keyOf(p, t)])):
						w.fail(tagp+"skip-not-key", "%v skipped from %v to %v, which is no key frame", v, last, t)
						return
					case t.GOP < last.GOP+2:
						w.fail(tagp+"skip-early", "%v skipped from %v (group %d) to %v (group %d) without lagging a whole group; %v is missing", v, last, last.GOP, t, t.GOP, miss)
						return
					case o.Complete:
						w.fail(tagp+"lost", "%v keeps reading but skipped from %v to %v; %v is missing", v, last, t, miss)
						return
					}
					w.s.Probe("legit-skip")
				}
			}
			// configuration in force
			if rt.F == nil && t.isVideo() && t.VH >= 0 && !bytes.Equal(curV, p.Pub[t.VH].B) {
				w.fail(tagp+"config-video", "%v received %v without the video configuration in force (%v); it last got %s", v, t, p.Pub[t.VH], hexs(curV, 40))
				return
			}
			if rt.F == nil && t.Kind == kAudio && t.AH >= 0 && !bytes.Equal(curA, p.Pub[t.AH].B) {
				w.fail(tagp+"config-audio", "%v received %v without the audio configuration in force (%v); it last got %s", v, t, p.Pub[t.AH], hexs(curA, 40))
				return
			}
			if rt.F == nil && t.MH >= 0 {
				if why := sameMeta(p.Pub[t.MH].Meta, curM); why != "" {
					w.fail(tagp+"config-meta", "%v received %v without the metadata in force (%v): %s", v, t, p.Pub[t.MH], why)
					return
				}
			}
			if o.Timely && (t.Sent || p.SRT == nil) && v.AckAt > 0 && t.SentAt > v.AckAt+o.D && (v.Proto != "rtsp" || p.ReqAt < v.AckAt) && rt.At > t.due()+o.D {
				w.fail(tagp+"late", "%v received %v %v after it was published", v, t, rt.At-t.due())
				return
			}
			last = t
			got[t.Pos] = true
			w.ok("frames")
		}
	}
	if v.State != "joined" {
		return
	}
	if sess == nil {
		// which session was being watched?
		for _, p := range w.pubs {
			if p.App == v.App && p.Nm == v.Nm && p.State == "accepted" && p.AckAt <= v.ReqAt && (p.EndAt == 0 || p.EndAt > v.AckAt) {
				sess = p
			}
		}
		if sess == nil {
			return
		}
	}
	if o.Start && first != nil && !v.Lossy {
		var kmin, kmax *Tag
		firstAfter := -1
		for _, t := range sess.Pub {
			if t.Kind == kKey && t.SentAt > 0 && t.SentAt <= v.AckAt+o.D {
				kmax = t // it may have got through, even if the publisher was cut off
			}
			if !t.Sent {
				continue
			}
			if t.Kind == kKey && t.due()+o.D < v.ReqAt {
				kmin = t
			}
			if want(t) && t.SentAt > v.AckAt+o.D && firstAfter < 0 {
				firstAfter = t.Pos
			}
		}
		if kmin != nil && first.Pos < kmin.Pos {
			w.fail(tagp+"start-old", "%v (asked at %v) started at %v although key frame %v had been published at %v", v, v.ReqAt, first, kmin, kmin.SentAt)
			return
		}
		if kmax != nil && !want(kmax) { // what it wants from there on
			k := kmax.Pos
			kmax = nil
			for _, t := range sess.Pub[k:] {
				if want(t) && t.Sent {
					kmax = t
					break
				}
			}
		}
		if kmax != nil && v.Excuse != nil && v.Excuse(kmax) {
			kmax, firstAfter = nil, -1
		}
		if kmax != nil && first.Pos > kmax.Pos {
			w.fail(tagp+"start-late", "%v (joined at %v) started at %v although key frame %v was the most recent when it joined", v, v.AckAt, first, kmax)
			return
		}
		if kmax == nil && firstAfter >= 0 && first.Pos > firstAfter {
			w.fail(tagp+"start-late", "%v (joined at %v) started at %v; %v was published after it joined", v, v.AckAt, first, sess.Pub[firstAfter])
			return
		}
	}
	if o.All {
		for _, t := range sess.Pub {
			if needs(t) && t.Sent && !got[t.Pos] {
				w.fail(tagp+"lost", "%v watched session %d from its beginning but never received %v (received %d tags, ended: %s)", v, sess.ID, t, len(v.Recv), v.EndWhy)
				return
			}
		}
	} else if o.Complete {
		end := v.EndAt
		if end == 0 || !v.Ended {
			end = w.now()
		}
		orderly := sess.Ended && (sess.EndKind == "fin" || sess.EndKind == "unpublish") && !v.Quit
		if sess.Ended && !orderly && sess.EndAt < end {
			end = sess.EndAt // a reset may cost what was still in flight
		}
		for _, t := range sess.Pub {
			if !needs(t) || !t.Sent || got[t.Pos] {
				continue
			}
			if first != nil && t.Pos < first.Pos {
				continue
			}
			if first == nil && t.SentAt < v.AckAt+o.D {
				continue
			}
			if t.due()+o.D < end || orderly {
				w.fail(tagp+"lost", "%v joined at %v and kept reading until %v (%s) but never received %v published at %v (received %d tags)", v, v.AckAt, end, v.EndWhy, t, t.SentAt, len(v.Recv))
				return
			}
		}
	}
}

// sameAU compares bodies where the server may have dropped access unit
// delimiters.
func (p *Session) sameAU(t *Tag, rt *RTag) bool {
	if p.Proto != "srt" || rt.T != 9 || len(rt.B) < 5 || !bytes.Equal(rt.B[:5], t.B[:5]) {
		return false
	}
	return bytes.Equal(lenPrefixed(noAUD(splitLen(rt.B[5:]))), t.B[5:])
}

// keyOf is the position of the last key frame before t.
func keyOf(p *Session, t *Tag) int {
	i := t.Pos
	for i > 0 && p.Pub[i].Kind != kKey {
		i--
	}
	return i
}

func (w *World) classify(rt *RTag) int {
	switch rt.T {
	case 18:
		if metaOf(rt.B) != nil {
			return kMeta
		}
		return kData
	case 9:
		if len(rt.B) >= 5 && (rt.B[0]&15 == 7 || rt.B[0]&15 == 12) && rt.B[1] == 0 {
			return kVHdr
		}
		if len(rt.B) == 5 && (rt.B[0]&15 == 7 || rt.B[0]&15 == 12) && rt.B[1] == 2 {
			return kEOS
		}
	case 8:
		if len(rt.B) >= 2 && (rt.B[0]>>4 == 10 || rt.B[0]>>4 == 13) && rt.B[1] == 0 {
			return kAHdr
		}
	}
	return kInter
}

// eosOf finds which end-of-sequence tag a received one is: they carry no
// mark of their own.
func (w *World) eosOf(v *Viewer, rt *RTag, sess *Session, last *Tag) (*Session, *Tag) {
	for _, p := range w.pubs {
		if p.App != v.App || p.Nm != v.Nm || p.State == "refused" || sess != nil && p != sess {
			continue
		}
		for _, t := range p.Pub {
			if t.Kind == kEOS && t.Ts == rt.Ts && bytes.Equal(t.B, rt.B) && rt.At >= t.SentAt && (last == nil || t.Pos > last.Pos) {
				return p, t
			}
		}
	}
	return nil, nil
}

func metaOf(b []byte) map[string]any {
	vs, err := amfDec(b)
	if err != nil || len(vs) < 2 {
		return nil
	}
	i := 0
	if vs[0] == "@setDataFrame" {
		i = 1
	}
	if i+1 >= len(vs) || vs[i] != "onMetaData" {
		return nil
	}
	m, _ := vs[i+1].(map[string]any)
	return m
}

// frameOf finds what a received frame tag is.
func (w *World) frameOf(v *Viewer, rt *RTag) (*Session, *Tag) {
	if rt.T == 18 {
		vs, err := amfDec(rt.B)
		if err != nil || len(vs) < 2 {
			return nil, nil
		}
		m, _ := vs[1].(map[string]any)
		s, _ := m["text"].(string)
		var a, b int
		if n, _ := fmt.Sscanf(s, "t-%d-%d", &a, &b); n != 2 {
			return nil, nil
		}
		return w.bySess(a, b)
	}
	p, t := w.identify(rt.B, rt.T)
	return p, t
}

// finish waits for the publishers and then the viewers, and ends the run.
func (w *World) finish(settle time.Duration) {
	w.s.GoOn(w.s.Node("director", "10.9.9.9", true), "director", func() {
		w.waitUntil(time.Duration(w.plan.k("maxrun", 300))*time.Second, func() bool {
			for _, p := range w.pubs {
				if !p.Ended && p.EndKind != "held" {
					return false
				}
			}
			return w.hold == 0
		})
		w.sleep(settle)
		w.endRun()
	})
}

func (w *World) endRun() {
	w.quit()
	w.waitUntil(20*time.Second, func() bool { return w.alive == 0 })
	w.s.Stop("done")
}
