package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
	"time"

	"verif/simrt"
)

// ---- media model ----------------------------------------------------------------

const (
	kMeta = iota
	kVHdr
	kAHdr
	kKey
	kInter
	kAudio
	kData // other script data
	kEOS  // end of sequence: a video tag without a picture
)

var kindName = []string{"meta", "vhdr", "ahdr", "key", "inter", "audio", "data", "eos"}

// Tag is one published FLV tag.
type Tag struct {
	Kind int
	T    byte // 8, 9, 18
	Ts   uint32
	B    []byte // body as published (for meta: the canonical onMetaData form is in Meta)
	Idx  int    // index in the generated list (part of the embedded id)
	Pos  int    // position in publication order (-1: not published)
	Cts  int32
	Samp int64    // RTSP: audio clock
	Nals [][]byte // video: NAL units; audio: one raw frame
	Meta map[string]any
	// state in force when the tag is published (positions in Pub, -1 none)
	VH, AH, MH int
	GOP        int // number of key frames published up to and including this tag

	SentAt time.Duration // its last byte was handed to TCP no earlier than this
	DueAt  time.Duration // SRT: when what shows that it is complete was sent
	Asc    []byte        // SRT: audio configuration
	AHd    *Tag          // SRT: the configuration it is the first with
	Sent   bool          // the write that carried it returned without error
	Pace   time.Duration // wait before sending
	Gap    bool
}

// due is from when on the server has all it needs.
func (t *Tag) due() time.Duration {
	if t.DueAt > t.SentAt {
		return t.DueAt
	}
	return t.SentAt
}

func (t *Tag) isFrame() bool {
	return t.Kind == kKey || t.Kind == kInter || t.Kind == kAudio || t.Kind == kData
}
func (t *Tag) isVideo() bool { return t.Kind == kKey || t.Kind == kInter }
func (t *Tag) String() string {
	return fmt.Sprintf("#%d %s ts=%d len=%d", t.Idx, kindName[t.Kind], t.Ts, len(t.B))
}

// StreamParams describes a generated stream.
type StreamParams struct {
	Video, Audio, MetaOn bool
	HEVC                 bool
	Frames               int // video frames (or audio frames when audio only)
	GOP                  int // frames per GOP
	FrameMs              int // ms between video frames
	AudioMs              int // ms between audio frames
	MaxBody              int // body size bound
	BaseTs               uint32
	HdrOrder             int // permutation of header order
	LateHdr              bool
	HdrChange            int // change decoder configuration every n GOPs (0: never)
	RepeatHdr            bool
	MetaChange           bool
	Cts                  bool
	Nals                 int  // NALs per frame
	Burst                bool // no pacing
	JunkData             bool
	EOS                  int  // end-of-sequence tags: 1 at the end, 2 also before a change of configuration
	NoKeyFirst           bool // start with inter frames
	Irregular            bool
	InBand               bool // encoders that repeat AUD, SEI and parameter sets in key frames
	NegCts               bool
	BigCts               bool // offsets of minutes
	ABits                int  // low bits of the audio tags' first byte
	RichHdr              bool // long decoder configurations (several PPS, profile extension)
	TinyV                bool // very small frames
	Edge                 bool // frames of sizes at which an encoding of the size changes
	ACodec               int  // FLV sound format: 10 AAC, 13 Opus, 2 MP3
	BigA                 bool // some audio frames of several kilobytes
	Skew                 int  // ms by which audio runs ahead of video in the stream
	Mono                 bool // RTSP: the SDP says one audio channel
}

// uid writes a recognisable, zero-free id.
func uid(sess, idx int) []byte {
	b := make([]byte, 8)
	v := uint64(sess)<<24 | uint64(idx)&0xffffff
	for i := 7; i >= 0; i-- {
		b[i] = 0x80 | byte(v&0x7f)
		v >>= 7
	}
	return b
}

func parseUID(b []byte) (sess, idx int, ok bool) {
	if len(b) < 8 {
		return
	}
	var v uint64
	for i := 0; i < 8; i++ {
		if b[i]&0x80 == 0 {
			return
		}
		v = v<<7 | uint64(b[i]&0x7f)
	}
	return int(v >> 24), int(v & 0xffffff), true
}

// payload is zero-free pseudo-random data that begins with the id.
func payload(r *simrt.Rand, sess, idx, n int) []byte {
	b := uid(sess, idx)
	if n < len(b) {
		n = len(b)
	}
	out := make([]byte, n)
	copy(out, b)
	x := r.U64() | 1
	for i := 8; i < n; i++ {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		out[i] = byte(x%255) + 1
	}
	return out
}

// decoder configurations -----------------------------------------------------------

// avcConfig makes an AVCDecoderConfigurationRecord whose SPS is syntactically
// valid baseline 3.0 and whose PPS carries a variant mark.
func avcConfig(variant int, rich bool) (rec, sps, pps []byte) {
	w, h := avcSize(variant)
	bw := &bitw{}
	bw.ue(0) // sps id
	if rich {
		bw.ue(1) // chroma_format_idc
		bw.ue(0) // bit depths
		bw.ue(0)
		bw.u(0, 2) // bypass, scaling matrix
	}
	bw.ue(0)                    // log2_max_frame_num-4
	bw.ue(2)                    // poc type
	bw.ue(1)                    // refs
	bw.u(0, 1)                  // gaps
	bw.ue(w - 1)                // width
	bw.ue(h - 1)                // height
	bw.u(1, 1)                  // frame_mbs_only
	bw.u(1, 1)                  // direct8x8
	bw.u(0, 1)                  // crop
	if rich && variant%2 == 1 { // timing of a decoder's buffers: hundreds of bytes
		bw.u(1, 1)
		bw.u(0, 5) // aspect, overscan, signal, chroma, timing
		bw.u(1, 1)
		bw.ue(31)
		bw.u(0x55, 8)
		for k := 0; k < 32; k++ {
			bw.ue(0xdb6e + k)
			bw.ue(0xe6db - variant%100)
			bw.u(1, 1)
		}
		bw.u(0xb5ad6, 20)
		bw.u(0, 1)
		bw.u(1, 1) // low delay
		bw.u(1, 1)
		bw.u(0, 1)
	} else {
		bw.u(0, 1) // vui
	}
	bw.u(1, 1) // stop
	body := bw.bytes()
	sps = append([]byte{0x67, 0x42, 0xc0, 0x1e}, body...)
	if rich {
		sps = append([]byte{0x67, 0x64, 0x81, 0x1e}, body...)
	}
	pps = []byte{0x68, 0xce, 0x38, 0x80, 0x81 + byte(variant%100)}
	if rich { // scaling lists
		pps = append(pps, longTail(variant)...)
	}
	rec = []byte{1, sps[1], sps[2], sps[3], 0xff, 0xe1, byte(len(sps) >> 8), byte(len(sps))}
	rec = append(rec, sps...)
	rec = append(rec, 1, byte(len(pps)>>8), byte(len(pps)))
	rec = append(rec, pps...)
	if rich {
		rec = append(rec, 0xfd, 0xf8, 0xf8, 0x00)
	}
	return
}

// longTail makes some parameter sets longer than a byte can tell.
func longTail(variant int) (b []byte) {
	for k := []int{0, 300, 7, 240}[variant%4]; k > 0; k-- {
		b = append(b, 0x41+byte(k*5+variant)%120)
	}
	return
}

// avcSize is the picture size in macroblocks.
func avcSize(variant int) (w, h int) {
	return []int{40, 80, 22, 30}[variant%4], []int{30, 45, 18, 20}[variant%4]
}

type bitw struct {
	b []byte
	n int
}

func (w *bitw) bit(v int) {
	if w.n%8 == 0 {
		w.b = append(w.b, 0)
	}
	if v != 0 {
		w.b[w.n/8] |= 0x80 >> (w.n % 8)
	}
	w.n++
}
func (w *bitw) u(v, n int) {
	for i := n - 1; i >= 0; i-- {
		w.bit(v >> i & 1)
	}
}
func (w *bitw) ue(v int) {
	v++
	n := 0
	for x := v; x > 1; x >>= 1 {
		n++
	}
	w.u(0, n)
	w.u(v, n+1)
}
func (w *bitw) bytes() []byte { return w.b }

// hevcConfig makes an HEVCDecoderConfigurationRecord with VPS, SPS and PPS.
func hevcConfig(variant int, rich bool) (rec []byte, vps, sps, pps []byte) {
	ptl := []byte{0x01, 0x60, 0x11, 0x11, 0x90, 0x11, 0x11, 0x11, 0x11, 0x11, 0x5d, 0x11}
	vps = append([]byte{0x40, 0x01, 0x0c, 0x01, 0xff, 0xff}, ptl[:6]...)
	vps = append(vps, 0x95, 0x81+byte(variant%100))
	sps = append([]byte{0x42, 0x01, 0x01}, ptl...)
	bw := &bitw{}
	if rich { // temporal sub-layers
		sps[2] |= byte(1+variant%3) << 1
		bw.u(0, 16)
	}
	mw, mh := avcSize(variant)
	bw.ue(0)
	bw.ue(1)
	bw.ue(mw * 16)
	bw.ue(mh * 16)
	bw.u(0, 1)
	bw.u(variant%100, 8)
	bw.u(1, 1)
	sps = append(sps, bw.bytes()...)
	pps = []byte{0x44, 0x01, 0xc1, 0x72, 0xb4, 0x81 + byte(variant%100)}
	if rich {
		pps = append(pps, longTail(variant)...)
	}
	rec = []byte{1, 0x01, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 93, 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0, 0x0f, 3}
	add := func(t byte, n []byte) {
		rec = append(rec, 0x80|t, 0, 1, byte(len(n)>>8), byte(len(n)))
		rec = append(rec, n...)
	}
	add(32, vps)
	add(33, sps)
	add(34, pps)
	return
}

var aacRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

func aacConfig(variant int) []byte {
	idx := []int{4, 3, 7, 4, 3, 8, 0, 1, 5, 12}[variant%10]
	ch := []int{2, 2, 1, 1, 6, 5, 2, 1, 2, 7}[variant%10]
	v := 2<<11 | idx<<7 | ch<<3
	return []byte{byte(v >> 8), byte(v)}
}

func opusHead(variant int) []byte {
	b := append([]byte("OpusHead"), 1, byte(1+variant%2), 0x38, byte(1+variant), 0x80, 0xbb, 0, 0, 0, 0, 0)
	return b
}

func videoBody(ft byte, hevc bool, pt byte, cts int32, data []byte) []byte {
	codec := byte(7)
	if hevc {
		codec = 12
	}
	return append([]byte{ft<<4 | codec, pt, byte(cts >> 16), byte(cts >> 8), byte(cts)}, data...)
}

func lenPrefixed(nals [][]byte) []byte {
	var b []byte
	for _, n := range nals {
		b = binary.BigEndian.AppendUint32(b, uint32(len(n)))
		b = append(b, n...)
	}
	return b
}

// inBand is what encoders put before the slices of a key frame.
func inBand(r *simrt.Rand, variant int, sp StreamParams) (ns [][]byte) {
	sei := []byte{0x06, 5, 8, 1, 2, 3, 4, 5, 6, 7, 8, 0x80}
	if sp.HEVC {
		_, v, s, p := hevcConfig(variant, sp.RichHdr)
		return append(ns, []byte{35 << 1, 1, 0x50}, v, s, p)
	}
	_, s, p := avcConfig(variant, sp.RichHdr)
	switch r.Intn(4) {
	case 0:
		return append(ns, []byte{9, 0xf0}, s, p, sei)
	case 1:
		return append(ns, s, p)
	case 2:
		return append(ns, []byte{9, 0x10}, sei)
	}
	return append(ns, sei)
}

// genStream makes the tags of one session.
func genStream(r *simrt.Rand, sess int, sp StreamParams) []*Tag {
	var out []*Tag
	vh, ah := -1, -1
	add := func(t *Tag) {
		t.Idx, t.Pos = len(out), -1
		switch t.Kind {
		case kVHdr:
			vh = t.Idx
		case kAHdr:
			ah = t.Idx
		}
		out = append(out, t)
	}
	variant := sess*8 + r.Intn(8)
	mkMeta := func(ts uint32) *Tag {
		m := map[string]any{
			"width": float64(320 + 16*r.Intn(100)), "height": float64(240 + 16*r.Intn(50)),
			"framerate": float64(10 + r.Intn(50)), "videocodecid": 7.0, "audiocodecid": 10.0,
			"audiosamplerate": 44100.0, "audiosamplesize": 16.0, "stereo": r.Bool(0.5),
			"encoder": fmt.Sprintf("enc-%d-%d", sess, len(out)), "videodatarate": float64(r.Intn(9000)),
			"duration": 0.0, "filesize": 0.0,
		}
		// properties whose names or types a naive decoder trips over
		if r.Bool(0.3) {
			m["audiochannels"] = 2.0
		}
		if r.Bool(0.2) {
			m["2.1"] = false
			m["custom"] = map[string]any{"a": 1.0, "b": "x"}
		}
		if r.Bool(0.15) {
			m["timestamp"] = float64(1 + r.Intn(1000))
			m["datasize"] = 77.0
		}
		if r.Bool(0.15) {
			m["width"] = "640"
			m["stereo"] = 1.0
		}
		if r.Bool(0.1) {
			m["comment"] = strings.Repeat("c", 300+r.Intn(2000))
		}
		var b []byte
		if r.Bool(0.7) {
			b = append(b, amfEnc("@setDataFrame")...)
		}
		b = append(b, amfEnc("onMetaData")...)
		if r.Bool(0.5) {
			e := amfEnc(ecma(m))
			// the count is only a hint; encoders also send 0 or a stale one
			switch r.Pick(4, 1, 1) {
			case 1:
				binary.BigEndian.PutUint32(e[1:], 0)
			case 2:
				binary.BigEndian.PutUint32(e[1:], uint32(r.Intn(40)))
			}
			b = append(b, e...)
		} else {
			b = append(b, amfEnc(m)...)
		}
		return &Tag{Kind: kMeta, T: 18, Ts: ts, B: b, Meta: m}
	}
	mkV := func(ts uint32) *Tag {
		var rec []byte
		if sp.HEVC {
			rec, _, _, _ = hevcConfig(variant, sp.RichHdr)
		} else {
			rec, _, _ = avcConfig(variant, sp.RichHdr)
		}
		return &Tag{Kind: kVHdr, T: 9, Ts: ts, B: videoBody(1, sp.HEVC, 0, 0, rec)}
	}
	mkA := func(ts uint32) *Tag {
		if sp.ACodec == 13 {
			return &Tag{Kind: kAHdr, T: 8, Ts: ts, B: append([]byte{0xde | byte(variant&1), 0}, opusHead(variant)...)}
		}
		return &Tag{Kind: kAHdr, T: 8, Ts: ts, B: append([]byte{0xaf ^ byte(sp.ABits), 0}, aacConfig(variant)...)}
	}
	base := sp.BaseTs
	var hs []func(uint32) *Tag
	if sp.MetaOn {
		hs = append(hs, mkMeta)
	}
	if sp.Video {
		hs = append(hs, mkV)
	}
	if sp.Audio && sp.ACodec != 2 {
		hs = append(hs, mkA)
	}
	for i := range hs { // rotate / swap
		j := (i + sp.HdrOrder) % len(hs)
		if sp.HdrOrder >= 3 {
			j = len(hs) - 1 - j
		}
		hs[i], hs[j] = hs[j], hs[i]
	}
	late := []func(uint32) *Tag{}
	if sp.LateHdr && len(hs) > 1 {
		late = hs[len(hs)-1:]
		hs = hs[:len(hs)-1]
	}
	for _, h := range hs {
		add(h(base))
	}
	body := func() int {
		if sp.TinyV {
			return 8 + r.Intn(120)
		}
		m := sp.MaxBody
		if m < 20 {
			m = 20
		}
		switch r.Pick(5, 3, 2) {
		case 0:
			return 12 + r.Intn(120)
		case 1:
			return 12 + r.Intn(m/4+1)
		}
		return 12 + r.Intn(m)
	}
	mkAudio := func(ts uint32) *Tag {
		idx := len(out)
		raw := payload(r, sess, idx, 9+r.Intn(200))
		if sp.BigA && r.Bool(0.08) {
			raw = payload(r, sess, idx, int(pick64(r, 1200, 2032, 2033, 2034, 2040, 2041, 2042, 4096))+r.Intn(3)*r.Intn(1900))
		}
		hd := []byte{0xaf ^ byte(sp.ABits), 1}
		switch sp.ACodec {
		case 13:
			hd[0] = 0xde | byte(variant&1)
		case 2: // has no configuration
			hd = []byte{0x2f ^ byte(sp.ABits)}
		}
		return &Tag{Kind: kAudio, T: 8, Ts: ts, B: append(hd, raw...), Nals: [][]byte{raw}}
	}
	if sp.FrameMs <= 0 {
		sp.FrameMs = 40
	}
	if sp.AudioMs <= 0 {
		sp.AudioMs = 23
	}
	vt, at := int64(0), int64(0)
	nv, na := 0, 0
	total := sp.Frames
	lastTs := int64(0)
	for n := 0; n < total; {
		doAudio := sp.Audio && (!sp.Video || at < vt+int64(sp.Skew))
		var t *Tag
		var ts int64
		if doAudio {
			ts = at
			if len(late) > 0 && ah < 0 && !sp.LateHdr {
				late = nil
			}
			t = mkAudio(base + uint32(ts))
			d := int64(sp.AudioMs)
			if sp.Irregular && r.Bool(0.2) {
				d += int64(r.Intn(15))
			}
			at += d
			na++
			if !sp.Video {
				n++
			}
		} else {
			ts = vt
			key := nv%sp.GOP == 0
			if sp.NoKeyFirst {
				key = (nv+sp.GOP/2)%sp.GOP == 0
			}
			if key && nv > 0 && sp.HdrChange > 0 && (nv/sp.GOP)%sp.HdrChange == 0 {
				variant++
				if sp.EOS == 2 {
					add(&Tag{Kind: kEOS, T: 9, Ts: base + uint32(ts), B: videoBody(1, sp.HEVC, 2, 0, nil)})
				}
				switch r.Intn(3) {
				case 0:
					add(mkV(base + uint32(ts)))
				case 1:
					if sp.Audio && sp.ACodec != 2 {
						add(mkA(base + uint32(ts)))
					}
					add(mkV(base + uint32(ts)))
				case 2:
					add(mkV(base + uint32(ts)))
					if sp.Audio && sp.ACodec != 2 {
						add(mkA(base + uint32(ts)))
					}
				}
			} else if key && nv > 0 && sp.RepeatHdr && vh >= 0 {
				c := *out[vh]
				c.Ts = base + uint32(ts)
				add(&c)
			}
			if key && nv > 0 && sp.MetaChange && sp.MetaOn {
				add(mkMeta(base + uint32(ts)))
			}
			var cts int32
			if sp.Cts {
				cts = int32(r.Intn(4)) * int32(sp.FrameMs)
				if sp.NegCts && !key {
					cts -= int32(sp.FrameMs)
				}
				if sp.BigCts && r.Bool(0.2) {
					cts = int32(r.Intn(1<<24)) - 1<<23
				}
			}
			nn := 1
			if sp.Nals > 1 {
				nn = 1 + r.Intn(sp.Nals)
			}
			t = &Tag{Cts: cts, T: 9, Ts: base + uint32(ts)}
			idx := len(out)
			// any IDR or CRA picture, any reference priority
			keyNal, interNal, refIdc := byte(pick64(r, 19, 19, 20, 21)), byte(pick64(r, 1, 1, 0)), byte(pick64(r, 3, 3, 2, 1))
			if !key && r.Bool(0.3) {
				refIdc = 0
			}
			if sp.InBand && key {
				t.Nals = append(t.Nals, inBand(r, variant, sp)...)
			}
			for k := 0; k < nn; k++ {
				pl := payload(r, sess, idx, body())
				var hd []byte
				switch {
				case sp.HEVC && key:
					hd = []byte{keyNal << 1, 1}
				case sp.HEVC:
					hd = []byte{interNal << 1, 1}
				case key:
					hd = []byte{refIdc<<5 | 5}
				default:
					hd = []byte{refIdc<<5 | 1}
				}
				t.Nals = append(t.Nals, append(hd, pl...))
			}
			if sp.Edge && r.Bool(0.3) {
				n := 5
				for _, x := range t.Nals {
					n += 4 + len(x)
				}
				to := []int{125, 126, 128, 256, 4096, 8192, 65535, 65536}[r.Intn(8)] - []int{0, 4, 11, 15}[r.Intn(4)] + r.Intn(3) - 1
				if k := len(t.Nals) - 1; to >= n+9 {
					t.Nals[k] = append(t.Nals[k], payload(r, sess, idx, to-n+8)[8:]...)
				}
			}
			ft := byte(2)
			t.Kind = kInter
			if key {
				ft = 1
				t.Kind = kKey
			}
			t.B = videoBody(ft, sp.HEVC, 1, cts, lenPrefixed(t.Nals))
			d := int64(sp.FrameMs)
			if sp.Irregular && r.Bool(0.2) {
				d += int64(r.Intn(sp.FrameMs))
			}
			vt += d
			nv++
			n++
		}
		if !sp.Burst && ts > lastTs {
			t.Pace = time.Duration(ts-lastTs) * time.Millisecond
		}
		if ts > lastTs {
			lastTs = ts
		}
		add(t)
		if len(late) > 0 && nv+na >= 1+r.Intn(6) {
			for _, h := range late {
				add(h(base + uint32(ts)))
			}
			late = nil
		}
		if sp.JunkData && r.Bool(0.05) {
			b := append(amfEnc([]string{"onTextData", "onCuePoint", "onCaptionInfo", "onXMPData"}[len(out)%4]), amfEnc(map[string]any{"text": fmt.Sprintf("t-%d-%d", sess, len(out))})...)
			add(&Tag{Kind: kData, T: 18, Ts: base + uint32(ts), B: b})
		}
	}
	if sp.EOS != 0 && vh >= 0 && nv > 0 {
		add(&Tag{Kind: kEOS, T: 9, Ts: base + uint32(lastTs), B: videoBody(1, sp.HEVC, 2, 0, nil)})
	}
	return out
}

// ---- sessions ---------------------------------------------------------------------

// Session is one publishing attempt, with everything the oracles need.
type Session struct {
	hlsBase         map[bool]uint64
	ID              int
	App, Nm         string
	Proto           string
	Tags            []*Tag // generated
	Pub             []*Tag // in publication order
	vh, ah, mh, gop int
	ReqAt           time.Duration // publish command sent
	AckAt           time.Duration // accepted
	State           string        // "", accepted, refused, error, closed-early
	Refusal         string
	FirstTag        time.Duration
	EndAt           time.Duration // connection gone (as initiated)
	EndKind         string
	Sent            int // tags fully handed to TCP
	Ended           bool
	SP              StreamParams
	SentAll         bool
	Err             string
	SentB           int64
	Cut             bool // stopped in the middle of a message
	RC              *RC
	Win             uint32
	Pings           []uint32
	AckStall        bool
	UDP             bool // RTSP: some track goes over UDP
	RP              *rtspPub
	SRT             *srtPub
	Op              *Op
	gen             []*Tag // SRT: as generated
}

type ackRec struct {
	V  uint32
	At time.Duration
	Tx int64 // bytes handed to TCP when it arrived
}

// publish appends t to the publication order.
func (p *Session) publish(t *Tag) {
	t.Pos = len(p.Pub)
	switch t.Kind {
	case kVHdr:
		p.vh = t.Pos
	case kAHdr:
		p.ah = t.Pos
	case kMeta:
		p.mh = t.Pos
	case kKey:
		p.gop++
	}
	t.VH, t.AH, t.MH, t.GOP = p.vh, p.ah, p.mh, p.gop
	p.Pub = append(p.Pub, t)
}

func (w *World) newSession(app, nm, proto string, sp StreamParams, seed uint64) *Session {
	w.sessSeq++
	p := &Session{ID: w.sessSeq, App: app, Nm: nm, Proto: proto, SP: sp, vh: -1, ah: -1, mh: -1}
	p.Tags = genStream(w.rng(5, seed, uint64(w.sessSeq)), p.ID, sp)
	switch proto {
	case "rtsp":
		rtspTags(p)
	case "srt":
		srtTags(p)
	}
	w.pubs = append(w.pubs, p)
	return p
}

// identify finds the session and tag a received body belongs to.
func (w *World) identify(b []byte, t byte) (*Session, *Tag) {
	switch {
	case t == 8 && len(b) >= 10 && b[0]>>4 == 2:
		return w.byUID(b[1:])
	case t == 8 && len(b) >= 10 && b[1] == 1:
		return w.byUID(b[2:])
	case t == 9 && len(b) >= 5 && (b[0]&15 == 7 || b[0]&15 == 12) && b[1] == 1:
		return w.byNals(splitLen(b[5:]), b[0]&15 == 12)
	}
	return nil, nil
}

func (w *World) byUID(id []byte) (*Session, *Tag) {
	s, i, ok := parseUID(id)
	if !ok {
		return nil, nil
	}
	return w.bySess(s, i)
}

// byNals identifies an access unit by its first slice.
func (w *World) byNals(ns [][]byte, hevc bool) (*Session, *Tag) {
	for _, n := range ns {
		switch {
		case hevc && len(n) > 2 && n[0]>>1 < 32:
			return w.byUID(n[2:])
		case !hevc && len(n) > 1 && (n[0]&31 == 1 || n[0]&31 == 5):
			return w.byUID(n[1:])
		}
	}
	return nil, nil
}

// splitLen splits length-prefixed NAL units; a bad length ends the list.
func splitLen(b []byte) (ns [][]byte) {
	for len(b) >= 4 {
		n := int(binary.BigEndian.Uint32(b))
		if n > len(b)-4 || n < 0 {
			return
		}
		ns = append(ns, b[4:4+n])
		b = b[4+n:]
	}
	return
}

func (w *World) bySess(s, i int) (*Session, *Tag) {
	for _, p := range w.pubs {
		if p.ID == s {
			gen := p.gen
			if gen == nil {
				gen = p.Tags
			}
			if i < len(gen) {
				return p, gen[i]
			}
			return p, nil
		}
	}
	return nil, nil
}

func sameMeta(a, b map[string]any) string {
	for k, v := range a {
		x, ok := b[k]
		if !ok {
			return "missing " + k
		}
		if !reflect.DeepEqual(x, v) {
			return fmt.Sprintf("%s is %v, published %v", k, x, v)
		}
	}
	return ""
}

var _ = bytes.Equal

type tsKey struct {
	sess int
	t    byte
}

// tsWrong says whether a viewer got t with a timestamp it must not have. An
// RTP publisher's clock starts anywhere, so what counts is how far the
// timestamps of a track are apart, to the millisecond FLV can express.
func (p *Session) tsWrong(v *Viewer, t *Tag, ts uint32) bool {
	if p.Proto == "rtmp" {
		return ts != t.Ts
	}
	if v.tsOff == nil {
		v.tsOff = map[tsKey]int64{}
	}
	k := tsKey{p.ID, t.T}
	slack := int64(1)
	if p.Proto == "srt" { // one clock for both tracks
		k.t = 0
		slack = 2
	}
	d := int64(int32(ts - t.Ts))
	o, ok := v.tsOff[k]
	if !ok {
		v.tsOff[k] = d
		return false
	}
	return d < o-slack || d > o+slack
}
