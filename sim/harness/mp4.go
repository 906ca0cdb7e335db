package main

import (
	"encoding/binary"
	"encoding/xml"
	"fmt"
	"strconv"
	"strings"
	"time"
)

// ---- ISO base media files ---------------------------------------------------------------

type mbox struct {
	Type string
	Off  int // of the header, in the file
	Body []byte
}

// boxes splits a byte range into boxes that tile it.
func boxes(b []byte, off int) ([]mbox, error) {
	var out []mbox
	for len(b) > 0 {
		if len(b) < 8 {
			return nil, fmt.Errorf("%d stray bytes at %d", len(b), off)
		}
		n := int(binary.BigEndian.Uint32(b))
		h := 8
		if n == 1 {
			if len(b) < 16 {
				return nil, fmt.Errorf("box at %d is cut off", off)
			}
			n = int(binary.BigEndian.Uint64(b[8:]))
			h = 16
		}
		if n < h || n > len(b) {
			return nil, fmt.Errorf("box %q at %d has size %d, %d bytes are left", b[4:8], off, n, len(b))
		}
		out = append(out, mbox{string(b[4:8]), off, b[h:n]})
		b = b[n:]
		off += n
	}
	return out, nil
}

func kids(b mbox, skip int) ([]mbox, error) {
	if len(b.Body) < skip {
		return nil, fmt.Errorf("box %s is too short", b.Type)
	}
	x, err := boxes(b.Body[skip:], 0)
	if err != nil {
		return nil, fmt.Errorf("in %s: %v", b.Type, err)
	}
	return x, nil
}

// one finds exactly one child box.
func one(bs []mbox, t string) (mbox, error) {
	var r mbox
	n := 0
	for _, b := range bs {
		if b.Type == t {
			r = b
			n++
		}
	}
	if n != 1 {
		return r, fmt.Errorf("%d %s boxes", n, t)
	}
	return r, nil
}

type mSample struct {
	Dur, Size, Flags uint32
	Cts              int64
	Data             []byte
}

type mFrag struct {
	Seq     uint32
	Track   uint32
	Base    uint64
	Samples []mSample
}

func (f *mFrag) dur() (d uint64) {
	for _, s := range f.Samples {
		d += uint64(s.Dur)
	}
	return
}

type rdr struct {
	b   []byte
	err error
}

func (r *rdr) u(n int) (v uint64) {
	if len(r.b) < n {
		r.err = fmt.Errorf("box is too short")
		r.b = nil
		return 0
	}
	for _, x := range r.b[:n] {
		v = v<<8 | uint64(x)
	}
	r.b = r.b[n:]
	return
}

// parseFrag reads one media segment.
func parseFrag(b []byte) (*mFrag, error) {
	top, err := boxes(b, 0)
	if err != nil {
		return nil, err
	}
	f := &mFrag{}
	var moof, mdat *mbox
	for i := range top {
		switch t := &top[i]; t.Type {
		case "moof":
			if moof != nil {
				return nil, fmt.Errorf("two moof boxes")
			}
			moof = t
		case "mdat":
			if mdat != nil || moof == nil {
				return nil, fmt.Errorf("misplaced mdat")
			}
			mdat = t
		case "styp", "sidx", "emsg", "prft", "free", "skip":
		default:
			return nil, fmt.Errorf("unexpected box %q", t.Type)
		}
	}
	if moof == nil || mdat == nil {
		return nil, fmt.Errorf("no moof or no mdat")
	}
	ks, err := kids(*moof, 0)
	if err != nil {
		return nil, err
	}
	mfhd, err := one(ks, "mfhd")
	if err != nil {
		return nil, err
	}
	r := &rdr{b: mfhd.Body}
	r.u(4)
	f.Seq = uint32(r.u(4))
	traf, err := one(ks, "traf")
	if err != nil {
		return nil, err
	}
	ts, err := kids(traf, 0)
	if err != nil {
		return nil, err
	}
	tfhd, e1 := one(ts, "tfhd")
	tfdt, e2 := one(ts, "tfdt")
	trun, e3 := one(ts, "trun")
	if e1 != nil || e2 != nil || e3 != nil {
		return nil, fmt.Errorf("traf: %v %v %v", e1, e2, e3)
	}
	var ddur, dsize, dflags uint32
	r = &rdr{b: tfhd.Body}
	fl := r.u(4)
	f.Track = uint32(r.u(4))
	base := int64(moof.Off)
	if fl&1 != 0 {
		base = int64(r.u(8))
	} else if fl&0x20000 == 0 {
		return nil, fmt.Errorf("tfhd without default-base-is-moof")
	}
	if fl&2 != 0 {
		r.u(4)
	}
	if fl&8 != 0 {
		ddur = uint32(r.u(4))
	}
	if fl&16 != 0 {
		dsize = uint32(r.u(4))
	}
	if fl&32 != 0 {
		dflags = uint32(r.u(4))
	}
	if r.err != nil || len(r.b) != 0 {
		return nil, fmt.Errorf("tfhd has the wrong length")
	}
	r = &rdr{b: tfdt.Body}
	if v := r.u(4) >> 24; v == 1 {
		f.Base = r.u(8)
	} else {
		f.Base = r.u(4)
	}
	if r.err != nil || len(r.b) != 0 {
		return nil, fmt.Errorf("tfdt has the wrong length")
	}
	r = &rdr{b: trun.Body}
	h := r.u(4)
	fl = h & 0xffffff
	n := int(r.u(4))
	var doff int64
	if fl&1 == 0 {
		return nil, fmt.Errorf("trun without data offset")
	}
	doff = int64(int32(r.u(4)))
	first := int64(-1)
	if fl&4 != 0 {
		first = int64(r.u(4))
	}
	if n == 0 || n > 1<<20 {
		return nil, fmt.Errorf("trun with %d samples", n)
	}
	pos := base + doff
	start := int64(mdat.Off) + 8
	for i := 0; i < n && r.err == nil; i++ {
		s := mSample{Dur: ddur, Size: dsize, Flags: dflags}
		if fl&0x100 != 0 {
			s.Dur = uint32(r.u(4))
		}
		if fl&0x200 != 0 {
			s.Size = uint32(r.u(4))
		}
		if fl&0x400 != 0 {
			s.Flags = uint32(r.u(4))
		} else if i == 0 && first >= 0 {
			s.Flags = uint32(first)
		}
		if fl&0x800 != 0 {
			c := uint32(r.u(4))
			if s.Cts = int64(c); h>>24 == 1 {
				s.Cts = int64(int32(c))
			}
		}
		if pos < start || pos+int64(s.Size) > start+int64(len(mdat.Body)) {
			return nil, fmt.Errorf("sample %d at %d..%d lies outside the mdat at %d..%d", i, pos, pos+int64(s.Size), start, start+int64(len(mdat.Body)))
		}
		s.Data = mdat.Body[pos-start : pos-start+int64(s.Size)]
		pos += int64(s.Size)
		f.Samples = append(f.Samples, s)
	}
	if r.err != nil || len(r.b) != 0 {
		return nil, fmt.Errorf("trun has the wrong length")
	}
	if base+doff != start || pos != start+int64(len(mdat.Body)) {
		return nil, fmt.Errorf("samples cover %d..%d, the mdat is %d..%d", base+doff, pos, start, start+int64(len(mdat.Body)))
	}
	return f, nil
}

type mInit struct {
	Track, Timescale uint32
	W, H             int // track header
	EW, EH           int // sample entry
	Entry            string
	Conf             []byte // avcC or hvcC
}

// parseInit reads an initialisation segment.
func parseInit(b []byte) (*mInit, error) {
	top, err := boxes(b, 0)
	if err != nil {
		return nil, err
	}
	if len(top) < 2 || top[0].Type != "ftyp" {
		return nil, fmt.Errorf("does not start with ftyp")
	}
	in := &mInit{}
	path := func(from mbox, names ...string) (mbox, error) {
		cur := from
		for _, n := range names {
			ks, err := kids(cur, 0)
			if err != nil {
				return cur, err
			}
			if cur, err = one(ks, n); err != nil {
				return cur, err
			}
		}
		return cur, nil
	}
	moov, err := one(top, "moov")
	if err != nil {
		return nil, err
	}
	for _, p := range [][]string{{"mvhd"}, {"trak", "mdia", "hdlr"}, {"trak", "mdia", "minf", "vmhd"}, {"trak", "mdia", "minf", "dinf", "dref"},
		{"trak", "mdia", "minf", "stbl", "stts"}, {"trak", "mdia", "minf", "stbl", "stsc"}, {"trak", "mdia", "minf", "stbl", "stsz"}, {"trak", "mdia", "minf", "stbl", "stco"}} {
		if _, err := path(moov, p...); err != nil {
			return nil, fmt.Errorf("%v: %v", p, err)
		}
	}
	hd, _ := path(moov, "trak", "mdia", "hdlr")
	if len(hd.Body) < 12 || string(hd.Body[8:12]) != "vide" {
		return nil, fmt.Errorf("hdlr is not vide")
	}
	tk, err := path(moov, "trak", "tkhd")
	if err != nil {
		return nil, err
	}
	r := &rdr{b: tk.Body}
	v := r.u(4)
	if v&1 == 0 {
		return nil, fmt.Errorf("track is not enabled")
	}
	if v>>24 == 1 {
		r.u(16)
	} else {
		r.u(8)
	}
	in.Track = uint32(r.u(4))
	r.u(4)
	if v>>24 == 1 {
		r.u(8)
	} else {
		r.u(4)
	}
	for i := 0; i < 13; i++ {
		r.u(4)
	}
	in.W, in.H = int(r.u(4)>>16), int(r.u(4)>>16)
	if r.err != nil || len(r.b) != 0 {
		return nil, fmt.Errorf("tkhd has the wrong length")
	}
	md, err := path(moov, "trak", "mdia", "mdhd")
	if err != nil {
		return nil, err
	}
	r = &rdr{b: md.Body}
	if r.u(4)>>24 == 1 {
		r.u(16)
		in.Timescale = uint32(r.u(4))
		r.u(8)
	} else {
		r.u(8)
		in.Timescale = uint32(r.u(4))
		r.u(4)
	}
	r.u(4)
	if r.err != nil || len(r.b) != 0 {
		return nil, fmt.Errorf("mdhd has the wrong length")
	}
	tx, err := path(moov, "mvex", "trex")
	if err != nil {
		return nil, err
	}
	if len(tx.Body) != 24 || binary.BigEndian.Uint32(tx.Body[4:]) != in.Track || binary.BigEndian.Uint32(tx.Body[8:]) != 1 {
		return nil, fmt.Errorf("trex does not describe track %d", in.Track)
	}
	sd, err := path(moov, "trak", "mdia", "minf", "stbl", "stsd")
	if err != nil {
		return nil, err
	}
	es, err := kids(sd, 8)
	if err != nil || len(es) != 1 || binary.BigEndian.Uint32(sd.Body[4:]) != 1 {
		return nil, fmt.Errorf("stsd: %d entries (%v)", len(es), err)
	}
	in.Entry = es[0].Type
	cs, err := kids(es[0], 78)
	if err != nil {
		return nil, err
	}
	if binary.BigEndian.Uint16(es[0].Body[6:]) != 1 {
		return nil, fmt.Errorf("data reference index is not 1")
	}
	in.EW, in.EH = int(binary.BigEndian.Uint16(es[0].Body[24:])), int(binary.BigEndian.Uint16(es[0].Body[26:]))
	want := map[string]string{"avc1": "avcC", "avc3": "avcC", "hvc1": "hvcC", "hev1": "hvcC"}[in.Entry]
	if want == "" {
		return nil, fmt.Errorf("sample entry %q", in.Entry)
	}
	cf, err := one(cs, want)
	if err != nil {
		return nil, err
	}
	in.Conf = cf.Body
	return in, nil
}

// ---- manifests ---------------------------------------------------------------------------

type mpd struct {
	Avail, Publish   time.Time
	Start, Count     int
	Timescale        int
	Dur              int
	InitURL, Media   string
	Codecs           string
	W, H             int
	Update, MinBuf   float64
	ShiftDepth       float64
	Type             string
	TimelineD        []int
	TimelineT        int
	BadISO, Profiles string
}

type xMPD struct {
	XMLName xml.Name `xml:"urn:mpeg:dash:schema:mpd:2011 MPD"`
	Type    string   `xml:"type,attr"`
	Prof    string   `xml:"profiles,attr"`
	MinBuf  string   `xml:"minBufferTime,attr"`
	Avail   string   `xml:"availabilityStartTime,attr"`
	Publish string   `xml:"publishTime,attr"`
	Update  string   `xml:"minimumUpdatePeriod,attr"`
	Depth   string   `xml:"timeShiftBufferDepth,attr"`
	Period  []struct {
		AS []struct {
			ContentType string `xml:"contentType,attr"`
			Mime        string `xml:"mimeType,attr"`
			Rep         []struct {
				ID        string `xml:"id,attr"`
				Codecs    string `xml:"codecs,attr"`
				Bandwidth int    `xml:"bandwidth,attr"`
				W         int    `xml:"width,attr"`
				H         int    `xml:"height,attr"`
				ST        []struct {
					Timescale int    `xml:"timescale,attr"`
					Duration  int    `xml:"duration,attr"`
					Start     string `xml:"startNumber,attr"`
					Init      string `xml:"initialization,attr"`
					Media     string `xml:"media,attr"`
				} `xml:"SegmentTemplate"`
			} `xml:"Representation"`
		} `xml:"AdaptationSet"`
	} `xml:"Period"`
}

func isoDur(s string) (float64, error) {
	if !strings.HasPrefix(s, "PT") || !strings.HasSuffix(s, "S") {
		return 0, fmt.Errorf("bad duration %q", s)
	}
	return strconv.ParseFloat(s[2:len(s)-1], 64)
}

func parseMPD(b []byte) (*mpd, error) {
	var x xMPD
	if err := xml.Unmarshal(b, &x); err != nil {
		return nil, err
	}
	m := &mpd{Type: x.Type}
	if x.Type != "dynamic" {
		return nil, fmt.Errorf("type %q", x.Type)
	}
	var err error
	if m.Avail, err = time.Parse(time.RFC3339, x.Avail); err != nil {
		return nil, err
	}
	if m.Publish, err = time.Parse(time.RFC3339, x.Publish); err != nil {
		return nil, err
	}
	if m.MinBuf, err = isoDur(x.MinBuf); err != nil {
		return nil, err
	}
	if m.ShiftDepth, err = isoDur(x.Depth); err != nil {
		return nil, err
	}
	if m.Update, err = isoDur(x.Update); err != nil {
		return nil, err
	}
	if len(x.Period) != 1 || len(x.Period[0].AS) != 1 || len(x.Period[0].AS[0].Rep) != 1 || len(x.Period[0].AS[0].Rep[0].ST) != 1 {
		return nil, fmt.Errorf("not one Period/AdaptationSet/Representation/SegmentTemplate")
	}
	rep := x.Period[0].AS[0].Rep[0]
	st := rep.ST[0]
	m.Codecs, m.W, m.H = rep.Codecs, rep.W, rep.H
	m.Timescale, m.Dur, m.InitURL, m.Media = st.Timescale, st.Duration, st.Init, st.Media
	if m.Start, err = strconv.Atoi(st.Start); err != nil || m.Start < 0 {
		return nil, fmt.Errorf("startNumber %q", st.Start)
	}
	if m.Timescale <= 0 || m.Dur <= 0 || !numbered(m.Media) || m.InitURL == "" || m.Update <= 0 || m.MinBuf <= 0 {
		return nil, fmt.Errorf("incomplete SegmentTemplate")
	}
	if s, n, ok := template(m.InitURL, 0); ok && n == 0 {
		m.InitURL = s
	} else {
		return nil, fmt.Errorf("initialization %q", m.InitURL)
	}
	m.Count = int(m.ShiftDepth/m.MinBuf + 0.5)
	if m.Count < 1 {
		return nil, fmt.Errorf("lists no segment")
	}
	return m, nil
}

// template expands a SegmentTemplate attribute (ISO/IEC 23009-1 5.3.9.4.4).
func template(s string, n int) (out string, nums int, ok bool) {
	for {
		i := strings.IndexByte(s, '$')
		if i < 0 {
			return out + s, nums, true
		}
		out += s[:i]
		s = s[i+1:]
		j := strings.IndexByte(s, '$')
		if j < 0 {
			return out, nums, false
		}
		switch s[:j] {
		case "":
			out += "$"
		case "Number":
			out += strconv.Itoa(n)
			nums++
		default:
			return out, nums, false
		}
		s = s[j+1:]
	}
}

func numbered(s string) bool {
	_, n, ok := template(s, 0)
	return ok && n == 1
}

func (m *mpd) url(n int) string {
	s, _, _ := template(m.Media, n)
	return s
}
