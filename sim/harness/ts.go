package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

// ---- MPEG-TS reader (written from ISO 13818-1) ------------------------------------

type tsPES struct {
	PID      int
	Type     byte // stream_type from the PMT
	PTS, DTS uint64
	Data     []byte
	RAI, PCR bool
	Base     uint64
	want     int // announced length of Data, -1: open
	Off      int // file offset of its first packet
}

type tsFile struct {
	PES    []*tsPES // in order of their first packet
	Types  map[int]byte
	PMTPID int
	PCRPID int
}

var crcTab [256]uint32

func init() {
	for i := range crcTab {
		c := uint32(i) << 24
		for k := 0; k < 8; k++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
		crcTab[i] = c
	}
}

func crcMPEG(b []byte) uint32 {
	c := uint32(0xffffffff)
	for _, x := range b {
		c = c<<8 ^ crcTab[byte(c>>24)^x]
	}
	return c
}

// parseTS checks a whole transport stream file and returns its PES packets.
// cc, if not nil, carries the continuity counters over from the part before.
func parseTS(b []byte, cc map[int]byte, needPSI bool) (*tsFile, error) {
	f := &tsFile{Types: map[int]byte{}, PMTPID: -1, PCRPID: -1}
	if len(b)%188 != 0 {
		return f, fmt.Errorf("%d bytes is not a whole number of packets", len(b))
	}
	if cc == nil {
		cc = map[int]byte{}
	}
	open := map[int]*tsPES{}
	for off := 0; off < len(b); off += 188 {
		n := off / 188
		p := b[off : off+188]
		bad := func(s string, a ...any) error { return fmt.Errorf("packet %d: "+s, append([]any{n}, a...)...) }
		if p[0] != 0x47 {
			return f, bad("sync byte is %#x", p[0])
		}
		if p[1]&0x80 != 0 {
			return f, bad("transport error flag")
		}
		start := p[1]&0x40 != 0
		pid := int(p[1]&0x1f)<<8 | int(p[2])
		if p[3]&0xc0 != 0 {
			return f, bad("scrambled")
		}
		afc := p[3] >> 4 & 3
		if afc == 0 {
			return f, bad("adaptation field control 0")
		}
		q := p[4:]
		rai, pcr, base := false, false, uint64(0)
		if afc&2 != 0 {
			l := int(q[0])
			if afc == 2 && l != 183 || afc == 3 && l > 182 {
				return f, bad("adaptation field length %d (control %d)", l, afc)
			}
			if l > 0 {
				fl := q[1]
				need := 1
				rai = fl&0x40 != 0
				if fl&0x10 != 0 {
					need += 6
					if l >= need {
						pcr = true
						base = uint64(q[2])<<25 | uint64(q[3])<<17 | uint64(q[4])<<9 | uint64(q[5])<<1 | uint64(q[6])>>7
						if ext := int(q[6]&1)<<8 | int(q[7]); ext >= 300 {
							return f, bad("PCR extension %d", ext)
						}
					}
				}
				if fl&0x08 != 0 {
					need += 6
				}
				if fl&0x04 != 0 {
					need++
				}
				if l < need {
					return f, bad("adaptation field of %d bytes cannot hold what its flags announce", l)
				}
				if fl&0x07 == 0 {
					for _, x := range q[1+need : 1+l] {
						if x != 0xff {
							return f, bad("adaptation stuffing byte %#x", x)
						}
					}
				}
			}
			q = q[1+l:]
		}
		if pid == 0x1fff {
			continue
		}
		if afc&1 != 0 {
			if c, ok := cc[pid]; ok && (c+1)&15 != p[3]&15 {
				return f, bad("continuity counter of PID %#x jumps from %d to %d", pid, c, p[3]&15)
			}
			cc[pid] = p[3] & 15
		}
		if needPSI && n == 0 && pid != 0 {
			return f, bad("the file starts with PID %#x, not with the PAT", pid)
		}
		if needPSI && n == 1 && (f.PMTPID < 0 || pid != f.PMTPID) {
			return f, bad("the second packet is PID %#x, not the PMT (%#x)", pid, f.PMTPID)
		}
		if pid == 0 || pid == f.PMTPID {
			if !start {
				return f, bad("section continues over packets")
			}
			if len(q) < 1 || int(q[0])+1+3 > len(q) {
				return f, bad("bad pointer field")
			}
			sec := q[1+int(q[0]):]
			sl := int(sec[1]&0x0f)<<8 | int(sec[2])
			if 3+sl > len(sec) || sl < 9 {
				return f, bad("section length %d", sl)
			}
			for _, x := range sec[3+sl:] {
				if x != 0xff {
					return f, bad("byte %#x after the section", x)
				}
			}
			sec = sec[:3+sl]
			if sec[1]&0x80 == 0 {
				return f, bad("section syntax indicator is 0")
			}
			if crcMPEG(sec) != 0 {
				return f, bad("wrong CRC %x in the section of PID %#x", sec[len(sec)-4:], pid)
			}
			if sec[5]&1 == 0 || sec[6] != 0 || sec[7] != 0 {
				return f, bad("section is not current or not number 0 of 0")
			}
			body := sec[8 : len(sec)-4]
			if pid == 0 {
				if sec[0] != 0 || len(body)%4 != 0 {
					return f, bad("malformed PAT")
				}
				pm := -1
				for i := 0; i+4 <= len(body); i += 4 {
					if binary.BigEndian.Uint16(body[i:]) != 0 {
						if pm >= 0 {
							return f, bad("PAT lists several programs")
						}
						pm = int(body[i+2]&0x1f)<<8 | int(body[i+3])
					}
				}
				if pm < 0 {
					return f, bad("PAT lists no program")
				}
				f.PMTPID = pm
			} else {
				if sec[0] != 2 || len(body) < 4 {
					return f, bad("malformed PMT")
				}
				f.PCRPID = int(body[0]&0x1f)<<8 | int(body[1])
				pil := int(body[2]&0x0f)<<8 | int(body[3])
				body = body[4:]
				if pil > len(body) {
					return f, bad("malformed PMT")
				}
				body = body[pil:]
				types := map[int]byte{}
				for len(body) > 0 {
					if len(body) < 5 {
						return f, bad("malformed PMT")
					}
					il := int(body[3]&0x0f)<<8 | int(body[4])
					if 5+il > len(body) {
						return f, bad("malformed PMT")
					}
					types[int(body[1]&0x1f)<<8|int(body[2])] = body[0]
					body = body[5+il:]
				}
				for k, v := range f.Types {
					if types[k] != v {
						return f, bad("PMT changes PID %#x from type %#x to %#x", k, v, types[k])
					}
				}
				f.Types = types
			}
			continue
		}
		if f.PMTPID < 0 && needPSI {
			return f, bad("media before the PMT")
		}
		ty, ok := f.Types[pid]
		if !ok && needPSI {
			return f, bad("PID %#x is not in the PMT", pid)
		}
		if afc&1 == 0 {
			continue
		}
		if start {
			if o := open[pid]; o != nil && o.want >= 0 && len(o.Data) != o.want {
				return f, bad("PES of PID %#x at offset %d announces %d bytes of payload and has %d", pid, o.Off, o.want, len(o.Data))
			}
			s := &tsPES{PID: pid, Type: ty, RAI: rai, PCR: pcr, Base: base, Off: off, want: -1}
			if len(q) < 9 || q[0] != 0 || q[1] != 0 || q[2] != 1 {
				return f, bad("no PES start code: %x", q[:min(len(q), 9)])
			}
			if pid >= 0 && (q[3]&0xe0 != 0xc0 && q[3]&0xf0 != 0xe0) {
				return f, bad("stream id %#x", q[3])
			}
			pl := int(q[4])<<8 | int(q[5])
			if q[6]&0xc0 != 0x80 {
				return f, bad("PES header marker %#x", q[6])
			}
			hl := int(q[8])
			if 9+hl > len(q) {
				return f, bad("PES header does not fit the packet")
			}
			ts := func(x []byte, mark byte) (uint64, error) {
				if x[0]>>4 != mark || x[0]&1 == 0 || x[2]&1 == 0 || x[4]&1 == 0 {
					return 0, bad("timestamp marker bits %x", x[:5])
				}
				return uint64(x[0]>>1&7)<<30 | uint64(x[1])<<22 | uint64(x[2]>>1)<<15 | uint64(x[3])<<7 | uint64(x[4]>>1), nil
			}
			var err error
			switch q[7] >> 6 {
			case 2:
				if hl < 5 {
					return f, bad("PES header length %d", hl)
				}
				if s.PTS, err = ts(q[9:], 2); err != nil {
					return f, err
				}
				s.DTS = s.PTS
			case 3:
				if hl < 10 {
					return f, bad("PES header length %d", hl)
				}
				if s.PTS, err = ts(q[9:], 3); err != nil {
					return f, err
				}
				if s.DTS, err = ts(q[14:], 1); err != nil {
					return f, err
				}
			default:
				return f, bad("PES without timestamps")
			}
			if pl > 0 {
				s.want = pl - 3 - hl
			} else if q[3]&0xf0 != 0xe0 {
				return f, bad("open-ended PES on a non-video stream")
			}
			s.Data = append([]byte(nil), q[9+hl:]...)
			open[pid] = s
			f.PES = append(f.PES, s)
		} else {
			o := open[pid]
			if o == nil {
				return f, bad("PID %#x continues a PES that never started", pid)
			}
			if pcr || rai {
				return f, bad("random access flag or PCR in the middle of a PES")
			}
			o.Data = append(o.Data, q...)
		}
		if o := open[pid]; o.want >= 0 && len(o.Data) > o.want {
			return f, bad("PES of PID %#x announces %d bytes of payload and has %d", pid, o.want, len(o.Data))
		}
	}
	for pid, o := range open {
		if o.want >= 0 && len(o.Data) != o.want {
			return f, fmt.Errorf("the last PES of PID %#x announces %d bytes of payload and has %d", pid, o.want, len(o.Data))
		}
	}
	if needPSI && len(f.Types) == 0 {
		return f, fmt.Errorf("no PMT")
	}
	return f, nil
}

// splitAnnexB splits a byte stream into NAL units.
func splitAnnexB(b []byte) (ns [][]byte, err error) {
	i := bytes.Index(b, []byte{0, 0, 1})
	if i < 0 || i > 1 || (i == 1 && b[0] != 0) {
		return nil, fmt.Errorf("no start code at the beginning: %s", hexs(b, 16))
	}
	b = b[i+3:]
	for {
		j := bytes.Index(b, []byte{0, 0, 1})
		if j < 0 {
			ns = append(ns, b)
			return
		}
		k := j
		if k > 0 && b[k-1] == 0 {
			k--
		}
		ns = append(ns, b[:k])
		b = b[j+3:]
	}
}

type adtsFrame struct {
	Obj, Rate, Ch int
	Raw           []byte
}

func splitADTS(b []byte) (fs []adtsFrame, err error) {
	for len(b) > 0 {
		if len(b) < 7 || b[0] != 0xff || b[1]&0xf6 != 0xf0 {
			return fs, fmt.Errorf("no ADTS header after %d frames: %s", len(fs), hexs(b, 12))
		}
		hl := 7
		if b[1]&1 == 0 {
			hl = 9
		}
		n := int(b[3]&3)<<11 | int(b[4])<<3 | int(b[5])>>5
		if n < hl || n > len(b) {
			return fs, fmt.Errorf("ADTS frame length %d of %d bytes left", n, len(b))
		}
		if b[6]&3 != 0 {
			return fs, fmt.Errorf("ADTS frame with %d raw blocks", b[6]&3+1)
		}
		fs = append(fs, adtsFrame{int(b[2]>>6) + 1, int(b[2] >> 2 & 15), int(b[2]&1)<<2 | int(b[3]>>6), b[hl:n]})
		b = b[n:]
	}
	return
}

// paramSets returns the parameter sets of a decoder configuration tag body.
func paramSets(body []byte) (ns [][]byte, hevc bool) {
	if len(body) < 5+8 {
		return
	}
	hevc = body[0]&15 == 12
	b := body[5:]
	if hevc {
		if len(b) < 23 {
			return
		}
		n := int(b[22])
		b = b[23:]
		for ; n > 0 && len(b) >= 3; n-- {
			m := int(b[1])<<8 | int(b[2])
			b = b[3:]
			for ; m > 0 && len(b) >= 2; m-- {
				l := int(b[0])<<8 | int(b[1])
				if 2+l > len(b) {
					return
				}
				ns = append(ns, b[2:2+l])
				b = b[2+l:]
			}
		}
		return
	}
	take := func(n int) {
		for ; n > 0 && len(b) >= 2; n-- {
			l := int(b[0])<<8 | int(b[1])
			if 2+l > len(b) {
				return
			}
			ns = append(ns, b[2:2+l])
			b = b[2+l:]
		}
	}
	n := int(b[5] & 31)
	b = b[6:]
	take(n)
	if len(b) > 0 {
		n = int(b[0])
		b = b[1:]
		take(n)
	}
	return
}
