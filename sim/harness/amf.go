package main

import (
	"encoding/binary"
	"errors"
	"math"
	"sort"
)

type ecma map[string]any

// amfEnc encodes one AMF0 value.
func amfEnc(v any) []byte {
	switch x := v.(type) {
	case nil:
		return []byte{5}
	case bool:
		if x {
			return []byte{1, 1}
		}
		return []byte{1, 0}
	case float64:
		b := make([]byte, 9)
		binary.BigEndian.PutUint64(b[1:], math.Float64bits(x))
		return b
	case int:
		return amfEnc(float64(x))
	case string:
		if len(x) > 65535 {
			b := []byte{12}
			b = binary.BigEndian.AppendUint32(b, uint32(len(x)))
			return append(b, x...)
		}
		return append([]byte{2, byte(len(x) >> 8), byte(len(x))}, x...)
	case ecma:
		b := []byte{8}
		b = binary.BigEndian.AppendUint32(b, uint32(len(x)))
		return append(b, props(x)...)
	case map[string]any:
		return append([]byte{3}, props(x)...)
	}
	panic("amf type")
}

func props(m map[string]any) []byte {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b []byte
	for _, k := range ks {
		b = append(b, byte(len(k)>>8), byte(len(k)))
		b = append(b, k...)
		b = append(b, amfEnc(m[k])...)
	}
	return append(b, 0, 0, 9)
}

var errAMF = errors.New("malformed AMF0")

// amfDec decodes all values in b.
func amfDec(b []byte) (out []any, err error) {
	for len(b) > 0 {
		v, rest, e := amfOne(b, 0)
		if e != nil {
			return out, e
		}
		out = append(out, v)
		b = rest
	}
	return
}

func amfOne(b []byte, depth int) (any, []byte, error) {
	if len(b) < 1 || depth > 20 {
		return nil, nil, errAMF
	}
	t := b[0]
	b = b[1:]
	switch t {
	case 0:
		if len(b) < 8 {
			return nil, nil, errAMF
		}
		return math.Float64frombits(binary.BigEndian.Uint64(b)), b[8:], nil
	case 1:
		if len(b) < 1 {
			return nil, nil, errAMF
		}
		return b[0] != 0, b[1:], nil
	case 2:
		if len(b) < 2 || len(b) < 2+int(b[0])<<8+int(b[1]) {
			return nil, nil, errAMF
		}
		n := int(b[0])<<8 + int(b[1])
		return string(b[2 : 2+n]), b[2+n:], nil
	case 12:
		if len(b) < 4 {
			return nil, nil, errAMF
		}
		n := int(binary.BigEndian.Uint32(b))
		if len(b) < 4+n {
			return nil, nil, errAMF
		}
		return string(b[4 : 4+n]), b[4+n:], nil
	case 5, 6:
		return nil, b, nil
	case 3, 8:
		if t == 8 {
			if len(b) < 4 {
				return nil, nil, errAMF
			}
			b = b[4:]
		}
		m := map[string]any{}
		for {
			if len(b) < 2 {
				return nil, nil, errAMF
			}
			n := int(b[0])<<8 + int(b[1])
			b = b[2:]
			if n == 0 {
				if len(b) < 1 || b[0] != 9 {
					return nil, nil, errAMF
				}
				return m, b[1:], nil
			}
			if len(b) < n {
				return nil, nil, errAMF
			}
			k := string(b[:n])
			v, rest, err := amfOne(b[n:], depth+1)
			if err != nil {
				return nil, nil, err
			}
			m[k] = v
			b = rest
		}
	case 10:
		if len(b) < 4 {
			return nil, nil, errAMF
		}
		n := int(binary.BigEndian.Uint32(b))
		b = b[4:]
		var l []any
		for i := 0; i < n; i++ {
			v, rest, err := amfOne(b, depth+1)
			if err != nil {
				return nil, nil, err
			}
			l = append(l, v)
			b = rest
		}
		return l, b, nil
	}
	return nil, nil, errAMF
}
