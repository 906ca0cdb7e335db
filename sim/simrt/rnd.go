package simrt

import "io"

type rdr struct{}

func (rdr) Read(p []byte) (int, error) {
	if S == nil {
		NewRand(1).Read(p)
		return len(p), nil
	}
	S.rng.Read(p)
	return len(p), nil
}

// RandReader replaces crypto/rand.Reader.
var RandReader io.Reader = rdr{}

func RU64() uint64 {
	if S == nil {
		return 4
	}
	return S.rng.U64()
}
