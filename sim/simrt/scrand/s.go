package scrand

import (
	"io"
	"math/big"
	"verif/simrt"
)

var Reader io.Reader = simrt.RandReader

func Read(p []byte) (int, error) { return simrt.RandReader.Read(p) }
func Int(_ io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, len(max.Bytes())+8)
	Read(b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}
