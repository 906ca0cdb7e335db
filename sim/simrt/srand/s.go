package srand

import "verif/simrt"

func u() uint64      { return simrt.RU64() }
func Seed(int64)     {}
func Int() int       { return int(u() >> 1) }
func Int31() int32   { return int32(u() >> 33) }
func Int63() int64   { return int64(u() >> 1) }
func Uint32() uint32 { return uint32(u() >> 32) }
func Uint64() uint64 { return u() }
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(u() % uint64(n))
}
func Int31n(n int32) int32 { return int32(Intn(int(n))) }
func Int63n(n int64) int64 { return int64(u() % uint64(n)) }
func Float64() float64     { return float64(u()>>11) / (1 << 53) }
func Float32() float32     { return float32(Float64()) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
func Read(p []byte) (int, error) { return simrt.RandReader.Read(p) }
