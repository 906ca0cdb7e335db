package srandv2

import "verif/simrt"

func u() uint64               { return simrt.RU64() }
func Int() int                { return int(u() >> 1) }
func Int32() int32            { return int32(u() >> 33) }
func Int64() int64            { return int64(u() >> 1) }
func Uint32() uint32          { return uint32(u() >> 32) }
func Uint64() uint64          { return u() }
func IntN(n int) int          { return int(u() % uint64(n)) }
func Int64N(n int64) int64    { return int64(u() % uint64(n)) }
func Int32N(n int32) int32    { return int32(u() % uint64(n)) }
func Uint32N(n uint32) uint32 { return uint32(u() % uint64(n)) }
func Uint64N(n uint64) uint64 { return u() % n }
func Float64() float64        { return float64(u()>>11) / (1 << 53) }
