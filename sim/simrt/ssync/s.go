package ssync

import (
	"sync"
	"verif/simrt"
)

type Mutex = simrt.Mutex
type RWMutex = simrt.RWMutex
type Cond = simrt.Cond
type WaitGroup = simrt.WaitGroup
type Once = simrt.Once
type Map = simrt.Map
type Pool = simrt.Pool

func NewCond(l sync.Locker) *Cond                        { return simrt.NewCond(l) }
func OnceFunc(f func()) func()                           { return simrt.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return simrt.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return simrt.OnceValues(f) }
