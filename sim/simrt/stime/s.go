package stime

import (
	"time"
	"verif/simrt"
)

type Timer = simrt.Timer
type Ticker = simrt.Ticker

func Now() time.Time                             { return simrt.Now() }
func Since(t time.Time) time.Duration            { return simrt.Since(t) }
func Until(t time.Time) time.Duration            { return simrt.Until(t) }
func Sleep(d time.Duration)                      { simrt.Sleep(d) }
func After(d time.Duration) <-chan time.Time     { return simrt.After(d) }
func AfterFunc(d time.Duration, f func()) *Timer { return simrt.AfterFunc(d, f) }
func NewTimer(d time.Duration) *Timer            { return simrt.NewTimer(d) }
func NewTicker(d time.Duration) *Ticker          { return simrt.NewTicker(d) }
func Tick(d time.Duration) <-chan time.Time      { return simrt.Tick(d) }
