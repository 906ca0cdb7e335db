package sruntime

import "verif/simrt"

func Gosched()           { simrt.Gosched() }
func GC()                {}
func NumGoroutine() int  { return simrt.NumTasks() }
func GOMAXPROCS(int) int { return 8 }
func NumCPU() int        { return 8 }
