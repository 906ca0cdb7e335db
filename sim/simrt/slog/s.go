package slog

import (
	"fmt"
	"verif/simrt"
)

func Print(a ...any)            {}
func Println(a ...any)          {}
func Printf(f string, a ...any) {}
func Fatal(a ...any)            { simrt.Exit(1) }
func Fatalf(f string, a ...any) { simrt.Exit(1) }
func Fatalln(a ...any)          { simrt.Exit(1) }
func Panic(a ...any)            { panic(fmt.Sprint(a...)) }
func Panicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func SetFlags(int)              {}
func SetPrefix(string)          {}
