package simrt

import (
	"errors"
	"fmt"
	"io/fs"
	"reflect"
	"runtime"
	"runtime/debug"
)

func stack() string { return string(debug.Stack()) }
func goexit()       { runtime.Goexit() }

func refOf(x any) reflect.Value { return reflect.ValueOf(x) }

var errKilled = errors.New("simrt: process killed")

var errNotExist = fs.ErrNotExist

// NumTasks counts the live tasks of the current node.
func NumTasks() int {
	if S == nil {
		return 1
	}
	n := 0
	for _, t := range S.tasks {
		if t.state != tsDead && t.Node == CurNode() {
			n++
		}
	}
	return n
}

// MaxAlloc is the largest single allocation a simulated program may make
// before it counts as out of memory.
const MaxAlloc = 64 << 20

// MakeLen passes the length of a make through; it panics when the
// allocation would exceed MaxAlloc.
func MakeLen[N ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n N, size int) N {
	if n < 0 {
		return n // the runtime panics
	}
	if u := uint64(n); u > MaxAlloc || u*uint64(size) > MaxAlloc {
		panic(fmt.Sprintf("out of memory: a single allocation of %d elements of %d bytes", u, size))
	}
	if c := CurNode(); c != nil {
		c.Made += int64(n) * int64(size)
	}
	return n
}
