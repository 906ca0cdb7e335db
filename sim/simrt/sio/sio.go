// Package sio replaces the parts of io that block.
package sio

import "verif/simrt"

type PipeReader = simrt.PipeReader
type PipeWriter = simrt.PipeWriter

func Pipe() (*PipeReader, *PipeWriter) { return simrt.Pipe() }
