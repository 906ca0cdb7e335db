// Package sioutil replaces the parts of io/ioutil that use files.
package sioutil

import (
	"io/fs"

	"verif/simrt"
)

func ReadFile(n string) ([]byte, error)                 { return simrt.ReadFile(n) }
func WriteFile(n string, b []byte, p fs.FileMode) error { return simrt.WriteFile(n, b, p) }
func ReadDir(n string) ([]fs.FileInfo, error)           { return simrt.ReadDirInfo(n) }
func TempFile(d, p string) (*simrt.File, error)         { return simrt.CreateTemp(d, p) }
func TempDir(d, p string) (string, error)               { return simrt.MkdirTemp(d, p) }
