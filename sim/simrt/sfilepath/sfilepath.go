// Package sfilepath replaces the parts of path/filepath that use files.
package sfilepath

import (
	"io/fs"
	"path/filepath"

	"verif/simrt"
)

func Abs(p string) (string, error)             { return simrt.Abs(p) }
func EvalSymlinks(p string) (string, error)    { return simrt.EvalSymlinks(p) }
func Glob(p string) ([]string, error)          { return simrt.Glob(p) }
func Walk(r string, f filepath.WalkFunc) error { return simrt.Walk(r, f) }
func WalkDir(r string, f fs.WalkDirFunc) error { return simrt.WalkDir(r, f) }
