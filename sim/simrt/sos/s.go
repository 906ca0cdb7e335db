package sos

import (
	"io/fs"
	"time"
	"verif/simrt"
)

type File = simrt.File

var Stdout, Stderr, Stdin = simrt.Stdout, simrt.Stderr, simrt.Stdin

func Create(n string) (*File, error)                         { return simrt.Create(n) }
func Open(n string) (*File, error)                           { return simrt.Open(n) }
func OpenFile(n string, f int, p fs.FileMode) (*File, error) { return simrt.OpenFile(n, f, p) }
func Remove(n string) error                                  { return simrt.Remove(n) }
func RemoveAll(n string) error                               { return simrt.RemoveAll(n) }
func Rename(a, b string) error                               { return simrt.Rename(a, b) }
func Mkdir(n string, p fs.FileMode) error                    { return simrt.Mkdir(n, p) }
func MkdirAll(n string, p fs.FileMode) error                 { return simrt.MkdirAll(n, p) }
func MkdirTemp(d, p string) (string, error)                  { return simrt.MkdirTemp(d, p) }
func CreateTemp(d, p string) (*File, error)                  { return simrt.CreateTemp(d, p) }
func Stat(n string) (fs.FileInfo, error)                     { return simrt.Stat(n) }
func Lstat(n string) (fs.FileInfo, error)                    { return simrt.Lstat(n) }
func ReadFile(n string) ([]byte, error)                      { return simrt.ReadFile(n) }
func WriteFile(n string, b []byte, p fs.FileMode) error      { return simrt.WriteFile(n, b, p) }
func ReadDir(n string) ([]fs.DirEntry, error)                { return simrt.ReadDir(n) }
func Truncate(n string, s int64) error                       { return simrt.Truncate(n, s) }
func Getwd() (string, error)                                 { return simrt.Getwd() }
func Chdir(d string) error                                   { return simrt.Chdir(d) }
func TempDir() string                                        { return simrt.TempDir() }
func Chmod(n string, m fs.FileMode) error                    { return simrt.Chmod(n, m) }
func Chtimes(n string, a, m time.Time) error                 { return simrt.Chtimes(n, a, m) }
func Exit(c int)                                             { simrt.Exit(c) }
func Getpid() int                                            { return 4242 }
func Hostname() (string, error)                              { return "sim", nil }

func DirFS(d string) fs.FS { return simrt.DirFS(d) }
