package simrt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS is the in-memory file system of one node. It survives process crashes.
type FS struct {
	Open    int // file handles not closed yet
	sim     *Sim
	node    *Node
	Cwd     string
	files   map[string]*inode
	Ops     []FSOp
	KeepOps bool
	// Fault, if set, is asked before every operation: a non-nil error makes the
	// operation fail; for writes n is how many bytes still get written.
	Fault func(op, path string, size int) (n int, err error)
	Limit int64 // capacity in bytes (0 = unlimited)
	used  int64
	fds   int
}

// FSOp is one recorded mutation.
type FSOp struct {
	At   time.Duration
	Op   string
	Path string
	N    int
	Err  error
	Task string
}

type inode struct {
	data  []byte
	dir   bool
	mode  fs.FileMode
	mtime time.Time
	links int
	ver   int
}

func newFS(s *Sim, n *Node) *FS {
	f := &FS{sim: s, node: n, Cwd: "/work", files: map[string]*inode{}}
	f.files["/"] = &inode{dir: true, mode: 0755}
	f.files["/work"] = &inode{dir: true, mode: 0755}
	f.files["/tmp"] = &inode{dir: true, mode: 0755}
	return f
}

func (f *FS) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = f.Cwd + "/" + p
	}
	return path.Clean(p)
}

func (f *FS) rec(op, p string, n int, err error) {
	f.sim.Tot.FSOps++
	if f.KeepOps {
		t := ""
		if f.sim.cur != nil {
			t = f.sim.cur.Name
		}
		f.Ops = append(f.Ops, FSOp{f.sim.Elapsed(), op, p, n, err, t})
	}
}

func (f *FS) fault(op, p string, size int) (int, error) {
	if f.Fault == nil || f.sim.cur == nil || f.sim.cur.extern {
		return size, nil
	}
	return f.Fault(op, p, size)
}

// Put writes a file directly (harness).
func (f *FS) Put(p string, b []byte) {
	p = f.abs(p)
	f.MkdirAllRaw(path.Dir(p))
	f.files[p] = &inode{data: b, mode: 0644, mtime: Now()}
}

func (f *FS) MkdirAllRaw(p string) {
	for q := f.abs(p); ; q = path.Dir(q) {
		if f.files[q] == nil {
			f.files[q] = &inode{dir: true, mode: 0755, mtime: Now()}
		}
		if q == "/" {
			break
		}
	}
}

// Get reads a file directly (harness).
func (f *FS) Get(p string) ([]byte, bool) {
	i := f.files[f.abs(p)]
	if i == nil || i.dir {
		return nil, false
	}
	return i.data, true
}

// List returns all regular file paths.
func (f *FS) List() []string {
	var l []string
	for p, i := range f.files {
		if !i.dir {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return l
}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

// File replaces os.File.
type File struct {
	fs     *FS
	name   string
	p      string
	ino    *inode
	off    int64
	closed bool
	rd, wr bool
	app    bool
	null   bool
	dirpos int
}

var Stdout = &File{null: true, name: "/dev/stdout"}
var Stderr = &File{null: true, name: "/dev/stderr"}
var Stdin = &File{null: true, name: "/dev/stdin"}

func curFS() (*FS, error) {
	n := CurNode()
	if n == nil {
		return nil, errors.New("simrt: file use outside a simulated task")
	}
	if dying() || (n.Dead && !n.Extern) {
		return nil, errKilled
	}
	return n.FS, nil
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	f, err := curFS()
	if err != nil {
		return nil, err
	}
	SyncPoint()
	p := f.abs(name)
	if strings.ContainsRune(name, 0) || name == "" {
		return nil, perr("open", name, syscall.EINVAL)
	}
	for _, c := range strings.Split(p, "/") {
		if len(c) > 255 {
			return nil, perr("open", name, syscall.ENAMETOOLONG)
		}
	}
	ino := f.files[p]
	if flag&os.O_CREATE != 0 && (ino == nil || flag&os.O_TRUNC != 0) {
		if _, e := f.fault("create", p, 0); e != nil {
			f.rec("create", p, 0, e)
			return nil, perr("open", name, e)
		}
	} else if _, e := f.fault("open", p, 0); e != nil {
		return nil, perr("open", name, e)
	}
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		d := f.files[path.Dir(p)]
		if d == nil {
			f.rec("create", p, 0, syscall.ENOENT)
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !d.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		ino = &inode{mode: perm, mtime: Now(), links: 1}
		f.files[p] = ino
		f.rec("create", p, 0, nil)
	} else {
		if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if ino.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 {
			f.used -= int64(len(ino.data))
			ino.data = nil
			ino.mtime = Now()
			ino.ver++
			f.rec("create", p, 0, nil)
		}
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	f.Open++
	return &File{fs: f, name: name, p: p, ino: ino, rd: acc != os.O_WRONLY, wr: acc != os.O_RDONLY, app: flag&os.O_APPEND != 0}, nil
}

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func (f *File) chk(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	if !f.null && (dying() || (f.fs.node.Dead && !f.fs.node.Extern)) {
		return errKilled
	}
	return nil
}

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	if f.null {
		return len(p), nil
	}
	if !f.wr {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	SyncPoint()
	n, e := f.fs.fault("write", f.p, len(p))
	if e == nil {
		n = len(p)
		if f.fs.Limit > 0 {
			grow := off + int64(n) - int64(len(f.ino.data))
			if grow > 0 && f.fs.used+grow > f.fs.Limit {
				room := f.fs.Limit - f.fs.used
				if room < 0 {
					room = 0
				}
				n = int(int64(n) - (grow - room))
				if n < 0 {
					n = 0
				}
				e = syscall.ENOSPC
				f.fs.sim.Faults["disk_full"]++
			}
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n > 0 {
		end := off + int64(n)
		if end > int64(len(f.ino.data)) {
			f.fs.used += end - int64(len(f.ino.data))
			if end > int64(cap(f.ino.data)) {
				nd := make([]byte, end, end*2)
				copy(nd, f.ino.data)
				f.ino.data = nd
			} else {
				old := len(f.ino.data)
				f.ino.data = f.ino.data[:end]
				for i := old; i < int(off); i++ {
					f.ino.data[i] = 0
				}
			}
		}
		copy(f.ino.data[off:], p[:n])
		f.ino.mtime = Now()
		f.ino.ver++
	}
	f.fs.rec("write", f.p, n, e)
	if e != nil {
		return n, perr("write", f.name, e)
	}
	return n, nil
}
func (f *File) Write(p []byte) (int, error) {
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	if f.null {
		return len(p), nil
	}
	if f.app {
		f.off = int64(len(f.ino.data))
	}
	n, err := f.WriteAt(p, f.off)
	f.off += int64(n)
	return n, err
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Read(p []byte) (int, error) {
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if f.null {
		return 0, io.EOF
	}
	if f.ino.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	SyncPoint()
	if _, e := f.fs.fault("read", f.p, len(p)); e != nil {
		return 0, perr("read", f.name, e)
	}
	if f.off >= int64(len(f.ino.data)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, f.ino.data[f.off:])
	f.off += int64(n)
	return n, nil
}
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if off >= int64(len(f.ino.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.ino.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) Seek(off int64, wh int) (int64, error) {
	if err := f.chk("seek"); err != nil {
		return 0, err
	}
	switch wh {
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.ino.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}
func (f *File) Truncate(n int64) error {
	if err := f.chk("truncate"); err != nil {
		return err
	}
	if int64(len(f.ino.data)) > n {
		f.fs.used -= int64(len(f.ino.data)) - n
		f.ino.data = f.ino.data[:n:n]
	} else {
		f.ino.data = append(f.ino.data, make([]byte, n-int64(len(f.ino.data)))...)
	}
	f.ino.ver++
	f.fs.rec("truncate", f.p, int(n), nil)
	return nil
}
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.null {
		return nil
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	if dying() {
		return errKilled
	}
	SyncPoint()
	f.closed = true
	f.fs.Open--
	if f.wr {
		if _, e := f.fs.fault("close", f.p, 0); e != nil {
			f.fs.rec("close", f.p, 0, e)
			return perr("close", f.name, e)
		}
		f.fs.rec("close", f.p, 0, nil)
	}
	return nil
}
func (f *File) Sync() error {
	if err := f.chk("sync"); err != nil {
		return err
	}
	return nil
}
func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.chk("stat"); err != nil {
		return nil, err
	}
	return finfo{path.Base(f.p), f.ino}, nil
}
func (f *File) Chmod(fs.FileMode) error     { return nil }
func (f *File) SetDeadline(time.Time) error { return os.ErrNoDeadline }
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := ReadDir(f.p)
	var l []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		l = append(l, i)
	}
	return l, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := ReadDir(f.p)
	var l []string
	for _, e := range es {
		l = append(l, e.Name())
	}
	return l, err
}
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) { return ReadDir(f.p) }

type finfo struct {
	name string
	i    *inode
}

func (f finfo) Name() string { return f.name }
func (f finfo) Size() int64  { return int64(len(f.i.data)) }
func (f finfo) Mode() fs.FileMode {
	if f.i.dir {
		return f.i.mode | fs.ModeDir
	}
	return f.i.mode
}
func (f finfo) ModTime() time.Time         { return f.i.mtime }
func (f finfo) IsDir() bool                { return f.i.dir }
func (f finfo) Sys() any                   { return nil }
func (f finfo) Type() fs.FileMode          { return f.Mode().Type() }
func (f finfo) Info() (fs.FileInfo, error) { return f, nil }
func (f finfo) String() string             { return f.name }

func Stat(name string) (fs.FileInfo, error) {
	f, err := curFS()
	if err != nil {
		return nil, err
	}
	SyncPoint()
	i := f.files[f.abs(name)]
	if i == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return finfo{path.Base(f.abs(name)), i}, nil
}
func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := curFS()
	if err != nil {
		return nil, err
	}
	SyncPoint()
	p := f.abs(name)
	d := f.files[p]
	if d == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !d.dir {
		return nil, perr("readdir", name, syscall.ENOTDIR)
	}
	var l []fs.DirEntry
	for q, i := range f.files {
		if q != "/" && path.Dir(q) == p {
			l = append(l, finfo{path.Base(q), i})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, nil
}

func (f *FS) kids(p string) bool {
	for q := range f.files {
		if q != "/" && path.Dir(q) == p {
			return true
		}
	}
	return false
}

func Remove(name string) error {
	f, err := curFS()
	if err != nil {
		return err
	}
	SyncPoint()
	S.Arm()
	p := f.abs(name)
	if _, e := f.fault("remove", p, 0); e != nil {
		f.rec("remove", p, 0, e)
		return perr("remove", name, e)
	}
	i := f.files[p]
	if i == nil {
		f.rec("remove", p, 0, syscall.ENOENT)
		return perr("remove", name, syscall.ENOENT)
	}
	if i.dir && f.kids(p) {
		f.rec("remove", p, 0, syscall.ENOTEMPTY)
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	f.used -= int64(len(i.data))
	delete(f.files, p)
	f.rec("remove", p, 0, nil)
	return nil
}

func RemoveAll(name string) error {
	f, err := curFS()
	if err != nil {
		return err
	}
	SyncPoint()
	p := f.abs(name)
	var l []string
	for q := range f.files {
		if q == p || strings.HasPrefix(q, strings.TrimSuffix(p, "/")+"/") {
			l = append(l, q)
		}
	}
	sort.Strings(l)
	for _, q := range l {
		f.used -= int64(len(f.files[q].data))
		delete(f.files, q)
		f.rec("remove", q, 0, nil)
	}
	return nil
}

func Rename(a, b string) error {
	f, err := curFS()
	if err != nil {
		return err
	}
	SyncPoint()
	S.Arm()
	pa, pb := f.abs(a), f.abs(b)
	if _, e := f.fault("rename", pa, 0); e != nil {
		f.rec("rename", pa, 0, e)
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: e}
	}
	i := f.files[pa]
	if i == nil || f.files[path.Dir(pb)] == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	delete(f.files, pa)
	f.files[pb] = i
	f.rec("rename", pb, 0, nil)
	f.rec("renamed-away", pa, 0, nil)
	return nil
}

func Mkdir(name string, perm fs.FileMode) error {
	f, err := curFS()
	if err != nil {
		return err
	}
	SyncPoint()
	p := f.abs(name)
	if _, e := f.fault("mkdir", p, 0); e != nil {
		return perr("mkdir", name, e)
	}
	if f.files[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if f.files[path.Dir(p)] == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	f.files[p] = &inode{dir: true, mode: perm, mtime: Now()}
	f.rec("mkdir", p, 0, nil)
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	f, err := curFS()
	if err != nil {
		return err
	}
	SyncPoint()
	p := f.abs(name)
	if _, e := f.fault("mkdir", p, 0); e != nil {
		return perr("mkdir", name, e)
	}
	for q := p; ; q = path.Dir(q) {
		if i := f.files[q]; i != nil && !i.dir {
			return perr("mkdir", name, syscall.ENOTDIR)
		}
		if q == "/" {
			break
		}
	}
	var mk []string
	for q := p; f.files[q] == nil; q = path.Dir(q) {
		mk = append(mk, q)
	}
	for _, q := range mk {
		f.files[q] = &inode{dir: true, mode: perm, mtime: Now()}
		f.rec("mkdir", q, 0, nil)
	}
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, b []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

var tmpSeq int

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	return OpenFile(path.Join(dir, tmpName(pattern)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	p := path.Join(dir, tmpName(pattern))
	return p, Mkdir(p, 0700)
}
func tmpName(pattern string) string {
	n := fmt.Sprintf("%08x", uint32(S.rng.U64()))
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return pattern[:i] + n + pattern[i+1:]
	}
	return pattern + n
}
func Getwd() (string, error) {
	f, err := curFS()
	if err != nil {
		return "", err
	}
	return f.Cwd, nil
}
func Chdir(d string) error {
	f, err := curFS()
	if err != nil {
		return err
	}
	f.Cwd = f.abs(d)
	return nil
}
func TempDir() string                            { return "/tmp" }
func Chmod(string, fs.FileMode) error            { return nil }
func Chtimes(string, time.Time, time.Time) error { return nil }
