package simrt

import (
	"context"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"strings"
	"time"
)

// ---- io.Pipe, net.Pipe ---------------------------------------------------------

type pipeHalf struct {
	mu     Mutex
	wmu    Mutex
	cond   *Cond
	data   []byte
	full   bool
	rerr   error // set by the reader's close
	werr   error // set by the writer's close
	rdl    time.Time
	wdl    time.Time
	isConn bool
}

func newHalf() *pipeHalf {
	p := &pipeHalf{}
	p.cond = NewCond(&p.mu)
	return p
}

func past(t time.Time) bool { return !t.IsZero() && !Now().Before(t) }

func (p *pipeHalf) read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		switch {
		case p.rerr != nil:
			return 0, io.ErrClosedPipe
		case past(p.rdl):
			return 0, os.ErrDeadlineExceeded
		case p.full:
			n := copy(b, p.data)
			p.data = p.data[n:]
			if len(p.data) == 0 {
				p.full = false
				p.cond.Broadcast()
			}
			return n, nil
		case p.werr != nil:
			return 0, p.werr
		}
		p.cond.Wait()
	}
}

func (p *pipeHalf) write(b []byte) (int, error) {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	bad := func() error {
		switch {
		case p.werr != nil:
			return io.ErrClosedPipe
		case p.rerr != nil:
			return p.rerr
		case past(p.wdl):
			return os.ErrDeadlineExceeded
		}
		return nil
	}
	if err := bad(); err != nil {
		return 0, err
	}
	p.data, p.full = b, true
	p.cond.Broadcast()
	for p.full {
		if err := bad(); err != nil {
			n := len(b) - len(p.data)
			p.data, p.full = nil, false
			return n, err
		}
		p.cond.Wait()
	}
	return len(b), nil
}

func (p *pipeHalf) set(f func()) {
	p.mu.Lock()
	f()
	p.cond.Broadcast()
	p.mu.Unlock()
}

type PipeReader struct{ p *pipeHalf }
type PipeWriter struct{ p *pipeHalf }

func Pipe() (*PipeReader, *PipeWriter) {
	p := newHalf()
	return &PipeReader{p}, &PipeWriter{p}
}
func (r *PipeReader) Read(b []byte) (int, error) { return r.p.read(b) }
func (r *PipeReader) Close() error               { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.set(func() {
		if r.p.rerr == nil {
			r.p.rerr = err
		}
	})
	return nil
}
func (w *PipeWriter) Write(b []byte) (int, error) { return w.p.write(b) }
func (w *PipeWriter) Close() error                { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.set(func() {
		if w.p.werr == nil {
			w.p.werr = err
		}
	})
	return nil
}

type pipeAddr struct{}

func (pipeAddr) Network() string { return "pipe" }
func (pipeAddr) String() string  { return "pipe" }

type netPipe struct{ r, w *pipeHalf }

func NetPipe() (net.Conn, net.Conn) {
	a, b := newHalf(), newHalf()
	return &netPipe{a, b}, &netPipe{b, a}
}
func (c *netPipe) Read(b []byte) (int, error)  { return c.r.read(b) }
func (c *netPipe) Write(b []byte) (int, error) { return c.w.write(b) }
func (c *netPipe) Close() error {
	c.r.set(func() { c.r.rerr = io.ErrClosedPipe })
	c.w.set(func() {
		if c.w.werr == nil {
			c.w.werr = io.EOF
		}
	})
	return nil
}
func (c *netPipe) LocalAddr() net.Addr  { return pipeAddr{} }
func (c *netPipe) RemoteAddr() net.Addr { return pipeAddr{} }
func (c *netPipe) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func wakeAt(p *pipeHalf, t time.Time) {
	if !t.IsZero() && S != nil {
		AfterFunc(Until(t), func() { p.set(func() {}) })
	}
}
func (c *netPipe) SetReadDeadline(t time.Time) error {
	c.r.set(func() { c.r.rdl = t })
	wakeAt(c.r, t)
	return nil
}
func (c *netPipe) SetWriteDeadline(t time.Time) error {
	c.w.set(func() { c.w.wdl = t })
	wakeAt(c.w, t)
	return nil
}

// ---- net.ListenConfig, net.Dialer.DialContext --------------------------------------

type ListenConfig struct {
	KeepAlive time.Duration
}

func (*ListenConfig) Listen(_ context.Context, n, a string) (net.Listener, error) {
	return Listen(n, a)
}
func (*ListenConfig) ListenPacket(_ context.Context, n, a string) (net.PacketConn, error) {
	return ListenPacket(n, a)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	e := *d
	if dl, ok := ctx.Deadline(); ok && (e.Deadline.IsZero() || dl.Before(e.Deadline)) {
		e.Deadline = dl
	}
	return e.Dial(network, address)
}

// ---- path/filepath ----------------------------------------------------------------

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	d, err := Getwd()
	return filepath.Join(d, p), err
}

func EvalSymlinks(p string) (string, error) {
	if _, err := Stat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, "*?[\\") {
		if _, err := Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := filepath.Split(pattern)
	switch {
	case dir == "":
		dir = "."
	case dir != "/":
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, "*?[\\") {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		es, err := ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, err := filepath.Match(file, e.Name()); err != nil {
				return out, err
			} else if ok {
				out = append(out, filepath.Join(d, e.Name()))
			}
		}
	}
	return out, nil
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return fn(p, nil, err)
		}
		fi, err := d.Info()
		return fn(p, fi, err)
	})
}

// ---- http.Dir, os.DirFS, io/ioutil --------------------------------------------------

type Dir string

func (d Dir) Open(name string) (http.File, error) {
	dir := string(d)
	if dir == "" {
		dir = "."
	}
	f, err := Open(filepath.Join(dir, filepath.FromSlash(path.Clean("/"+name))))
	if err != nil {
		return nil, err
	}
	return f, nil
}

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	f, err := Open(filepath.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}

func DirFS(d string) fs.FS { return dirFS(d) }

func ReadDirInfo(n string) ([]fs.FileInfo, error) {
	es, err := ReadDir(n)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range es {
		if fi, err := e.Info(); err == nil {
			out = append(out, fi)
		}
	}
	return out, nil
}
