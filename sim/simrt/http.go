package simrt

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/textproto"
	"path"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Server replaces http.Server (HTTP/1.x only).
type Server struct {
	Addr              string
	Handler           http.Handler
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	ErrorLog          any
	BaseContext       func(net.Listener) context.Context
	ConnState         func(net.Conn, http.ConnState)
	closed            bool
	ls                []net.Listener
}

func (srv *Server) ListenAndServe() error {
	addr := srv.Addr
	if addr == "" {
		addr = ":80"
	}
	l, err := Listen("tcp", addr)
	if err != nil {
		return err
	}
	return srv.Serve(l)
}
func (srv *Server) Close() error {
	srv.closed = true
	for _, l := range srv.ls {
		l.Close()
	}
	return nil
}
func (srv *Server) Shutdown(context.Context) error { return srv.Close() }
func (srv *Server) SetKeepAlivesEnabled(bool)      {}

func (srv *Server) Serve(l net.Listener) error {
	srv.ls = append(srv.ls, l)
	var delay time.Duration
	for {
		c, err := l.Accept()
		if err != nil {
			if srv.closed {
				return http.ErrServerClosed
			}
			if ne, ok := err.(net.Error); ok && ne.Temporary() {
				if delay == 0 {
					delay = 5 * time.Millisecond
				} else {
					delay = min(2*delay, time.Second)
				}
				Sleep(delay)
				continue
			}
			return err
		}
		delay = 0
		Go(func() { srv.serveConn(c) })
	}
}

func Serve(l net.Listener, h http.Handler) error { return (&Server{Handler: h}).Serve(l) }
func ListenAndServe(addr string, h http.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

type httpResp struct {
	conn       net.Conn
	buf        *bufio.ReadWriter
	req        *http.Request
	hdr        http.Header
	wrote      bool
	status     int
	snap       http.Header
	sentHdr    bool
	chunked    bool
	clen       int64
	written    int64
	body       bytes.Buffer // buffered, at most 2048 before the header is sent
	hijacked   bool
	closeAfter bool
	werr       error
	cancel     context.CancelFunc
	tcp        *TCPConn
}

func (w *httpResp) Header() http.Header { return w.hdr }
func (w *httpResp) WriteHeader(code int) {
	if w.hijacked || w.wrote {
		return
	}
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	if code >= 100 && code <= 199 && code != 101 {
		return
	}
	w.wrote = true
	w.status = code
	w.snap = w.hdr.Clone()
	w.clen = -1
	if cl := w.snap.Get("Content-Length"); cl != "" {
		v, err := strconv.ParseInt(cl, 10, 64)
		if err == nil && v >= 0 {
			w.clen = v
		} else {
			w.snap.Del("Content-Length")
			w.hdr.Del("Content-Length")
		}
	}
}

func bodyAllowed(st int) bool { return !(st >= 100 && st <= 199 || st == 204 || st == 304) }

func (w *httpResp) sendHeader(done bool) {
	if w.sentHdr {
		return
	}
	w.sentHdr = true
	h := w.snap
	if done && w.clen < 0 && bodyAllowed(w.status) && h.Get("Transfer-Encoding") == "" && (w.req.Method != "HEAD" || w.body.Len() > 0) {
		w.clen = int64(w.body.Len())
		h.Set("Content-Length", strconv.FormatInt(w.clen, 10))
	}
	if h.Get("Connection") == "close" || w.req.Close || !w.req.ProtoAtLeast(1, 1) {
		w.closeAfter = true
	}
	if bodyAllowed(w.status) && h.Get("Content-Type") == "" && w.body.Len() > 0 {
		h.Set("Content-Type", http.DetectContentType(w.body.Bytes()))
	}
	if w.req.Method == "HEAD" || !bodyAllowed(w.status) {
	} else if w.clen >= 0 {
		h.Del("Transfer-Encoding")
	} else if w.req.ProtoAtLeast(1, 1) {
		w.chunked = true
		h.Set("Transfer-Encoding", "chunked")
	} else {
		w.closeAfter = true
	}
	if h.Get("Date") == "" {
		h.Set("Date", Now().UTC().Format(http.TimeFormat))
	}
	if w.closeAfter && w.req.ProtoAtLeast(1, 1) {
		h.Set("Connection", "close")
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n", w.status, http.StatusText(w.status))
	h.Write(&b)
	b.WriteString("\r\n")
	w.raw(b.Bytes())
}

func (w *httpResp) raw(p []byte) {
	if w.werr != nil {
		return
	}
	_, err := w.buf.Writer.Write(p)
	if err != nil {
		w.werr = err
	}
}

func (w *httpResp) flushBody() {
	if w.body.Len() == 0 {
		return
	}
	if w.chunked {
		w.raw([]byte(fmt.Sprintf("%x\r\n", w.body.Len())))
		w.raw(w.body.Bytes())
		w.raw([]byte("\r\n"))
	} else {
		w.raw(w.body.Bytes())
	}
	w.body.Reset()
}

func (w *httpResp) Write(p []byte) (int, error) {
	if w.hijacked {
		return 0, http.ErrHijacked
	}
	if !w.wrote {
		w.WriteHeader(200)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if !bodyAllowed(w.status) {
		return 0, http.ErrBodyNotAllowed
	}
	w.written += int64(len(p))
	if w.clen >= 0 && w.written > w.clen {
		return 0, http.ErrContentLength
	}
	if w.req.Method == "HEAD" {
		return len(p), nil
	}
	w.body.Write(p)
	if w.body.Len() > 2048 {
		w.sendHeader(false)
		w.flushBody()
	}
	if w.werr != nil {
		return 0, w.werr
	}
	return len(p), nil
}
func (w *httpResp) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w *httpResp) Flush() { w.FlushError() }
func (w *httpResp) FlushError() error {
	if w.hijacked {
		return http.ErrHijacked
	}
	if !w.wrote {
		w.WriteHeader(200)
	}
	w.sendHeader(false)
	w.flushBody()
	if w.werr == nil {
		if err := w.buf.Writer.Flush(); err != nil {
			w.werr = err
		}
	}
	return w.werr
}

func (w *httpResp) finish() {
	if !w.wrote {
		w.WriteHeader(200)
	}
	w.sendHeader(true)
	w.flushBody()
	if w.chunked {
		w.raw([]byte("0\r\n\r\n"))
	}
	if w.werr == nil {
		if err := w.buf.Writer.Flush(); err != nil {
			w.werr = err
		}
	}
	if w.req.Method != "HEAD" && w.clen >= 0 && bodyAllowed(w.status) && w.written != w.clen {
		w.closeAfter = true
	}
}

func (w *httpResp) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if w.hijacked {
		return nil, nil, http.ErrHijacked
	}
	if w.wrote {
		w.sendHeader(false)
		w.flushBody()
		w.buf.Writer.Flush()
	}
	w.hijacked = true
	if w.tcp != nil {
		w.tcp.OnEOF = nil
	}
	return w.conn, w.buf, nil
}

func (w *httpResp) SetReadDeadline(t time.Time) error  { return w.conn.SetReadDeadline(t) }
func (w *httpResp) SetWriteDeadline(t time.Time) error { return w.conn.SetWriteDeadline(t) }

var noMu sync.Mutex

func (srv *Server) serveConn(c net.Conn) {
	tcp, _ := c.(*TCPConn)
	var w *httpResp
	defer func() {
		if dying() {
			return
		}
		if r := recover(); r != nil {
			if r != http.ErrAbortHandler {
				n := CurNode()
				if n != nil {
					n.HTTPPanics = append(n.HTTPPanics, addrRE.ReplaceAllString(fmt.Sprint(r), "0x?")+"\n"+trimStack(stack()))
				}
			}
		}
		if w == nil || !w.hijacked {
			c.Close()
		}
	}()
	br := bufio.NewReaderSize(c, 4096)
	bw := bufio.NewWriterSize(c, 4096)
	h := srv.Handler
	if h == nil {
		h = http.DefaultServeMux
	}
	for {
		if srv.ReadTimeout > 0 {
			c.SetReadDeadline(Now().Add(srv.ReadTimeout))
		} else if srv.ReadHeaderTimeout > 0 {
			c.SetReadDeadline(Now().Add(srv.ReadHeaderTimeout))
		}
		req, err := readReq(br)
		if err != nil {
			if err != io.EOF && !errors.Is(err, net.ErrClosed) {
				var oe *net.OpError
				if !errors.As(err, &oe) && err != io.ErrUnexpectedEOF {
					fmt.Fprintf(c, "HTTP/1.1 400 Bad Request\r\nContent-Type: text/plain; charset=utf-8\r\nConnection: close\r\n\r\n400 Bad Request")
				}
			}
			return
		}
		if srv.ReadTimeout > 0 || srv.ReadHeaderTimeout > 0 {
			c.SetReadDeadline(time.Time{})
		}
		if srv.WriteTimeout > 0 {
			c.SetWriteDeadline(Now().Add(srv.WriteTimeout))
		}
		S.Tot.HTTPReqs++
		req.RemoteAddr = c.RemoteAddr().String()
		ctx, cancel := WithCancel(context.WithValue(context.Background(), http.LocalAddrContextKey, c.LocalAddr()))
		req = req.WithContext(ctx)
		w = &httpResp{conn: c, buf: bufio.NewReadWriter(br, bw), req: req, hdr: http.Header{}, clen: -1, tcp: tcp, cancel: cancel}
		if tcp != nil {
			tcp.OnEOF = cancel
		}
		if strings.EqualFold(req.Header.Get("Expect"), "100-continue") {
			fmt.Fprintf(c, "HTTP/1.1 100 Continue\r\n\r\n")
		}
		h.ServeHTTP(w, req)
		cancel()
		if w.hijacked {
			return
		}
		w.finish()
		if tcp != nil {
			tcp.OnEOF = nil
		}
		if req.Body != nil {
			n, _ := io.CopyN(io.Discard, req.Body, 256<<10)
			if n >= 256<<10 {
				return
			}
		}
		if w.closeAfter || w.werr != nil {
			return
		}
		if srv.IdleTimeout > 0 {
			c.SetReadDeadline(Now().Add(srv.IdleTimeout))
		}
	}
}

func readReq(br *bufio.Reader) (*http.Request, error) {
	req, err := http.ReadRequest(br)
	if err != nil {
		return nil, err
	}
	if req.ProtoAtLeast(1, 1) && req.Host == "" && len(req.Header["Host"]) == 0 && req.URL.Host == "" {
		// net/http answers 400 "missing required Host header"
		return nil, textproto.ProtocolError("missing required Host header")
	}
	return req, nil
}

func containsDotDot(v string) bool {
	if !strings.Contains(v, "..") {
		return false
	}
	for _, e := range strings.FieldsFunc(v, func(r rune) bool { return r == '/' || r == '\\' }) {
		if e == ".." {
			return true
		}
	}
	return false
}

// ServeFile replaces http.ServeFile on the simulated file system.
func ServeFile(w http.ResponseWriter, r *http.Request, name string) {
	if containsDotDot(r.URL.Path) {
		http.Error(w, "invalid URL path", http.StatusBadRequest)
		return
	}
	if strings.HasSuffix(r.URL.Path, "/index.html") {
		w.Header().Set("Location", "./")
		w.WriteHeader(http.StatusMovedPermanently)
		return
	}
	fail := func(err error) {
		code := 500
		if errors.Is(err, errNotExist) {
			code = 404
		}
		for _, k := range []string{"Cache-Control", "Content-Encoding", "Etag", "Last-Modified"} {
			w.Header().Del(k)
		}
		http.Error(w, fmt.Sprintf("%d", code), code)
	}
	f, err := Open(name)
	if err != nil {
		fail(err)
		return
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		fail(err)
		return
	}
	if fi.IsDir() {
		fail(errNotExist)
		return
	}
	http.ServeContent(w, r, path.Base(name), fi.ModTime(), f)
}
