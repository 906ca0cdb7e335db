package simrt

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// NetConfig is the behaviour of the simulated network in one run.
type NetConfig struct {
	LatMin, LatMax time.Duration // per segment / datagram
	Window         int           // receive window of a TCP connection
	SegMode        int           // 0 whole writes, 1 MTU, 2 tiny, 3 mixed
	ShortRead      float64       // probability that a Read returns fewer bytes than available
	UDPLoss        float64
	UDPDup         float64
	UDPReorder     float64 // probability of an extra delay
	UDPExtra       time.Duration
	UDPQueue       int
	UDPBusy        int     `json:",omitempty"` // every UDPBusy-th odd UDP port from 10000 on is another process's
	UDPErr         float64 `json:",omitempty"` // probability that a read of a datagram fails first
	RefuseDelay    time.Duration
}

func DefaultNet() NetConfig {
	return NetConfig{LatMin: 200 * time.Microsecond, LatMax: 2 * time.Millisecond, Window: 64 << 10, UDPQueue: 4096}
}

type heldSeg struct {
	pair [2]string
	fn   func()
}

func pairKey(a, b string) [2]string {
	if a > b {
		a, b = b, a
	}
	return [2]string{a, b}
}

// Partition cuts (or heals) all traffic between two nodes.
func (s *Sim) Partition(a, b string, on bool) {
	k := pairKey(a, b)
	if on {
		s.parts[k] = true
		return
	}
	delete(s.parts, k)
	var rest []heldSeg
	var run []func()
	for _, h := range s.held {
		if h.pair == k {
			run = append(run, h.fn)
		} else {
			rest = append(rest, h)
		}
	}
	s.held = rest
	// at once and in order: anything still under way arrives later
	for _, fn := range run {
		fn()
	}
}

func (s *Sim) cut(a, b *Node) bool { return len(s.parts) > 0 && s.parts[pairKey(a.Name, b.Name)] }

// deliver runs fn now, or when the partition between the nodes heals.
func (s *Sim) deliver(a, b *Node, fn func()) {
	if s.cut(a, b) {
		s.held = append(s.held, heldSeg{pairKey(a.Name, b.Name), fn})
		return
	}
	fn()
}

func (s *Sim) lat(keys ...uint64) int64 {
	lo, hi := int64(s.Net.LatMin), int64(s.Net.LatMax)
	if hi <= lo {
		return lo
	}
	return lo + int64(Hash(append([]uint64{s.Seed, 11}, keys...)...)%uint64(hi-lo+1))
}

func opErr(op string, a, b net.Addr, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: a, Addr: b, Err: err}
}

func sysErr(call string, e syscall.Errno) error { return os.NewSyscallError(call, e) }

// ---- TCP ----------------------------------------------------------------------

// TCPConn replaces net.TCPConn.
type TCPConn struct {
	id            int
	sim           *Sim
	node          *Node
	local, remote *net.TCPAddr
	peer          *TCPConn
	rbuf          []byte
	roff          int
	rfin          bool
	rerr          error // reset seen
	closed        bool  // closed locally
	wclosed       bool
	dead          bool // host vanished
	inflight      int
	lastArr       int64
	rq, wq        waitq // readers of this conn; writers of the PEER waiting for our window
	rdl, wdl      time.Time
	nread, nwrite int64
	wseg          uint64
	wbusy         bool // a Write is in progress (the kernel/runtime serialises writers)
	wlq           waitq
	OnEOF         func()
	// Window overrides the receive window (0: default).
	Window int
	// SegMode / ShortRead override (-1: default).
	Seg   int
	Short float64
	// Mut, if set, replaces what is written and may act afterwards.
	Mut func([]byte) ([]byte, func())
	// RxBytes counts bytes ever delivered to this end.
	RxBytes int64
}

func (c *TCPConn) window() int {
	if c.Window > 0 {
		return c.Window
	}
	return c.sim.Net.Window
}

func (c *TCPConn) avail() int { return len(c.rbuf) - c.roff }

// Unread is the number of delivered but unread bytes.
func (c *TCPConn) Unread() int { return c.avail() }

func (c *TCPConn) Read(p []byte) (int, error) {
	s := c.sim
	if dying() {
		goexitIfTask()
		return 0, net.ErrClosed
	}
	SyncPoint()
	for {
		if c.closed {
			return 0, opErr("read", c.local, c.remote, net.ErrClosed)
		}
		if !c.rdl.IsZero() && !Now().Before(c.rdl) {
			return 0, opErr("read", c.local, c.remote, os.ErrDeadlineExceeded)
		}
		if n := c.avail(); n > 0 {
			if len(p) == 0 {
				return 0, nil
			}
			m := n
			if m > len(p) {
				m = len(p)
			}
			sp := s.Net.ShortRead
			if c.Short >= 0 {
				sp = c.Short
			}
			if m > 1 && sp > 0 {
				h := Hash(s.Seed, 21, uint64(c.id), uint64(c.nread))
				if float64(h%1000)/1000 < sp {
					m = 1 + int(mix(h)%uint64(m-1))
					s.Faults["short_read"]++
				}
			}
			copy(p, c.rbuf[c.roff:c.roff+m])
			c.roff += m
			c.nread += int64(m)
			if c.roff == len(c.rbuf) {
				c.rbuf, c.roff = c.rbuf[:0], 0
			}
			c.wq.wakeAll(s)
			return m, nil
		}
		if c.rerr != nil {
			return 0, opErr("read", c.local, c.remote, c.rerr)
		}
		if c.rfin {
			return 0, io.EOF
		}
		if len(p) == 0 {
			return 0, nil
		}
		w := s.me()
		c.rq.add(w)
		if !c.rdl.IsZero() {
			s.after(int64(c.rdl.Sub(Now())), func() { s.wake(w) })
		}
		s.park("tcp read " + c.local.String() + "<-" + c.remote.String())
	}
}

// Write sends p; what a hostile peer's connection sends is what Mut makes
// of it.
func (c *TCPConn) Write(p []byte) (int, error) {
	if c.Mut == nil {
		return c.write(p)
	}
	q, then := c.Mut(append([]byte(nil), p...))
	n, err := 0, error(nil)
	if len(q) > 0 {
		n, err = c.write(q)
	} else {
		SyncPoint()
		if c.closed {
			err = opErr("write", c.local, c.remote, net.ErrClosed)
		}
	}
	if then != nil {
		then()
	}
	if err == nil {
		return len(p), nil
	}
	if n > len(p) {
		n = len(p)
	}
	return n, err
}

func (c *TCPConn) write(p []byte) (int, error) {
	s := c.sim
	if dying() {
		goexitIfTask()
		return 0, net.ErrClosed
	}
	SyncPoint()
	for c.wbusy {
		c.wlq.add(s.me())
		s.park("tcp write lock " + c.local.String() + "->" + c.remote.String())
	}
	c.wbusy = true
	defer func() {
		c.wbusy = false
		c.wlq.wakeOne(s)
	}()
	n := 0
	for {
		if c.closed || c.wclosed {
			return n, opErr("write", c.local, c.remote, net.ErrClosed)
		}
		if c.rerr != nil {
			e := c.rerr
			if c.nwrite < 0 {
				e = sysErr("write", syscall.EPIPE)
			}
			c.nwrite = -1
			return n, opErr("write", c.local, c.remote, e)
		}
		if !c.wdl.IsZero() && !Now().Before(c.wdl) {
			return n, opErr("write", c.local, c.remote, os.ErrDeadlineExceeded)
		}
		if n == len(p) {
			return n, nil
		}
		pr := c.peer
		space := pr.window() - pr.avail() - pr.inflight
		if pr.closed && !pr.dead {
			space = 1 << 20 // swallowed, answered by a reset
		}
		if space > 0 {
			m := len(p) - n
			if m > space {
				m = space
			}
			c.send(p[n : n+m])
			n += m
			s.Tot.TCPBytes += int64(m)
			continue
		}
		s.Faults["backpressure"]++
		w := s.me()
		pr.wq.add(w)
		if !c.wdl.IsZero() {
			s.after(int64(c.wdl.Sub(Now())), func() { s.wake(w) })
		}
		s.park("tcp write " + c.local.String() + "->" + c.remote.String())
		if dying() {
			goexitIfTask()
		}
	}
}

func goexitIfTask() {
	if S != nil && S.cur != nil {
		goexit()
	}
}

// send cuts data into segments and schedules their arrival, in order.
func (c *TCPConn) send(p []byte) {
	s := c.sim
	mode := s.Net.SegMode
	if c.peer.Seg >= 0 {
		mode = c.peer.Seg
	}
	if c.Seg >= 0 {
		mode = c.Seg
	}
	for len(p) > 0 {
		c.wseg++
		h := Hash(s.Seed, 31, uint64(c.id), c.wseg)
		n := len(p)
		switch mode {
		case 1:
			n = 1460
		case 2:
			n = 1 + int(h%16)
		case 3:
			switch h % 4 {
			case 0:
				n = 1 + int((h>>8)%7)
			case 1:
				n = 1 + int((h>>8)%200)
			case 2:
				n = 1 + int((h>>8)%3000)
			}
		}
		if n > len(p) {
			n = len(p)
		}
		d := append([]byte(nil), p[:n]...)
		p = p[n:]
		c.peer.inflight += n
		c.sched(h, func(pr *TCPConn) {
			pr.inflight -= len(d)
			if pr.closed || pr.rerr != nil {
				if pr.closed && !pr.dead {
					c.schedBackRST()
				}
				return
			}
			pr.rbuf = append(pr.rbuf, d...)
			pr.RxBytes += int64(len(d))
			pr.rq.wakeAll(s)
		})
	}
}

// sched runs fn at the peer after the network delay, keeping order.
func (c *TCPConn) sched(h uint64, fn func(pr *TCPConn)) {
	s := c.sim
	pr := c.peer
	at := s.now + s.lat(uint64(c.id), 5, h)
	if at < pr.lastArr {
		at = pr.lastArr
	}
	pr.lastArr = at
	s.after(at-s.now, func() {
		s.deliver(c.node, pr.node, func() {
			if pr.dead {
				return
			}
			fn(pr)
		})
	})
}

// schedBackRST resets this side because the peer's socket is gone.
func (c *TCPConn) schedBackRST() {
	s := c.sim
	s.after(s.lat(uint64(c.id), 6, c.wseg), func() {
		s.deliver(c.node, c.peer.node, func() { c.gotRST() })
	})
}

func (c *TCPConn) gotRST() {
	if c.rerr != nil || c.closed {
		return
	}
	c.rerr = sysErr("read", syscall.ECONNRESET)
	c.rq.wakeAll(c.sim)
	c.peer.wq.wakeAll(c.sim)
	if c.OnEOF != nil {
		c.OnEOF()
	}
}

func (c *TCPConn) fin() {
	if c.wclosed {
		return
	}
	c.wclosed = true
	c.wseg++
	c.sched(Hash(c.sim.Seed, 32, uint64(c.id), c.wseg), func(pr *TCPConn) {
		pr.rfin = true
		pr.rq.wakeAll(c.sim)
		if pr.OnEOF != nil {
			pr.OnEOF()
		}
	})
}

// Close closes the connection; unread input makes it a reset, as in a real kernel.
func (c *TCPConn) Close() error {
	if dying() {
		return nil
	}
	SyncPoint()
	if S != nil {
		S.Arm()
	}
	if c.closed {
		return opErr("close", c.local, c.remote, net.ErrClosed)
	}
	if c.avail() > 0 {
		c.Reset()
		return nil
	}
	c.fin()
	c.closed = true
	delete(c.node.conns, c)
	c.rq.wakeAll(c.sim)
	c.wq.wakeAll(c.sim)
	c.peer.wq.wakeAll(c.sim)
	return nil
}

// Reset aborts the connection with RST (undelivered data is lost).
func (c *TCPConn) Reset() {
	if c.closed {
		return
	}
	c.abort()
}

func (c *TCPConn) abort() {
	s := c.sim
	c.closed = true
	delete(c.node.conns, c)
	c.rq.wakeAll(s)
	c.wq.wakeAll(s)
	c.peer.wq.wakeAll(s)
	pr := c.peer
	s.after(s.lat(uint64(c.id), 7, c.wseg), func() {
		s.deliver(c.node, pr.node, func() { pr.gotRST() })
	})
}

func (c *TCPConn) CloseWrite() error    { SyncPoint(); c.fin(); return nil }
func (c *TCPConn) CloseRead() error     { return nil }
func (c *TCPConn) LocalAddr() net.Addr  { return c.local }
func (c *TCPConn) RemoteAddr() net.Addr { return c.remote }
func (c *TCPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", c.local, c.remote, net.ErrClosed)
	}
	c.rdl = t
	c.rq.wakeAll(c.sim)
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", c.local, c.remote, net.ErrClosed)
	}
	c.wdl = t
	c.peer.wq.wakeAll(c.sim)
	return nil
}
func (c *TCPConn) SetNoDelay(bool) error                        { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                      { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error       { return nil }
func (c *TCPConn) SetKeepAliveConfig(net.KeepAliveConfig) error { return nil }
func (c *TCPConn) SetReadBuffer(int) error                      { return nil }
func (c *TCPConn) SetWriteBuffer(int) error                     { return nil }
func (c *TCPConn) SetLinger(int) error                          { return nil }
func (c *TCPConn) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{c}, r)
}

// Broken reports whether the connection was reset by the peer, or ended.
func (c *TCPConn) Broken() bool { return c.rerr != nil }

// Closed reports whether this end was closed locally.
func (c *TCPConn) Closed() bool { return c.closed }

// GotFIN reports whether the peer's FIN has arrived.
func (c *TCPConn) GotFIN() bool { return c.rfin }

// PeerConn is the other end (harness only).
func (c *TCPConn) PeerConn() *TCPConn { return c.peer }

func sortedConns(m map[*TCPConn]bool) []*TCPConn {
	var l []*TCPConn
	for c := range m {
		l = append(l, c)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// TCPListener replaces net.TCPListener.
type TCPListener struct {
	node    *Node
	addr    *net.TCPAddr
	backlog []*TCPConn
	q       waitq
	closed  bool
	dl      time.Time
}

// noFD reports whether the node has no descriptor left.
func (n *Node) noFD() bool {
	if n.FDs == 0 {
		return false
	}
	k := len(n.conns) + len(n.udp) + len(n.lis)
	for _, l := range n.lis {
		k -= len(l.backlog)
	}
	if k < n.FDs {
		return false
	}
	s := n.sim
	s.Faults["emfile"]++
	if m := len(n.FDFull); m == 0 || s.now-n.FDFull[m-1] >= 1_000_000 {
		n.FDFull = append(n.FDFull, s.now)
	}
	return true
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	s := l.node.sim
	if dying() {
		goexitIfTask()
	}
	SyncPoint()
	for {
		if l.closed {
			return nil, opErr("accept", l.addr, nil, net.ErrClosed)
		}
		if !l.dl.IsZero() && !Now().Before(l.dl) {
			return nil, opErr("accept", l.addr, nil, os.ErrDeadlineExceeded)
		}
		if l.node.noFD() { // the descriptor comes first
			Sleep(100 * time.Microsecond)
			return nil, opErr("accept", l.addr, nil, sysErr("accept4", syscall.EMFILE))
		}
		if len(l.backlog) > 0 {
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			return c, nil
		}
		w := s.me()
		l.q.add(w)
		if !l.dl.IsZero() {
			s.after(int64(l.dl.Sub(Now())), func() { s.wake(w) })
		}
		s.park("accept " + l.addr.String())
	}
}
func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (l *TCPListener) Close() error {
	if dying() {
		return nil
	}
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	delete(l.node.lis, l.addr.Port)
	for _, c := range l.backlog {
		c.abort()
	}
	l.backlog = nil
	l.q.wakeAll(l.node.sim)
	return nil
}
func (l *TCPListener) Addr() net.Addr                { return l.addr }
func (l *TCPListener) SetDeadline(t time.Time) error { l.dl = t; l.q.wakeAll(l.node.sim); return nil }

var errNoTask = errors.New("simrt: network use outside a simulated task")

// ListenTCP replaces net.ListenTCP.
func ListenTCP(network string, a *net.TCPAddr) (*TCPListener, error) {
	n := CurNode()
	if n == nil {
		return nil, errNoTask
	}
	if dying() {
		return nil, errKilled
	}
	port := 0
	if a != nil {
		port = a.Port
	}
	if port == 0 {
		n.eport++
		port = n.eport
	}
	addr := &net.TCPAddr{IP: net.ParseIP(n.IP), Port: port}
	if _, ok := n.lis[port]; ok {
		return nil, opErr("listen", nil, addr, sysErr("bind", syscall.EADDRINUSE))
	}
	l := &TCPListener{node: n, addr: addr}
	n.lis[port] = l
	return l, nil
}

// Listen replaces net.Listen.
func Listen(network, address string) (net.Listener, error) {
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, err
	}
	l, err := ListenTCP(network, a)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func (s *Sim) lookup(host string) (*Node, bool) {
	if host == "" || host == "localhost" || host == "127.0.0.1" || host == "0.0.0.0" || host == "::" {
		return CurNode(), true
	}
	if n, ok := s.Nodes[host]; ok {
		return n, true
	}
	if n, ok := s.byIP[host]; ok {
		return n, true
	}
	return nil, false
}

func resolve(address string) (net.IP, int, error) {
	h, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, 0, &net.OpError{Op: "dial", Net: "tcp", Err: err}
	}
	port, err := strconv.Atoi(p)
	if err != nil || port < 0 || port > 65535 {
		return nil, 0, &net.OpError{Op: "dial", Net: "tcp", Err: &net.AddrError{Err: "invalid port", Addr: address}}
	}
	if h == "" {
		return nil, port, nil
	}
	if ip := net.ParseIP(h); ip != nil {
		return ip, port, nil
	}
	if S != nil {
		if n, ok := S.lookup(h); ok && n != nil {
			return net.ParseIP(n.IP), port, nil
		}
	}
	return nil, 0, &net.OpError{Op: "dial", Net: "tcp", Err: &net.DNSError{Err: "no such host", Name: h, IsNotFound: true}}
}

func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	ip, port, err := resolve(address)
	if err != nil {
		return nil, err
	}
	return &net.TCPAddr{IP: ip, Port: port}, nil
}
func ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	ip, port, err := resolve(address)
	if err != nil {
		return nil, err
	}
	return &net.UDPAddr{IP: ip, Port: port}, nil
}

// DialTimeout replaces net.DialTimeout.
func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	c, err := dialTCP(address, d)
	if err != nil {
		return nil, err
	}
	return c, nil
}
func Dial(network, address string) (net.Conn, error) {
	if strings.HasPrefix(network, "udp") {
		a, err := ResolveUDPAddr(network, address)
		if err != nil {
			return nil, err
		}
		return DialUDP(network, nil, a)
	}
	return DialTimeout(network, address, 0)
}
func DialTCP(network string, l, r *net.TCPAddr) (*TCPConn, error) { return dialTCP(r.String(), 0) }

// Dialer replaces net.Dialer.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
	LocalAddr net.Addr
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	to := d.Timeout
	if !d.Deadline.IsZero() {
		if u := d.Deadline.Sub(Now()); to == 0 || u < to {
			to = u
		}
	}
	return DialTimeout(network, address, to)
}

func dialTCP(address string, timeout time.Duration) (*TCPConn, error) {
	s := S
	if s == nil || s.cur == nil {
		return nil, errNoTask
	}
	if dying() {
		goexit()
	}
	SyncPoint()
	me := s.cur.Node
	ip, port, err := resolve(address)
	if err != nil {
		return nil, err
	}
	host := me.IP
	if ip != nil {
		host = ip.String()
	}
	raddr := &net.TCPAddr{IP: net.ParseIP(host), Port: port}
	deadline := int64(1 << 62)
	if timeout > 0 {
		deadline = s.now + int64(timeout)
	} else {
		deadline = s.now + int64(127*time.Second) // kernel SYN retries
	}
	if me.noFD() {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: raddr, Err: sysErr("socket", syscall.EMFILE)}
	}
	if s.OnDial != nil {
		s.OnDial(me, host, port)
	}
	dst, ok := s.lookup(host)
	state := 0 // 0 waiting 1 connected 2 refused
	var mine, theirs *TCPConn
	w := s.me()
	t := s.cur
	key := Hash(uint64(s.conns), 41)
	s.after(deadline-s.now, func() { s.wake(w) })
	if ok && dst != nil {
		var syn func()
		syn = func() {
			if t.dying || state != 0 {
				return
			}
			if dst.Dead || s.stalls[dst.Name+"/syn"] {
				if dst.Dead && !s.stalls[dst.Name+"/silent"] {
					state = 2
					s.wake(w)
					return
				}
				// host down: SYN retransmitted
				s.after(int64(time.Second), func() { s.deliver(me, dst, syn) })
				return
			}
			l := dst.lis[port]
			if l == nil || l.closed {
				s.after(s.lat(key, 2), func() {
					s.deliver(me, dst, func() {
						if state == 0 {
							state = 2
							s.wake(w)
						}
					})
				})
				return
			}
			me.eport++
			s.conns++
			s.Tot.Conns++
			la := &net.TCPAddr{IP: net.ParseIP(me.IP), Port: me.eport}
			mine = &TCPConn{id: s.conns * 2, sim: s, node: me, local: la, remote: raddr, Seg: -1, Short: -1}
			theirs = &TCPConn{id: s.conns*2 + 1, sim: s, node: dst, local: raddr, remote: la, Seg: -1, Short: -1}
			mine.peer, theirs.peer = theirs, mine
			dst.conns[theirs] = true
			me.conns[mine] = true
			if me.OnConn != nil {
				me.OnConn(mine)
			}
			if dst.OnConn != nil {
				dst.OnConn(theirs)
			}
			l.backlog = append(l.backlog, theirs)
			l.q.wakeAll(s)
			s.after(s.lat(key, 3), func() {
				s.deliver(me, dst, func() {
					if state == 0 {
						state = 1
						s.wake(w)
					}
				})
			})
		}
		s.after(s.lat(key, 1), func() { s.deliver(me, dst, syn) })
	}
	s.park("dial " + address)
	for state == 0 && s.now < deadline {
		w = s.me()
		ww := w
		s.after(deadline-s.now, func() { s.wake(ww) })
		s.park("dial " + address)
	}
	switch state {
	case 1:
		return mine, nil
	case 2:
		if s.OnDialed != nil {
			s.OnDialed(me, host, port)
		}
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: raddr, Err: sysErr("connect", syscall.ECONNREFUSED)}
	}
	state = 3
	if mine != nil {
		mine.abort()
	}
	if s.OnDialed != nil {
		s.OnDialed(me, host, port)
	}
	return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: raddr, Err: os.ErrDeadlineExceeded}
}

// ---- UDP ------------------------------------------------------------------------

type dgram struct {
	from *net.UDPAddr
	b    []byte
}

// UDPConn replaces net.UDPConn.
type UDPConn struct {
	node   *Node
	local  *net.UDPAddr
	remote *net.UDPAddr
	q      []dgram
	rq     waitq
	closed bool
	rdl    time.Time
	Recvd  int
	reads  uint64
}

func ListenUDP(network string, a *net.UDPAddr) (*UDPConn, error) {
	n := CurNode()
	if n == nil {
		return nil, errNoTask
	}
	if dying() {
		return nil, errKilled
	}
	port := 0
	if a != nil {
		port = a.Port
	}
	if n.noFD() {
		return nil, &net.OpError{Op: "listen", Net: "udp", Err: sysErr("socket", syscall.EMFILE)}
	}
	if port == 0 {
		for {
			n.eport++
			if _, ok := n.udp[n.eport]; !ok {
				break
			}
		}
		port = n.eport
	}
	busy := false
	if s := n.sim; a != nil && !n.Extern && s.Net.UDPBusy > 0 && a.Port >= 10000 && a.Port%2 == 1 && a.Port/2%s.Net.UDPBusy == 0 {
		busy = s.Fault("udp_port_taken", fmt.Sprint(a.Port))
	}
	if _, ok := n.udp[port]; ok || busy {
		return nil, &net.OpError{Op: "listen", Net: "udp", Err: sysErr("bind", syscall.EADDRINUSE)}
	}
	u := &UDPConn{node: n, local: &net.UDPAddr{IP: net.ParseIP(n.IP), Port: port}}
	n.udp[port] = u
	return u, nil
}
func ListenPacket(network, address string) (net.PacketConn, error) {
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, err
	}
	return ListenUDP(network, a)
}
func DialUDP(network string, l, r *net.UDPAddr) (*UDPConn, error) {
	u, err := ListenUDP(network, l)
	if err != nil {
		return nil, err
	}
	u.remote = r
	return u, nil
}

func (u *UDPConn) ReadFromUDP(p []byte) (int, *net.UDPAddr, error) {
	s := u.node.sim
	if dying() {
		goexitIfTask()
	}
	SyncPoint()
	for {
		if u.closed {
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Source: u.local, Err: net.ErrClosed}
		}
		if !u.rdl.IsZero() && !Now().Before(u.rdl) {
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Source: u.local, Err: os.ErrDeadlineExceeded}
		}
		if len(u.q) > 0 {
			if e := s.Net.UDPErr; e > 0 && !u.node.Extern {
				u.reads++
				if float64(Hash(s.Seed, 54, uint64(u.local.Port), u.reads)%100000)/100000 < e && s.Fault("udp_read_error", fmt.Sprintf("%d/%d", u.local.Port, u.reads)) {
					return 0, nil, &net.OpError{Op: "read", Net: "udp", Source: u.local, Err: sysErr("recvfrom", syscall.ENOMEM)}
				}
			}
			d := u.q[0]
			u.q = u.q[1:]
			n := copy(p, d.b)
			return n, &net.UDPAddr{IP: append(net.IP(nil), d.from.IP...), Port: d.from.Port}, nil
		}
		w := s.me()
		u.rq.add(w)
		if !u.rdl.IsZero() {
			s.after(int64(u.rdl.Sub(Now())), func() { s.wake(w) })
		}
		s.park("udp read " + u.local.String())
	}
}
func (u *UDPConn) ReadFrom(p []byte) (int, net.Addr, error) {
	n, a, err := u.ReadFromUDP(p)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}
func (u *UDPConn) Read(p []byte) (int, error) { n, _, err := u.ReadFromUDP(p); return n, err }

func (u *UDPConn) WriteToUDP(p []byte, a *net.UDPAddr) (int, error) {
	s := u.node.sim
	if dying() {
		goexitIfTask()
		return 0, net.ErrClosed
	}
	SyncPoint()
	if u.closed {
		return 0, &net.OpError{Op: "write", Net: "udp", Source: u.local, Addr: a, Err: net.ErrClosed}
	}
	if a == nil {
		return 0, &net.OpError{Op: "write", Net: "udp", Source: u.local, Err: errors.New("missing address")}
	}
	if f := u.node.MutUDP; f != nil {
		n := len(p)
		if p = f(append([]byte(nil), p...)); p == nil {
			return n, nil
		}
	}
	if len(p) > 65507 {
		return 0, &net.OpError{Op: "write", Net: "udp", Source: u.local, Addr: a, Err: sysErr("sendto", syscall.EMSGSIZE)}
	}
	s.Tot.UDPPackets++
	if s.OnUDPOut != nil {
		s.OnUDPOut(u.node, u.local.Port, a, p)
	}
	dst, ok := s.lookup(a.IP.String())
	if !ok || dst == nil {
		return len(p), nil
	}
	flow := fmt.Sprintf("%s:%d>%s:%d", u.node.Name, u.local.Port, dst.Name, a.Port)
	k := s.udpFlow[flow]
	s.udpFlow[flow] = k + 1
	fh := HashStr(flow)
	b := append([]byte(nil), p...)
	port := a.Port
	from := &net.UDPAddr{IP: u.local.IP, Port: u.local.Port}
	fkey := fmt.Sprintf("%s/%d", flow, k)
	roll := func(x uint64) float64 { return float64(Hash(s.Seed, 51, fh, k, x)%100000) / 100000 }
	arrive := func(extra int64, x uint64) {
		d := s.lat(fh, k, x)
		if extra == 0 && x == 60 { // only the reorder fault reorders a flow
			if last := s.udpLast[flow]; s.now+d < last {
				d = last - s.now
			}
			s.udpLast[flow] = s.now + d
		}
		s.after(d+extra, func() {
			if s.cut(u.node, dst) {
				s.Faults["partition_drop"]++
				return
			}
			if d := dst.udp[port]; d != nil && !d.closed {
				if len(d.q) >= s.Net.UDPQueue {
					s.Faults["udp_overflow"]++
					return
				}
				d.q = append(d.q, dgram{from, b})
				if s.OnUDP != nil {
					s.OnUDP(dst, port, from, b)
				}
				d.Recvd++
				d.rq.wakeOne(s)
			}
		})
	}
	if s.Net.UDPLoss > 0 && roll(1) < s.Net.UDPLoss && s.Fault("udp_loss", fkey) {
		return len(p), nil
	}
	var extra int64
	if s.Net.UDPReorder > 0 && roll(2) < s.Net.UDPReorder && s.Fault("udp_delay", fkey) {
		extra = int64(Hash(s.Seed, 52, fh, k) % uint64(s.Net.UDPExtra+1))
	}
	arrive(extra, 60)
	if s.Net.UDPDup > 0 && roll(3) < s.Net.UDPDup && s.Fault("udp_dup", fkey) {
		arrive(int64(Hash(s.Seed, 53, fh, k)%uint64(s.Net.UDPExtra+1)), 61)
	}
	return len(p), nil
}
func (u *UDPConn) WriteTo(p []byte, a net.Addr) (int, error) {
	ua, _ := a.(*net.UDPAddr)
	return u.WriteToUDP(p, ua)
}
func (u *UDPConn) Write(p []byte) (int, error) { return u.WriteToUDP(p, u.remote) }
func (u *UDPConn) Close() error {
	if dying() {
		return nil
	}
	SyncPoint()
	if u.closed {
		return net.ErrClosed
	}
	u.closed = true
	delete(u.node.udp, u.local.Port)
	u.rq.wakeAll(u.node.sim)
	return nil
}
func (u *UDPConn) LocalAddr() net.Addr { return u.local }
func (u *UDPConn) RemoteAddr() net.Addr {
	if u.remote == nil {
		return nil
	}
	return u.remote
}
func (u *UDPConn) SetDeadline(t time.Time) error      { return u.SetReadDeadline(t) }
func (u *UDPConn) SetReadDeadline(t time.Time) error  { u.rdl = t; u.rq.wakeAll(u.node.sim); return nil }
func (u *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (u *UDPConn) SetReadBuffer(int) error            { return nil }
func (u *UDPConn) SetWriteBuffer(int) error           { return nil }

// OpenUDP lists the UDP ports a node has open.
func (n *Node) OpenUDP() []int {
	var l []int
	for p := range n.udp {
		l = append(l, p)
	}
	sort.Ints(l)
	return l
}

// OpenConns counts connections the node has not closed.
func (n *Node) OpenConns() int { return len(n.conns) }

// Listening says whether the node has a TCP listener (or UDP socket) on the port.
func (n *Node) Listening(port int) bool { return n.lis[port] != nil }

// UDPBound says whether the node has a UDP socket on the port.
func (n *Node) UDPBound(port int) bool { return n.udp[port] != nil }
