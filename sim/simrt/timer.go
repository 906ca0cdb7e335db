package simrt

import (
	"context"
	"time"
)

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	ev *event
}

func (t *Timer) arm(d time.Duration) {
	s := S
	var ev *event
	node := CurNode()
	ext := s.cur == nil || s.cur.extern
	ev = s.after(int64(d), func() {
		if t.ev != ev {
			return
		}
		t.ev = nil
		if node != nil && node.Dead {
			return
		}
		if t.f != nil {
			s.spawn(node, "AfterFunc", ext, t.f)
			return
		}
		s.notifySend(t.c, Now())
	})
	t.ev = ev
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	if !dying() {
		t.arm(d)
	}
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	if !dying() {
		t.arm(d)
	}
	return t
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	SyncPoint()
	if t.ev == nil {
		if t.c != nil { // go >= 1.23 semantics: no stale value after Stop
			select {
			case <-t.c:
			default:
			}
		}
		return false
	}
	t.ev.fn = nil
	t.ev = nil
	return true
}
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	if !dying() {
		t.arm(d)
	}
	return was
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	ev   *event
	stop bool
	d    time.Duration
	node *Node
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d, node: CurNode()}
	if !dying() {
		t.arm()
	}
	return t
}
func (t *Ticker) arm() {
	s := S
	var ev *event
	ev = s.after(int64(t.d), func() {
		if t.stop || t.ev != ev || (t.node != nil && t.node.Dead) {
			return
		}
		s.notifySend(t.c, Now())
		t.arm()
	})
	t.ev = ev
}
func (t *Ticker) Stop() { t.stop = true; t.ev = nil }
func (t *Ticker) Reset(d time.Duration) {
	t.d = d
	t.stop = false
	t.arm()
}
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// ---- context ------------------------------------------------------------------

type simCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children []*simCtx
	deadline time.Time
	hasDL    bool
	closed   bool
	after    map[int]func()
	afterN   int
	node     *Node
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error            { return c.err }
func (c *simCtx) Value(k any) any {
	if k == &simCtxKey {
		return c
	}
	return c.parent.Value(k)
}

var simCtxKey int

// cancel never blocks, so events may call it.
func (c *simCtx) cancel(err error) { c.cancelCause(err, nil) }
func (c *simCtx) cancelCause(err, cause error) {
	if c.closed {
		return
	}
	c.closed = true
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	for n := 0; n < c.afterN; n++ {
		f := c.after[n]
		if f == nil {
			continue
		}
		if S != nil && S.cur != nil && !S.killing {
			Go(f)
		} else if S != nil && !S.killing && c.node != nil {
			S.GoOn(c.node, "ctxafter", f)
		}
	}
	c.after = nil
	if S != nil && !S.killing {
		S.closeChan(refOf(c.done), func() { close(c.done) })
	}
	for _, k := range c.children {
		k.cancelCause(err, cause)
	}
}

func newCtx(parent context.Context) *simCtx {
	c := &simCtx{parent: parent, done: make(chan struct{}), node: CurNode()}
	if p, ok := parent.Value(&simCtxKey).(*simCtx); ok {
		if p.err != nil {
			c.cancelCause(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled) }
}
func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if d, ok := parent.Deadline(); ok && d.Before(t) {
		t = d
	}
	c.deadline, c.hasDL = t, true
	if S != nil && !S.killing {
		S.after(int64(Until(t)), func() { c.cancel(context.DeadlineExceeded) })
	}
	return c, func() { c.cancel(context.Canceled) }
}
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(e error) { c.cancelCause(context.Canceled, e) }
}
func WithDeadlineCause(parent context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if d, ok := parent.Deadline(); ok && d.Before(t) {
		t = d
	}
	c.deadline, c.hasDL = t, true
	if S != nil && !S.killing {
		S.after(int64(Until(t)), func() { c.cancelCause(context.DeadlineExceeded, cause) })
	}
	return c, func() { c.cancel(context.Canceled) }
}
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Now().Add(d), cause)
}

// Cause replaces context.Cause.
func Cause(c context.Context) error {
	if p, ok := c.Value(&simCtxKey).(*simCtx); ok {
		return p.cause
	}
	return c.Err()
}

// noCancel is the context of context.WithoutCancel.
type noCancel struct{ context.Context }

func (noCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (noCancel) Done() <-chan struct{}       { return nil }
func (noCancel) Err() error                  { return nil }
func (n noCancel) Value(k any) any {
	if k == &simCtxKey {
		return nil
	}
	return n.Context.Value(k)
}
func WithoutCancel(parent context.Context) context.Context { return noCancel{parent} }

// CtxAfterFunc replaces context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	p, ok := ctx.Value(&simCtxKey).(*simCtx)
	if !ok {
		return func() bool { return false }
	}
	if p.closed {
		Go(f)
		return func() bool { return false }
	}
	if p.after == nil {
		p.after = map[int]func(){}
	}
	n := p.afterN
	p.afterN++
	p.after[n] = f
	return func() bool {
		_, ok := p.after[n]
		delete(p.after, n)
		return ok
	}
}
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}
