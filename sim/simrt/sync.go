package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"sync"
	"unsafe"
)

// fatal is a runtime fatal error (not recoverable in a real process).
func fatal(msg string) {
	if dying() {
		return
	}
	s := S
	st := trimStack(stack())
	s.crashNode(s.cur.Node, "fatal error: "+msg, st, false, 2)
	goexit()
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	q      waitq
}

func (m *Mutex) Lock() {
	s := S
	if s == nil || s.cur == nil {
		m.locked = true
		return
	}
	if dying() {
		return
	}
	SyncPoint()
	for m.locked {
		m.q.add(s.me())
		s.park("mutex")
	}
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	if dying() {
		return true
	}
	SyncPoint()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	s := S
	if s == nil || s.cur == nil {
		m.locked = false
		return
	}
	if dying() {
		// a killed process never releases its locks visibly
		m.locked = false
		return
	}
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
		return
	}
	m.locked = false
	m.q.wakeOne(s)
	SyncPoint()
}

// RWMutex replaces sync.RWMutex (writer preference as in the real one).
type RWMutex struct {
	w      bool
	r      int
	wwait  int
	rq, wq waitq
}

func (m *RWMutex) Lock() {
	s := S
	if s == nil || s.cur == nil || dying() {
		return
	}
	SyncPoint()
	m.wwait++
	for m.w || m.r > 0 {
		m.wq.add(s.me())
		s.park("rwmutex w")
	}
	m.wwait--
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	SyncPoint()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	s := S
	if s == nil || s.cur == nil || dying() {
		return
	}
	if !m.w {
		fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	m.w = false
	m.rq.wakeAll(s)
	m.wq.wakeOne(s)
	SyncPoint()
}
func (m *RWMutex) RLock() {
	s := S
	if s == nil || s.cur == nil || dying() {
		return
	}
	SyncPoint()
	for m.w || m.wwait > 0 {
		m.rq.add(s.me())
		s.park("rwmutex r")
	}
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	SyncPoint()
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	s := S
	if s == nil || s.cur == nil || dying() {
		return
	}
	if m.r <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	m.r--
	if m.r == 0 {
		if !m.wq.wakeOne(s) {
			m.rq.wakeAll(s)
		}
	}
	SyncPoint()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Cond replaces sync.Cond.
type Cond struct {
	L sync.Locker
	q waitq
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	s := S
	if s == nil || s.cur == nil {
		panic("simrt: Cond.Wait outside simulation")
	}
	if dying() {
		goexit()
	}
	// Atomic registration: the waiter is queued before the lock is released.
	tok := &condTok{}
	t := s.cur
	tok.t = t
	condq(c).add(tok)
	c.L.Unlock()
	for !tok.fired {
		tok.w = s.me()
		s.park("cond")
	}
	c.L.Lock()
}

type condTok struct {
	t     *Task
	w     waiter
	fired bool
}
type condList []*condTok

func (l *condList) add(t *condTok) { *l = append(*l, t) }

var condLists = map[*Cond]*condList{}
var condEpoch int

func condq(c *Cond) *condList {
	if condEpoch != epoch {
		condLists = map[*Cond]*condList{}
		condEpoch = epoch
	}
	l := condLists[c]
	if l == nil {
		l = &condList{}
		condLists[c] = l
	}
	return l
}

func (c *Cond) Signal() {
	s := S
	if s == nil || s.cur == nil || dying() {
		return
	}
	l := condq(c)
	for len(*l) > 0 {
		t := (*l)[0]
		*l = (*l)[1:]
		if t.t.dying || t.t.state == tsDead {
			continue
		}
		t.fired = true
		s.wake(t.w)
		break
	}
	SyncPoint()
}
func (c *Cond) Broadcast() {
	s := S
	if s == nil || s.cur == nil || dying() {
		return
	}
	l := condq(c)
	for _, t := range *l {
		t.fired = true
		s.wake(t.w)
	}
	*l = nil
	SyncPoint()
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n int
	q waitq
}

func (w *WaitGroup) Add(d int) {
	s := S
	if s == nil || s.cur == nil || dying() {
		w.n += d
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.wakeAll(s)
	}
	SyncPoint()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	if dying() {
		return
	}
	SyncPoint()
	for w.n > 0 {
		w.q.add(s.me())
		s.park("waitgroup")
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues replaces sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Map replaces sync.Map.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) init() {
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) {
	SyncPoint()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) set(k, v any) {
	m.init()
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) Store(k, v any) { SyncPoint(); m.set(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	SyncPoint()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	SyncPoint()
	v, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return v, ok
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) Delete(k any) { SyncPoint(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	SyncPoint()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	SyncPoint()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	SyncPoint()
	if v, ok := m.m[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	SyncPoint()
	ks := append([]any{}, m.keys...)
	if len(ks) > 1 {
		r := Choose(len(ks))
		ks = append(ks[r:], ks[:r]...)
	}
	for _, k := range ks {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		SyncPoint()
	}
}
func (m *Map) Clear() { SyncPoint(); m.m = nil; m.keys = nil }

// Pool replaces sync.Pool (always reuses, most recent first).
type Pool struct {
	New   func() any
	items []any
	ep    int
}

func (p *Pool) Get() any {
	if p.ep != epoch {
		p.items, p.ep = nil, epoch
	}
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if p.ep != epoch {
		p.items, p.ep = nil, epoch
	}
	p.items = append(p.items, x)
}

// ---- channels ---------------------------------------------------------------

type chanKey uintptr

type chanWaiter struct {
	g    *selGroup
	idx  int
	send bool
	ch   reflect.Value // the channel as the sender sees it
	val  reflect.Value // value to send
}
type selGroup struct {
	t      *Task
	w      waiter
	fired  bool
	idx    int
	val    reflect.Value // received value
	ok     bool
	closed bool
}
type chanState struct {
	recvq, sendq []*chanWaiter
}

func (s *Sim) cs(k chanKey) *chanState {
	c := s.chans[k]
	if c == nil {
		c = &chanState{}
		s.chans[k] = c
	}
	return c
}

func popLive(q *[]*chanWaiter) *chanWaiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.g.fired && !w.g.t.dying && w.g.t.state != tsDead {
			return w
		}
	}
	return nil
}

// prune drops the waiters of finished selects once a queue is long.
func prune(q []*chanWaiter) []*chanWaiter {
	if len(q) < 32 {
		return q
	}
	out := q[:0:0]
	for _, w := range q {
		if !w.g.fired && !w.g.t.dying && w.g.t.state != tsDead {
			out = append(out, w)
		}
	}
	return out
}

func keyOf(ch reflect.Value) chanKey { return chanKey(ch.Pointer()) }

// trySend attempts a send without blocking.
func (s *Sim) trySend(ch reflect.Value, v reflect.Value) bool {
	if !ch.IsValid() || ch.IsNil() {
		return false
	}
	if c, ok := s.chans[keyOf(ch)]; ok {
		if w := popLive(&c.recvq); w != nil {
			w.g.fired, w.g.idx, w.g.val, w.g.ok = true, w.idx, v, true
			s.wake(w.g.w)
			return true
		}
	}
	return ch.TrySend(v) // panics if closed, as the real operation
}

// tryRecv attempts a receive without blocking.
func (s *Sim) tryRecv(ch reflect.Value) (v reflect.Value, ok, done bool) {
	if !ch.IsValid() || ch.IsNil() {
		return
	}
	x, ok := ch.TryRecv()
	if x.IsValid() { // received, or closed (zero value)
		if ok {
			if c, has := s.chans[keyOf(ch)]; has {
				if w := popLive(&c.sendq); w != nil { // a sender was waiting for room
					w.g.fired, w.g.idx = true, w.idx
					w.ch.TrySend(w.val)
					s.wake(w.g.w)
				}
			}
		}
		return x, ok, true
	}
	if c, has := s.chans[keyOf(ch)]; has {
		if w := popLive(&c.sendq); w != nil {
			w.g.fired, w.g.idx = true, w.idx
			s.wake(w.g.w)
			return w.val, true, true
		}
	}
	return reflect.Value{}, false, false
}

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) {
	s := S
	if s == nil || s.cur == nil {
		ch <- v
		return
	}
	if dying() {
		goexit()
	}
	SyncPoint()
	cv := reflect.ValueOf(ch)
	vv := reflect.ValueOf(&v).Elem()
	if s.trySend(cv, vv) {
		SyncPoint()
		return
	}
	g := &selGroup{t: s.cur}
	if ch != nil {
		c := s.cs(keyOf(cv))
		c.sendq = append(prune(c.sendq), &chanWaiter{g: g, send: true, ch: cv, val: vv})
	}
	for !g.fired {
		g.w = s.me()
		s.park("chan send")
	}
	if g.closed {
		panic("send on closed channel")
	}
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	s := S
	if s == nil || s.cur == nil {
		v, ok := <-ch
		return v, ok
	}
	if dying() {
		goexit()
	}
	SyncPoint()
	var zero T
	cv := reflect.ValueOf(ch)
	if v, ok, done := s.tryRecv(cv); done {
		return as[T](v), ok
	}
	g := &selGroup{t: s.cur}
	if ch != nil {
		c := s.cs(keyOf(cv))
		c.recvq = append(prune(c.recvq), &chanWaiter{g: g})
	}
	for !g.fired {
		g.w = s.me()
		s.park("chan recv")
	}
	if !g.ok {
		return zero, false
	}
	return as[T](g.val), true
}

func as[T any](v reflect.Value) T {
	var z T
	if !v.IsValid() {
		return z
	}
	if x, ok := v.Interface().(T); ok {
		return x
	}
	return z
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Close is close(ch).
func Close[T any](ch chan<- T) {
	s := S
	if s == nil || s.cur == nil {
		close(ch)
		return
	}
	if dying() {
		return
	}
	SyncPoint()
	s.closeChan(reflect.ValueOf(ch), func() { close(ch) })
	SyncPoint()
}

func (s *Sim) closeChan(cv reflect.Value, cl func()) {
	cl()
	if c, ok := s.chans[keyOf(cv)]; ok {
		for w := popLive(&c.recvq); w != nil; w = popLive(&c.recvq) {
			w.g.fired, w.g.idx, w.g.ok = true, w.idx, false
			s.wake(w.g.w)
		}
		for w := popLive(&c.sendq); w != nil; w = popLive(&c.sendq) {
			w.g.fired, w.g.idx, w.g.closed = true, w.idx, true
			s.wake(w.g.w)
		}
		delete(s.chans, keyOf(cv))
	}
}

// notifySend delivers v on ch from an event (timers); never blocks.
func (s *Sim) notifySend(ch any, v any) {
	s.trySend(reflect.ValueOf(ch), reflect.ValueOf(v))
}

// SelCase is one case of a rewritten select.
type SelCase struct {
	ch   reflect.Value
	send bool
	val  reflect.Value
}

func RecvCase[T any](ch <-chan T) SelCase { return SelCase{ch: reflect.ValueOf(ch)} }
func SendCase[T any](ch chan<- T, v T) SelCase {
	return SelCase{ch: reflect.ValueOf(ch), send: true, val: reflect.ValueOf(&v).Elem()}
}

// Select runs a select statement; index -1 is the default case.
func Select(hasDefault bool, cases ...SelCase) (int, reflect.Value, bool) {
	s := S
	if s == nil || s.cur == nil {
		panic("simrt: select outside simulation")
	}
	if dying() {
		goexit()
	}
	SyncPoint()
	n := len(cases)
	off := 0
	if n > 1 {
		off = Choose(n)
	}
	for i := 0; i < n; i++ {
		k := (i + off) % n
		c := cases[k]
		if c.send {
			if s.trySend(c.ch, c.val) {
				return k, reflect.Value{}, false
			}
		} else if v, ok, done := s.tryRecv(c.ch); done {
			return k, v, ok
		}
	}
	if hasDefault {
		return -1, reflect.Value{}, false
	}
	g := &selGroup{t: s.cur}
	for i, c := range cases {
		if !c.ch.IsValid() || c.ch.IsNil() {
			continue
		}
		st := s.cs(keyOf(c.ch))
		w := &chanWaiter{g: g, idx: i, send: c.send, ch: c.ch, val: c.val}
		if c.send {
			st.sendq = append(prune(st.sendq), w)
		} else {
			st.recvq = append(prune(st.recvq), w)
		}
	}
	for !g.fired {
		g.w = s.me()
		s.park("select")
	}
	if g.closed {
		panic("send on closed channel")
	}
	v := g.val
	if !g.ok {
		v = reflect.Value{}
	}
	return g.idx, v, g.ok
}

// As converts the received value of a select to the channel's element type.
func As[T any](_ <-chan T, v reflect.Value) T { return as[T](v) }

// ---- maps -------------------------------------------------------------------

// MapIter iterates a map in a simulator-chosen order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapRange starts an iteration; the extra results declare the loop variables.
func MapRange[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	MapRead(m)
	it := &MapIter[K, V]{m: m}
	for x := range m {
		it.keys = append(it.keys, x)
	}
	sortKeys(it.keys)
	if n := len(it.keys); n > 1 && S != nil && S.cur != nil {
		r := NewRand(Hash(S.Seed, 77, uint64(n)))
		for i := n - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it, k, v
}

// Next advances, storing into k and v when non-nil.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		x := it.keys[it.i]
		it.i++
		y, ok := it.m[x]
		if !ok {
			continue
		}
		if k != nil {
			*k = x
		}
		if v != nil {
			*v = y
		}
		return true
	}
	return false
}

func sortKeys[K comparable](ks []K) {
	sort.SliceStable(ks, func(i, j int) bool { return lessAny(ks[i], ks[j]) })
}

func lessAny(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() == vb.Kind() {
		switch va.Kind() {
		case reflect.String:
			return va.String() < vb.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return va.Int() < vb.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return va.Uint() < vb.Uint()
		case reflect.Float64, reflect.Float32:
			return va.Float() < vb.Float()
		case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
			return false // insertion order is not observable for pointer keys
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// SortValues orders the result of reflect.Value.MapKeys.
func SortValues(vs []reflect.Value) []reflect.Value {
	sort.SliceStable(vs, func(i, j int) bool { return fmt.Sprint(vs[i]) < fmt.Sprint(vs[j]) })
	if n := len(vs); n > 1 && S != nil {
		r := NewRand(Hash(S.Seed, 78, uint64(n)))
		for i := n - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			vs[i], vs[j] = vs[j], vs[i]
		}
	}
	return vs
}

// RMapIter replaces *reflect.MapIter.
type RMapIter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

func ReflectMapRange(m reflect.Value) *RMapIter {
	return &RMapIter{m: m, keys: SortValues(m.MapKeys()), i: -1}
}
func (r *RMapIter) Next() bool           { r.i++; return r.i < len(r.keys) }
func (r *RMapIter) Key() reflect.Value   { return r.keys[r.i] }
func (r *RMapIter) Value() reflect.Value { return r.m.MapIndex(r.keys[r.i]) }

func mapPtr[M ~map[K]V, K comparable, V any](m M) uintptr {
	return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&m)))
}

// MapWrite brackets a map write: another task touching the map while the write
// is in progress is the runtime's "concurrent map" fatal error.
func MapWrite[M ~map[K]V, K comparable, V any](m M) {
	s := S
	if s == nil || s.cur == nil || m == nil || dying() {
		return
	}
	p := mapPtr(m)
	if o := s.mapW[p]; o != nil && o != s.cur && o.state != tsDead && !o.dying {
		fatal("concurrent map writes")
	}
	s.mapW[p] = s.cur
	SyncPoint()
	delete(s.mapW, p)
}

// MapRead checks for a write in progress by another task.
func MapRead[M ~map[K]V, K comparable, V any](m M) {
	s := S
	if s == nil || len(s.mapW) == 0 || s.cur == nil || m == nil || dying() {
		return
	}
	if o := s.mapW[mapPtr(m)]; o != nil && o != s.cur && o.state != tsDead && !o.dying {
		fatal("concurrent map read and map write")
	}
}

// SendTo is ch <- v with v assigned to the element type.
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { Send(ch, v) } }

// SendCaseTo is a send case of a select.
func SendCaseTo[T any](ch chan<- T) func(T) SelCase {
	return func(v T) SelCase { return SendCase(ch, v) }
}

// SelResult is the outcome of a select.
type SelResult struct {
	I  int
	V  reflect.Value
	OK bool
}

// Sel is Select with its results in a struct.
func Sel(hasDefault bool, cases ...SelCase) SelResult {
	i, v, ok := Select(hasDefault, cases...)
	return SelResult{i, v, ok}
}

// ChanIter iterates a channel.
type ChanIter[T any] struct{ ch <-chan T }

func ChanRange[T any](ch <-chan T) (*ChanIter[T], T) { var z T; return &ChanIter[T]{ch}, z }
func (c *ChanIter[T]) Next(v *T) bool {
	x, ok := Recv2(c.ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}

// MR marks a map read, MW a map write.
func MR[M ~map[K]V, K comparable, V any](m M) M { MapRead(m); return m }
func MW[M ~map[K]V, K comparable, V any](m M) M { MapWrite(m); return m }

// Zero resets a variable.
func Zero[T any](p *T) { var z T; *p = z }

type resetEnt struct {
	pkg, n int
	f      func()
}

var resetPkgs = map[string]int{}
var resetList []resetEnt

// RegisterResetN records how to restore one package variable.
func RegisterResetN(pkg string, n int, f func()) {
	if _, ok := resetPkgs[pkg]; !ok {
		resetPkgs[pkg] = len(resetPkgs)
	}
	resetList = append(resetList, resetEnt{resetPkgs[pkg], n, f})
}

func runResets() {
	sort.SliceStable(resetList, func(i, j int) bool {
		a, b := resetList[i], resetList[j]
		return a.pkg < b.pkg || a.pkg == b.pkg && a.n < b.n
	})
	for _, r := range resetList {
		r.f()
	}
}
