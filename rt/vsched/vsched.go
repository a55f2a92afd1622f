// Package vsched is a controlled scheduler and stateless explorer for the instrumented copy of the
// code under test. Every goroutine of the code under test is a thread of which exactly one runs at a
// time; channel, mutex, wait-group, condition and atomic operations are scheduling points decided by
// the explorer (explore.go). Without an active exploration every operation falls through to the
// ordinary Go operation.
//
// In a -race build this package itself is compiled without race instrumentation and all hand-offs are
// bracketed by RaceDisable/RaceEnable, so that they create no happens-before edges; the edges that the
// Go memory model gives to the emulated operations are declared explicitly with RaceAcquire/Release.
// Each explored interleaving is therefore also checked for data races.
package vsched

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"unsafe"
)

type Kind int

const (
	KNone Kind = iota
	KComm      // channel operation(s), including select
	KClose
	KLock
	KUnlock
	KRLock
	KRUnlock
	KWGAdd
	KWGWait
	KCondWait // joins the waiters and releases the lock
	KCondWake // enabled once signalled
	KCondSignal
	KCondBroadcast
	KAtomic // Write tells whether it modifies
	KSpawn
	KChoose
	KExit
	KTryLock
)

func (k Kind) String() string {
	return [...]string{"none", "comm", "close", "lock", "unlock", "rlock", "runlock", "wgadd", "wgwait", "condwait", "condwake", "signal", "broadcast", "atomic", "spawn", "choose", "exit", "trylock"}[k]
}

// commCase is one channel operation a thread is ready to do.
type commCase struct {
	send bool
	ch   unsafe.Pointer // nil: blocks for ever
	capy int
	ref  any // keeps the channel alive, and its identity unique
	val  any // value to send
}

type op struct {
	kind   Kind
	cases  []commCase
	hasDef bool
	obj    unsafe.Pointer
	obj2   unsafe.Pointer // condition variables: the lock
	ref    any
	n      int // wg delta, number of choices
	write  bool
	child  *thread
	fn     func()
	label  string
	// results
	chosen int
	rval   any
	rok    bool
	panicv string
	acq    []*op // operations this one synchronises with
	hb     byte  // address used for the race detector
}

type thread struct {
	id     int
	path   string
	nchild int
	wake   chan struct{}
	op     *op
	done   bool
	killed bool
	clock  []int // DPOR clock
	nrand  uint64
	hb     byte
}

type sched struct {
	ctl     chan *thread
	cur     *thread
	threads []*thread
	chans   map[unsafe.Pointer]*chanState
	mus     map[unsafe.Pointer]*muState
	wgs     map[unsafe.Pointer]*wgState
	conds   map[unsafe.Pointer]*condState
	kill    bool
	panics  []string
	events  []Event
}

type chanState struct {
	ref    any
	buf    []bufItem
	closed *op
	freed  []*op // receives whose slot has not been reused
}
type bufItem struct {
	val any
	op  *op
}
type muState struct {
	ref     any
	writer  bool
	readers int
	lastW   *op
	lastR   []*op
}
type wgState struct {
	ref   any
	n     int
	dones []*op
}
type condState struct {
	ref     any
	waiters []*thread
	ready   map[*thread]*op
}

// Event is something the harness recorded during an execution.
type Event struct {
	Thread string
	What   string
	Data   any
}

var active *sched

// Active tells whether an exploration is running.
func Active() bool { return active != nil }

// ThreadPath identifies the running thread by its spawn path ("0" is the main one).
func ThreadPath() string {
	if active == nil || active.cur == nil {
		return "0"
	}
	return active.cur.path
}

// RandStep returns a counter private to the running thread.
func RandStep() uint64 {
	if active == nil || active.cur == nil {
		return 0
	}
	active.cur.nrand++
	return active.cur.nrand
}

// Record appends an event to the current execution's log (no scheduling point).
func Record(what string, data any) {
	if s := active; s != nil {
		s.events = append(s.events, Event{s.cur.path, what, data})
	}
}

func (s *sched) do(o *op) *op {
	th := s.cur
	if th.killed || s.kill {
		if !th.killed {
			th.killed = true
			runtime.Goexit()
		}
		return o
	}
	raceRel(unsafe.Pointer(&o.hb))
	th.op = o
	s.park(th)
	if th.killed {
		runtime.Goexit()
	}
	for _, a := range o.acq {
		raceAcq(unsafe.Pointer(&a.hb))
	}
	if o.panicv != "" {
		panic(fmt.Errorf("%s", o.panicv))
	}
	return o
}

func (s *sched) park(th *thread) {
	raceOff()
	s.ctl <- th
	<-th.wake
	raceOn()
}

func (s *sched) threadMain(th *thread, f func()) {
	raceOff()
	<-th.wake
	raceOn()
	defer func() {
		if r := recover(); r != nil && !th.killed {
			s.panics = append(s.panics, fmt.Sprintf("panic in goroutine %s: %v\n%s", th.path, r, debug.Stack()))
		}
		th.done = true
		th.op = &op{kind: KExit}
		raceRel(unsafe.Pointer(&th.hb))
		raceOff()
		s.ctl <- th
		raceOn()
	}()
	if th.killed {
		return
	}
	f()
}

// ---- operations called by the instrumented code ----

func chptr[T any](ch chan T) unsafe.Pointer  { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func sptr[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func rptr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// Go starts f as a new thread.
func Go(f func()) {
	s := active
	if s == nil {
		go f()
		return
	}
	o := s.do(&op{kind: KSpawn, fn: f})
	if o.child != nil {
		go s.threadMain(o.child, f)
	}
}

func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if active == nil {
			ch <- v
			return
		}
		sendAny(sptr(ch), cap(ch), ch, v)
	}
}

func sendAny(p unsafe.Pointer, c int, ref, v any) {
	active.do(&op{kind: KComm, cases: []commCase{{send: true, ch: p, capy: c, ref: ref, val: v}}})
}

func recvAny(p unsafe.Pointer, c int, ref any) (any, bool) {
	o := active.do(&op{kind: KComm, cases: []commCase{{ch: p, capy: c, ref: ref}}})
	return o.rval, o.rok
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if active == nil {
		v, ok := <-ch
		return v, ok
	}
	a, ok := recvAny(rptr(ch), cap(ch), ch)
	var z T
	if !ok || a == nil {
		return z, ok
	}
	return a.(T), ok
}

func Close[T any](ch chan<- T) {
	if active == nil {
		close(ch)
		return
	}
	closeAny(sptr(ch), ch)
}

func closeAny(p unsafe.Pointer, ref any) { active.do(&op{kind: KClose, obj: p, ref: ref}) }

func LenS[T any](ch chan<- T) int { return lenAny(sptr(ch), len(ch)) }
func Len[T any](ch <-chan T) int  { return lenAny(rptr(ch), len(ch)) }
func lenAny(p unsafe.Pointer, native int) int {
	s := active
	if s == nil {
		return native
	}
	if p == nil {
		return 0
	}
	s.do(&op{kind: KAtomic, obj: p})
	if c := s.chans[p]; c != nil {
		return len(c.buf)
	}
	return 0
}

func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// RangeMap iterates over m in key order: map order is nondeterminism the explorer owns.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		slices.SortFunc(keys, func(a, b K) int {
			return cmpAny(a, b)
		})
		if MapReverse {
			slices.Reverse(keys)
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapReverse makes map iteration run in descending key order (the harness tries both).
var MapReverse bool

func cmpAny(a, b any) int {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp.Compare(va.Int(), vb.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return cmp.Compare(va.Uint(), vb.Uint())
	case reflect.Float32, reflect.Float64:
		return cmp.Compare(va.Float(), vb.Float())
	case reflect.String:
		return cmp.Compare(va.String(), vb.String())
	}
	return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b))
}

// ---- select ----

type SelCase interface {
	cc() commCase
	set(v any, ok bool)
	native() reflect.SelectCase
	setNative(reflect.Value, bool)
}

type RecvC[T any] struct {
	ch <-chan T
	V  T
	Ok bool
}

func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }
func (r *RecvC[T]) cc() commCase            { return commCase{ch: rptr(r.ch), capy: cap(r.ch), ref: r.ch} }
func (r *RecvC[T]) set(v any, ok bool) {
	r.Ok = ok
	if ok && v != nil {
		r.V = v.(T)
	}
}
func (r *RecvC[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.ch)}
}
func (r *RecvC[T]) setNative(v reflect.Value, ok bool) {
	r.Ok = ok
	if ok {
		r.V = v.Interface().(T)
	}
}

type SendC[T any] struct {
	ch chan<- T
	v  T
}

func SendCaseTo[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{ch, v} }
}
func (r *SendC[T]) cc() commCase {
	return commCase{send: true, ch: sptr(r.ch), capy: cap(r.ch), ref: r.ch, val: r.v}
}
func (r *SendC[T]) set(v any, ok bool) {}
func (r *SendC[T]) native() reflect.SelectCase {
	rv := reflect.ValueOf(&r.v).Elem()
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(r.ch), Send: rv}
}
func (r *SendC[T]) setNative(v reflect.Value, ok bool) {}

// Select returns the index of the case taken, or -1 for the default.
func Select(hasDefault bool, cs ...SelCase) int {
	if active == nil {
		ns := make([]reflect.SelectCase, 0, len(cs)+1)
		for _, c := range cs {
			ns = append(ns, c.native())
		}
		if hasDefault {
			ns = append(ns, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(ns)
		if i >= len(cs) {
			return -1
		}
		cs[i].setNative(v, ok)
		return i
	}
	o := &op{kind: KComm, hasDef: hasDefault}
	for _, c := range cs {
		o.cases = append(o.cases, c.cc())
	}
	active.do(o)
	if o.chosen >= 0 {
		cs[o.chosen].set(o.rval, o.rok)
	}
	return o.chosen
}

// ---- locks etc., used by vsync and vatomic ----

func Lock(p unsafe.Pointer, ref any)    { active.do(&op{kind: KLock, obj: p, ref: ref}) }
func Unlock(p unsafe.Pointer, ref any)  { active.do(&op{kind: KUnlock, obj: p, ref: ref}) }
func RLock(p unsafe.Pointer, ref any)   { active.do(&op{kind: KRLock, obj: p, ref: ref}) }
func RUnlock(p unsafe.Pointer, ref any) { active.do(&op{kind: KRUnlock, obj: p, ref: ref}) }
func TryLock(p unsafe.Pointer, ref any, read bool) bool {
	return active.do(&op{kind: KTryLock, obj: p, ref: ref, write: !read}).rok
}
func WGAdd(p unsafe.Pointer, ref any, n int) { active.do(&op{kind: KWGAdd, obj: p, ref: ref, n: n}) }
func WGWait(p unsafe.Pointer, ref any)       { active.do(&op{kind: KWGWait, obj: p, ref: ref}) }
func CondWait(p, mu unsafe.Pointer, ref, muref any) {
	active.do(&op{kind: KCondWait, obj: p, obj2: mu, ref: ref})
	active.do(&op{kind: KCondWake, obj: p, ref: ref})
	Lock(mu, muref)
}
func CondSignal(p unsafe.Pointer, ref any)    { active.do(&op{kind: KCondSignal, obj: p, ref: ref}) }
func CondBroadcast(p unsafe.Pointer, ref any) { active.do(&op{kind: KCondBroadcast, obj: p, ref: ref}) }

// Point is a scheduling point for an access to the object at p (atomics, sync.Map, ...).
func Point(p unsafe.Pointer, write bool) {
	if active != nil {
		active.do(&op{kind: KAtomic, obj: p, write: write})
	}
}

// Choose asks the explorer for a value in [0,n): an environment answer.
func Choose(n int, label string) int {
	if active == nil || n <= 1 {
		return 0
	}
	return active.do(&op{kind: KChoose, n: n, label: label}).chosen
}
