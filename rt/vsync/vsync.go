// Package sync replaces the standard package in the instrumented copy: under an exploration every
// operation is a scheduling point of vsched, otherwise it is the ordinary operation.
package sync

import (
	rs "sync"
	"unsafe"

	"github.com/rmera/boo/zzverif/vsched"
)

type Locker = rs.Locker

type Mutex struct{ m rs.Mutex }

func (m *Mutex) p() unsafe.Pointer { return unsafe.Pointer(m) }
func (m *Mutex) Lock() {
	if vsched.Active() {
		vsched.Lock(m.p(), m)
		return
	}
	m.m.Lock()
}
func (m *Mutex) Unlock() {
	if vsched.Active() {
		vsched.Unlock(m.p(), m)
		return
	}
	m.m.Unlock()
}
func (m *Mutex) TryLock() bool {
	if vsched.Active() {
		return vsched.TryLock(m.p(), m, false)
	}
	return m.m.TryLock()
}

type RWMutex struct{ m rs.RWMutex }

func (m *RWMutex) p() unsafe.Pointer { return unsafe.Pointer(m) }
func (m *RWMutex) Lock() {
	if vsched.Active() {
		vsched.Lock(m.p(), m)
		return
	}
	m.m.Lock()
}
func (m *RWMutex) Unlock() {
	if vsched.Active() {
		vsched.Unlock(m.p(), m)
		return
	}
	m.m.Unlock()
}
func (m *RWMutex) RLock() {
	if vsched.Active() {
		vsched.RLock(m.p(), m)
		return
	}
	m.m.RLock()
}
func (m *RWMutex) RUnlock() {
	if vsched.Active() {
		vsched.RUnlock(m.p(), m)
		return
	}
	m.m.RUnlock()
}
func (m *RWMutex) TryLock() bool {
	if vsched.Active() {
		return vsched.TryLock(m.p(), m, false)
	}
	return m.m.TryLock()
}
func (m *RWMutex) TryRLock() bool {
	if vsched.Active() {
		return vsched.TryLock(m.p(), m, true)
	}
	return m.m.TryRLock()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct{ w rs.WaitGroup }

func (w *WaitGroup) Add(n int) {
	if vsched.Active() {
		vsched.WGAdd(unsafe.Pointer(w), w, n)
		return
	}
	w.w.Add(n)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if vsched.Active() {
		vsched.WGWait(unsafe.Pointer(w), w)
		return
	}
	w.w.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type Cond struct {
	L  Locker
	rc *rs.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l, rc: rs.NewCond(l)} }
func (c *Cond) mp() unsafe.Pointer {
	switch m := c.L.(type) {
	case *Mutex:
		return m.p()
	case *RWMutex:
		return m.p()
	}
	panic("vsync: unsupported Locker in Cond")
}
func (c *Cond) Wait() {
	if vsched.Active() {
		vsched.CondWait(unsafe.Pointer(c), c.mp(), c, c.L)
		return
	}
	c.rc.Wait()
}
func (c *Cond) Signal() {
	if vsched.Active() {
		vsched.CondSignal(unsafe.Pointer(c), c)
		return
	}
	c.rc.Signal()
}
func (c *Cond) Broadcast() {
	if vsched.Active() {
		vsched.CondBroadcast(unsafe.Pointer(c), c)
		return
	}
	c.rc.Broadcast()
}

// Map: every operation is one atomic step on the map.
type Map struct {
	m Mutex
	v map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.v[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.v == nil {
		m.v = map[any]any{}
	}
	o, ok := m.v[k]
	m.v[k] = v
	return o, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.v[k]; ok {
		return o, true
	}
	if m.v == nil {
		m.v = map[any]any{}
	}
	m.v[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	o, ok := m.v[k]
	delete(m.v, k)
	return o, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.v[k]; ok && o == old {
		m.v[k] = new
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.v[k]; ok && o == old {
		delete(m.v, k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	m.m.Lock()
	defer m.m.Unlock()
	m.v = nil
}
func (m *Map) Range(f func(k, v any) bool) {
	m.m.Lock()
	c := map[any]any{}
	for k, v := range m.v {
		c[k] = v
	}
	m.m.Unlock()
	for k, v := range vsched.RangeMap(c) {
		if !f(k, v) {
			return
		}
	}
}

// Pool: a plain free list, so that reuse is deterministic (and happens).
type Pool struct {
	New func() any
	m   Mutex
	l   []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.m.Lock()
	p.l = append(p.l, v)
	p.m.Unlock()
}
