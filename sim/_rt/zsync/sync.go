// Package zsync stands in for package sync. Each type wraps the real one, so
// that the race detector sees the real synchronisation, and does the blocking
// in the simulator.
package zsync

import (
	"sync"
	"unsafe"

	"robpike.io/ivy/zzsim"
)

type Locker = sync.Locker

type Mutex struct {
	mu sync.Mutex
}

func (m *Mutex) Lock() {
	zzsim.Point()
	for !m.mu.TryLock() {
		zzsim.WaitOn(uintptr(unsafe.Pointer(m)))
	}
}

func (m *Mutex) TryLock() bool {
	zzsim.Point()
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	zzsim.Wake(uintptr(unsafe.Pointer(m)))
	zzsim.Point()
}

// RWMutex blocks new readers while a writer is waiting, as the real one does.
type RWMutex struct {
	mu      sync.RWMutex
	waiting int
}

func (m *RWMutex) key() uintptr { return uintptr(unsafe.Pointer(m)) }

func (m *RWMutex) Lock() {
	zzsim.Point()
	for !m.mu.TryLock() {
		m.waiting++
		zzsim.WaitOn(m.key())
		m.waiting--
	}
}

func (m *RWMutex) TryLock() bool {
	zzsim.Point()
	return m.mu.TryLock()
}

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	zzsim.Wake(m.key())
	zzsim.Point()
}

func (m *RWMutex) RLock() {
	zzsim.Point()
	for m.waiting > 0 || !m.mu.TryRLock() {
		zzsim.WaitOn(m.key())
	}
}

func (m *RWMutex) TryRLock() bool {
	zzsim.Point()
	return m.waiting == 0 && m.mu.TryRLock()
}

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	zzsim.Wake(m.key())
	zzsim.Point()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

func (w *WaitGroup) Add(delta int) {
	zzsim.Point()
	w.wg.Add(delta)
	w.n += delta
	if w.n == 0 {
		zzsim.Wake(uintptr(unsafe.Pointer(w)))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	zzsim.Point()
	for w.n > 0 {
		zzsim.WaitOn(uintptr(unsafe.Pointer(w)))
	}
	w.wg.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	zzsim.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type Cond struct {
	L     Locker
	queue []*bool
	mu    sync.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	go1 := new(bool)
	c.queue = append(c.queue, go1)
	c.L.Unlock()
	for !*go1 {
		zzsim.WaitOn(uintptr(unsafe.Pointer(c)))
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	zzsim.Point()
	if len(c.queue) > 0 {
		*c.queue[0] = true
		c.queue = c.queue[1:]
		zzsim.Wake(uintptr(unsafe.Pointer(c)))
	}
}

func (c *Cond) Broadcast() {
	zzsim.Point()
	for _, b := range c.queue {
		*b = true
	}
	c.queue = nil
	zzsim.Wake(uintptr(unsafe.Pointer(c)))
}

// Pool drops things now and then, as the real one may.
type Pool struct {
	New  func() any
	mu   sync.Mutex
	free []any
}

func (p *Pool) Get() any {
	zzsim.Point()
	p.mu.Lock()
	var x any
	if n := len(p.free); n > 0 {
		i := zzsim.SeamRNG().Intn(n)
		x = p.free[i]
		p.free[i] = p.free[n-1]
		p.free = p.free[:n-1]
	}
	p.mu.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func (p *Pool) Put(x any) {
	zzsim.Point()
	if x == nil || zzsim.SeamRNG().Intn(8) == 0 {
		return
	}
	p.mu.Lock()
	p.free = append(p.free, x)
	p.mu.Unlock()
}

// Map is the real one with scheduling points and a deterministic Range.
type Map struct {
	mu sync.Mutex
	m  map[any]any
}

func (m *Map) do(f func()) {
	zzsim.Point()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	f()
}

func (m *Map) Load(k any) (v any, ok bool) {
	m.do(func() { v, ok = m.m[k] })
	return
}
func (m *Map) Store(k, v any) { m.do(func() { m.m[k] = v }) }
func (m *Map) Clear()         { m.do(func() { clear(m.m) }) }
func (m *Map) Delete(k any)   { m.do(func() { delete(m.m, k) }) }
func (m *Map) LoadOrStore(k, v any) (actual any, loaded bool) {
	m.do(func() {
		if actual, loaded = m.m[k]; !loaded {
			m.m[k] = v
			actual = v
		}
	})
	return
}
func (m *Map) LoadAndDelete(k any) (v any, ok bool) {
	m.do(func() { v, ok = m.m[k]; delete(m.m, k) })
	return
}
func (m *Map) Swap(k, v any) (prev any, ok bool) {
	m.do(func() { prev, ok = m.m[k]; m.m[k] = v })
	return
}
func (m *Map) CompareAndSwap(k, o, n any) (ok bool) {
	m.do(func() {
		if v, has := m.m[k]; has && v == o {
			m.m[k] = n
			ok = true
		}
	})
	return
}
func (m *Map) CompareAndDelete(k, o any) (ok bool) {
	m.do(func() {
		if v, has := m.m[k]; has && v == o {
			delete(m.m, k)
			ok = true
		}
	})
	return
}
func (m *Map) Range(f func(k, v any) bool) {
	cp := map[any]any{}
	m.do(func() {
		for k, v := range m.m {
			cp[k] = v
		}
	})
	for k, v := range zzsim.MapSeq(cp) {
		if !f(k, v) {
			return
		}
	}
}
