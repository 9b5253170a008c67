// Package simsync stands in for package sync in the instrumented code: the
// same API, but blocking is cooperative and decided by the simulator. The
// happens-before edges of the real primitives are reported to the race
// detector explicitly.
package simsync

import (
	realsync "sync"
	"unsafe"

	"SIMMODULE/verifsim/simrt"
)

type Locker = realsync.Locker

type Mutex struct {
	locked bool
	edge   byte
}

//go:norace
func (m *Mutex) Lock() {
	simrt.Y(-1)
	if m.locked {
		simrt.Block(m.free)
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(&m.edge))
}

//go:norace
func (m *Mutex) free() bool { return !m.locked }

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Y(-1)
	if m.locked {
		return false
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(&m.edge))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.edge))
	m.locked = false
}

type RWMutex struct {
	w       bool
	readers int
	edgeW   byte
	edgeR   byte
}

//go:norace
func (m *RWMutex) Lock() {
	simrt.Y(-1)
	if m.w || m.readers > 0 {
		simrt.Block(m.freeW)
	}
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(&m.edgeW))
	simrt.RaceAcquire(unsafe.Pointer(&m.edgeR))
}

//go:norace
func (m *RWMutex) freeW() bool { return !m.w && m.readers == 0 }

//go:norace
func (m *RWMutex) freeR() bool { return !m.w }

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Y(-1)
	if !m.freeW() {
		return false
	}
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(&m.edgeW))
	simrt.RaceAcquire(unsafe.Pointer(&m.edgeR))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.edgeW))
	m.w = false
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.Y(-1)
	if m.w {
		simrt.Block(m.freeR)
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.edgeW))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Y(-1)
	if m.w {
		return false
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.edgeW))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.edgeR))
	m.readers--
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
	edge byte
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) finish() {
	o.done = true
	simrt.RaceRelease(unsafe.Pointer(&o.edge))
}

func (o *Once) Do(f func()) {
	simrt.Y(-1)
	if !o.isDone() {
		o.m.Lock()
		defer o.m.Unlock()
		if !o.isDone() {
			defer o.finish()
			f()
		}
	}
	simrt.RaceAcquire(unsafe.Pointer(&o.edge))
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type WaitGroup struct {
	n    int
	edge byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	simrt.RaceRelease(unsafe.Pointer(&w.edge))
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) zero() bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) Wait() {
	simrt.Y(-1)
	simrt.Block(w.zero)
	simrt.RaceAcquire(unsafe.Pointer(&w.edge))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L      Locker
	next   int
	served int
	edge   byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) ticket() int { c.next++; return c.next }

//go:norace
func (c *Cond) wait(t int) {
	simrt.Block(func() bool { return c.isServed(t) })
	simrt.RaceAcquire(unsafe.Pointer(&c.edge))
}

//go:norace
func (c *Cond) isServed(t int) bool { return c.served >= t }

func (c *Cond) Wait() {
	t := c.ticket()
	c.L.Unlock()
	c.wait(t)
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	simrt.RaceRelease(unsafe.Pointer(&c.edge))
	if c.served < c.next {
		c.served++
	}
}

//go:norace
func (c *Cond) Broadcast() {
	simrt.RaceRelease(unsafe.Pointer(&c.edge))
	c.served = c.next
}

// Pool keeps its items in last-in first-out order.
type Pool struct {
	New   func() any
	items []any
	edge  byte
}

//go:norace
func (p *Pool) Get() any {
	simrt.Y(-1)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		simrt.RaceAcquire(unsafe.Pointer(&p.edge))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	simrt.Y(-1)
	if x == nil {
		return
	}
	simrt.RaceRelease(unsafe.Pointer(&p.edge))
	p.items = append(p.items, x)
}

// Map keeps its entries in insertion order.
type Map struct {
	keys []any
	vals []any
	edge byte
}

//go:norace
func (m *Map) find(k any) int {
	for i := range m.keys {
		if m.keys[i] == k {
			return i
		}
	}
	return -1
}

//go:norace
func (m *Map) Load(k any) (any, bool) {
	simrt.Y(-1)
	simrt.RaceAcquire(unsafe.Pointer(&m.edge))
	if i := m.find(k); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}

//go:norace
func (m *Map) Store(k, v any) { m.Swap(k, v) }

//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.Y(-1)
	simrt.RaceAcquire(unsafe.Pointer(&m.edge))
	simrt.RaceRelease(unsafe.Pointer(&m.edge))
	if i := m.find(k); i >= 0 {
		old := m.vals[i]
		m.vals[i] = v
		return old, true
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	return nil, false
}

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Y(-1)
	simrt.RaceAcquire(unsafe.Pointer(&m.edge))
	if i := m.find(k); i >= 0 {
		return m.vals[i], true
	}
	simrt.RaceRelease(unsafe.Pointer(&m.edge))
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Y(-1)
	simrt.RaceAcquire(unsafe.Pointer(&m.edge))
	i := m.find(k)
	if i < 0 {
		return nil, false
	}
	v := m.vals[i]
	m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
	m.vals = append(append([]any{}, m.vals[:i]...), m.vals[i+1:]...)
	return v, true
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:norace
func (m *Map) CompareAndSwap(k, old, new any) bool {
	simrt.Y(-1)
	simrt.RaceAcquire(unsafe.Pointer(&m.edge))
	if i := m.find(k); i >= 0 && m.vals[i] == old {
		simrt.RaceRelease(unsafe.Pointer(&m.edge))
		m.vals[i] = new
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(k, old any) bool {
	if i := m.find(k); i >= 0 && m.vals[i] == old {
		m.LoadAndDelete(k)
		return true
	}
	return false
}

//go:norace
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Y(-1)
	simrt.RaceAcquire(unsafe.Pointer(&m.edge))
	ks := append([]any{}, m.keys...)
	for _, k := range ks {
		i := m.find(k)
		if i < 0 {
			continue
		}
		if !f(k, m.vals[i]) {
			return
		}
	}
}

func (m *Map) Clear() { m.keys, m.vals = nil, nil }
