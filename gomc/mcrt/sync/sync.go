// Package sync stands in for the standard one under the controlled scheduler.
package sync

import (
	real "sync"

	"gomc.local/mcrt"
)

type Locker = real.Locker

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	mcrt.Point("lock")
	mcrt.Block("a mutex", func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	mcrt.Point("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	mcrt.Point("unlock")
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
}

type RWMutex struct {
	readers int
	writer  bool
	pending int
	waiting []*bool
}

func (m *RWMutex) Lock() {
	mcrt.Point("lock")
	m.pending++
	mcrt.Block("a write lock", func() bool { return !m.writer && m.readers == 0 })
	m.pending--
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	mcrt.Point("trylock")
	if m.writer || m.readers > 0 || m.pending > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	mcrt.Point("unlock")
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	for _, w := range m.waiting {
		*w = true
		m.readers++
	}
	m.waiting = nil
}

func (m *RWMutex) RLock() {
	mcrt.Point("rlock")
	if !m.writer && m.pending == 0 {
		m.readers++
		return
	}
	granted := new(bool)
	m.waiting = append(m.waiting, granted)
	mcrt.Block("a read lock", func() bool { return *granted })
}

func (m *RWMutex) TryRLock() bool {
	mcrt.Point("tryrlock")
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	mcrt.Point("runlock")
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	mcrt.Point("once")
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	mcrt.Point("wg")
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	mcrt.Point("wg")
	mcrt.Block("a wait group", func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	mcrt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L       Locker
	waiting []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	mcrt.Point("cond")
	woken := new(bool)
	c.waiting = append(c.waiting, woken)
	c.L.Unlock()
	mcrt.Block("a condition", func() bool { return *woken })
	c.L.Lock()
}
func (c *Cond) Signal() {
	mcrt.Point("cond")
	if len(c.waiting) > 0 {
		*c.waiting[0] = true
		c.waiting = c.waiting[1:]
	}
}
func (c *Cond) Broadcast() {
	mcrt.Point("cond")
	for _, w := range c.waiting {
		*w = true
	}
	c.waiting = nil
}

type Map struct{ m real.Map }

func (m *Map) Load(k any) (any, bool)           { mcrt.Point("map"); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { mcrt.Point("map"); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { mcrt.Point("map"); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { mcrt.Point("map"); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { mcrt.Point("map"); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { mcrt.Point("map"); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { mcrt.Point("map"); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) Range(f func(k, v any) bool)      { mcrt.Point("map"); m.m.Range(f) }

type Pool struct {
	New  func() any
	free []any
}

func (p *Pool) Get() any {
	mcrt.Point("pool")
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	mcrt.Point("pool")
	p.free = append(p.free, x)
}
