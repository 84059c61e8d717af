// Package simsync replaces sync: inside the cooperative scheduler blocking
// means parking the task, so that the simulator keeps deciding who runs.
package simsync

import (
	std "sync"

	"github.com/mlange-42/bbn/internal/verifsim/simrt"
)

type Mutex struct {
	mu   std.Mutex
	held bool
}

func (m *Mutex) Lock() {
	if simrt.Coop() {
		simrt.Y(-1)
		simrt.Block(func() bool { return !m.held })
		m.held = true
		simrt.RaceAcquire(m)
		return
	}
	m.mu.Lock()
}
func (m *Mutex) TryLock() bool {
	if simrt.Coop() {
		if m.held {
			return false
		}
		m.held = true
		simrt.RaceAcquire(m)
		return true
	}
	return m.mu.TryLock()
}
func (m *Mutex) Unlock() {
	if simrt.Coop() {
		if !m.held {
			panic("sync: unlock of unlocked mutex")
		}
		simrt.RaceRelease(m)
		m.held = false
		return
	}
	m.mu.Unlock()
}

type RWMutex struct {
	mu      std.RWMutex
	w       bool
	readers int
}

func (m *RWMutex) Lock() {
	if simrt.Coop() {
		simrt.Y(-1)
		simrt.Block(func() bool { return !m.w && m.readers == 0 })
		m.w = true
		simrt.RaceAcquire(&m.w)
		simrt.RaceAcquire(&m.readers)
		return
	}
	m.mu.Lock()
}
func (m *RWMutex) Unlock() {
	if simrt.Coop() {
		if !m.w {
			panic("sync: Unlock of unlocked RWMutex")
		}
		simrt.RaceRelease(&m.w)
		m.w = false
		return
	}
	m.mu.Unlock()
}
func (m *RWMutex) RLock() {
	if simrt.Coop() {
		simrt.Y(-1)
		simrt.Block(func() bool { return !m.w })
		m.readers++
		simrt.RaceAcquire(&m.w)
		return
	}
	m.mu.RLock()
}
func (m *RWMutex) RUnlock() {
	if simrt.Coop() {
		if m.readers == 0 {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		simrt.RaceRelease(&m.readers)
		m.readers--
		return
	}
	m.mu.RUnlock()
}
func (m *RWMutex) TryLock() bool {
	if simrt.Coop() {
		if m.w || m.readers > 0 {
			return false
		}
		m.w = true
		simrt.RaceAcquire(&m.w)
		simrt.RaceAcquire(&m.readers)
		return true
	}
	return m.mu.TryLock()
}
func (m *RWMutex) TryRLock() bool {
	if simrt.Coop() {
		if m.w {
			return false
		}
		m.readers++
		simrt.RaceAcquire(&m.w)
		return true
	}
	return m.mu.TryRLock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() std.Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		simrt.RaceAcquire(&o.done)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			simrt.RaceRelease(&o.done)
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type WaitGroup struct {
	wg std.WaitGroup
	n  int
}

func (w *WaitGroup) Add(d int) {
	if simrt.Coop() {
		if d < 0 {
			simrt.RaceRelease(w)
		}
		w.n += d
		if w.n < 0 {
			panic("sync: negative WaitGroup counter")
		}
		return
	}
	w.wg.Add(d)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if simrt.Coop() {
		simrt.Y(-1)
		simrt.Block(func() bool { return w.n <= 0 })
		simrt.RaceAcquire(w)
		return
	}
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

// Pool is deterministic: last in, first out, never emptied by the collector.
type Pool struct {
	New   func() any
	items []pooled
	mu    std.Mutex
	gen   uint64
}

type pooled struct {
	x   any
	tok *int
}

func (p *Pool) lock() func() {
	unlock := func() {}
	if !simrt.Coop() {
		p.mu.Lock()
		unlock = p.mu.Unlock
	}
	// Pools do not carry objects from one simulated run to the next.
	if simrt.S != nil && p.gen != simrt.S.Gen {
		p.gen = simrt.S.Gen
		p.items = nil
	}
	return unlock
}

func (p *Pool) Get() any {
	unlock := p.lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		unlock()
		simrt.RaceAcquire(x.tok)
		return x.x
	}
	unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	tok := new(int)
	simrt.RaceRelease(tok)
	unlock := p.lock()
	p.items = append(p.items, pooled{x, tok})
	unlock()
}

// Locker is sync.Locker.
type Locker = std.Locker

// Map is a map whose order of iteration the simulator decides.
type Map struct {
	mu std.Mutex
	m  map[any]any
}

func (m *Map) lock() func() {
	if simrt.Coop() {
		simrt.Y(-1)
		simrt.RaceAcquire(&m.m)
		if m.m == nil {
			m.m = map[any]any{}
		}
		return func() { simrt.RaceRelease(&m.m) }
	}
	m.mu.Lock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	return m.mu.Unlock
}

func (m *Map) Load(k any) (any, bool) {
	defer m.lock()()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	defer m.lock()()
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	defer m.lock()()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	defer m.lock()()
	o, ok := m.m[k]
	delete(m.m, k)
	return o, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, a, b any) bool {
	defer m.lock()()
	if o, ok := m.m[k]; ok && o == a {
		m.m[k] = b
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, a any) bool {
	defer m.lock()()
	if o, ok := m.m[k]; ok && o == a {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	defer m.lock()()
	clear(m.m)
}
func (m *Map) Range(f func(k, v any) bool) {
	unlock := m.lock()
	keys := simrt.Keys(m.m)
	unlock()
	for _, k := range keys {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

type Cond struct {
	L   std.Locker
	gen int
	c   *std.Cond
	sig int
}

func NewCond(l std.Locker) *Cond { return &Cond{L: l, c: std.NewCond(l)} }
func (c *Cond) Wait() {
	if simrt.Coop() {
		g := c.gen
		c.L.Unlock()
		defer simrt.RaceAcquire(c)
		simrt.Block(func() bool {
			if c.gen != g {
				return true
			}
			if c.sig > 0 {
				c.sig--
				return true
			}
			return false
		})
		c.L.Lock()
		return
	}
	c.c.Wait()
}
func (c *Cond) Signal() {
	if simrt.Coop() {
		simrt.RaceRelease(c)
		c.sig++
		return
	}
	c.c.Signal()
}
func (c *Cond) Broadcast() {
	if simrt.Coop() {
		simrt.RaceRelease(c)
		c.gen++
		return
	}
	c.c.Broadcast()
}
