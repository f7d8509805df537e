// Package ssync stands in for package sync in the instrumented code under
// test: same API, but waiting goes through the simulator. Real primitives are
// used underneath, so the race detector sees the same happens-before edges.
package ssync

import (
	rsync "sync"
	"sync/atomic"

	"verif.local/sim/simrt"
)

type Locker = rsync.Locker
type Map = rsync.Map

type Mutex struct{ m rsync.Mutex }

func (m *Mutex) Lock() {
	simrt.Y(-3)
	for !m.m.TryLock() {
		simrt.Block()
	}
}
func (m *Mutex) TryLock() bool { simrt.Y(-3); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); simrt.Wake(); simrt.Y(-4) }

// RWMutex keeps new readers out while a writer waits, as the real one does.
type RWMutex struct {
	m       rsync.RWMutex
	waiting int // writers that wait; only go:norace code touches it
}

//go:norace
func (m *RWMutex) wait(d int) { m.waiting += d }

//go:norace
func (m *RWMutex) shut() bool { return m.waiting > 0 }

func (m *RWMutex) Lock() {
	simrt.Y(-3)
	if m.m.TryLock() {
		return
	}
	m.wait(1)
	defer m.wait(-1) // also if the run is aborted here
	for !m.m.TryLock() {
		simrt.Block()
	}
}
func (m *RWMutex) Unlock()       { m.m.Unlock(); simrt.Wake(); simrt.Y(-4) }
func (m *RWMutex) TryLock() bool { simrt.Y(-3); return m.m.TryLock() }
func (m *RWMutex) RLock() {
	simrt.Y(-3)
	for m.shut() || !m.m.TryRLock() {
		simrt.Block()
	}
}
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); simrt.Wake(); simrt.Y(-4) }
func (m *RWMutex) TryRLock() bool { simrt.Y(-3); return !m.shut() && m.m.TryRLock() }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Y(-5)
	if o.done.Load() != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

type WaitGroup struct {
	m rsync.Mutex
	n int
}

func (w *WaitGroup) Add(d int) {
	w.m.Lock()
	w.n += d
	n := w.n
	w.m.Unlock()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n == 0 {
		simrt.Wake()
	}
	simrt.Y(-6)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for {
		w.m.Lock()
		n := w.n
		w.m.Unlock()
		if n == 0 {
			return
		}
		simrt.Block()
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

// Pool hands out pooled objects in an order that the run's seed decides and
// sometimes drops them, as the real one may.
type Pool struct {
	New   func() any
	m     rsync.Mutex
	items []any
}

func (p *Pool) Get() any {
	simrt.Y(-7)
	p.m.Lock()
	var x any
	if n := len(p.items); n > 0 && simrt.Rand()%8 != 0 {
		i := n - 1
		if simrt.Rand()%4 == 0 {
			i = int(simrt.Rand() % uint64(n))
		}
		x = p.items[i]
		p.items = append(p.items[:i], p.items[i+1:]...)
	}
	p.m.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	if len(p.items) < 16 { // the collector would empty the real one now and then
		p.items = append(p.items, x)
	}
	p.m.Unlock()
	simrt.Y(-7)
}

type Cond struct {
	L   Locker
	m   rsync.Mutex
	gen uint64
	tok int
	wtg int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.m.Lock()
	g := c.gen
	c.wtg++
	c.m.Unlock()
	c.L.Unlock()
	for {
		c.m.Lock()
		ok := c.gen != g
		if !ok && c.tok > 0 {
			c.tok--
			ok = true
		}
		if ok {
			c.wtg--
			c.m.Unlock()
			break
		}
		c.m.Unlock()
		simrt.Block()
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.m.Lock()
	if c.tok < c.wtg {
		c.tok++
	}
	c.m.Unlock()
	simrt.Wake()
}
func (c *Cond) Broadcast() {
	c.m.Lock()
	c.gen++
	c.tok = 0
	c.m.Unlock()
	simrt.Wake()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}
