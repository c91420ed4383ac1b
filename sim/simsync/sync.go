// Package simsync stands in for package sync: the same operations, but a task
// that would block gives way to the other simulated tasks, so that the
// scheduler decides who gets a lock and sees deadlocks.
package simsync

import (
	"sync"

	"github.com/recolude/rap/verifsim/simrt"
)

type (
	Map    = sync.Map
	Locker = sync.Locker
)

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	if simrt.Free() {
		m.mu.Lock()
		return
	}
	simrt.Tick()
	for !m.mu.TryLock() {
		simrt.Block("Mutex.Lock")
	}
	simrt.Progress()
}

func (m *Mutex) TryLock() bool { simrt.Tick(); return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); simrt.Progress() }

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	if simrt.Free() {
		m.mu.Lock()
		return
	}
	simrt.Tick()
	for !m.mu.TryLock() {
		simrt.Block("RWMutex.Lock")
	}
	simrt.Progress()
}

func (m *RWMutex) RLock() {
	if simrt.Free() {
		m.mu.RLock()
		return
	}
	simrt.Tick()
	for !m.mu.TryRLock() {
		simrt.Block("RWMutex.RLock")
	}
	simrt.Progress()
}

func (m *RWMutex) TryLock() bool  { return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.mu.TryRLock() }
func (m *RWMutex) Unlock()        { m.mu.Unlock(); simrt.Progress() }
func (m *RWMutex) RUnlock()       { m.mu.RUnlock(); simrt.Progress() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs a function once; others wait for it to end.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// WaitGroup counts natively as well, so that the race detector sees the
// edges of the real one and no others.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:norace
func (w *WaitGroup) count(d int) int { w.n += d; return w.n }

func (w *WaitGroup) Add(d int) {
	if !simrt.Free() {
		w.count(d)
		simrt.Progress()
	}
	w.wg.Add(d)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

func (w *WaitGroup) Wait() {
	if !simrt.Free() {
		for w.count(0) > 0 {
			simrt.Block("WaitGroup.Wait")
		}
		simrt.Progress()
	}
	w.wg.Wait()
}

// Cond wakes waiters in the order they came.
type Cond struct {
	L    Locker
	free *sync.Cond
	// a waiter leaves once its ticket is served
	tickets, served uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l, free: sync.NewCond(l)} }

//go:norace
func (c *Cond) ticket() uint64 { c.tickets++; return c.tickets }

//go:norace
func (c *Cond) ready(t uint64) bool { return c.served >= t }

//go:norace
func (c *Cond) serve(all bool) {
	if all {
		c.served = c.tickets
	} else if c.served < c.tickets {
		c.served++
	}
}

func (c *Cond) Wait() {
	if simrt.Free() {
		c.native().Wait()
		return
	}
	t := c.ticket()
	c.L.Unlock()
	for !c.ready(t) {
		simrt.Block("Cond.Wait")
	}
	simrt.Progress()
	c.L.Lock()
}

func (c *Cond) native() *sync.Cond {
	if c.free == nil {
		panic("sync.Cond made without NewCond")
	}
	return c.free
}

func (c *Cond) Signal() {
	if simrt.Free() {
		c.native().Signal()
		return
	}
	c.serve(false)
	simrt.Progress()
}

func (c *Cond) Broadcast() {
	if simrt.Free() {
		c.native().Broadcast()
		return
	}
	c.serve(true)
	simrt.Progress()
}

// Pool hands out the newest item, and forgets those of earlier runs, so that a
// run does not depend on the ones before it.
type Pool struct {
	New   func() interface{}
	free  sync.Pool
	gen   uint64
	items []*pooled
}

// pooled carries the one edge a real pool has: from the Put of an item to the
// Get that returns it.
type pooled struct {
	x interface{}
	e simrt.Edge
}

//go:norace
func (p *Pool) pop() (interface{}, bool) {
	if p.gen != simrt.Generation {
		p.gen, p.items = simrt.Generation, nil
	}
	n := len(p.items)
	if n == 0 {
		return nil, false
	}
	it := p.items[n-1]
	p.items[n-1] = nil
	p.items = p.items[:n-1]
	it.e.Acquire()
	return it.x, true
}

//go:norace
func (p *Pool) push(x interface{}) {
	if p.gen != simrt.Generation {
		p.gen, p.items = simrt.Generation, nil
	}
	it := &pooled{x: x}
	it.e.Release()
	p.items = append(p.items, it)
}

func (p *Pool) Get() interface{} {
	if simrt.Free() {
		if x := p.free.Get(); x != nil {
			return x
		}
	} else {
		simrt.Tick()
		if x, ok := p.pop(); ok {
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	if simrt.Free() {
		p.free.Put(x)
		return
	}
	p.push(x)
	simrt.Tick()
}
