// Package sync replaces the standard package in instrumented code.
package sync

import (
	"sync"
	"unsafe"

	"vmc/sched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

// Mutex: state is kept here under an execution, in the native mutex otherwise.
type Mutex struct {
	n      sync.Mutex
	locked bool
}

func (m *Mutex) Lock() {
	e := sched.Active()
	if e == nil {
		m.n.Lock()
		return
	}
	if e.Killing() {
		return
	}
	e.Block("lock", func() bool { return !m.locked })
	m.locked = true
	sched.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	e := sched.Active()
	if e == nil {
		return m.n.TryLock()
	}
	if e.Killing() {
		return true
	}
	e.Point("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	sched.Acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	e := sched.Active()
	if e == nil {
		m.n.Unlock()
		return
	}
	if e.Killing() {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	sched.ReleaseIn(unsafe.Pointer(m))
	// A lock release is a point at which another thread may run.
	e.Point("unlock")
}

type RWMutex struct {
	n       sync.RWMutex
	w       bool
	r       int
	waiting int // writers waiting: new readers queue behind them, as in the native lock
}

// acq: a reader follows earlier writers, a writer earlier readers too.
func (m *RWMutex) acq(write bool) {
	sched.Acquire(unsafe.Pointer(&m.w))
	if write {
		sched.Acquire(unsafe.Pointer(&m.r))
	}
}

func (m *RWMutex) Lock() {
	e := sched.Active()
	if e == nil {
		m.n.Lock()
		return
	}
	if e.Killing() {
		return
	}
	m.waiting++
	e.Block("wlock", func() bool { return !m.w && m.r == 0 })
	m.waiting--
	m.w = true
	m.acq(true)
}

func (m *RWMutex) TryLock() bool {
	e := sched.Active()
	if e == nil {
		return m.n.TryLock()
	}
	if e.Killing() {
		return true
	}
	e.Point("trywlock")
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.acq(true)
	return true
}

func (m *RWMutex) Unlock() {
	e := sched.Active()
	if e == nil {
		m.n.Unlock()
		return
	}
	if e.Killing() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	sched.ReleaseIn(unsafe.Pointer(&m.w))
	e.Point("wunlock")
}

func (m *RWMutex) RLock() {
	e := sched.Active()
	if e == nil {
		m.n.RLock()
		return
	}
	if e.Killing() {
		return
	}
	blockedByWriter := false
	first := true
	e.Block("rlock", func() bool {
		if first { // decided on arrival: a waiting writer goes first
			first = false
			blockedByWriter = m.waiting > 0
		}
		if m.w {
			return false
		}
		if blockedByWriter && m.waiting > 0 {
			return false
		}
		return true
	})
	m.r++
	m.acq(false)
}

func (m *RWMutex) TryRLock() bool {
	e := sched.Active()
	if e == nil {
		return m.n.TryRLock()
	}
	if e.Killing() {
		return true
	}
	e.Point("tryrlock")
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	m.acq(false)
	return true
}

func (m *RWMutex) RUnlock() {
	e := sched.Active()
	if e == nil {
		m.n.RUnlock()
		return
	}
	if e.Killing() {
		return
	}
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	sched.ReleaseIn(unsafe.Pointer(&m.r))
	e.Point("runlock")
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n sync.WaitGroup
	c int
}

func (w *WaitGroup) Add(d int) {
	e := sched.Active()
	if e == nil {
		w.n.Add(d)
		return
	}
	if e.Killing() {
		return
	}
	w.c += d
	sched.ReleaseIn(unsafe.Pointer(w))
	if w.c < 0 {
		panic("sync: negative WaitGroup counter")
	}
	e.Point("wg.add")
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	e := sched.Active()
	if e == nil {
		w.n.Wait()
		return
	}
	if e.Killing() {
		return
	}
	e.Block("wg.wait", func() bool { return w.c == 0 })
	sched.Acquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	n    sync.Once
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if sched.Active() == nil {
		o.n.Do(f)
		return
	}
	if o.done {
		sched.Acquire(unsafe.Pointer(&o.m))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type Cond struct {
	L  Locker
	n  *sync.Cond
	ws []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l, n: sync.NewCond(l)} }
func (c *Cond) Wait() {
	e := sched.Active()
	if e == nil {
		c.n.Wait()
		return
	}
	if e.Killing() {
		return
	}
	woken := false
	c.ws = append(c.ws, &woken)
	c.L.Unlock()
	e.Block("cond", func() bool { return woken })
	sched.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) Signal() {
	e := sched.Active()
	if e == nil {
		c.n.Signal()
		return
	}
	if e.Killing() {
		return
	}
	if len(c.ws) > 0 {
		*c.ws[0] = true
		c.ws = c.ws[1:]
	}
	sched.ReleaseIn(unsafe.Pointer(c))
	e.Point("signal")
}
func (c *Cond) Broadcast() {
	e := sched.Active()
	if e == nil {
		c.n.Broadcast()
		return
	}
	if e.Killing() {
		return
	}
	for _, w := range c.ws {
		*w = true
	}
	c.ws = nil
	sched.ReleaseIn(unsafe.Pointer(c))
	e.Point("broadcast")
}

// Pool is deterministic under an execution: last in, first out, never dropped.
type Pool struct {
	New func() any
	n   sync.Pool
	s   []any
}

func (p *Pool) Get() any {
	if sched.Active() == nil {
		if v := p.n.Get(); v != nil {
			return v
		}
	} else if k := len(p.s); k > 0 {
		v := p.s[k-1]
		p.s = p.s[:k-1]
		sched.Acquire(unsafe.Pointer(p))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if sched.Active() == nil {
		p.n.Put(v)
		return
	}
	sched.ReleaseIn(unsafe.Pointer(p))
	p.s = append(p.s, v)
}
