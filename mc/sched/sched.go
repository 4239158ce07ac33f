// Package sched is a cooperative, deterministic scheduler for instrumented code.
//
// Instrumented packages call it (through the v/... shims) at every lock, channel,
// atomic, timer, goroutine and storage operation. While an Exec is active exactly
// one of its threads runs; at every scheduling point the next thread is chosen by
// the Exec's Chooser. Time is virtual: it advances only when no thread can run.
// With no active Exec every shim falls back to the native behaviour.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"sync/atomic"
	"time"
	"unsafe"
)

// Epoch is the virtual time at which every execution starts (whole second).
const Epoch = int64(1_900_000_000)

// Alternative kinds.
const (
	KindThread = iota // which thread runs next
	KindSelect        // which ready select case is taken
	KindUser          // harness-level choice (fault, crash point, order)
)

// Chooser decides at a choice point. n >= 2 alternatives; cost[i] is the deviation
// cost of alternative i (0 for the default).
type Chooser interface {
	Choose(kind int, n int, cost func(i int) int, label func(i int) string) int
}

type Thread struct {
	ID      int
	Name    string
	daemon  bool
	wake    chan struct{}
	enabled func() bool
	op      string
	done    bool
	group   int  // the node that the thread belongs to, inherited by the threads it starts
	vol     bool // the pending operation voluntarily yields: switching away is free
}

type timer struct {
	at     int64 // virtual ns
	seq    int64
	fire   func()
	active bool
	what   string
	group  int
}

type Failure struct {
	Kind string // panic, deadlock, horizon, harness
	Msg  string
}

type Exec struct {
	Chooser  Chooser
	MaxSteps int
	Trace    bool
	TraceLog []string
	// MapOrder selects the iteration order of maps in instrumented code: 0 ascending,
	// 1 descending, 2 ask the chooser at every range.
	MapOrder int
	// OnStore is called at every storage operation (kind: "view","update","commit").
	// A non-nil error makes the operation fail without effect.
	OnStore func(kind string) error
	// StmtPoints makes every statement of code instrumented with -stmts a scheduling point.
	StmtPoints bool
	// NoPoints suppresses scheduling points at storage operations.
	NoStorePoints bool

	threads  []*Thread
	live     []*Thread // threads, without some that are done
	cur      *Thread
	now      int64
	timers   []*timer
	seq      int64
	Steps    int
	Switches int
	failure  *Failure
	killing  bool
	finish   chan struct{}
	alive    int32
	allDead  chan struct{}
	closed   []uintptr
	waiters  []*chanWaiters
	keep     []any
	stash    []stashed
	closedM  map[uintptr]bool
	waitersM map[uintptr]*chanWaiters
	stashM   map[uintptr]any
	// Ext holds state of other shims (the virtual network) for this execution.
	Ext map[string]any
}

var current atomic.Pointer[Exec]

// Active reports the Exec under which the caller runs, or nil.
func Active() *Exec {
	return current.Load()
}

// Run executes body as the main thread of a new execution and returns when it is
// complete: body returned (remaining threads are then ended), or a failure occurred.
func (e *Exec) Run(body func()) *Failure {
	if !current.CompareAndSwap(nil, e) {
		panic("sched: nested execution")
	}
	if e.MaxSteps == 0 {
		e.MaxSteps = 400000
	}
	e.now = Epoch * int64(time.Second)
	e.finish = make(chan struct{})
	e.allDead = make(chan struct{}, 1)
	t := e.newThread("main", false)
	e.cur = t
	e.start(t, func() {
		body()
	})
	t.wake <- struct{}{}
	<-e.finish
	// End everything that is still parked.
	e.killing = true
	for i := 0; i < len(e.threads); i++ {
		th := e.threads[i]
		if !th.done {
			e.cur = th
			th.wake <- struct{}{}
			<-e.allDead
		}
	}
	current.Store(nil)
	return e.failure
}

func (e *Exec) newThread(name string, daemon bool) *Thread {
	t := &Thread{ID: len(e.threads), Name: name, daemon: daemon, wake: make(chan struct{}), op: "start"}
	if e.cur != nil {
		t.group = e.cur.group
	}
	e.threads = append(e.threads, t)
	e.live = append(e.live, t)
	return t
}

func (e *Exec) start(t *Thread, f func()) {
	go func() {
		raceQuiet()
		<-t.wake
		raceHear()
		defer func() {
			r := recover()
			ReleaseIn(unsafe.Pointer(t))
			t.done = true
			if e.killing {
				e.allDead <- struct{}{}
				return
			}
			if r != nil {
				if e.failure == nil {
					e.failure = &Failure{"panic", fmt.Sprintf("thread %s: %v\n%s", t.Name, r, shortStack())}
				}
				close(e.finish)
				return
			}
			if t.ID == 0 || e.failure != nil {
				close(e.finish)
				return
			}
			// a finished thread hands the token on
			next := e.pick(nil)
			if next == nil {
				e.failure = &Failure{"deadlock", e.describe()}
				close(e.finish)
				return
			}
			e.cur = next
			raceQuiet()
			next.wake <- struct{}{}
			raceHear()
		}()
		if e.killing {
			return
		}
		f()
	}()
}

func shortStack() string {
	b := debug.Stack()
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

// Fail records a failure and stops the execution; it does not return.
func (e *Exec) Fail(kind, msg string) {
	if e.failure == nil {
		e.failure = &Failure{kind, msg}
	}
	e.cur.done = true
	e.stopHere()
}

func (e *Exec) stopHere() {
	// The thread's deferred handler sees failure != nil and finishes the execution.
	e.cur.done = false
	runtime.Goexit()
}

// Go starts a new thread.
func Go(f func()) {
	e := Active()
	if e == nil {
		go f()
		return
	}
	if e.killing {
		return
	}
	t := e.newThread(fmt.Sprintf("g%d", len(e.threads)), true)
	e.start(t, f)
	e.Point("go")
}

// GoNamed is Go with a name for traces (harness use).
func GoNamed(name string, f func()) *Thread {
	e := Active()
	t := e.newThread(name, true)
	e.start(t, f)
	return t
}

// Join waits until the given threads are done.
func Join(ts ...*Thread) {
	e := Active()
	if e.killing {
		return
	}
	e.Block("join", func() bool {
		for _, t := range ts {
			if !t.done {
				return false
			}
		}
		return true
	})
	for _, t := range ts {
		Acquire(unsafe.Pointer(t))
	}
}

func (t *Thread) Done() bool { return t.done }

// P is a scheduling point between two statements.
func P() {
	if e := Active(); e != nil && e.StmtPoints && !e.killing {
		e.Point("stmt")
	}
}

// Point is a scheduling point at which the current thread stays enabled.
func (e *Exec) Point(op string) { e.yield(op, nil, false) }

// Block parks the current thread until enabled() holds.
func (e *Exec) Block(op string, enabled func() bool) { e.yield(op, enabled, false) }

// Yield is Block/Point where switching away costs nothing.
func (e *Exec) Yield(op string) { e.yield(op, nil, true) }

func (e *Exec) yield(op string, enabled func() bool, voluntary bool) {
	if e.killing {
		runtime.Goexit()
	}
	t := e.cur
	t.op, t.enabled, t.vol = op, enabled, voluntary
	e.Steps++
	if e.Steps > e.MaxSteps {
		e.Fail("horizon", fmt.Sprintf("no completion after %d steps (thread %s at %s)", e.Steps, t.Name, op))
	}
	next := e.pick(t)
	if next == nil {
		e.Fail("deadlock", e.describe())
	}
	if next == t {
		return
	}
	e.Switches++
	e.cur = next
	raceQuiet()
	next.wake <- struct{}{}
	<-t.wake
	raceHear()
	if e.killing {
		runtime.Goexit()
	}
	if e.failure != nil {
		runtime.Goexit()
	}
}

func (e *Exec) describe() string {
	s := "no thread can run:"
	for _, t := range e.threads {
		if !t.done {
			s += fmt.Sprintf(" [%s at %s]", t.Name, t.op)
		}
	}
	return s
}

// mainBlockedForever: deadlock means no thread enabled and no timer pending.
func (e *Exec) pick(cur *Thread) *Thread {
	for e.Chooser == nil {
		// nobody chooses: the first that can run, in the same order
		var next *Thread
		if cur != nil && !cur.done && (cur.enabled == nil || cur.enabled()) {
			next = cur
		} else {
			live := e.live[:0]
			for i, t := range e.live {
				if t.done {
					continue
				}
				live = append(live, t)
				if t != cur && (t.enabled == nil || t.enabled()) {
					for _, t := range e.live[i+1:] { // one by one: a copy of many is seen by the race monitor
						live = append(live, t)
					}
					next = t
					break
				}
			}
			e.live = live
		}
		if next != nil {
			if e.Trace {
				e.TraceLog = append(e.TraceLog, fmt.Sprintf("%.3f %s %s", float64(e.now-Epoch*1e9)/1e9, next.Name, next.op))
			}
			return next
		}
		if !e.advance() {
			return nil
		}
	}
	for {
		var en [32]*Thread
		list := en[:0]
		if cur != nil && !cur.done && (cur.enabled == nil || cur.enabled()) {
			list = append(list, cur)
		}
		curEnabled := len(list) == 1
		for _, t := range e.threads {
			if t == cur || t.done {
				continue
			}
			if t.enabled == nil || t.enabled() {
				list = append(list, t)
			}
		}
		if len(list) == 0 {
			if !e.advance() {
				return nil
			}
			continue
		}
		i := 0
		if len(list) > 1 && e.Chooser != nil {
			free := !curEnabled || cur.vol
			i = e.Chooser.Choose(KindThread, len(list), func(i int) int {
				if i == 0 || free {
					return 0
				}
				return 1
			}, func(i int) string { return list[i].Name + ":" + list[i].op })
		}
		if e.Trace {
			e.TraceLog = append(e.TraceLog, fmt.Sprintf("%.3f %s %s", float64(e.now-Epoch*1e9)/1e9, list[i].Name, list[i].op))
		}
		return list[i]
	}
}

// advance moves virtual time to the next timer and fires everything due then.
func (e *Exec) advance() bool {
	best := int64(-1)
	for _, t := range e.timers {
		if t.active && (best < 0 || t.at < best) {
			best = t.at
		}
	}
	if best < 0 {
		return false
	}
	if best > e.now {
		e.now = best
	}
	e.fireDue()
	return true
}

func (e *Exec) fireDue() {
	var due []*timer
	keep := e.timers[:0]
	for _, t := range e.timers {
		if !t.active {
			continue
		}
		if t.at <= e.now {
			due = append(due, t)
		} else {
			keep = append(keep, t)
		}
	}
	e.timers = keep
	sort.Slice(due, func(i, j int) bool {
		if due[i].at != due[j].at {
			return due[i].at < due[j].at
		}
		return due[i].seq < due[j].seq
	})
	raceQuiet() // time does not order the thread that happens to notice it
	for _, t := range due {
		t.active = false
		t.fire()
	}
	raceHear()
}

// AddTimer schedules fire (run on the scheduler, must not block) at now+d.
func (e *Exec) AddTimer(d int64, what string, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	e.seq++
	t := &timer{at: e.now + d, seq: e.seq, fire: fire, active: true, what: what}
	if e.cur != nil {
		t.group = e.cur.group
	}
	e.timers = append(e.timers, t)
	return t
}

func (t *timer) Cancel() bool { w := t.active; t.active = false; return w }

type Timer = timer

// NowNanos is the virtual time in Unix nanoseconds.
func (e *Exec) NowNanos() int64 { return e.now }

// Sleep parks the current thread for d of virtual time.
func (e *Exec) Sleep(d time.Duration) {
	if e.killing {
		runtime.Goexit()
	}
	fired := false
	e.AddTimer(int64(d), "sleep", func() { fired = true })
	e.yield("sleep", func() bool { return fired }, true)
}

// Killing reports that the execution is being torn down.
func (e *Exec) Killing() bool { return e.killing }

// Choose is a harness-level choice among n alternatives.
func (e *Exec) Choose(label string, n int, cost func(i int) int) int {
	if n < 2 || e.Chooser == nil || e.killing {
		return 0
	}
	if cost == nil {
		cost = func(int) int { return 0 }
	}
	return e.Chooser.Choose(KindUser, n, cost, func(i int) string { return fmt.Sprintf("%s=%d", label, i) })
}

// Alive returns the unfinished threads other than main, described by their pending op.
func (e *Exec) AliveThreads() []string {
	var r []string
	for _, t := range e.threads[1:] {
		if !t.done {
			r = append(r, t.Name+":"+t.op)
		}
	}
	return r
}

// PendingTimers returns (what, ns from now) of active timers, sorted.
func (e *Exec) PendingTimers() []string {
	var r []string
	for _, t := range e.timers {
		if t.active {
			r = append(r, fmt.Sprintf("%s+%d", t.what, t.at-e.now))
		}
	}
	sort.Strings(r)
	return r
}

// KillOthers ends every thread except the caller (used to simulate a crash).
func (e *Exec) KillOthers() {
	me := e.cur
	e.killing = true
	for i := 0; i < len(e.threads); i++ {
		th := e.threads[i]
		if th != me && !th.done {
			e.cur = th
			th.wake <- struct{}{}
			<-e.allDead
		}
	}
	e.killing = false
	e.cur = me
	for _, t := range e.timers {
		t.active = false
	}
	e.timers = nil
}

// SetGroup moves the running thread (and the threads it starts from now on) to a group and
// returns the group it was in.
func (e *Exec) SetGroup(g int) int { o := e.cur.group; e.cur.group = g; return o }

// Group is the running thread's group.
func (e *Exec) Group() int { return e.cur.group }

// KillGroup ends every thread of the group and its timers (a crash of one node).
func (e *Exec) KillGroup(g int) {
	for i := 0; i < len(e.threads); i++ {
		if th := e.threads[i]; th.group == g && th != e.cur && !th.done {
			e.Kill(th)
		}
	}
	for _, t := range e.timers {
		if t.group == g {
			t.active = false
		}
	}
}

// Kill ends one parked thread (not the caller).
func (e *Exec) Kill(th *Thread) {
	me := e.cur
	if th == me || th.done {
		return
	}
	e.killing = true
	e.cur = th
	th.wake <- struct{}{}
	<-e.allDead
	e.killing = false
	e.cur = me
}

func (e *Exec) CurName() string { return e.cur.Name }

// CurID returns the running thread's id.
func (e *Exec) CurID() int { return e.cur.ID }
