// Package time replaces the standard package in instrumented code.
package time

import (
	"time"

	"vmc/sched"
)

// SleepHook, when set, replaces native sleeping outside executions.
var SleepHook func(d time.Duration)

func Now() Time {
	if e := sched.Active(); e != nil {
		return time.Unix(0, e.NowNanos())
	}
	return time.Now()
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	e := sched.Active()
	if e == nil {
		if SleepHook != nil {
			SleepHook(d)
			return
		}
		time.Sleep(d)
		return
	}
	e.Sleep(d)
}

// Timer has the semantics the repository's language version gives to timers:
// a channel of capacity one, and Stop/Reset do not drain it.
type Timer struct {
	C <-chan Time
	c chan Time
	n *time.Timer
	t *sched.Timer
	f func()
}

func (t *Timer) arm(e *sched.Exec, d Duration) {
	t.t = e.AddTimer(int64(d), "timer", func() {
		if t.f != nil {
			sched.GoNamed("afterfunc", t.f)
			return
		}
		select {
		case t.c <- time.Unix(0, e.NowNanos()):
		default:
		}
	})
}

func NewTimer(d Duration) *Timer {
	e := sched.Active()
	if e == nil {
		n := time.NewTimer(d)
		return &Timer{C: n.C, n: n}
	}
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(e, d)
	return t
}

func (t *Timer) Stop() bool {
	if t.n != nil {
		return t.n.Stop()
	}
	e := sched.Active()
	if e == nil || e.Killing() || t.t == nil {
		return true
	}
	e.Point("timer.stop")
	return t.t.Cancel()
}

func (t *Timer) Reset(d Duration) bool {
	if t.n != nil {
		return t.n.Reset(d)
	}
	e := sched.Active()
	if e == nil || e.Killing() {
		return true
	}
	w := t.t.Cancel()
	t.arm(e, d)
	return w
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func AfterFunc(d Duration, f func()) *Timer {
	e := sched.Active()
	if e == nil {
		n := time.AfterFunc(d, f)
		return &Timer{C: n.C, n: n}
	}
	t := &Timer{f: f}
	t.arm(e, d)
	return t
}

type Ticker struct {
	C    <-chan Time
	c    chan Time
	n    *time.Ticker
	t    *sched.Timer
	d    Duration
	next int64
}

func (t *Ticker) arm(e *sched.Exec) {
	t.next += int64(t.d)
	t.t = e.AddTimer(t.next-e.NowNanos(), "ticker", func() {
		select {
		case t.c <- time.Unix(0, e.NowNanos()):
		default:
		}
		t.arm(e)
	})
}

func NewTicker(d Duration) *Ticker {
	e := sched.Active()
	if e == nil {
		n := time.NewTicker(d)
		return &Ticker{C: n.C, n: n}
	}
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d, next: e.NowNanos()}
	t.arm(e)
	return t
}

func (t *Ticker) Stop() {
	if t.n != nil {
		t.n.Stop()
		return
	}
	if t.t != nil {
		t.t.Cancel()
	}
}

func (t *Ticker) Reset(d Duration) {
	if t.n != nil {
		t.n.Reset(d)
		return
	}
	e := sched.Active()
	if e == nil || e.Killing() {
		return
	}
	t.t.Cancel()
	t.d = d
	t.next = e.NowNanos()
	t.arm(e)
}

func Tick(d Duration) <-chan Time { return NewTicker(d).C }
