package sched

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Channel operations of instrumented code. Buffered channels are used natively;
// rendezvous on unbuffered channels is done by the scheduler.

type recvWait struct {
	deliver func(v any, ok bool) // completes the receiver
	done    *bool
	live    func() bool
}

type chanWaiters struct {
	id   uintptr
	recv []*recvWait
}

// Lists rather than maps: the race monitor sees map accesses in the runtime itself.
type stashed struct {
	id uintptr
	v  any
}

func (e *Exec) isClosed(id uintptr) bool {
	if !RaceBuild {
		return e.closedM[id]
	}
	for _, x := range e.closed {
		if x == id {
			return true
		}
	}
	return false
}

func (e *Exec) stashOf(id uintptr) (any, bool) {
	if !RaceBuild {
		v, ok := e.stashM[id]
		return v, ok
	}
	for _, x := range e.stash {
		if x.id == id {
			return x.v, true
		}
	}
	return nil, false
}

func (e *Exec) unstash(id uintptr) {
	if !RaceBuild {
		delete(e.stashM, id)
		return
	}
	for i, x := range e.stash {
		if x.id == id {
			e.stash = append(e.stash[:i], e.stash[i+1:]...)
			return
		}
	}
}

func (e *Exec) hold(v any) { e.keep = append(e.keep, v) }
func (e *Exec) addStash(id uintptr, v any) {
	if !RaceBuild {
		if e.stashM == nil {
			e.stashM = map[uintptr]any{}
		}
		e.stashM[id] = v
		return
	}
	e.stash = append(e.stash, stashed{id, v})
}
func (e *Exec) setClosed(id uintptr) {
	if !RaceBuild {
		if e.closedM == nil {
			e.closedM = map[uintptr]bool{}
		}
		e.closedM[id] = true
		return
	}
	e.closed = append(e.closed, id)
}

//go:norace
func chanID[T any](ch <-chan T) uintptr {
	return *(*uintptr)(unsafe.Pointer(&ch))
}

func (e *Exec) w(id uintptr) *chanWaiters {
	if !RaceBuild {
		w := e.waitersM[id]
		if w == nil {
			if e.waitersM == nil {
				e.waitersM = map[uintptr]*chanWaiters{}
			}
			w = &chanWaiters{id: id}
			e.waitersM[id] = w
		}
		return w
	}
	for _, w := range e.waiters {
		if w.id == id {
			return w
		}
	}
	w := &chanWaiters{id: id}
	e.waiters = append(e.waiters, w)
	return w
}

func (w *chanWaiters) pending() []*recvWait {
	keep := w.recv[:0]
	for _, r := range w.recv {
		if !*r.done {
			keep = append(keep, r)
		}
	}
	w.recv = keep
	return keep
}

// stash holds values taken from a channel while polling it.
type stash[T any] struct {
	v  T
	ok bool
}

// poll tries a native non-blocking receive.
//
//go:norace
func poll[T any](e *Exec, ch <-chan T) (v T, ok, got bool) {
	id := chanID(ch)
	if s, have := e.stashOf(id); have {
		st := s.(*stash[T])
		if st.ok {
			e.unstash(id)
		} else {
			<-ch // closed: ordered after the close
		}
		return st.v, st.ok, true
	}
	select {
	case v, ok = <-ch:
		return v, ok, true
	default:
		return v, false, false
	}
}

// ready reports whether a receive would complete from the native side.
//
//go:norace
func ready[T any](e *Exec, ch <-chan T) bool {
	if ch == nil {
		return false
	}
	if len(ch) > 0 {
		return true
	}
	id := chanID(ch)
	if e.isClosed(id) {
		return true
	}
	if _, have := e.stashOf(id); have {
		return true
	}
	select {
	case v, ok := <-ch:
		e.hold(ch)
		e.addStash(id, &stash[T]{v, ok})
		return true
	default:
		return false
	}
}

// RecvC is a receive case of a select (or a plain receive).
type RecvC[T any] struct {
	ch  <-chan T
	Val T
	OK  bool
}

// SendC is a send case of a select (or a plain send).
type SendC[T any] struct {
	ch  chan<- T
	val T
}

type selCase interface {
	enabled(e *Exec) bool
	exec(e *Exec)
	park(e *Exec, done *bool, idx *int, i int)
	native() reflect.SelectCase
	setNative(v reflect.Value, ok bool)
}

//go:norace
func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }

//go:norace
func SendCase[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{ch: ch, val: v} }
}

//go:norace
func (c *RecvC[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

//go:norace
func (c *SendC[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.val).Elem()}
}

//go:norace
func (c *RecvC[T]) setNative(v reflect.Value, ok bool) {
	c.OK = ok
	if ok {
		if x := v.Interface(); x != nil {
			c.Val = x.(T)
		}
	}
}

//go:norace
func (c *SendC[T]) setNative(reflect.Value, bool) {}

//go:norace
func (c *RecvC[T]) enabled(e *Exec) bool { return ready(e, c.ch) }

//go:norace
func (c *RecvC[T]) exec(e *Exec) {
	v, ok, got := poll(e, c.ch)
	if !got {
		panic("sched: receive on a channel that is not ready")
	}
	c.Val, c.OK = v, ok
}

//go:norace
func (c *RecvC[T]) park(e *Exec, done *bool, idx *int, i int) {
	if c.ch == nil {
		return
	}
	e.hold(c.ch)
	w := e.w(chanID(c.ch))
	w.add(&recvWait{done: done, deliver: func(v any, ok bool) {
		*done = true
		*idx = i
		if v != nil {
			c.Val = v.(T)
		}
		c.OK = ok
	}})
}

func (w *chanWaiters) add(r *recvWait) { w.recv = append(w.recv, r) }

//go:norace
func recvSide[T any](ch chan<- T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

//go:norace
func (c *SendC[T]) enabled(e *Exec) bool {
	if c.ch == nil {
		return false
	}
	id := recvSide(c.ch)
	if e.isClosed(id) {
		return true // will panic, as it must
	}
	if cap(c.ch) > 0 {
		if len(c.ch) < cap(c.ch) {
			return true
		}
		return false
	}
	return len(e.w(id).pending()) > 0
}

//go:norace
func (c *SendC[T]) exec(e *Exec) {
	if cap(c.ch) > 0 || e.isClosed(recvSide(c.ch)) {
		select {
		case c.ch <- c.val:
		default:
			panic("sched: send on a channel that is not ready")
		}
		return
	}
	p := e.w(recvSide(c.ch)).pending()
	if len(p) == 0 {
		panic("sched: send without a receiver")
	}
	i := 0
	if len(p) > 1 {
		i = e.Choose("receiver", len(p), nil)
	}
	Acquire(unsafe.Pointer(p[i].done))
	ReleaseIn(unsafe.Pointer(p[i].done))
	p[i].deliver(any(c.val), true)
}

//go:norace
func (c *SendC[T]) park(e *Exec, done *bool, idx *int, i int) {}

// Select performs a select over the cases and returns the index of the one taken
// (-1 for default).
func Select(hasDefault bool, cases ...selCase) int {
	e := Active()
	if e == nil {
		return nativeSelect(hasDefault, cases)
	}
	done, idx := false, -1
	anyReady := func() bool {
		if done {
			return true
		}
		for _, c := range cases {
			if c.enabled(e) {
				return true
			}
		}
		return false
	}
	if hasDefault {
		e.Point("select-default")
		if !anyReady() {
			return -1
		}
	} else {
		// Registered as receiver while parked so that senders can see it.
		for i, c := range cases {
			c.park(e, &done, &idx, i)
		}
		ReleaseIn(unsafe.Pointer(&done))
		e.Block("select", anyReady)
		Acquire(unsafe.Pointer(&done))
		if done {
			return idx
		}
		done = true // unregister
	}
	var rdy []int
	for i, c := range cases {
		if c.enabled(e) {
			rdy = append(rdy, i)
		}
	}
	k := 0
	if len(rdy) > 1 {
		k = e.chooseSelect(len(rdy))
	}
	cases[rdy[k]].exec(e)
	return rdy[k]
}

func (e *Exec) chooseSelect(n int) int {
	if e.Chooser == nil || e.killing {
		return 0
	}
	return e.Chooser.Choose(KindSelect, n, func(i int) int { return 0 }, func(i int) string { return fmt.Sprintf("case%d", i) })
}

func nativeSelect(hasDefault bool, cases []selCase) int {
	var sc []reflect.SelectCase
	for _, c := range cases {
		sc = append(sc, c.native())
	}
	if hasDefault {
		sc = append(sc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(sc)
	if i == len(cases) {
		return -1
	}
	cases[i].setNative(v, ok)
	return i
}

//go:norace
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	e := Active()
	if e == nil {
		v, ok := <-ch
		return v, ok
	}
	c := RecvCase(ch)
	Select(false, c)
	return c.Val, c.OK
}

// Send(ch)(v) is ch <- v (curried so that v converts to the element type).
//
//go:norace
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if Active() == nil {
			ch <- v
			return
		}
		Select(false, SendCase(ch)(v))
	}
}

//go:norace
func Close[T any](ch chan<- T) {
	e := Active()
	if e == nil {
		close(ch)
		return
	}
	if e.killing {
		defer func() { recover() }()
		close(ch)
		return
	}
	close(ch) // panics natively when closed twice or nil
	id := recvSide(ch)
	e.hold(ch)
	e.setClosed(id)
	e.Point("close")
}

// BlockForever is select {}.
func BlockForever() {
	e := Active()
	if e == nil {
		select {}
	}
	e.Block("select{}", func() bool { return false })
}

// MapEntry is one entry of a map being ranged over.
type MapEntry[K comparable, V any] struct {
	K K
	m map[K]V
}

func (x MapEntry[K, V]) Live() bool { _, ok := x.m[x.K]; return ok }
func (x MapEntry[K, V]) V() V       { return x.m[x.K] }

// MapEntries lists the entries of m in the execution's map order (sorted by key when
// no execution is active would be legal too; native order is kept then).
func MapEntries[K comparable, V any](m map[K]V) []MapEntry[K, V] {
	r := make([]MapEntry[K, V], 0, len(m))
	for k := range m {
		r = append(r, MapEntry[K, V]{k, m})
	}
	e := Active()
	if e == nil && !sortAlways {
		return r
	}
	if len(r) < 2 {
		return r
	}
	sort.Slice(r, func(i, j int) bool { return less(reflect.ValueOf(r[i].K), reflect.ValueOf(r[j].K)) })
	order := globalMapOrder
	if e != nil && e.MapOrder != 0 {
		order = e.MapOrder
	}
	switch order {
	case 1:
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	case 2:
		if e != nil {
			k := e.Choose("maporder", len(r), nil)
			r[0], r[k] = r[k], r[0]
		}
	}
	return r
}

var sortAlways bool
var globalMapOrder int

// SetMapOrder fixes the iteration order also outside executions.
func SetMapOrder(always bool, order int) { sortAlways, globalMapOrder = always, order }

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}
