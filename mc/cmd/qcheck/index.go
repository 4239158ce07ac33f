package main

import (
	"container/heap"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/kgantsov/doq/pkg/queue"

	"vmc/core"
)

// C29: every sequence of operations on each in-memory structure, against a plain list.

type idxOp struct {
	K    string
	G    string
	ID   uint64
	Prio int64
}

func (o idxOp) String() string {
	return fmt.Sprintf("%s group=%q id=%d prio=%d", o.K, o.G, o.ID, o.Prio)
}

type idxItem struct {
	id   uint64
	g    string
	prio int64
}

// idxSys is one structure under test behind a uniform face.
type idxSys interface {
	insert(g string, id uint64, prio int64)
	take() *queue.Item
	get(g string, id uint64) *queue.Item
	remove(g string, id uint64) *queue.Item
	update(g string, id uint64, prio int64)
	count() int
	peek() (*queue.Item, bool)
}

type qSys struct{ q queue.Queue }

func (s qSys) insert(g string, id uint64, p int64)    { s.q.Enqueue(g, &queue.Item{ID: id, Priority: p}) }
func (s qSys) take() *queue.Item                      { return s.q.Dequeue() }
func (s qSys) get(g string, id uint64) *queue.Item    { return s.q.GetByID(g, id) }
func (s qSys) remove(g string, id uint64) *queue.Item { return s.q.DeleteByID(g, id) }
func (s qSys) update(g string, id uint64, p int64)    { s.q.UpdatePriority(g, id, p) }
func (s qSys) count() int                             { return int(s.q.Len()) }
func (s qSys) peek() (*queue.Item, bool)              { return nil, false }

type hSys struct{ q *queue.PriorityQueue }

func (s hSys) insert(g string, id uint64, p int64) { heap.Push(s.q, &queue.Item{ID: id, Priority: p}) }
func (s hSys) take() *queue.Item {
	if s.q.Len() == 0 {
		return nil
	}
	return heap.Pop(s.q).(*queue.Item)
}
func (s hSys) get(g string, id uint64) *queue.Item    { return s.q.GetByID(id) }
func (s hSys) remove(g string, id uint64) *queue.Item { return s.q.DeleteByID(id) }
func (s hSys) update(g string, id uint64, p int64)    { s.q.UpdatePriority(id, p) }
func (s hSys) count() int                             { return s.q.Len() }
func (s hSys) peek() (*queue.Item, bool) {
	if s.q.Len() == 0 {
		return nil, true
	}
	return s.q.Peek().(*queue.Item), true
}

type idxUniverse struct {
	name     string
	mk       func() idxSys
	kind     string // min, max, fair
	groups   []string
	prios    []int64
	upds     []int64
	maxItems int
	depth    int
	ids      []uint64 // ids in the order of insertion, 1 2 3 if empty
}

// future is a priority that never comes due.
const future = int64(1) << 60

type idxState struct {
	sys   idxSys
	items []idxItem
	debt  map[string]map[string]bool
	next  uint64
	n     int
}

func (u *idxUniverse) fresh() *idxState {
	return &idxState{sys: u.mk(), debt: map[string]map[string]bool{}, next: 1}
}

func (u *idxUniverse) alphabet(s *idxState) []idxOp {
	var ops []idxOp
	if s.n < u.maxItems {
		for _, g := range u.groups {
			for _, p := range u.prios {
				ops = append(ops, idxOp{"insert", g, u.id(s.next), p})
			}
		}
	}
	ops = append(ops, idxOp{K: "take"})
	for n := uint64(1); n <= s.next; n++ { // the last one was never inserted
		id, gs := u.id(n), u.groups
		for _, g := range gs {
			ops = append(ops, idxOp{"remove", g, id, 0})
			for _, p := range u.upds {
				ops = append(ops, idxOp{"update", g, id, p})
			}
		}
	}
	return ops
}

func (u *idxUniverse) id(n uint64) uint64 {
	if n-1 < uint64(len(u.ids)) {
		return u.ids[n-1]
	}
	return n
}

func (u *idxUniverse) less(a, b idxItem) bool {
	if a.prio != b.prio {
		return (a.prio < b.prio) == (u.kind != "max")
	}
	return (a.id < b.id) == (u.kind != "max")
}

func (s *idxState) find(u *idxUniverse, g string, id uint64) int {
	for i, x := range s.items {
		if x.id == id && (u.kind != "fair" || x.g == g) {
			return i
		}
	}
	return -1
}

func (s *idxState) drop(i int) {
	s.items = append(append([]idxItem{}, s.items[:i]...), s.items[i+1:]...)
}

func (s *idxState) apply(u *idxUniverse, o idxOp) string {
	switch o.K {
	case "insert":
		s.sys.insert(o.G, o.ID, o.Prio)
		s.items = append(s.items, idxItem{o.ID, o.G, o.Prio})
		s.next++
		s.n++
	case "remove":
		got := s.sys.remove(o.G, o.ID)
		i := s.find(u, o.G, o.ID)
		if i < 0 {
			if got != nil {
				return fmt.Sprintf("remove of absent item returned id %d", got.ID)
			}
		} else {
			if got == nil || got.ID != o.ID || got.Priority != s.items[i].prio {
				return fmt.Sprintf("remove of %+v returned %+v", s.items[i], got)
			}
			s.drop(i)
			s.settle()
		}
	case "update":
		s.sys.update(o.G, o.ID, o.Prio)
		if i := s.find(u, o.G, o.ID); i >= 0 {
			s.items[i].prio = o.Prio
		}
	case "take":
		got := s.sys.take()
		if msg := s.taken(u, got); msg != "" {
			return msg
		}
	}
	return s.audit(u)
}

// settle: groups without items are off every list.
func (s *idxState) settle() {
	has := map[string]bool{}
	for _, x := range s.items {
		has[x.g] = true
	}
	for _, d := range s.debt {
		for g := range d {
			if !has[g] {
				delete(d, g)
			}
		}
	}
}

func (s *idxState) taken(u *idxUniverse, got *queue.Item) string {
	var due []idxItem
	for _, x := range s.items {
		if u.kind == "fair" || x.prio < future || strings.HasPrefix(u.name, "heap") {
			due = append(due, x)
		}
	}
	if u.kind == "max" {
		// the structure looks only at its head
		sort.Slice(s.items, func(i, j int) bool { return u.less(s.items[i], s.items[j]) })
		if len(s.items) > 0 && s.items[0].prio >= future && !strings.HasPrefix(u.name, "heap") {
			due = nil
		}
	}
	if got == nil {
		if len(due) > 0 {
			return fmt.Sprintf("take returned nothing, %d items are due", len(due))
		}
		return ""
	}
	i := -1
	for k, x := range s.items {
		if x.id == got.ID {
			i = k
		}
	}
	if i < 0 {
		return fmt.Sprintf("take returned id %d, which is not in the collection", got.ID)
	}
	x := s.items[i]
	if got.Priority != x.prio {
		return fmt.Sprintf("take returned id %d with priority %d, it has %d", got.ID, got.Priority, x.prio)
	}
	if len(due) == 0 {
		return fmt.Sprintf("take returned id %d, nothing is due", got.ID)
	}
	for _, y := range due {
		if y.id != x.id && u.less(y, x) && (u.kind != "fair" || y.g == x.g) {
			return fmt.Sprintf("take returned %+v before %+v", x, y)
		}
	}
	if u.kind == "fair" {
		if len(s.debt[x.g]) > 0 {
			return fmt.Sprintf("take served group %q again before %v", x.g, s.debt[x.g])
		}
		for _, d := range s.debt {
			delete(d, x.g)
		}
		d := map[string]bool{}
		for _, y := range s.items {
			if y.g != x.g {
				d[y.g] = true
			}
		}
		s.debt[x.g] = d
	}
	s.drop(i)
	s.settle()
	return ""
}

// audit: count and every look-up.
func (s *idxState) audit(u *idxUniverse) string {
	if c := s.sys.count(); c != len(s.items) {
		return fmt.Sprintf("count is %d, the collection has %d items", c, len(s.items))
	}
	for n := uint64(1); n <= s.next; n++ {
		id := u.id(n)
		for _, g := range u.groups {
			got := s.sys.get(g, id)
			i := s.find(u, g, id)
			if (i < 0) != (got == nil) {
				return fmt.Sprintf("look-up of id %d group %q returned %+v, present: %v", id, g, got, i >= 0)
			}
			if got != nil && (got.ID != id || got.Priority != s.items[i].prio) {
				return fmt.Sprintf("look-up of id %d returned %+v, expected %+v", id, got, s.items[i])
			}
		}
	}
	if p, ok := s.sys.peek(); ok && p != nil {
		for _, y := range s.items {
			if y.id != p.ID && u.less(y, idxItem{p.ID, "", p.Priority}) {
				return fmt.Sprintf("peek shows id %d before id %d", p.ID, y.id)
			}
		}
	}
	return ""
}

func (s *idxState) hash(u *idxUniverse) string {
	d := core.Dumper{Now: 1 << 40}
	its := append([]idxItem{}, s.items...)
	sort.Slice(its, func(i, j int) bool { return its[i].id < its[j].id })
	return d.Hash(s.sys, its, s.debt, s.next, s.n)
}

func (u *idxUniverse) replay(h []uint8) (s *idxState, ops []idxOp, msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	s = u.fresh()
	for _, k := range h {
		al := u.alphabet(s)
		ops = append(ops, al[k])
		if msg = s.apply(u, al[k]); msg != "" {
			return
		}
	}
	return
}

func (u *idxUniverse) drain(h []uint8) (ops []idxOp, msg string) {
	s, ops, msg := u.replay(h)
	if msg != "" {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	for i := len(s.items); i >= 0; i-- {
		ops = append(ops, idxOp{K: "take"})
		if msg = s.apply(u, idxOp{K: "take"}); msg != "" {
			return
		}
	}
	return
}

func (u *idxUniverse) search(c *core.Ctx) {
	seen := map[string]bool{}
	frontier := [][]uint8{{}}
	reached := 0
	report := func(ops []idxOp, msg string) {
		var h []string
		for _, o := range ops {
			h = append(h, o.String())
		}
		c.Report(&core.Violation{Signature: u.name + ":" + msg, What: u.name + ": " + msg, Scenario: u.name, History: h, Replay: map[string]any{"universe": u.name, "ops": ops}})
	}
	for d := 1; d <= u.depth && len(frontier) > 0; d++ {
		if c.OutOfTime() || c.HasViolations() {
			c.NotExhaustive(fmt.Sprintf("%s: stopped after depth %d", u.name, reached))
			break
		}
		type kid struct {
			h    []uint8
			hash string
		}
		nw := runtime.NumCPU()
		outs := make([][]kid, nw)
		var wg sync.WaitGroup
		for w := 0; w < nw; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := w; i < len(frontier); i += nw {
					if i%64 == 0 && c.HasViolations() {
						return
					}
					h := frontier[i]
					s, _, _ := u.replay(h)
					n := len(u.alphabet(s))
					for k := 0; k < n; k++ {
						h2 := append(append([]uint8{}, h...), uint8(k))
						s2, ops, msg := u.replay(h2)
						c.Count("transitions", 1)
						if msg != "" {
							report(ops, msg)
							return
						}
						outs[w] = append(outs[w], kid{h2, s2.hash(u)})
					}
				}
			}(w)
		}
		wg.Wait()
		var next [][]uint8
		for _, o := range outs {
			for _, k := range o {
				if !seen[k.hash] {
					seen[k.hash] = true
					next = append(next, k.h)
				}
			}
		}
		// take everything out of every new state
		for w := 0; w < nw; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := w; i < len(next); i += nw {
					ops, msg := u.drain(next[i])
					c.Count("traces_validated_against_impl", 1)
					if msg != "" {
						report(ops, msg)
						return
					}
				}
			}(w)
		}
		wg.Wait()
		reached = d
		frontier = next
	}
	c.Count("states", int64(len(seen)))
	sc, _ := c.Coverage["universes"].([]string)
	c.Coverage["universes"] = append(sc, fmt.Sprintf("%s: depth %d of %d, %d states", u.name, reached, u.depth, len(seen)))
	if len(frontier) > 0 {
		_, ops, _ := u.replay(frontier[0])
		c.Sample(map[string]any{"universe": u.name, "history": fmt.Sprint(ops)})
	}
}

func init() {
	checks["C29"] = func(c *core.Ctx, pool *core.Pool) {
		th := c.Thorough()
		d := func(q, t int) int {
			if th {
				return t
			}
			return q
		}
		one := []string{"default"}
		edge := []int64{-1 << 63, -1, 0, 1<<63 - 1}
		scattered := []uint64{1 << 63, 7, 1<<64 - 1, 0, 1 << 62, 3, 1<<63 + 1}
		us := []*idxUniverse{
			{"heap-min", func() idxSys { return hSys{queue.NewPriorityQueue(true)} }, "heapmin", one, []int64{1, 2, 3}, []int64{0, 2, 4}, d(5, 6), d(6, 7), nil},
			{"heap-max", func() idxSys { return hSys{queue.NewPriorityQueue(false)} }, "max", one, []int64{1, 2, 3}, []int64{0, 2, 4}, d(5, 6), d(6, 7), nil},
			{"heap-min-big", func() idxSys { return hSys{queue.NewPriorityQueue(true)} }, "heapmin", one, []int64{1, 5}, []int64{3}, d(7, 8), d(8, 9), nil},
			{"delayed-min", func() idxSys { return qSys{queue.NewDelayedPriorityQueue(true)} }, "min", one, []int64{1, 2, future + 1}, []int64{0, future + 2}, d(5, 6), d(6, 7), nil},
			{"delayed-max", func() idxSys { return qSys{queue.NewDelayedPriorityQueue(false)} }, "max", one, []int64{1, 2, future + 1}, []int64{0, 3}, d(5, 6), d(6, 7), nil},
			{"fair", func() idxSys { return qSys{queue.NewFairPriorityQueue()} }, "fair", []string{"a", "b"}, []int64{1, 2}, []int64{0}, d(5, 6), d(7, 8), nil},
			{"fair-groups", func() idxSys { return qSys{queue.NewFairPriorityQueue()} }, "fair", []string{"", "b", "c"}, []int64{1}, nil, d(6, 7), d(8, 9), nil},
			// far-apart priorities, and ids in any order over the whole range
			{"heap-min-values", func() idxSys { return hSys{queue.NewPriorityQueue(true)} }, "heapmin", one, edge, edge[:1], d(3, 4), d(5, 6), scattered},
			{"heap-max-values", func() idxSys { return hSys{queue.NewPriorityQueue(false)} }, "max", one, edge, edge[3:], d(3, 4), d(5, 6), scattered},
			{"delayed-min-values", func() idxSys { return qSys{queue.NewDelayedPriorityQueue(true)} }, "min", one, edge, edge[1:2], d(3, 4), d(5, 6), scattered},
			{"fair-values", func() idxSys { return qSys{queue.NewFairPriorityQueue()} }, "fair", []string{"a", "b"}, edge, edge[:1], d(3, 3), d(4, 5), scattered},
			{"heap-min-ids", func() idxSys { return hSys{queue.NewPriorityQueue(true)} }, "heapmin", one, []int64{1}, []int64{0}, d(5, 7), d(6, 8), scattered},
		}
		for _, u := range us {
			u.search(c)
		}
	}
}
