package main

import (
	"fmt"
	"math"

	"github.com/dgraph-io/badger/v4"
	"github.com/hashicorp/raft"

	"vmc/core"
	"vmc/explore"
	"vmc/qsys"
	"vmc/sched"
)

// C14 and C15 when the storage refuses a step (once, or from then on), and with readers beside
// a writer under every schedule.

// before and after an operation: each index and key holds one or the other.
type sState struct {
	logs map[uint64]*raft.Log
	conf map[string]cval
}

func (r *storeRun) snapshot() sState {
	s := sState{map[uint64]*raft.Log{}, map[string]cval{}}
	for k, v := range r.logs {
		s.logs[k] = v
	}
	for k, v := range r.conf {
		s.conf[k] = v
	}
	return s
}

// adopt makes the model what the store holds, provided each index and key is as before or as
// after the operation.
func (r *storeRun) adopt(a, b sState) *sFail {
	for _, i := range r.probe {
		var l raft.Log
		err := r.s.GetLog(i, &l)
		found := false
		for _, s := range []sState{a, b} {
			w := s.logs[i]
			if w == nil && err == raft.ErrLogNotFound {
				delete(r.logs, i)
				found = true
				break
			}
			if w != nil && err == nil && sameLog(&l, w) == "" {
				r.logs[i] = w
				found = true
				break
			}
		}
		if !found {
			return &sFail{"torn", fmt.Sprintf("after a failed operation GetLog(%d) answers %v (%d bytes), neither as before nor as after it", i, err, len(l.Data))}
		}
	}
	for _, k := range r.keys {
		found := false
		for _, s := range []sState{a, b} {
			r.conf[k] = s.conf[k]
			if r.checkKey(k) == nil {
				found = true
				break
			}
		}
		if !found {
			g, err := r.s.Get([]byte(k))
			return &sFail{"torn", fmt.Sprintf("after a failed operation Get(%q) answers %q, %v, neither as before nor as after it", k, g, err)}
		}
	}
	return nil
}

type storeScn struct {
	pre  []sOp
	op   sOp
	keys []string
	idx  []uint64
	conf bool // C15
}

var refusals = []error{errFault, badger.ErrTxnTooBig, badger.ErrConflict, badger.ErrBlockedWrites}

// refused runs the operation with the n-th step of a kind failing.
func (s *storeScn) refused(n int, err error, forever, reopen bool) (fail *sFail, hit bool, log []string) {
	db := qsys.GetDB()
	defer qsys.PutDB(db)
	r := &storeRun{db: db, logs: map[uint64]*raft.Log{}, conf: map[string]cval{}, keys: s.keys, probe: s.idx}
	r.plantForeign()
	e := &sched.Exec{MaxSteps: 200000}
	f := e.Run(func() {
		if e := r.open(); e != nil {
			fail = &sFail{"open", e.Error()}
			return
		}
		for _, o := range s.pre {
			if fail = r.step(o); fail != nil {
				return
			}
		}
		before := r.snapshot()
		k := 0
		e.OnStore = func(kind string) error {
			if !writeEvent(kind) {
				return nil
			}
			k++
			if k == n || (forever && k > n) {
				hit = true
				return err
			}
			return nil
		}
		ferr := r.step(s.op)
		e.OnStore = nil
		r.log = append(r.log, fmt.Sprintf("-- storage refuses step %d (%v)%s -> failed: %v", n, err, core.If(forever, " and all later ones", ""), ferr != nil))
		after := r.snapshot()
		if ferr != nil {
			r.logs, r.conf = before.snap().logs, before.snap().conf
			if fail = r.adopt(before, after); fail != nil {
				return
			}
		}
		if reopen {
			if fail = r.step(sOp{K: "reopen"}); fail != nil {
				return
			}
		}
		if fail = r.check(); fail != nil {
			fail.sig = "fault-" + fail.sig
			return
		}
		// and again, with the storage at work
		if fail = r.step(s.op); fail == nil {
			fail = r.check()
		}
	})
	if f != nil {
		fail = &sFail{f.Kind, f.Kind + ": " + f.Msg}
	}
	return fail, hit, r.log
}

func (s sState) snap() sState { r := storeRun{logs: s.logs, conf: s.conf}; return r.snapshot() }

// readRefused: every read fails; none may claim that a stored thing was not found.
func (s *storeScn) readRefused(refuse string, err error) (fail *sFail, log []string) {
	db := qsys.GetDB()
	defer qsys.PutDB(db)
	r := &storeRun{db: db, logs: map[uint64]*raft.Log{}, conf: map[string]cval{}, keys: s.keys, probe: s.idx}
	e := &sched.Exec{MaxSteps: 200000}
	f := e.Run(func() {
		r.open()
		for _, o := range append(append([]sOp{}, s.pre...), s.op) {
			if fail = r.step(o); fail != nil {
				return
			}
		}
		r.log = append(r.log, fmt.Sprintf("-- the storage refuses every %q (%v)", refuse, err))
		for i, w := range r.logs {
			if s.conf {
				break
			}
			l := raft.Log{}
			e.OnStore = func(kind string) error { return core.If(kind == refuse, err, nil) }
			g := r.s.GetLog(i, &l)
			e.OnStore = nil
			if g == raft.ErrLogNotFound || (g == nil && sameLog(&l, w) != "") {
				fail = &sFail{"read-refused", fmt.Sprintf("GetLog(%d) of a stored entry answers %v when the storage cannot read it", i, g)}
				return
			}
		}
		for _, k := range r.keys {
			if !r.conf[k].some || !s.conf {
				continue
			}
			e.OnStore = func(kind string) error { return core.If(kind == refuse, err, nil) }
			v, g := r.s.Get([]byte(k))
			u, g2 := uint64(0), error(nil)
			if r.conf[k].isU {
				u, g2 = r.s.GetUint64([]byte(k))
			}
			e.OnStore = nil
			if g == nil && !r.conf[k].isU && string(v) != r.conf[k].b || g2 == nil && r.conf[k].isU && u != r.conf[k].u || g != nil && g.Error() == "not found" || g2 != nil && g2.Error() == "not found" {
				fail = &sFail{"read-refused", fmt.Sprintf("Get(%q) of a key that is set answers %q, %v, GetUint64 %d, %v when the storage cannot read it", k, v, g, u, g2)}
				return
			}
		}
	})
	if f != nil {
		fail = &sFail{f.Kind, f.Kind + ": " + f.Msg}
	}
	return fail, r.log
}

func (r *storeRun) plantForeign() {
	r.extra = foreign
	r.db.Update(func(txn *badger.Txn) error {
		for k, v := range foreign {
			if err := txn.Set([]byte(k), []byte(v)); err != nil {
				return err
			}
		}
		return nil
	})
}

func refusedItem(s *storeScn) core.Item {
	name := fmt.Sprintf("storage refuses during %s after %v", s.op, s.pre)
	return core.Item{Name: short(name), Run: func(r *core.ItemRun) {
		for _, err := range []error{errFault, badger.ErrDBClosed} {
			for _, kind := range []string{"view", "get", "value"} {
				f, log := s.readRefused(kind, err)
				r.Ran()
				if f != nil {
					r.Report(f.sig, f.what, short(name), log, nil, func() bool { g, _ := s.readRefused(kind, err); return g != nil })
					return
				}
			}
		}
		for n := 1; ; n++ {
			any := false
			for _, err := range refusals {
				for _, forever := range []bool{false, true} {
					for _, reopen := range []bool{false, true} {
						f, hit, log := s.refused(n, err, forever, reopen)
						r.Ran()
						r.Count("states", 1)
						r.Count("transitions", 1)
						any = any || hit
						if f != nil {
							r.Report(f.sig, f.what, short(name), log, nil, func() bool { g, _, _ := s.refused(n, err, forever, reopen); return g != nil && g.sig == f.sig })
							return
						}
					}
				}
				if r.OutOfTime() {
					r.Capped("time budget reached")
					return
				}
			}
			if !any {
				r.Count("fault_points", int64(n-1))
				return
			}
		}
	}}
}

func span(a, n uint64) (is []uint64) {
	for k := uint64(0); k < n; k++ {
		is = append(is, a+k)
	}
	return
}

func logFaultItems(th bool) []core.Item {
	var its []core.Item
	pre := []sOp{{K: "setu", Key: "CurrentTerm", N: 7}, {K: "batch", Idx: []uint64{1, 2, 3}, V: 0}}
	ops := []sOp{{K: "log", Idx: []uint64{4}, V: 1}, {K: "log", Idx: []uint64{2}, V: 2}, {K: "batch", Idx: []uint64{3, 4, 5}, V: 1}, {K: "del", A: 1, B: 2}, {K: "del", A: 2, B: 9}}
	for _, o := range ops {
		its = append(its, refusedItem(&storeScn{pre: pre, op: o, keys: []string{"CurrentTerm", "never"}, idx: span(0, 8)}))
	}
	big := []sOp{{K: "batch", Idx: span(1, 205), V: 0}}
	all := span(0, 208)
	its = append(its, refusedItem(&storeScn{pre: pre, op: sOp{K: "batch", Idx: span(2, core.If[uint64](th, 40, 12)), V: 1}, keys: []string{"CurrentTerm"}, idx: span(0, 44)}))
	if th {
		its = append(its, refusedItem(&storeScn{pre: big, op: sOp{K: "del", A: 1, B: 203}, keys: []string{"never"}, idx: all}))
	} else {
		its = append(its, refusedFew(&storeScn{pre: big, op: sOp{K: "del", A: 1, B: 203}, keys: []string{"never"}, idx: all}))
	}
	return its
}

// refusedFew: as refusedItem, for an operation of many steps: around every commit, and every
// tenth step.
func refusedFew(s *storeScn) core.Item {
	name := fmt.Sprintf("storage refuses during %s after %v", s.op, s.pre)
	return core.Item{Name: short(name), Run: func(r *core.ItemRun) {
		for _, n := range []int{1, 2, 50, 99, 100, 101, 102, 103, 150, 201, 202, 203, 204, 205, 206, 207, 208} {
			for k, err := range refusals[:2] {
				f, _, log := s.refused(n, err, k == 1, n%2 == 0)
				r.Ran()
				r.Count("states", 1)
				r.Count("transitions", 1)
				if f != nil {
					r.Report(f.sig, f.what, short(name), log, nil, func() bool { g, _, _ := s.refused(n, err, k == 1, n%2 == 0); return g != nil && g.sig == f.sig })
					return
				}
			}
		}
	}}
}

func confFaultItems(th bool) []core.Item {
	var its []core.Item
	pre := []sOp{{K: "set", Key: "a", Val: "old"}, {K: "setu", Key: "CurrentTerm", N: 7}, {K: "log", Idx: []uint64{1}, V: 0}}
	for _, o := range []sOp{{K: "set", Key: "a", Val: "new"}, {K: "set", Key: "a", Val: ""}, {K: "set", Key: "b", Val: "x"}, {K: "setu", Key: "CurrentTerm", N: 8}, {K: "setu", Key: "LastVoteTerm", N: math.MaxUint64}} {
		its = append(its, refusedItem(&storeScn{pre: pre, op: o, keys: []string{"a", "b", "CurrentTerm", "LastVoteTerm", "never"}, idx: span(0, 3), conf: true}))
	}
	return its
}

// ---- concurrency

// storeConc: a writer thread and reader threads; a reader may see each index and key as before
// or as after any operation that ran during the read.
type storeConc struct {
	name    string
	pre     []sOp
	writers [][]sOp // threads; no two write the same index or key
	reads   []string
	keys    []string
	idx     []uint64
	coarse  bool // storage operations only are scheduling points
}

func (s *storeConc) run(p *explore.Path) (fail *sFail, log, trace []string) {
	db := qsys.GetDB()
	defer qsys.PutDB(db)
	e := &sched.Exec{MaxSteps: 100000, Trace: p != nil && p.Record}
	races := sched.RaceErrors()
	r := &storeRun{db: db, logs: map[uint64]*raft.Log{}, conf: map[string]cval{}, keys: s.keys, probe: s.idx}
	f := e.Run(func() {
		r.open()
		for _, o := range s.pre {
			if fail = r.step(o); fail != nil {
				return
			}
		}
		// states: what may hold while the operations up to "started" are under way and those
		// up to "completed" are over
		logs := map[uint64][]*raft.Log{} // index: the entries it may hold, in order
		conf := map[string][]cval{}
		for _, i := range s.idx {
			logs[i] = []*raft.Log{r.logs[i]}
		}
		for _, k := range s.keys {
			conf[k] = []cval{r.conf[k]}
		}
		note := func(cp *storeRun, settle bool) {
			for _, i := range s.idx {
				l := logs[i]
				if settle {
					logs[i] = l[len(l)-1:]
				} else if w := cp.logs[i]; w != l[len(l)-1] {
					logs[i] = append(append([]*raft.Log{}, l...), w)
				}
			}
			for _, k := range s.keys {
				l := conf[k]
				if settle {
					conf[k] = l[len(l)-1:]
				} else if w := cp.conf[k]; w != l[len(l)-1] {
					conf[k] = append(append([]cval{}, l...), w)
				}
			}
		}
		open := 0
		begin := func() { open++ }
		end := func() {
			if open--; open == 0 {
				note(r, true)
			}
		}
		e.StmtPoints = !s.coarse
		if p != nil {
			e.Chooser = p
		}
		var ts []*sched.Thread
		bad := func(sig, f string, a ...any) {
			if fail == nil {
				fail = &sFail{sig, fmt.Sprintf(f, a...)}
			}
		}
		for n, ops := range s.writers {
			ops := ops
			ts = append(ts, sched.GoNamed(fmt.Sprint("writer ", n+1), func() {
				for _, o := range ops {
					begin()
					m := &storeRun{logs: map[uint64]*raft.Log{}, conf: map[string]cval{}, s: r.s}
					for i := range logs {
						if w := logs[i][len(logs[i])-1]; w != nil {
							m.logs[i] = w
						}
					}
					for k := range conf {
						m.conf[k] = conf[k][len(conf[k])-1]
					}
					// what it will be is possible from here on
					t := &storeRun{logs: copyOf(m.logs), conf: copyOf(m.conf)}
					t.model(o)
					note(t, false)
					if f := m.step(o); f != nil {
						bad(f.sig, "%s", f.what)
					}
					end()
				}
			}))
		}
		for n, rd := range s.reads {
			rd := rd
			ts = append(ts, sched.GoNamed(fmt.Sprint("reader ", n+1), func() {
				begin()
				defer end()
				var i uint64
				var k string
				switch {
				case sscan(rd, "log %d", &i):
					var l raft.Log
					err := r.s.GetLog(i, &l)
					for _, w := range logs[i] {
						if w == nil && err == raft.ErrLogNotFound || w != nil && err == nil && sameLog(&l, w) == "" {
							return
						}
					}
					bad("conc-log", "a concurrent GetLog(%d) answers %v, index %d, %d bytes of data, which was never stored there meanwhile", i, err, l.Index, len(l.Data))
				case sscan(rd, "get %s", &k):
					g, err := r.s.Get([]byte(k))
					for _, w := range conf[k] {
						if !w.some && err != nil && err.Error() == "not found" || w.some && !w.isU && err == nil && string(g) == w.b {
							return
						}
					}
					bad("conc-get", "a concurrent Get(%q) answers %q, %v, which was never set meanwhile", k, g, err)
				case sscan(rd, "getu %s", &k):
					g, err := r.s.GetUint64([]byte(k))
					for _, w := range conf[k] {
						if !w.some && err != nil && err.Error() == "not found" || w.isU && err == nil && g == w.u {
							return
						}
					}
					bad("conc-getu", "a concurrent GetUint64(%q) answers %d, %v, which was never set meanwhile", k, g, err)
				case rd == "first" || rd == "last":
					var g uint64
					var err error
					if rd == "first" {
						g, err = r.s.FirstIndex()
					} else {
						g, err = r.s.LastIndex()
					}
					// entries that were there throughout bound the answer
					may, empty := false, true
					var lo, hi uint64
					for _, i := range s.idx {
						always := true
						for _, w := range logs[i] {
							if w == nil {
								always = false
							} else if i == g {
								may = true
							}
						}
						if always {
							if empty || i < lo {
								lo = i
							}
							if empty || i > hi {
								hi = i
							}
							empty = false
						}
					}
					if err == nil && (g == 0 && empty || may && (empty || rd == "first" && g <= lo || rd == "last" && g >= hi)) {
						return
					}
					bad("conc-"+rd, "a concurrent %sIndex answers %d, %v; entries %d to %d are there all the time", core.If(rd == "first", "First", "Last"), g, err, lo, hi)
				default:
					panic("harness: " + rd)
				}
			}))
		}
		sched.Join(ts...)
		e.Chooser, e.StmtPoints = nil, false
		if fail != nil {
			return
		}
		for i, l := range logs {
			if w := l[len(l)-1]; w != nil {
				r.logs[i] = w
			} else {
				delete(r.logs, i)
			}
		}
		for k, l := range conf {
			r.conf[k] = l[len(l)-1]
		}
		fail = r.check()
	})
	if f != nil {
		fail = &sFail{f.Kind, f.Kind + ": " + f.Msg}
	}
	if n := sched.RaceErrors(); n > races && fail == nil {
		fail = &sFail{"data-race", "unsynchronised access: " + raceReport()}
	}
	return fail, r.log, e.TraceLog
}

func copyOf[K comparable, V any](m map[K]V) map[K]V {
	c := map[K]V{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func sscan(s, f string, p any) bool { n, err := fmt.Sscanf(s, f, p); return n == 1 && err == nil }

// model applies the operation to the model only.
func (r *storeRun) model(o sOp) {
	switch o.K {
	case "log":
		r.logs[o.Idx[0]] = logOf(o.Idx[0], o.V)
	case "batch":
		for k, i := range o.Idx {
			r.logs[i] = logOf(i, o.V+k%2)
		}
	case "del":
		for i := range r.logs {
			if i >= o.A && i <= o.B {
				delete(r.logs, i)
			}
		}
	case "set":
		r.conf[o.Key] = cval{b: o.Val, some: true}
	case "setu":
		r.conf[o.Key] = cval{isU: true, u: o.N, some: true}
	}
}

func (s *storeConc) item(bound, free int) core.Item {
	return core.Item{Name: s.name, Run: func(r *core.ItemRun) {
		roots := r.Prefixes
		if roots == nil {
			roots = [][]int{nil}
		}
		for i, root := range roots {
			x := &explore.Explorer{Bound: bound, Free: free, MaxRuns: 4000, Stop: r.Enough}
			bad := false
			rest, err := x.Run(root, func(p *explore.Path) bool {
				f, log, _ := s.run(p)
				r.Ran()
				r.Count("schedules", 1)
				r.Count("transitions", int64(len(p.Picks())))
				if f == nil {
					return true
				}
				bad = true
				pk := p.Picks()
				q := explore.NewPath(pk)
				q.Record = true
				_, _, trace := s.run(q)
				r.Report(f.sig, f.what, s.name, append(log, explore.Switches(trace)...), pk, func() bool {
					g, _, _ := s.run(explore.NewPath(pk))
					return g != nil && g.sig == f.sig
				})
				return false
			})
			if err != nil {
				panic("harness: " + s.name + ": " + err.Error())
			}
			if bad {
				return
			}
			r.Rest(rest)
			if r.Enough() {
				r.Rest(roots[i+1:])
				return
			}
		}
	}}
}

func logConcItems(th bool) []core.Item {
	var its []core.Item
	pre := []sOp{{K: "batch", Idx: []uint64{1, 2, 3}, V: 0}}
	ix := span(1, 5)
	add := func(pre []sOp, ws [][]sOp, idx []uint64, reads ...string) {
		s := &storeConc{name: fmt.Sprintf("%v beside %v", ws, reads), pre: pre, writers: ws, reads: reads, idx: idx, coarse: len(idx) > 20}
		its = append(its, s.item(core.If(th, 3, core.If(len(ws)+len(reads) > 2, 1, 2)), core.If(th, 3, 2)))
	}
	store := sOp{K: "batch", Idx: []uint64{4, 5}, V: 1}
	over := sOp{K: "batch", Idx: []uint64{2, 3}, V: 2}
	tail := sOp{K: "del", A: 2, B: 3}
	head := sOp{K: "del", A: 1, B: 2}
	all := sOp{K: "del", A: 1, B: 3}
	for _, w := range []sOp{store, over, tail, head, all} {
		for _, rd := range [][]string{{"first"}, {"last"}, {"log 2"}, {"log 4"}} {
			add(pre, [][]sOp{{w}}, ix, rd...)
		}
	}
	add(pre, [][]sOp{{tail, over}}, ix, "last")
	add(pre, [][]sOp{{tail, over}}, ix, "log 3")
	add(pre, [][]sOp{{head, store}}, ix, "first", "log 4")
	add(pre, [][]sOp{{store, {K: "del", A: 4, B: 5}}}, ix, "last")
	add(pre, [][]sOp{{{K: "log", Idx: []uint64{4}, V: 1}}, {{K: "log", Idx: []uint64{2}, V: 2}}}, ix, "log 4")
	add(pre, [][]sOp{{head}, {store}}, ix, "log 3") // compaction beside appending
	add(nil, [][]sOp{{store}}, ix, "first", "last")
	add([]sOp{{K: "batch", Idx: span(1, 102), V: 0}}, [][]sOp{{{K: "del", A: 1, B: 101}}}, span(1, 103), "first")
	return its
}

func confConcItems(th bool) []core.Item {
	var its []core.Item
	pre := []sOp{{K: "set", Key: "a", Val: "one"}, {K: "setu", Key: "CurrentTerm", N: 7}, {K: "log", Idx: []uint64{1}, V: 0}}
	keys := []string{"a", "b", "CurrentTerm", "LastVoteTerm", "z"}
	add := func(ws [][]sOp, reads ...string) {
		s := &storeConc{name: fmt.Sprintf("%v beside %v", ws, reads), pre: pre, writers: ws, reads: reads, keys: keys, idx: span(0, 4)}
		its = append(its, s.item(core.If(th, 3, core.If(len(ws)+len(reads) > 2, 1, 2)), core.If(th, 3, 2)))
	}
	set := func(k, v string) sOp { return sOp{K: "set", Key: k, Val: v} }
	setu := func(k string, n uint64) sOp { return sOp{K: "setu", Key: k, N: n} }
	add([][]sOp{{set("a", "two")}}, "get a")
	add([][]sOp{{set("b", "two")}}, "get a")
	add([][]sOp{{set("b", "two")}, {set("a", "three")}}, "get z")
	add([][]sOp{{set("b", "two"), set("b", "")}}, "get b")
	add([][]sOp{{setu("CurrentTerm", 8)}}, "getu CurrentTerm")
	add([][]sOp{{setu("CurrentTerm", 1<<60), setu("LastVoteTerm", 1<<60)}}, "getu LastVoteTerm", "getu CurrentTerm")
	add([][]sOp{{setu("CurrentTerm", 8)}, {setu("LastVoteTerm", 9)}}, "get a")
	add([][]sOp{{setu("CurrentTerm", 8)}}, "log 1")
	add([][]sOp{{setu("CurrentTerm", 8)}, {{K: "batch", Idx: []uint64{2, 3}, V: 1}}}, "log 1")
	add([][]sOp{{{K: "log", Idx: []uint64{2}, V: 1}}}, "get a", "getu CurrentTerm")
	return its
}
