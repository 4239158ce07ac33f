package main

import (
	"fmt"

	"vmc/core"
	"vmc/explore"
	"vmc/qsys"
	"vmc/rsys"
	"vmc/sched"
)

// C28: what still runs after a history is what runs in a fresh node that has the same
// queues, and nothing more.

var leftP = qsys.Params{AckTimeout: 3, Interval: 1, Window: 1, Prometheus: true}

// running counts the threads and timers once everything has settled.
func running(e *sched.Exec) (int, int) {
	qsys.SleepMs(e, 3100)
	return len(e.AliveThreads()), len(e.PendingTimers())
}

var perQueueCache = map[string][4]int{}

// perQueue says what an empty node runs, and how much more one queue of the type adds.
func perQueue(typ string) [4]int {
	if r, ok := perQueueCache[typ]; ok {
		return r
	}
	db := qsys.GetDB()
	defer qsys.PutDB(db)
	var r [4]int
	e := &sched.Exec{}
	e.Run(func() {
		w := qsys.NewWorld(e, db, leftP)
		r[0], r[1] = running(e)
		w.Create(typ, "q")
		t, m := running(e)
		r[2], r[3] = t-r[0], m-r[1]
	})
	perQueueCache[typ] = r
	return r
}

type leftRun struct {
	r      *qsys.Run
	e      *sched.Exec
	loaded map[string]bool
	fresh  bool // just restarted
}

// skip: a queue is listed into memory only at start, and the creation of a queue that exists
// but is not in memory is a known finding of C11.
func (l *leftRun) skip(o qsys.Op) bool {
	q := l.r.M.Queues[o.Q]
	return o.K == "list" && !l.fresh || o.K == "create" && q != nil && q.Exists && !l.loaded[o.Q]
}

func (l *leftRun) step(o qsys.Op) *qsys.Div {
	if l.skip(o) {
		return nil
	}
	l.fresh = o.K == "restart"
	switch o.K {
	case "restart":
		l.loaded = map[string]bool{}
	case "adv":
	case "list":
		for n, q := range l.r.M.Queues {
			if q.Exists {
				l.loaded[n] = true
			}
		}
	default:
		l.loaded[o.Q] = true
	}
	return l.r.Step(o)
}

func (l *leftRun) check(when string) *fail {
	t, m := running(l.e)
	b := perQueue("delayed")
	wt, wm := b[0], b[1]
	qs := ""
	for n := range l.loaded {
		if q := l.r.M.Queues[n]; q != nil && q.Exists {
			p := perQueue(q.Type)
			wt, wm = wt+p[2], wm+p[3]
			qs += " " + n + "(" + q.Type + ")"
		}
	}
	if t != wt || m != wm {
		return &fail{Sig: "left-running", What: fmt.Sprintf("%s, with the queues%s in use, %d threads and %d timers are alive; a fresh node with them has %d and %d: %v %v", when, qs, t, m, wt, wm, l.e.AliveThreads(), l.e.PendingTimers()), Log: l.r.Log}
	}
	return nil
}

// finish checks, drains (what is left of a deleted queue never touches a new one), deletes
// all queues and checks again.
func (l *leftRun) finish() *fail {
	if f := l.check("after the history"); f != nil {
		return f
	}
	l.r.M.Advance(l.r.W.Now())
	if d := l.r.Drain(); d != nil {
		return &fail{Sig: d.Sig, What: d.What, Log: l.r.Log}
	}
	for n := range l.r.M.Queues {
		l.loaded[n] = true
	}
	if f := l.check("after the drain"); f != nil {
		return f
	}
	for _, n := range qsys.SortedKeys(l.r.M.Queues) {
		if d := l.step(qsys.Op{K: "delete", Q: n}); d != nil {
			return &fail{Sig: d.Sig, What: d.What, Log: l.r.Log}
		}
	}
	return l.check("after the deletion of all queues")
}

func leftItem(name string, queues []string, types []string, ops []qsys.Op, depth int) core.Item {
	return core.Item{Name: name, Run: func(ir *core.ItemRun) {
		perQueue("delayed")
		perQueue("fair")
		rsys.Enumerate(ir, func(ch *rsys.Choices) (out *fail) {
			db := qsys.GetDB()
			defer qsys.PutDB(db)
			e := &sched.Exec{}
			f := e.Run(func() {
				u := &qsys.Universe{Name: name, P: leftP, Queues: queues, Types: types}
				l := &leftRun{e: e, loaded: map[string]bool{}}
				l.r = u.NewRun(e, qsys.NewWorld(e, db, leftP))
				for i := 0; i < depth; i++ {
					o := ops[ch.Pick(len(ops))]
					if d := l.step(o); d != nil {
						out = &fail{Sig: d.Sig, What: d.What, Log: l.r.Log}
						return
					}
				}
				out = l.finish()
			})
			if f != nil {
				out = &fail{Sig: f.Kind, What: f.Kind + ": " + f.Msg}
			}
			return out
		})
	}}
}

var errRefused = fmt.Errorf("refused by the checker")

// leftRefused: the last command meets a storage that refuses its step k (or all from k on).
// A command that failed for that leaves nothing running.
func leftRefused(name string, queues []string, types []string, ops []qsys.Op, depth int) core.Item {
	return core.Item{Name: name, Run: func(ir *core.ItemRun) {
		perQueue("delayed")
		perQueue("fair")
		rsys.Enumerate(ir, func(ch *rsys.Choices) (out *fail) {
			db := qsys.GetDB()
			defer qsys.PutDB(db)
			e := &sched.Exec{}
			f := e.Run(func() {
				u := &qsys.Universe{Name: name, P: leftP, Queues: queues, Types: types}
				l := &leftRun{e: e, loaded: map[string]bool{}}
				l.r = u.NewRun(e, qsys.NewWorld(e, db, leftP))
				give := func(d *qsys.Div) { out = &fail{Sig: d.Sig, What: d.What, Log: l.r.Log} }
				for i := 0; i < depth; i++ {
					if d := l.step(ops[ch.Pick(len(ops))]); d != nil {
						give(d)
						return
					}
				}
				o := ops[ch.Pick(len(ops))]
				if o.K == "adv" || o.K == "restart" || l.skip(o) {
					return
				}
				at, later, n, hit := ch.Pick(6), ch.Pick(2) == 1, 0, false
				e.OnStore = func(string) error {
					if n++; n-1 == at || later && n > at {
						hit = true
						return errRefused
					}
					return nil
				}
				sent := append([]uint64{}, l.r.Sent[o.Q]...)
				a := l.r.Issue(o)
				l.r.Log = append(l.r.Log, fmt.Sprintf("%s, storage refuses step %d%s -> %s", o, at, core.If(later, " and all later ones", ""), a.Resp))
				if !a.Resp.OK {
					l.r.Sent[o.Q] = sent
				} else if d := l.r.Judge(o, a); d != nil {
					give(d)
					return
				} else {
					l.loaded[o.Q] = true
				}
				e.OnStore = nil
				if !hit {
					return
				}
				// whether a queue has been loaded by a refused command is not known; use it
				for _, n := range qsys.SortedKeys(l.r.M.Queues) {
					if !l.r.M.Queues[n].Exists {
						continue
					}
					if d := l.step(qsys.Op{K: "deq", Q: n}); d != nil {
						give(d)
						return
					}
				}
				out = l.finish()
			})
			if f != nil {
				out = &fail{Sig: f.Kind, What: f.Kind + ": " + f.Msg}
			}
			return out
		})
	}}
}

// leftSched: the same for short scripts under every schedule at the instant the background
// threads tick.
func leftSched(name string, typ string, setup, script []qsys.Op, bound, free int) core.Item {
	return core.Item{Name: name, Run: func(ir *core.ItemRun) {
		perQueue("delayed")
		perQueue("fair")
		one := func(p *explore.Path) (out *fail) {
			db := qsys.GetDB()
			defer qsys.PutDB(db)
			e := &sched.Exec{MaxSteps: 60000}
			f := e.Run(func() {
				u := &qsys.Universe{Name: name, P: leftP, Queues: []string{"q"}}
				l := &leftRun{e: e, loaded: map[string]bool{}}
				l.r = u.NewRun(e, qsys.NewWorld(e, db, leftP))
				for _, o := range setup {
					if d := l.step(o); d != nil {
						out = &fail{Sig: d.Sig, What: d.What, Log: l.r.Log}
						return
					}
				}
				e.Chooser = p
				for _, o := range script {
					if d := l.step(o); d != nil {
						out = &fail{Sig: d.Sig, What: d.What, Log: l.r.Log}
						return
					}
				}
				e.Chooser = nil
				out = l.finish()
			})
			if f != nil {
				out = &fail{Sig: f.Kind, What: f.Kind + ": " + f.Msg}
			}
			return out
		}
		roots := ir.Prefixes
		if roots == nil {
			roots = [][]int{nil}
		}
		for i, root := range roots {
			x := &explore.Explorer{Bound: bound, Free: free, MaxRuns: 3000, Stop: ir.Enough}
			stop := false
			rest, err := x.Run(root, func(p *explore.Path) bool {
				f := one(p)
				ir.Ran()
				ir.Count("schedules", 1)
				ir.Count("states", int64(len(p.Picks())))
				ir.Count("transitions", int64(len(p.Picks())))
				if f == nil {
					return true
				}
				stop = true
				pk := p.Picks()
				ir.Report(f.Sig, f.What, name, f.Log, pk, func() bool {
					f2 := one(explore.NewPath(pk))
					return f2 != nil && f2.Sig == f.Sig
				})
				return false
			})
			if err != nil {
				panic("harness: " + name + ": " + err.Error())
			}
			if stop {
				return
			}
			ir.Rest(rest)
			if ir.Enough() {
				ir.Rest(roots[i+1:])
				return
			}
		}
	}}
}

func init() {
	core.RegisterItems("C28", func(th bool) []core.Item {
		P := qsys.P
		op := func(k, q string) qsys.Op { return qsys.Op{K: k, Q: q, M: 0} }
		enq := func(q string) qsys.Op { return qsys.Op{K: "enq", Q: q, G: "a", P: P(1)} }
		mk := func(t, q string) qsys.Op { return qsys.Op{K: "create", Q: q, T: t} }
		adv := qsys.Op{K: "adv", D: 1000}
		restart := qsys.Op{K: "restart"}
		var its []core.Item
		for _, t := range []string{"delayed", "fair"} {
			o := core.If(t == "delayed", "fair", "delayed")
			its = append(its,
				leftItem(t+", one queue", []string{"q"}, []string{t}, []qsys.Op{mk(t, "q"), op("delete", "q"), enq("q"), op("deq", "q"), adv, restart}, core.If(th, 6, 5)),
				leftItem(t+", queue of another type", []string{"q"}, []string{t, o}, []qsys.Op{mk(t, "q"), mk(o, "q"), op("delete", "q"), enq("q"), op("deq", "q")}, core.If(th, 6, 4)),
				leftItem(t+", two queues and listing", []string{"q", "r"}, []string{t}, []qsys.Op{mk(t, "q"), op("delete", "q"), mk(t, "r"), op("delete", "r"), op("deqa", "q"), restart, {K: "list"}}, core.If(th, 5, 4)),
				leftItem(t+", commands without a queue", []string{"q", "r"}, []string{t}, []qsys.Op{op("deq", "r"), op("ack", "q"), op("nack", "q"), {K: "upd", Q: "q", M: 0, P: P(1)}, enq("q"), op("delete", "q"), mk(t, "r")}, core.If(th, 5, 4)),
			)
			its = append(its,
				leftRefused(t+", a command that the storage refuses", []string{"q"}, []string{t}, []qsys.Op{mk(t, "q"), op("delete", "q"), enq("q"), op("deq", "q"), op("nack", "q"), {K: "upd", Q: "q", M: 0, P: P(1)}, restart, {K: "list"}}, core.If(th, 4, 3)))
			setup := []qsys.Op{mk(t, "q"), enq("q"), op("deq", "q"), {K: "adv", D: 4000}}
			for n, sc := range map[string][]qsys.Op{
				"delete":                {op("delete", "q")},
				"delete create":         {op("delete", "q"), mk(t, "q"), enq("q")},
				"delete create delete":  {op("delete", "q"), mk(t, "q"), op("delete", "q")},
				"restart use delete":    {restart, op("deq", "q"), op("delete", "q")},
				"delete use":            {op("delete", "q"), op("deq", "q"), enq("q")},
				"delete, pause, create": {op("delete", "q"), adv, mk(t, "q"), enq("q"), op("deq", "q"), adv, adv},
			} {
				for _, d := range core.If(th, []int64{3000, 3999, 4000}, []int64{3000, 4000}) {
					s := append([]qsys.Op{}, setup...)
					s[3].D = d
					its = append(its, leftSched(fmt.Sprintf("%s %s after %d ms, every schedule", t, n, d), t, s, sc, core.If(th, 2, 1), core.If(th, 2, 1)))
				}
			}
		}
		for i := range its { // deterministic order
			for j := i; j > 0 && its[j].Name < its[j-1].Name; j-- {
				its[j], its[j-1] = its[j-1], its[j]
			}
		}
		return its
	})
	checks["C28"] = func(c *core.Ctx, pool *core.Pool) {
		core.RunItems(c, pool)
		if !c.HasViolations() {
			core.RunItemsOf(c, pool, "C28streams")
		}
	}
}
