package main

import (
	"bytes"
	"fmt"
	"strings"

	"vmc/core"
	"vmc/qsys"
	"vmc/sched"
)

// C12: the same log is applied by replicas that differ in what the log does not fix; every
// answer and the final contents must agree.
// C13: every history is interrupted at every point (between commands and inside them), the
// node restarts over its own storage and applies its log again.

// ---- C12

type variant struct {
	name     string
	startMs  int64
	mapOrder int
	status   bool
	reload   bool
	nolist   bool
	shifted  bool // the same log at the same intervals, at another date
}

var malformed = []string{"", "null", `{"op":"enqueue"}`, `{"op":"x","payload":{}}`, `{"op":"ack","payload":{"id":"1"}}`, `{"op":"dequeue","payload":{"queue_name":"q"`}

// replica plays the ops on one replica and returns every answer.
func replica(u *U, ops []qsys.Op, v variant) (log []string, groups []string, f *sched.Failure, reloads int) {
	db := qsys.GetDB()
	defer qsys.PutDB(db)
	e := &sched.Exec{MaxSteps: 400000, MapOrder: v.mapOrder}
	f = e.Run(func() {
		qsys.SleepMs(e, v.startMs)
		w := qsys.NewWorld(e, db, u.P)
		r := u.NewRun(e, w)
		note := func(s string) { log = append(log, s) }
		step := func(o qsys.Op) {
			if v.status {
				w.QM.GetQueues()
				for q := range r.M.Queues {
					if x, err := w.QM.GetQueue(q); err == nil {
						x.GetStats()
					}
				}
			}
			if v.reload && quiet(r.M) && !(o.K == "create" && r.M.Q(o.Q).Exists) {
				w.Restart()
				r.M.Reload()
				reloads++
			}
			a := r.Issue(o)
			r.Judge(o, a)
			if isCommand(o) {
				note(o.String() + " -> " + a.Resp.String())
				if a.Resp.OK && (o.K == "deq" || o.K == "deqa") {
					groups = append(groups, fmt.Sprintf("%s/%s: %d %s", o.Q, a.Resp.Group, a.Resp.ID, a.Resp.Content))
				}
			}
		}
		for _, o := range u.Init {
			step(o)
		}
		for _, o := range ops {
			step(o)
		}
		for _, b := range malformed {
			note(fmt.Sprintf("malformed %q -> %s", b, w.ApplyRaw([]byte(b))))
		}
		if !v.nolist { // a queue that is not loaded is not listed
			for _, in := range w.QM.GetQueues() {
				note(fmt.Sprintf("%q %s ready=%d unacked=%d total=%d", in.Name, in.Type, in.Ready, in.Unacked, in.Total))
			}
		}
		n := 1
		for _, s := range r.Sent {
			n += len(s)
		}
		for pass := 0; pass < 2; pass++ {
			for _, q := range u.Queues {
				for i := 0; i < n; i++ {
					step(qsys.Op{K: "deqa", Q: q})
				}
			}
			w.Sleep(40000)
			r.M.Advance(w.Now())
		}
	})
	return
}

// quiet: no message is held or may be.
func quiet(m *qsys.Model) bool {
	for _, q := range m.Queues {
		for _, x := range q.Msgs {
			if x.Unacked {
				return false
			}
		}
	}
	return true
}

var variants = []variant{
	{name: "applied at the start of the second", startMs: 0},
	{name: "applied at the end of the second", startMs: 999},
	{name: "other iteration order", startMs: 500, mapOrder: 1},
	{name: "status reads in between", startMs: 500, status: true},
	{name: "queues loaded from storage", startMs: 500, reload: true, nolist: true},
	{name: "all at once", startMs: 1, mapOrder: 1, status: true},
	{name: "applied a day later", startMs: 500 + 86400000, shifted: true},
}

func firstDiff(a, b []string) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			o := "nothing"
			if i < len(b) {
				o = b[i]
			}
			return fmt.Sprintf("step %d: %s / %s", i+1, a[i], o)
		}
	}
	return fmt.Sprintf("%d steps / %d steps", len(a), len(b))
}

func sortedCopy(s []string) string {
	c := append([]string{}, s...)
	// per group the order matters, between groups it does not
	m := map[string][]string{}
	for _, x := range c {
		g, _, _ := strings.Cut(x, ": ")
		m[g] = append(m[g], x)
	}
	return fmt.Sprint(m)
}

func replicaCompare(u *U, ops []qsys.Op, v variant) *qsys.Outcome {
	fair := len(u.Groups) > 1
	if v.reload && fair {
		// whose turn it is in a fair queue is not stored (known finding, with a scenario of
		// its own), so what follows the first delivery may differ after a reload
		for i, o := range ops {
			if o.K == "deq" || o.K == "deqa" {
				ops = ops[:i]
				break
			}
		}
	}
	a, ga, fa, _ := replica(u, ops, variant{startMs: 500, nolist: v.nolist})
	b, gb, fb, _ := replica(u, ops, v)
	mk := func(sig, what string) *qsys.Outcome {
		return &qsys.Outcome{Div: &qsys.Div{Props: []string{"C12"}, Sig: sig, What: what}, Log: append(append([]string{}, a...), append([]string{"-- " + v.name + " --"}, b...)...), Ops: ops}
	}
	if fa != nil || fb != nil {
		if fa != nil && fb != nil {
			return nil
		}
		return mk("replica-stopped", fmt.Sprintf("one replica stopped: %v %v", fa, fb))
	}
	if strings.Join(a, "\n") == strings.Join(b, "\n") {
		return nil
	}
	if v.reload && fair {
		if sortedCopy(ga) == sortedCopy(gb) {
			return nil
		}
	}
	return mk("replicas-differ", "two replicas answer differently ("+v.name+"): "+firstDiff(a, b))
}

func replicExtra(x *qsys.Extra) {
	// the ops of the history
	var ops []qsys.Op
	x.U.Exec(x.Prop, nil, func(r *qsys.Run) *qsys.Div {
		for _, k := range x.Hist {
			o := r.Alphabet()[k]
			ops = append(ops, o)
			if d := r.Step(o); d != nil {
				return nil
			}
		}
		return nil
	})
	for _, v := range variants {
		if v.shifted && scheduled(x.U) {
			continue // the log itself names times
		}
		x.Runs += 2
		x.Count("replica_pairs", 1)
		if o := replicaCompare(x.U, ops, v); o != nil {
			x.Report(*o, func() qsys.Outcome {
				if p := replicaCompare(x.U, ops, v); p != nil {
					return *p
				}
				return qsys.Outcome{}
			})
			return
		}
	}
}

func scheduled(u *U) bool {
	for _, p := range append(append([]qsys.Prio{}, u.Prios...), u.Upds...) {
		if p != P(p.V) {
			return true
		}
	}
	return false
}

func replicUniv(th bool) []*U {
	d := func(q, t int) int { return core.If(th, t, q) }
	one := []string{"q"}
	def := []string{"default"}
	us := []*U{
		{Name: "C12.delayed", P: calm, StartMs: 500, Queues: one, Groups: def, Prios: []qsys.Prio{P(1), At(7)}, Upds: []qsys.Prio{P(0)},
			Advs: []int64{5000}, Kinds: all, MaxMsgs: 2, Unknown: true, Depth: d(6, 9), Init: []qsys.Op{create("delayed", "q")}},
		{Name: "C12.fair", P: calm, StartMs: 500, Queues: one, Groups: []string{"a", "b", "c"}, Prios: []qsys.Prio{P(1)}, Upds: []qsys.Prio{P(0)},
			Advs: []int64{15000}, Kinds: "enq deq deqa nack upd adv", MaxMsgs: 4, Depth: d(5, 7), Init: []qsys.Op{create("fair", "q")}},
		{Name: "C12.queues", P: calm, StartMs: 500, Queues: []string{"q", "r"}, Types: []string{"delayed", "fair"}, Groups: []string{"a", "default"}, Prios: []qsys.Prio{P(1)},
			Kinds: "create delete enq deqa", MaxMsgs: 2, Depth: d(5, 7)},
		{Name: "C12.values", P: calm, StartMs: 500, Queues: one, Groups: []string{"", "b"}, Prios: []qsys.Prio{P(-1 << 63), P(-1), P(0), P(1<<63 - 1)}, Upds: []qsys.Prio{P(-2), P(1<<63 - 1)},
			Advs: []int64{15000}, Kinds: "enq deq deqa nack upd adv", MaxMsgs: 2, Depth: d(4, 6), Init: []qsys.Op{create("fair", "q")}},
		{Name: "C12.neg", P: calm, StartMs: 500, Queues: one, Groups: def, Prios: []qsys.Prio{P(-1 << 63), P(-1), P(0), P(1)}, Upds: []qsys.Prio{P(-2)},
			Kinds: "enq deq deqa nack upd", MaxMsgs: 2, Depth: d(4, 6), Init: []qsys.Op{create("delayed", "q")}},
		{Name: "C12.ties", P: calm, StartMs: 500, Queues: one, Groups: def, Upds: []qsys.Prio{P(0), P(5)}, Kinds: "deq deqa ack nack upd", Depth: d(4, 6),
			Init: []qsys.Op{create("delayed", "q"), {K: "enq", Q: "q", G: "a", P: P(5)}, {K: "enq", Q: "q", G: "b", P: P(5)}, {K: "enq", Q: "q", G: "c", P: P(5)}, {K: "enq", Q: "q", G: "a", P: P(4)}}},
	}
	us = append(us, bulkUniv("C12", th)...)
	for _, u := range us {
		u.Extra, u.Raw = replicExtra, true
		if th {
			u.Name += "+"
		}
	}
	return us
}

// ---- C13

func rejoinExtra(x *qsys.Extra) {
	n := len(x.Hist)
	baseOK := map[string]bool{}
	base := func(epi string) bool {
		v, ok := baseOK[epi]
		if !ok {
			v = x.U.Extend(x.Prop, x.Hist, -1, epi, false).Div == nil
			x.Runs++
			baseOK[epi] = v
		}
		return v
	}
	for _, epi := range []string{"live", "list"} {
		if !base(epi) {
			x.Count("pruned_other", 1)
			return
		}
	}
	try := func(k, ev int, epi string) bool {
		run := func() (qsys.Outcome, int) {
			events := 0
			x.Runs++
			o := x.U.Exec(x.Prop, nil, func(r *qsys.Run) *qsys.Div {
				w := r.W
				for i, a := range x.Hist {
					op := r.Alphabet()[a]
					if i == k-1 && ev >= 0 { // interrupted at a storage event, then applied again
						cnt := 0
						sent := append([]uint64{}, r.Sent[op.Q]...)
						me := w.E.CurID()
						w.E.OnStore = func(kind string) error {
							if w.E.CurID() != me || kind == "get" || kind == "value" {
								return nil
							}
							cnt++
							if cnt-1 == ev {
								panic(crashed{})
							}
							return nil
						}
						func() {
							defer func() {
								if p := recover(); p != nil {
									if _, ok := p.(crashed); !ok {
										panic(p)
									}
								}
							}()
							r.Issue(op)
						}()
						w.E.OnStore = nil
						events = cnt
						r.Sent[op.Q] = sent
						r.Log = append(r.Log, fmt.Sprintf("%s: crash at storage event %d", op, ev))
						j := w.Journal
						w.Journal = nil
						w.Restart()
						r.Log = append(r.Log, "restart, log applied again")
						for _, b := range j[:len(j)-1] {
							w.Replay(b)
						}
						w.Journal = j[:len(j)-1]
						// the interrupted command is in the log: its answer is judged
						if d := r.Step(op); d != nil {
							return d
						}
						continue
					}
					if d := r.Step(op); d != nil {
						return d
					}
					if i == k-1 && ev < 0 {
						w.Restart()
						r.Log = append(r.Log, "restart, log applied again")
						for _, b := range w.Journal {
							w.Replay(b)
						}
					}
				}
				if k == 0 { // a new node applies the whole log to an empty storage
					w.E.KillOthers()
					db := qsys.GetDB()
					old := w.DB
					w.DB = db
					w.Boot()
					defer func() { w.DB = old; qsys.PutDB(db) }()
					r.Log = append(r.Log, "new node, whole log applied")
					for _, b := range w.Journal {
						w.Replay(b)
					}
				}
				r.Sizes = true
				if d := r.CheckCounts(); d != nil {
					return d
				}
				return r.RunEpilogue(epi)
			})
			return o, events
		}
		o, got := run()
		if ev >= 0 && got <= ev {
			return false // no such event
		}
		if o.Div != nil {
			fix := func(o qsys.Outcome) qsys.Outcome {
				if o.Div != nil {
					o.Div = &qsys.Div{Props: []string{"C13"}, Sig: "replay-" + o.Div.Sig, What: "after the restart: " + o.Div.What}
				}
				return o
			}
			x.Report(fix(o), func() qsys.Outcome { o, _ := run(); return fix(o) })
			return false
		}
		return true
	}
	for k := 0; k <= n; k++ {
		if k == 0 && n == 0 {
			continue
		}
		x.Count("restarts", 1)
		if !try(k, -1, "live") || !try(k, -1, "list") {
			if len(x.Found) > 0 {
				return
			}
		}
		if k == 0 {
			continue
		}
		for ev := 0; try(k, ev, "live"); ev++ {
			x.Count("crashes", 1)
		}
		if len(x.Found) > 0 {
			return
		}
	}
}

func rejoinUniv(th bool) []*U {
	d := func(q, t int) int { return core.If(th, t, q) }
	one := []string{"q"}
	def := []string{"default"}
	first := func(o qsys.Op, m *qsys.Model) bool { return o.K != "create" && m.Q(o.Q).Gen == 0 }
	us := []*U{
		{Name: "C13.delayed", P: calm, StartMs: 500, Queues: one, Types: []string{"delayed"}, Groups: def, Prios: []qsys.Prio{P(1)}, Upds: []qsys.Prio{P(0)},
			Kinds: "create delete enq deq deqa ack nack upd", MaxMsgs: 2, Depth: d(4, 6), Init: []qsys.Op{create("delayed", "q")}},
		{Name: "C13.fair", P: calm, StartMs: 500, Queues: one, Groups: []string{"a", "b"}, Prios: []qsys.Prio{P(1)}, Upds: []qsys.Prio{P(2)},
			Kinds: "enq deq deqa nack upd", MaxMsgs: 3, Depth: d(4, 5), Init: []qsys.Op{create("fair", "q"), {K: "enq", Q: "q", G: "a", P: P(1)}}},
		{Name: "C13.held", P: calm, StartMs: 500, Queues: one, Groups: def, Prios: []qsys.Prio{P(2)}, Upds: []qsys.Prio{P(0), P(9)},
			Kinds: "deq deqa ack nack upd", MaxMsgs: 0, Depth: d(3, 5), Init: []qsys.Op{create("delayed", "q"), {K: "enq", Q: "q", G: "a", P: P(1)}, {K: "enq", Q: "q", G: "a", P: P(2)}, {K: "deq", Q: "q"}}},
		{Name: "C13.two", P: calm, StartMs: 500, Queues: []string{"q", "q:x"}, Types: []string{"delayed", "fair"}, Groups: def, Prios: []qsys.Prio{P(1)}, IDs: "same",
			Kinds: "create delete enq deqa", MaxMsgs: 2, Depth: d(4, 5)},
	}
	us = append(us, bulkUniv("C13", th)...)
	for _, u := range us {
		u.Extra, u.Paths = rejoinExtra, true
		if few := u.Skip; few != nil {
			u.Skip = func(o qsys.Op, m *qsys.Model) bool { return first(o, m) || few(o, m) }
		} else {
			u.Skip = first
		}
		if th {
			u.Name += "+"
		}
	}
	return us
}

// ---- scenarios of the findings that are recorded rather than repaired

type finding struct {
	sig string
	run func() (fails bool, what string, log []string)
}

func inWorld(p qsys.Params, f func(e *sched.Exec, w *qsys.World) (bool, string)) (fails bool, what string, log []string) {
	db := qsys.GetDB()
	defer qsys.PutDB(db)
	e := &sched.Exec{MaxSteps: 400000}
	if x := e.Run(func() {
		qsys.SleepMs(e, 500)
		w := qsys.NewWorld(e, db, p)
		fails, what = f(e, w)
	}); x != nil {
		return true, x.Kind + ": " + x.Msg, nil
	}
	return
}

// freshNode boots another node over an empty storage.
func freshNode(e *sched.Exec, p qsys.Params) (*qsys.World, func()) {
	db := qsys.GetDB()
	return qsys.NewWorld(e, db, p), func() { e.KillOthers(); qsys.PutDB(db) }
}

var findings = map[string][]finding{
	"C13": {
		{"snapshot-empty", func() (bool, string, []string) {
			return inWorld(calm, func(e *sched.Exec, w *qsys.World) (bool, string) {
				w.Create("delayed", "q")
				w.Enqueue("q", 1, "g", 1, "a")
				var buf bytes.Buffer
				w.Snapshot(&buf)
				n, end := freshNode(e, calm)
				defer end()
				n.RestoreFrom(buf.Bytes())
				r := n.Enqueue("q", 2, "g", 1, "b")
				d := n.Dequeue("q", true)
				return !r.OK || d.ID != 1, fmt.Sprintf("a node brought up from a snapshot answers enqueue with %s and dequeue with %s", r, d)
			})
		}},
		{"snapshot-own-storage", func() (bool, string, []string) {
			return inWorld(calm, func(e *sched.Exec, w *qsys.World) (bool, string) {
				w.Create("delayed", "q")
				w.Enqueue("q", 1, "g", 1, "a")
				w.Dequeue("q", false)
				var buf bytes.Buffer
				w.Snapshot(&buf)
				w.Restart()
				w.RestoreFrom(buf.Bytes())
				r := w.Ack("q", 1)
				return !r.OK, fmt.Sprintf("after a restart from a snapshot the ack of a held message answers %s", r)
			})
		}},
		{"replay-failed-before-create", func() (bool, string, []string) {
			return inWorld(calm, func(e *sched.Exec, w *qsys.World) (bool, string) {
				w.Enqueue("q", 1, "g", 1, "a") // fails: no queue yet
				w.Create("delayed", "q")
				w.Restart()
				for _, b := range w.Journal {
					w.Replay(b)
				}
				d := w.Dequeue("q", true)
				return d.OK, fmt.Sprintf("after a restart and replay the dequeue answers %s; the only enqueue had failed", d)
			})
		}},
		{"replay-wall-clock", func() (bool, string, []string) {
			return inWorld(calm2, func(e *sched.Exec, w *qsys.World) (bool, string) {
				w.Create("delayed", "q")
				w.Enqueue("q", 1, "g", 1, "a")
				w.Dequeue("q", false)
				w.Sleep(20000)
				w.Dequeue("q", true) // delivered again after its time-out, acknowledged
				w.Restart()
				for _, b := range w.Journal {
					w.Replay(b)
				}
				w.Sleep(20000)
				d := w.Dequeue("q", true)
				return d.OK, fmt.Sprintf("after a restart and replay the dequeue answers %s; the message had been acknowledged", d)
			})
		}},
	},
	"C12": {
		{"wall-clock", func() (bool, string, []string) {
			return inWorld(calm2, func(e *sched.Exec, w *qsys.World) (bool, string) {
				n, end := freshNode(e, calm2)
				defer end()
				w.Create("delayed", "q")
				w.Enqueue("q", 1, "g", 1, "a")
				a1 := w.Dequeue("q", false)
				w.Sleep(20000)
				a2 := w.Dequeue("q", false)
				for _, b := range w.Journal[:2] {
					n.Replay(b)
				}
				b1, b2 := n.Replay(w.Journal[2]), n.Replay(w.Journal[3])
				return a1 != b1 || a2 != b2, fmt.Sprintf("a replica that applies the same four entries 20 s later answers %s, %s instead of %s, %s", b1, b2, a1, a2)
			})
		}},
		{"fair-rotation-reload", func() (bool, string, []string) {
			return inWorld(calm, func(e *sched.Exec, w *qsys.World) (bool, string) {
				seq := func(w *qsys.World, reload bool) string {
					w.Create("fair", "q")
					w.Enqueue("q", 1, "b", 1, "")
					w.Enqueue("q", 2, "b", 1, "")
					w.Enqueue("q", 3, "a", 1, "")
					s := w.Dequeue("q", true).Group
					if reload {
						w.Restart()
					}
					for i := 0; i < 2; i++ {
						s += w.Dequeue("q", true).Group
					}
					return s
				}
				n, end := freshNode(e, calm)
				defer end()
				a := seq(n, false)
				b := seq(w, true)
				return a != b, fmt.Sprintf("a replica that loaded the fair queue from storage serves the groups %s, the other %s", b, a)
			})
		}},
		{"create-unloaded", createUnloaded},
	},
	"C09": {{"create-unloaded", createUnloaded}},
	"C11": {{"create-unloaded", createUnloaded}},
}

func createUnloaded() (bool, string, []string) {
	return inWorld(calm, func(e *sched.Exec, w *qsys.World) (bool, string) {
		w.Create("delayed", "q")
		w.Enqueue("q", 1, "g", 1, "a")
		w.Restart()
		w.Create("fair", "q")
		d := w.Dequeue("q", true)
		return d.ID != 1, fmt.Sprintf("create of a queue that exists in storage but is not loaded yet empties it: dequeue answers %s", d)
	})
}

func runFindings(c *core.Ctx) {
	for _, f := range findings[c.ID] {
		c.Count("runs", 1)
		if fails, what, log := f.run(); fails {
			c.Report(&core.Violation{Signature: f.sig, What: what, Scenario: "finding " + f.sig, History: log})
		}
	}
}

func init() {
	for _, id := range []string{"C12", "C13"} {
		for _, th := range []bool{true, false} {
			us := replicUniv(th)
			if id == "C13" {
				us = rejoinUniv(th)
			}
			qsys.Register(us...)
			bounds[fmt.Sprint(id, th)] = us
		}
		checks[id] = func(c *core.Ctx, pool *core.Pool) {
			runFindings(c)
			for _, u := range bounds[fmt.Sprint(id, c.Thorough())] {
				qsys.Search(c, pool, u)
			}
		}
	}
}
