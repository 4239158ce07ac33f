package main

import (
	"errors"
	"fmt"
	"strings"

	"vmc/core"
	"vmc/qsys"
)

// C16 and C11: for every history within the bounds and every command that may follow it,
// every storage event of that command is made to fail (C16) or is the point of a crash (C11).

var errFault = errors.New("injected storage failure")

func writeEvent(k string) bool { return k == "update" || k == "commit" || k == "set" || k == "delete" }

func readEvent(k string) bool { return k == "view" || k == "get" || k == "value" }

func isCommand(o qsys.Op) bool { return o.K != "adv" && o.K != "restart" && o.K != "list" }

// prelude replays the history and returns the next op (nil: none at alt).
func prelude(r *qsys.Run, hist []int, alt int) (op *qsys.Op, d *qsys.Div) {
	for _, k := range hist {
		al := r.Alphabet()
		if k >= len(al) {
			panic(fmt.Sprintf("harness: replay diverged: op %d of %d after %v", k, len(al), r.Log))
		}
		if d = r.Step(al[k]); d != nil {
			return nil, d
		}
	}
	al := r.Alphabet()
	if alt < 0 || alt >= len(al) {
		return nil, nil
	}
	return &al[alt], nil
}

// trial is one run with an interrupted or failed command.
type trial struct {
	x        *qsys.Extra
	alt      int
	event    int  // -1: none
	forever  bool // and all later events
	events   []string
	n        int // number of ops in the alphabet
	op       *qsys.Op
	answer   qsys.Issued
	prefixed bool // the history itself diverged
}

func (t *trial) exec(body func(r *qsys.Run, op qsys.Op) *qsys.Div) qsys.Outcome {
	t.x.Runs++
	return t.x.U.Exec(t.x.Prop, nil, func(r *qsys.Run) *qsys.Div {
		op, d := prelude(r, t.x.Hist, t.alt)
		if d != nil {
			t.prefixed = true
			return d
		}
		t.n = len(r.Alphabet())
		if op == nil {
			return nil
		}
		t.op = op
		return body(r, *op)
	})
}

// survey runs the command without fault and records its events and answer.
func (t *trial) survey() {
	t.exec(func(r *qsys.Run, op qsys.Op) *qsys.Div {
		if !isCommand(op) {
			return nil
		}
		t.events = nil
		r.W.E.OnStore = func(k string) error { t.events = append(t.events, k); return nil }
		t.answer = r.Issue(op)
		r.W.E.OnStore = nil
		return nil
	})
}

// ---- C16

func (t *trial) fault(kinds func(string) bool, then string) qsys.Outcome {
	return t.exec(func(r *qsys.Run, op qsys.Op) *qsys.Div {
		sent := append([]uint64{}, r.Sent[op.Q]...)
		n := 0
		hit := false
		r.W.E.OnStore = func(k string) error {
			if !kinds(k) {
				return nil
			}
			n++
			if n-1 == t.event || t.forever && n > t.event {
				hit = true
				return errFault
			}
			return nil
		}
		a := r.Issue(op)
		if then == "again" && !a.Resp.OK && hit {
			n, r.Sent[op.Q] = 0, append([]uint64{}, sent...)
			r.Log = append(r.Log, fmt.Sprintf("%s, storage refuses step %d -> %s", op, t.event, a.Resp))
			a = r.Issue(op)
		}
		r.W.E.OnStore = nil
		r.Log = append(r.Log, fmt.Sprintf("%s, storage refuses step %d%s -> %s", op, t.event, core.If(t.forever, " and all later ones", ""), a.Resp))
		if a.Resp.Bad != "" {
			return &qsys.Div{Props: []string{"*"}, Sig: "bad-answer", What: a.Resp.Bad}
		}
		if !hit {
			return nil
		}
		if a.Resp.OK {
			if d := r.Judge(op, a); d != nil {
				return d
			}
			// a success must be a real one: the write was refused, so the command
			// has to have found another way to make it stick
		} else {
			r.Sent[op.Q] = sent
		}
		switch then {
		case "live":
			if d := r.CheckCounts(); d != nil {
				return d
			}
			return r.RunEpilogue("live")
		case "retry", "again":
			if !a.Resp.OK {
				if d := r.Step(op); d != nil {
					return d
				}
			}
			if d := r.CheckCounts(); d != nil {
				return d
			}
			return r.RunEpilogue("live")
		case "retry-reload":
			if !a.Resp.OK {
				if d := r.Step(op); d != nil {
					return d
				}
			}
			return r.RunEpilogue("list")
		}
		return r.RunEpilogue(then)
	})
}

// baseline: the same continuation without any fault, with and without the command.
func (t *trial) baseline(with bool, then string) qsys.Outcome {
	return t.exec(func(r *qsys.Run, op qsys.Op) *qsys.Div {
		if with {
			if d := r.Step(op); d != nil {
				return d
			}
		}
		return r.RunEpilogue(then)
	})
}

// background: while time passes, one read that the background redelivery needs is refused.
// The messages concerned come back one time-out and one interval later at the latest.
func (t *trial) background(hit *bool) qsys.Outcome {
	return t.exec(func(r *qsys.Run, op qsys.Op) *qsys.Div {
		n := 0
		r.W.E.OnStore = func(k string) error {
			if readEvent(k) {
				if n++; n-1 == t.event {
					*hit = true
					return errFault
				}
			}
			return nil
		}
		a := r.Issue(op)
		r.W.E.OnStore = nil
		if !*hit {
			return nil
		}
		r.M.P.Interval += r.U.P.AckTimeout + r.U.P.Interval
		r.Log = append(r.Log, fmt.Sprintf("%s, storage refuses read %d", op, t.event))
		if d := r.Judge(op, a); d != nil {
			return d
		}
		return r.RunEpilogue("live")
	})
}

// load: the node restarts, and a read of its loading of all queues is refused.
func (t *trial) load(hit *bool) qsys.Outcome {
	return t.exec(func(r *qsys.Run, op qsys.Op) *qsys.Div {
		if d := r.Step(qsys.Op{K: "restart"}); d != nil {
			return d
		}
		n := 0
		r.W.E.OnStore = func(k string) error {
			if readEvent(k) {
				if n++; n-1 == t.event {
					*hit = true
					return errFault
				}
			}
			return nil
		}
		r.Issue(qsys.Op{K: "list"})
		r.W.E.OnStore = nil
		if !*hit {
			return nil
		}
		r.Log = append(r.Log, fmt.Sprintf("load all queues, storage refuses read %d", t.event))
		for _, in := range r.W.QM.GetQueues() {
			if q := r.M.Queues[in.Name]; q == nil || !q.Exists {
				return &qsys.Div{Props: []string{"C16"}, Sig: "load-invented", What: fmt.Sprintf("queue %q is listed and does not exist", in.Name)}
			}
		}
		return r.RunEpilogue("live")
	})
}

func faultExtra(x *qsys.Extra) {
	readFaults(x)
	writeFaults(x)
}

// readFaults: every single read of every command, of the background redelivery and of the
// loading of all queues is refused.
func readFaults(x *qsys.Extra) {
	report := func(pre string, try func() qsys.Outcome) bool {
		run := func() qsys.Outcome {
			o := try()
			x.Count("read_faults", 1)
			if o.Div != nil {
				o.Div.Props, o.Div.Sig = append(o.Div.Props, "C16"), pre+o.Div.Sig
			}
			return o
		}
		o := run()
		if o.Div != nil {
			x.Report(o, run)
		}
		return o.Div != nil
	}
	// the history itself has to be fine
	t0 := &trial{x: x, alt: 0}
	for _, then := range []string{"live", "list"} {
		if t0.baseline(false, then).Div != nil {
			x.Count("pruned_other", 1)
			return
		}
	}
	for ev := 0; ; ev++ {
		hit := false
		t := &trial{x: x, alt: 0, event: ev}
		if report("read-load-", func() qsys.Outcome { return t.load(&hit) }) || !hit {
			break
		}
	}
	for alt := 0; ; alt++ {
		s := &trial{x: x, alt: alt}
		s.survey()
		if s.prefixed || alt >= s.n {
			return
		}
		if s.op == nil || s.op.K == "restart" || s.op.K == "list" {
			continue
		}
		if t := (&trial{x: x, alt: alt}); t.baseline(true, "live").Div != nil {
			x.Count("pruned_other", 1)
			continue
		}
		if s.op.K == "adv" {
			for ev := 0; ; ev++ {
				hit := false
				t := &trial{x: x, alt: alt, event: ev}
				if report("read-redelivery-", func() qsys.Outcome { return t.background(&hit) }) || !hit {
					break
				}
			}
			continue
		}
		n := 0
		for _, k := range s.events {
			if readEvent(k) {
				n++
			}
		}
		for ev := 0; ev < n; ev++ {
			for _, then := range []string{"live", "retry"} {
				t := &trial{x: x, alt: alt, event: ev}
				if report("read-"+s.op.K+"-", func() qsys.Outcome { return t.fault(readEvent, then) }) {
					return
				}
			}
		}
	}
}

func writeFaults(x *qsys.Extra) {
	thens := []string{"live", "list", "retry", "retry-reload", "again", "live+", "list+"}
	base := map[string]bool{}
	ok := func(alt int, with bool, then string) bool {
		e := then
		switch then {
		case "retry", "again":
			e, with = "live", true
		case "retry-reload":
			e, with = "list", true
		}
		k := fmt.Sprint(with, e)
		if with {
			k += fmt.Sprint(alt)
		}
		v, seen := base[k]
		if !seen {
			t := &trial{x: x, alt: alt}
			v = t.baseline(with, e).Div == nil
			base[k] = v
		}
		return v
	}
	for alt := 0; ; alt++ {
		s := &trial{x: x, alt: alt}
		s.survey()
		if s.prefixed || alt >= s.n {
			return
		}
		if s.op == nil || !isCommand(*s.op) {
			continue
		}
		n := 0
		for _, k := range s.events {
			if writeEvent(k) {
				n++
			}
		}
		for ev := 0; ev < n; ev++ {
			for _, then := range thens {
				then, forever := strings.CutSuffix(then, "+")
				if forever && ev == n-1 {
					continue
				}
				t := &trial{x: x, alt: alt, event: ev, forever: forever}
				o := t.fault(writeEvent, then)
				x.Count("faults", 1)
				if o.Div == nil {
					continue
				}
				if !ok(alt, false, then) || !ok(alt, true, then) {
					x.Count("pruned_other", 1)
					continue
				}
				o.Div.Sig = "fault-" + s.op.K + "-" + o.Div.Sig
				x.Report(o, func() qsys.Outcome {
					o := t.fault(writeEvent, then)
					if o.Div != nil {
						o.Div.Sig = "fault-" + s.op.K + "-" + o.Div.Sig
					}
					return o
				})
				return
			}
		}
	}
}

// ---- C11

type crashed struct{}

// crash interrupts the command at the event, restarts the node over its storage and runs
// the epilogue against the state before (after=false) or after the command.
func (t *trial) crash(after bool, then string) qsys.Outcome {
	return t.exec(func(r *qsys.Run, op qsys.Op) *qsys.Div {
		sent := append([]uint64{}, r.Sent[op.Q]...)
		if t.event < 0 { // between two commands
			r.Log = append(r.Log, "stop")
		} else {
			n := 0
			me := r.W.E.CurID()
			r.W.E.OnStore = func(k string) error {
				n++
				if n-1 != t.event {
					return nil
				}
				if r.W.E.CurID() != me { // a background activity: it stops here for good
					r.W.E.Block("crashed", func() bool { return false })
				}
				panic(crashed{})
			}
			func() {
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(crashed); !ok {
							panic(p)
						}
					}
				}()
				r.Issue(op)
			}()
			r.W.E.OnStore = nil
			r.Log = append(r.Log, fmt.Sprintf("%s, crash at storage event %d (%s)", op, t.event, t.events[t.event]))
		}
		if after {
			if op.K == "enq" && t.event < 0 {
				r.Sent[op.Q] = append(sent, t.answer.ID)
			}
			if d := r.Judge(op, t.answer); d != nil {
				return d
			}
		} else {
			r.Sent[op.Q] = sent
		}
		return r.RunEpilogue(then)
	})
}

// crashAt issues the op and stops the node at its n-th storage event; whatever the op was
// about to answer is lost.
func crashAt(r *qsys.Run, op qsys.Op, at int) (hit bool) {
	n := 0
	me := r.W.E.CurID()
	r.W.E.OnStore = func(k string) error {
		n++
		if n-1 != at {
			return nil
		}
		hit = true
		if r.W.E.CurID() != me {
			r.W.E.Block("crashed", func() bool { return false })
		}
		panic(crashed{})
	}
	defer func() {
		r.W.E.OnStore = nil
		if p := recover(); p != nil {
			if _, ok := p.(crashed); !ok {
				panic(p)
			}
		}
	}()
	r.Issue(op)
	return hit
}

// twice: a crash at the event, a restart, the command again, and a crash at event ev2 of it.
// The reopened queues must be as after none, one or both.
func (t *trial) twice(ev2 int) (best qsys.Outcome, hit bool) {
	var again qsys.Issued
	run := func(apply func(r *qsys.Run, op qsys.Op) *qsys.Div, full bool) qsys.Outcome {
		return t.exec(func(r *qsys.Run, op qsys.Op) *qsys.Div {
			sent := append([]uint64{}, r.Sent[op.Q]...)
			crashAt(r, op, t.event)
			r.W.Restart()
			if full {
				r.Sent[op.Q] = append([]uint64{}, sent...)
				again = r.Issue(op)
				return nil
			}
			r.Sent[op.Q] = append([]uint64{}, sent...)
			hit = crashAt(r, op, ev2)
			r.Sent[op.Q] = append([]uint64{}, sent...)
			r.Log = append(r.Log, fmt.Sprintf("%s, crash at storage event %d, restart, again, crash at storage event %d", op, t.event, ev2))
			if d := apply(r, op); d != nil {
				return d
			}
			return r.RunEpilogue("list")
		})
	}
	none := func(r *qsys.Run, op qsys.Op) *qsys.Div { r.M.Reload(); return nil }
	best = run(none, false)
	if best.Div == nil || !hit {
		best.Div = nil
		return best, hit
	}
	h := hit
	run(none, true)
	first := func(r *qsys.Run, op qsys.Op) *qsys.Div {
		if t.answer.Resp.OK {
			if op.K == "enq" {
				r.Sent[op.Q] = append(r.Sent[op.Q], t.answer.ID)
			}
			if d := r.Judge(op, t.answer); d != nil {
				return d
			}
		}
		r.M.Reload()
		return nil
	}
	second := func(r *qsys.Run, op qsys.Op) *qsys.Div {
		r.M.Reload()
		if again.Resp.OK {
			if op.K == "enq" {
				r.Sent[op.Q] = append(r.Sent[op.Q], again.ID)
			}
			return r.Judge(op, again)
		}
		return nil
	}
	for _, f := range []func(r *qsys.Run, op qsys.Op) *qsys.Div{first, second, func(r *qsys.Run, op qsys.Op) *qsys.Div {
		if d := first(r, op); d != nil {
			return d
		}
		return second(r, op)
	}} {
		if o := run(f, false); o.Div == nil {
			return o, h
		}
	}
	return best, h
}

func crashExtra(x *qsys.Extra) {
	thens := []string{"list", "reload", "recreate"}
	live := func(alt int, with bool) bool {
		t := &trial{x: x, alt: alt}
		return t.baseline(with, "live").Div == nil
	}
	// a plain stop after the history
	for _, then := range thens {
		t := &trial{x: x, alt: 0, event: -1}
		o := t.crash(false, then)
		x.Count("stops", 1)
		if t.prefixed {
			return
		}
		if o.Div != nil {
			if !o.Div.Is("C11") && !live(0, false) {
				x.Count("pruned_other", 1)
				continue
			}
			x.Report(o, func() qsys.Outcome { return t.crash(false, then) })
			return
		}
	}
	for alt := 0; ; alt++ {
		s := &trial{x: x, alt: alt}
		s.survey()
		if s.prefixed || alt >= s.n {
			return
		}
		if s.op == nil || !isCommand(*s.op) {
			continue
		}
		for ev, k := range s.events {
			if readEvent(k) {
				continue
			}
			if len(x.Hist) <= x.U.Twice && k != "update" && live(alt, false) && live(alt, true) {
				for ev2 := 0; ; ev2++ {
					t := &trial{x: x, alt: alt, event: ev, events: s.events, answer: s.answer}
					run := func() (o qsys.Outcome, hit bool) {
						o, hit = t.twice(ev2)
						x.Count("double_crashes", 1)
						if o.Div != nil {
							o.Div = &qsys.Div{Props: []string{"C11"}, Sig: "twice-" + s.op.K + "-" + o.Div.Sig,
								What: fmt.Sprintf("after two crashes during %s the reopened queues are not as after none, one or both: %s", s.op, o.Div.What)}
						}
						return o, hit
					}
					o, hit := run()
					if o.Div != nil {
						x.Report(o, func() qsys.Outcome { o, _ := run(); return o })
						return
					}
					if !hit {
						break
					}
				}
			}
			for _, then := range thens {
				t := &trial{x: x, alt: alt, event: ev, events: s.events, answer: s.answer}
				x.Count("crashes", 1)
				a := t.crash(false, then)
				if a.Div == nil {
					continue
				}
				if !s.answer.Resp.OK {
					// the command has no effect anyway
				} else if b := t.crash(true, then); b.Div == nil {
					continue
				}
				if !live(alt, false) || !live(alt, true) {
					x.Count("pruned_other", 1)
					continue
				}
				a.Div = &qsys.Div{Props: []string{"C11"}, Sig: "crash-" + s.op.K + "-" + a.Div.Sig,
					What: fmt.Sprintf("after a crash during %s the reopened queues are neither as before nor as after it: %s", s.op, a.Div.What)}
				x.Report(a, func() qsys.Outcome {
					o := t.crash(false, then)
					if o.Div != nil {
						o.Div = &qsys.Div{Sig: "crash-" + s.op.K + "-" + o.Div.Sig}
					}
					return o
				})
				return
			}
		}
	}
}

func faultUniv(id string, th bool) []*U {
	d := func(q, t int) int { return core.If(th, t, q) }
	one := []string{"q"}
	def := []string{"default"}
	extra := faultExtra
	if id == "C11" {
		extra = crashExtra
	}
	us := []*U{
		{Name: id + ".delayed", P: calm2, StartMs: 500, Queues: one, Types: []string{"delayed"}, Groups: def, Prios: []qsys.Prio{P(1), P(2)}, Upds: []qsys.Prio{P(0)},
			Advs: []int64{10000}, Kinds: "create delete enq deq deqa ack nack upd adv restart", MaxMsgs: 2, Depth: d(5, 6), Init: []qsys.Op{create("delayed", "q")}},
		{Name: id + ".fair", P: calm2, StartMs: 500, Queues: one, Types: []string{"fair"}, Groups: []string{"a", "b"}, Prios: []qsys.Prio{P(1)}, Upds: []qsys.Prio{P(2)},
			Advs: []int64{10000}, Kinds: "create delete enq deq deqa ack nack upd restart", MaxMsgs: 2, Depth: d(4, 6), Init: []qsys.Op{create("fair", "q")}},
		{Name: id + ".three", P: calm2, StartMs: 500, Queues: one, Groups: def, Prios: []qsys.Prio{P(2)}, Upds: []qsys.Prio{P(0), At(60)},
			Kinds: "delete deq deqa ack nack upd restart", MaxMsgs: 0, Depth: d(3, 5), Init: []qsys.Op{create("delayed", "q"),
				{K: "enq", Q: "q", G: "default", P: P(1)}, {K: "enq", Q: "q", G: "default", P: P(2)}, {K: "enq", Q: "q", G: "default", P: At(30)}}},
		{Name: id + ".two", P: calm2, StartMs: 500, Queues: []string{"q", "q:x"}, Types: []string{"fair"}, Groups: def, Prios: []qsys.Prio{P(1)}, IDs: "same",
			Kinds: "create delete enq deq restart list", MaxMsgs: 2, Depth: d(4, 5)},
	}
	us = append(us, bulkUniv(id, th)...)
	for _, u := range us {
		u.Extra = extra
		u.Twice = core.If(th, 3, 2)
		if th {
			u.Name += "+"
		}
	}
	return us
}

func init() {
	for _, id := range []string{"C11", "C16"} {
		for _, th := range []bool{true, false} {
			us := faultUniv(id, th)
			qsys.Register(us...)
			bounds[fmt.Sprint(id, th)] = us
		}
		checks[id] = func(c *core.Ctx, pool *core.Pool) {
			runFindings(c)
			for _, u := range bounds[fmt.Sprint(id, c.Thorough())] {
				qsys.Search(c, pool, u)
			}
		}
	}
}
