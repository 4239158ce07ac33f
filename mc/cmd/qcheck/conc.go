package main

import (
	"fmt"
	"os"
	"strings"

	"vmc/core"
	"vmc/explore"
	"vmc/qsys"
	"vmc/sched"
)

// C17: one command thread, status readers and queue lookups run against the background
// threads at the very instant a time-out expires; every statement of the queue package is
// a scheduling point, and every schedule up to a preemption bound is executed. A second
// pass runs a build with the race monitor and lock-level scheduling points.

type concScn struct {
	name    string
	setup   []qsys.Op
	reload  bool // the node restarts before the threads start: queues are loaded by whoever comes first
	cmds    []qsys.Op
	readers []string // "stats q", "list", "lookup q"
	pre     string   // this background thread has done its tick already
}

var concP = qsys.Params{AckTimeout: 2, Interval: 1, Window: 1, Prometheus: true}

type concRead struct {
	what             string
	from, to         int // commands completed before the start, started before the end
	q                string
	found            bool
	err              string
	typ              string
	ready, un, tot   int64
	deletedInBetween bool
}

type concSnap map[string]struct {
	exists      bool
	typ         string
	lo, hi, tot int64
}

func snapOf(m *qsys.Model) concSnap {
	s := concSnap{}
	for n, q := range m.Queues {
		lo, hi, t := m.Counts(n)
		s[n] = struct {
			exists      bool
			typ         string
			lo, hi, tot int64
		}{q.Exists, q.Type, lo, hi, t}
	}
	return s
}

// runConc executes the scenario under one schedule; seq: one after another instead.
func runConc(s *concScn, p *explore.Path, seq bool, stmts bool) (*qsys.Div, []string, []string) {
	db := qsys.GetDB()
	defer qsys.PutDB(db)
	e := &sched.Exec{MaxSteps: 40000, Trace: p != nil && p.Record}
	u := &qsys.Universe{Name: s.name, P: concP, Queues: []string{"q"}}
	var d *qsys.Div
	var r *qsys.Run
	races := sched.RaceErrors()
	f := e.Run(func() {
		qsys.SleepMs(e, 500)
		w := qsys.NewWorld(e, db, u.P)
		r = u.NewRun(e, w)
		for _, o := range s.setup {
			if d = r.Step(o); d != nil {
				return
			}
		}
		if s.reload {
			r.Step(qsys.Op{K: "restart"})
		}
		r.M.Advance(w.Now())
		snaps := []concSnap{snapOf(r.M)}
		started, completed := new(stamp), new(stamp)
		var cmdLog []string
		command := func() {
			for _, o := range s.cmds {
				started.inc()
				x := r.Issue(o)
				cmdLog = append(cmdLog, o.String()+" -> "+x.Resp.String())
				if d == nil {
					d = r.Judge(o, x)
				}
				snaps = append(snaps, snapOf(r.M))
				completed.inc()
			}
		}
		reads := make([][]concRead, len(s.readers))
		reader := func(k int) {
			what, q, _ := strings.Cut(s.readers[k], " ")
			from := completed.get()
			switch what {
			case "stats", "lookup":
				x, err := w.QM.GetQueue(q)
				rd := concRead{what: what, q: q, from: from, found: err == nil}
				if err == nil && what == "stats" {
					st := x.GetStats()
					rd.typ, rd.ready, rd.un, rd.tot = st.Type, st.Ready, st.Unacked, st.Total
				}
				rd.to = started.get()
				reads[k] = append(reads[k], rd)
			case "list":
				got := w.QM.GetQueues()
				to := started.get()
				for _, in := range got {
					reads[k] = append(reads[k], concRead{what: what, q: in.Name, from: from, to: to, found: true, typ: in.Type, ready: in.Ready, un: in.Unacked, tot: in.Total})
				}
			}
		}
		if seq {
			command()
			for k := range s.readers {
				reader(k)
			}
		} else {
			if s.pre != "" {
				first := &explore.Prefer{Name: s.pre + ":"}
				e.Chooser = first
				for e.Yield("settle"); first.Taken(); {
					e.Yield("settle")
				}
			}
			e.StmtPoints = stmts
			if p != nil {
				e.Chooser = p
			}
			ts := []*sched.Thread{sched.GoNamed("cmd", command)}
			for k := range s.readers {
				k := k
				ts = append(ts, sched.GoNamed(fmt.Sprintf("read%d", k), func() { reader(k) }))
			}
			sched.Join(ts...)
			e.Chooser, e.StmtPoints = nil, false
		}
		r.Log = append(r.Log, "-- at the instant of the time-out, concurrently --")
		r.Log = append(r.Log, cmdLog...)
		for _, l := range reads {
			for _, x := range l {
				r.Log = append(r.Log, fmt.Sprintf("read %s %q: found=%v %s ready=%d unacked=%d total=%d (commands %d..%d)", x.what, x.q, x.found, x.typ, x.ready, x.un, x.tot, x.from, x.to))
			}
		}
		if d != nil {
			return
		}
		for _, l := range reads {
			for _, x := range l {
				if d = judgeRead(x, snaps); d != nil {
					return
				}
			}
		}
		// The background threads finish what they were doing. A command at the instant of a
		// rate tick is counted in the window that ends there or in the next one, and in one
		// of them only.
		rates := map[string]float64{}
		exp := map[string]float64{}
		r.NoRates = true
		for i := 0; i < 2; i++ {
			r.Step(qsys.Op{K: "adv", D: core.If(i == 0, int64(1), int64(1000))})
			if d = r.CheckCounts(); d != nil {
				return
			}
			for _, in := range w.QM.GetQueues() {
				for k, v := range map[string]float64{"enq": in.Stats.EnqueueRPS, "deq": in.Stats.DequeueRPS, "ack": in.Stats.AckRPS, "nack": in.Stats.NackRPS} {
					rates[in.Name+" "+k] += v
				}
				if i == 0 {
					for _, o := range r.M.Q(in.Name).Ops {
						if o.Ms > w.Now()-1001 {
							exp[in.Name+" "+o.Kind]++
						}
					}
				}
			}
		}
		for _, k := range qsys.SortedKeys(rates) {
			if rates[k] != exp[k] {
				d = &qsys.Div{Sig: "rates", What: fmt.Sprintf("rate of %q over the two windows around the instant is %v, expected %v", k, rates[k], exp[k])}
				return
			}
		}
		if d = r.RunEpilogue("live"); d != nil {
			return
		}
		d = r.CheckCounts()
	})
	var log []string
	if r != nil {
		log = r.Log
	}
	if f != nil {
		d = &qsys.Div{Sig: f.Kind, What: f.Kind + ": " + f.Msg}
	}
	if n := sched.RaceErrors(); n > races && d == nil {
		d = &qsys.Div{Sig: "data-race", What: "unsynchronised access: " + raceReport()}
	}
	return d, log, e.TraceLog
}

// stamp is the harness's own clock, hidden from the race monitor.
type stamp int

//go:norace
func (s *stamp) inc() { *s++ }

//go:norace
func (s *stamp) get() int { return int(*s) }

func judgeRead(x concRead, snaps []concSnap) *qsys.Div {
	if x.to >= len(snaps) {
		x.to = len(snaps) - 1
	}
	lo := x.from
	for k := lo; k <= x.to; k++ {
		s, ok := snaps[k][x.q]
		if !ok {
			s.exists = false
		}
		if !x.found {
			if !s.exists {
				return nil
			}
			continue
		}
		if x.what == "lookup" {
			if s.exists {
				return nil
			}
			continue
		}
		if s.exists && s.typ == x.typ && x.tot == s.tot && x.ready >= s.lo && x.ready <= s.hi && x.ready+x.un == x.tot {
			return nil
		}
	}
	if x.found && x.what == "stats" && x.tot == 0 && x.ready == 0 && x.un == 0 {
		// the queue was looked up before, and read after, its deletion
		for k := x.from; k <= x.to; k++ {
			if !snaps[k][x.q].exists {
				return nil
			}
		}
	}
	return &qsys.Div{Sig: "read-" + x.what, What: fmt.Sprintf("a concurrent %s of %q answers found=%v type=%q ready=%d unacked=%d total=%d, which the queue never was during the read", x.what, x.q, x.found, x.typ, x.ready, x.un, x.tot)}
}

func raceReport() string {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("VERIF_RACE_LOG"), os.Getpid()))
	if err != nil {
		return ""
	}
	t := string(b)
	if i := strings.LastIndex(t, "WARNING: DATA RACE"); i >= 0 {
		t = t[i:]
	}
	if len(t) > 2500 {
		t = t[:2500]
	}
	return t
}

// race: statement points are off and the race monitor is on.
func exploreConc(s *concScn, bound, free int, stmts bool) core.Item {
	return core.Item{Name: fmt.Sprintf("%s (%s, preemptions %d, other %d)", s.name, core.If(stmts, "statements", "locks"), bound, free), Run: func(r *core.ItemRun) {
		roots := r.Prefixes
		if roots == nil {
			if d, log, _ := runConc(s, nil, true, false); d != nil && d.Sig != "data-race" {
				r.Count("pruned_other", 1) // fails one command after another already
				if os.Getenv("VERIF_TIMES") != "" {
					fmt.Fprintln(os.Stderr, "pruned", s.name, d.What, strings.Join(log, "\n"))
				}
				return
			}
			roots = [][]int{nil}
		}
		max := 3000
		for i, root := range roots {
			x := &explore.Explorer{Bound: bound, Free: free, MaxRuns: max, Stop: r.Enough}
			var rest [][]int
			var err error
			bad := false
			rest, err = x.Run(root, func(p *explore.Path) bool {
				d, log, _ := runConc(s, p, false, stmts)
				r.Ran()
				r.Count("schedules", 1)
				r.Count("transitions", int64(len(p.Picks())))
				if d == nil {
					return true
				}
				bad = true
				pk := p.Picks()
				q := explore.NewPath(pk)
				q.Record = true
				_, _, trace := runConc(s, q, false, stmts)
				r.Report(d.Sig, d.What, s.name, append(log, explore.Switches(trace)...), pk, func() bool {
					d2, _, _ := runConc(s, explore.NewPath(pk), false, stmts)
					return d2 != nil && (d2.Sig == d.Sig)
				})
				return false
			})
			if err != nil {
				panic("harness: " + s.name + ": " + err.Error())
			}
			if bad {
				return
			}
			r.Rest(rest)
			if r.Enough() {
				r.Rest(roots[i+1:])
				return
			}
		}
	}}
}

func concScenarios(th bool) []*concScn {
	var out []*concScn
	enq := func(g string, p int64) qsys.Op { return qsys.Op{K: "enq", Q: "q", G: g, P: P(p)} }
	op := func(k string, m int) qsys.Op { return qsys.Op{K: k, Q: "q", M: m} }
	upd := func(m int, p int64) qsys.Op { return qsys.Op{K: "upd", Q: "q", M: m, P: P(p)} }
	for _, typ := range []string{"delayed", "fair"} {
		// #0 is held and times out now, #1 is held for longer, #2 waits
		setup := []qsys.Op{create(typ, "q"), {K: "adv", D: 10}, enq("a", 1), op("deq", 0), {K: "adv", D: 1000}, enq("a", 2), op("deq", 0), enq("b", 3), {K: "adv", D: 990}}
		cmds := map[string][]qsys.Op{
			"dequeue":        {op("deq", 0)},
			"dequeue+ack":    {op("deqa", 0)},
			"ack-expiring":   {op("ack", 0)},
			"nack-expiring":  {op("nack", 0)},
			"upd-expiring":   {upd(0, 9)},
			"enqueue":        {enq("a", 0)},
			"upd-waiting":    {upd(2, 0)},
			"ack-held":       {op("ack", 1)},
			"nack-held":      {op("nack", 1)},
			"delete":         {op("delete", 0)},
			"delete-create":  {op("delete", 0), create(typ, "q")},
			"create-again":   {create(typ, "q")},
			"nack-dequeue":   {op("nack", 0), op("deq", 0)},
			"dequeue-ack":    {op("deq", 0), op("ack", 0)},
			"upd-dequeue":    {upd(0, 5), op("deq", 0)},
			"enqueue-delete": {enq("a", 0), op("delete", 0)},
		}
		for _, n := range qsys.SortedKeys(cmds) {
			// background threads: g1 and g2, both at their tick
			for _, pre := range core.If(th, []string{"g1", "g2", ""}, []string{"g1", "g2"}) {
				if !th && pre == "g1" && n != "dequeue+ack" && n != "delete-create" && n != "nack-expiring" && (typ == "fair" || n != "enqueue" && n != "ack-held") {
					continue // only the rate bookkeeping is pending
				}
				nm := typ + " " + n + core.If(pre == "", "", ", after "+pre)
				out = append(out, &concScn{name: nm, setup: setup, cmds: cmds[n], pre: pre})
				out = append(out, &concScn{name: nm + " | stats", setup: setup, cmds: cmds[n], readers: []string{"stats q"}, pre: pre})
				if th {
					out = append(out, &concScn{name: nm + " | list", setup: setup, cmds: cmds[n], readers: []string{"list"}, pre: pre})
					out = append(out, &concScn{name: nm + " | stats list", setup: setup, cmds: cmds[n], readers: []string{"stats q", "list"}, pre: pre})
				}
			}
		}
		// the queue is not loaded: the first users race to load it
		stored := []qsys.Op{create(typ, "q"), enq("a", 1), enq("b", 2)}
		for n, c := range map[string][]qsys.Op{"dequeue": {op("deq", 0)}, "enqueue": {enq("a", 0)}, "delete": {op("delete", 0)}, "delete-create": {op("delete", 0), create(typ, "q")}, "update": {upd(0, 7)}} {
			out = append(out, &concScn{name: typ + " unloaded " + n + " | stats", setup: stored, reload: true, cmds: c, readers: []string{"stats q"}})
			if !th && n != "dequeue" {
				continue
			}
			out = append(out, &concScn{name: typ + " unloaded " + n + " | lookup stats", setup: stored, reload: true, cmds: c, readers: []string{"lookup q", "stats q"}})
		}
		out = append(out, &concScn{name: typ + " create | lookup list", cmds: []qsys.Op{create(typ, "q"), enq("a", 1), op("deq", 0)}, readers: []string{"lookup q", "list"}})
		out = append(out, &concScn{name: typ + " create delete create | stats", cmds: []qsys.Op{create(typ, "q"), op("delete", 0), create(typ, "q")}, readers: []string{"stats q"}})
	}
	sortScn(out)
	return out
}

func sortScn(l []*concScn) {
	for i := range l {
		for j := i; j > 0 && l[j].name < l[j-1].name; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

func init() {
	core.RegisterItems("C17", func(th bool) []core.Item {
		var its []core.Item
		for _, s := range concScenarios(th) {
			its = append(its, exploreConc(s, core.If(th, 2, 1), core.If(th, 3, 1), true))
		}
		return its
	})
	core.RegisterItems("C17locks", func(th bool) []core.Item {
		var its []core.Item
		for _, s := range concScenarios(th) {
			its = append(its, exploreConc(s, core.If(th, 3, 1), core.If(th, 2, 1), false))
		}
		return its
	})
	core.RegisterItems("C17race", func(th bool) []core.Item {
		var its []core.Item
		for _, s := range concScenarios(th) {
			its = append(its, exploreConc(s, 1, core.If(th, 2, 0), false))
		}
		return its
	})
	// C25: a counted command at the instant of the rate tick and of a status read
	core.RegisterItems("C25conc", func(th bool) []core.Item {
		var its []core.Item
		for _, s := range concScenarios(th) {
			n := " " + s.name + " "
			if s.pre != "g1" && s.pre != "" || s.reload {
				continue
			}
			for _, k := range []string{" enqueue", " dequeue+ack", " ack-held", " nack-held"} {
				if strings.Contains(n, k+", ") || strings.Contains(n, k+" ") {
					its = append(its, exploreConc(s, core.If(th, 2, 1), core.If(th, 3, 1), true))
				}
			}
		}
		return its
	})
	checks["C17"] = func(c *core.Ctx, pool *core.Pool) {
		core.RunItemsOf(c, pool, "C17")
		if !c.HasViolations() {
			core.RunItemsOf(c, pool, "C17locks")
		}
		if bin := os.Getenv("VERIF_RACE_BIN"); bin != "" && !c.HasViolations() {
			rp, err := core.NewPoolOf(bin)
			if err != nil {
				c.Broken(err)
			}
			core.RunItemsOf(c, rp, "C17race")
			rp.Close()
			c.Coverage["race_monitor"] = true
		}
	}
}
