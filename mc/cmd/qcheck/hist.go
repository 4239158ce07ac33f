package main

import (
	"fmt"

	"vmc/core"
	"vmc/qsys"
)

type U = qsys.Universe

var (
	P  = qsys.P
	At = qsys.At
)

func create(t, q string) qsys.Op { return qsys.Op{K: "create", T: t, Q: q} }

// Quanta are chosen so that no time-out can fall between "certainly not yet" and
// "certainly" at an observation: 12 s time-out, 1 s check interval, 5 s steps.
var calm = qsys.Params{AckTimeout: 12, Interval: 1}
var calm2 = qsys.Params{AckTimeout: 7, Interval: 2}

// names that are prefixes of each other, contain separators, storage prefixes, control
// and multi-byte characters.
var names = []string{"a", "a:", "a:b", "a:b:12345678", ":", "", "a b", "A", "\u00e4", "a\x00", "queues", "messages:a", "queues:a:", "a/b?c", "a ", "a\u0308"}

const all = "enq deq deqa ack nack upd adv"

func many(n int, o qsys.Op) (os []qsys.Op) {
	for ; n > 0; n-- {
		os = append(os, o)
	}
	return os
}

// univ returns the universes of a history property, smaller for the quick tier.
func univ(id string, th bool) []*U {
	d := func(q, t int) int {
		if th {
			return t
		}
		return q
	}
	one := []string{"q"}
	def := []string{"default"}
	delayed := []qsys.Op{create("delayed", "q")}
	fair := []qsys.Op{create("fair", "q")}
	enq := func(g string, p qsys.Prio) qsys.Op { return qsys.Op{K: "enq", Q: "q", G: g, P: p} }
	with := func(init []qsys.Op, more ...qsys.Op) []qsys.Op { return append(append([]qsys.Op{}, init...), more...) }
	type pr = []qsys.Prio
	switch id {
	case "C01":
		return []*U{
			{Name: "C01.delayed", P: calm2, StartMs: 500, Queues: one, Groups: def, Prios: pr{P(1), P(2)}, Upds: pr{P(0)},
				Advs: []int64{5000}, Kinds: all, MaxMsgs: d(2, 3), Depth: d(8, 9), Unknown: true, Init: delayed, Epilogue: "live reload"},
			{Name: "C01.fair", P: calm2, StartMs: 500, Queues: one, Groups: []string{"a", "b"}, Prios: pr{P(1)}, Upds: pr{P(0)},
				Advs: []int64{10000}, Kinds: all, MaxMsgs: d(3, 4), Depth: d(7, 9), Init: fair, Epilogue: "live reload"},
			{Name: "C01.values", P: calm2, StartMs: 500, Queues: one, Groups: []string{"", "default", "g:\u00e9\"\x00"},
				Prios: pr{P(-1 << 63), P(-1), P(0)}, Advs: []int64{10000}, Kinds: "enq deq nack deqa adv restart", MaxMsgs: 3, Depth: d(4, 5),
				Init: fair, Epilogue: "live reload", Content: func(n int) string { return []string{"", " \u2028<&>\"\\\n e\u0301\x00", "\x00 x\r\n "}[n%3] }},
		}
	case "C02":
		return []*U{
			{Name: "C02.order", P: calm2, StartMs: 500, Queues: one, Groups: def, Prios: pr{P(1), P(2)}, Upds: pr{P(0), P(2)},
				Advs: []int64{10000}, Kinds: "enq deq deqa nack upd adv", MaxMsgs: 3, Depth: d(7, 9), Init: delayed, Epilogue: "live reload"},
			{Name: "C02.heap", P: calm2, StartMs: 500, Queues: one, Groups: def, Prios: pr{P(4)}, Upds: pr{P(0), P(6), P(20)},
				Advs: []int64{10000}, Kinds: "deq deqa nack ack upd adv", MaxMsgs: 0, Depth: d(4, 5),
				Init:     with(delayed, enq("default", P(5)), enq("default", P(3)), enq("default", P(8)), enq("default", P(3)), enq("default", P(9)), enq("default", P(1)), enq("default", P(7))),
				Epilogue: "live reload"},
			{Name: "C02.edge", P: calm2, StartMs: 500, Queues: one, Groups: def, Prios: pr{P(-1 << 63), P(-1), P(0), P(1), At(0), P(1<<63 - 1)}, Upds: pr{P(-2)},
				Advs: []int64{10000}, Kinds: "enq deq nack upd adv restart", MaxMsgs: d(2, 3), Depth: d(5, 6), Init: delayed, Epilogue: "live reload"},
			{Name: "C02.far", P: calm2, StartMs: 500, Queues: one, Groups: def, Prios: pr{P(1), P(2)}, Upds: pr{P(2)}, IDs: "far",
				Advs: []int64{10000}, Kinds: "enq deq deqa nack upd restart", MaxMsgs: d(4, 6), Depth: d(6, 8), Init: delayed, Epilogue: "live reload"},
		}
	case "C03":
		return []*U{
			{Name: "C03.sched", P: calm, StartMs: 500, Queues: one, Groups: def, Prios: pr{P(1), At(0), At(1), At(2)}, Upds: pr{At(1), P(1)},
				Advs: []int64{500, 1000}, Kinds: "enq deq deqa nack upd adv restart", MaxMsgs: 2, Depth: d(6, 8), Init: delayed, Epilogue: "probe"},
			{Name: "C03.phase", P: calm, StartMs: 0, Queues: one, Groups: def, Prios: pr{At(-1), At(0), At(1)}, Upds: pr{At(0), At(2)},
				Advs: []int64{999, 1}, Kinds: "enq deq nack upd adv", MaxMsgs: 2, Depth: d(6, 8), Init: delayed, Epilogue: "probe"},
			{Name: "C03.timeout", P: qsys.Params{AckTimeout: 3, Interval: 1}, StartMs: 500, Queues: one, Groups: def, Prios: pr{P(1), At(0)}, Upds: pr{At(3), At(9)},
				Advs: []int64{1000, 5000}, Kinds: "enq deq upd adv", MaxMsgs: 2, Depth: d(6, 8), Init: delayed, Epilogue: "probe reload"},
		}
	case "C04":
		return []*U{
			{Name: "C04.groups", P: calm2, StartMs: 500, Queues: one, Groups: []string{"a", "b", "c"}, Prios: pr{P(1)},
				Kinds: "enq deqa", MaxMsgs: d(6, 9), Depth: d(9, 12), Init: fair, Epilogue: "live"},
			{Name: "C04.back", P: calm2, StartMs: 500, Queues: one, Groups: []string{"a", "b"}, Prios: pr{P(-2), P(1<<63 - 1)}, Upds: pr{P(-1 << 63)},
				Advs: []int64{10000}, Kinds: "enq deq nack upd adv ack", MaxMsgs: d(3, 4), Depth: d(8, 9), Init: fair, Epilogue: "live reload"},
			{Name: "C04.three", P: calm2, StartMs: 500, Queues: one, Groups: []string{"", "default", "c"}, Prios: pr{P(1)},
				Advs: []int64{10000}, Kinds: "enq deq nack adv restart", MaxMsgs: d(4, 5), Depth: d(7, 9), Init: fair, Epilogue: "live reload"},
		}
	case "C05":
		return []*U{
			{Name: "C05.delayed", P: calm2, StartMs: 500, Queues: one, Groups: def, Prios: pr{P(1)}, Upds: pr{P(0)},
				Advs: []int64{5000}, Kinds: all + " restart", MaxMsgs: 2, Depth: d(8, 10), Unknown: true, Init: delayed, Epilogue: "live reload"},
			{Name: "C05.fair", P: calm2, StartMs: 500, Queues: one, Groups: []string{"", "b"}, Prios: pr{P(1)}, Upds: pr{P(2)},
				Advs: []int64{5000}, Kinds: all + " restart", MaxMsgs: 2, Depth: d(7, 9), Init: fair, Epilogue: "live reload"},
			{Name: "C05.three", P: calm2, StartMs: 500, Queues: one, Groups: def, Prios: pr{P(1)},
				Advs: []int64{5000}, Kinds: "deq ack nack adv", MaxMsgs: 0, Depth: d(8, 10), Init: with(delayed, enq("default", P(1)), enq("default", P(1)), enq("default", P(1))), Epilogue: "live"},
			{Name: "C05.window", P: qsys.Params{AckTimeout: 2, Interval: 3}, StartMs: 500, Queues: one, Groups: def, Upds: pr{P(0)},
				Advs: []int64{1000}, Kinds: "deq ack nack adv", Depth: d(8, 10), Init: with(delayed, enq("default", P(1)), enq("default", P(2))), Epilogue: "live reload"},
		}
	case "C06":
		mk := func(n string, t, i, start int64, init []qsys.Op, depth int) *U {
			return &U{Name: "C06." + n, P: qsys.Params{AckTimeout: t, Interval: i}, StartMs: start, Queues: one, Groups: def, Upds: pr{P(0)},
				Advs: []int64{1000}, Kinds: "deq ack nack upd adv", Depth: depth, Init: init, Epilogue: "probe"}
		}
		three := []qsys.Op{enq("default", P(3)), enq("default", P(2)), enq("default", P(1))}
		return []*U{
			mk("t2i1", 2, 1, 900, with(with(delayed, qsys.Op{K: "adv", D: 600}), three...), d(7, 9)),
			mk("t3i2", 3, 2, 0, with(with(delayed, qsys.Op{K: "adv", D: 500}), three[:2]...), d(8, 10)),
			mk("t1i3", 1, 3, 500, with(with(delayed, qsys.Op{K: "adv", D: 900}), three[:2]...), d(7, 9)),
			mk("t4i1", 4, 1, 900, with(with(fair, qsys.Op{K: "adv", D: 600}), enq("a", P(1)), enq("b", P(1))), d(8, 10)),
			{Name: "C06.sched", P: qsys.Params{AckTimeout: 2, Interval: 1}, StartMs: 500, Queues: one, Groups: def, Prios: pr{At(0), P(1)}, Upds: pr{At(4)},
				Advs: []int64{1000}, Kinds: "enq deq upd adv", MaxMsgs: 2, Depth: d(7, 9), Init: delayed, Epilogue: "probe"},
			{Name: "C06.loaded", P: qsys.Params{AckTimeout: 2, Interval: 1}, StartMs: 500, Queues: one, Groups: def, Prios: pr{P(1)},
				Advs: []int64{1000}, Kinds: "deq adv restart nack", Depth: d(7, 9), Init: with(delayed, three[:2]...), Epilogue: "probe"},
		}
	case "C07":
		return []*U{
			{Name: "C07.delayed", P: calm2, StartMs: 500, Queues: one, Groups: def, Prios: pr{P(1), P(2)}, Upds: pr{P(0), P(3)},
				Advs: []int64{10000}, Kinds: "enq deq ack nack upd adv", MaxMsgs: d(2, 3), Depth: d(8, 9), Unknown: true, Init: delayed, Epilogue: "live reload"},
			{Name: "C07.fair", P: calm2, StartMs: 500, Queues: one, Groups: []string{"", "default"}, Prios: pr{P(1)}, Upds: pr{P(0)},
				Advs: []int64{10000}, Kinds: "enq deq deqa nack upd adv restart", MaxMsgs: 3, Depth: d(7, 8), Init: fair, Epilogue: "live reload"},
			{Name: "C07.sched", P: calm, StartMs: 500, Queues: one, Groups: def, Prios: pr{P(1), At(0)}, Upds: pr{At(2)},
				Advs: []int64{1000}, Kinds: "enq deq nack upd adv", MaxMsgs: 2, Depth: d(7, 8), Init: delayed, Epilogue: "probe"},
			{Name: "C07.window", P: qsys.Params{AckTimeout: 2, Interval: 3}, StartMs: 500, Queues: one, Groups: def, Upds: pr{P(0)},
				Advs: []int64{1000}, Kinds: "deq ack nack adv", Depth: d(8, 10), Init: with(delayed, enq("default", P(1)), enq("default", P(2))), Epilogue: "live reload"},
		}
	case "C08":
		return []*U{
			{Name: "C08.delayed", P: calm2, StartMs: 500, Queues: one, Groups: def, Prios: pr{P(2)}, Upds: pr{P(1), P(2), P(3)},
				Advs: []int64{5000}, Kinds: "enq deq ack nack upd adv restart", MaxMsgs: d(2, 3), Depth: d(7, 8), Unknown: true, Init: delayed, Epilogue: "live reload"},
			{Name: "C08.fair", P: calm2, StartMs: 500, Queues: one, Groups: []string{"", "default"}, Prios: pr{P(2)}, Upds: pr{P(1), P(3)},
				Advs: []int64{10000}, Kinds: "enq deq deqa nack upd adv restart", MaxMsgs: 3, Depth: d(6, 7), Unknown: true, Init: fair, Epilogue: "live reload"},
			{Name: "C08.future", P: calm, StartMs: 500, Queues: one, Groups: def, Prios: pr{P(2)}, Upds: pr{At(2), P(-5)},
				Advs: []int64{1000, 15000}, Kinds: "enq deq nack upd adv", MaxMsgs: 2, Depth: d(6, 8), Init: delayed, Epilogue: "probe reload"},
			{Name: "C08.deadline", P: qsys.Params{AckTimeout: 3, Interval: 1}, StartMs: 500, Queues: one, Groups: def, Upds: pr{P(0), At(1), At(4), P(1<<63 - 1)},
				Advs: []int64{1000}, Kinds: "deq upd adv ack", Depth: d(6, 8), Init: with(delayed, enq("default", P(1)), enq("default", P(2))), Epilogue: "probe"},
		}
	case "C09":
		return []*U{
			{Name: "C09.one", P: calm2, StartMs: 500, Queues: one, Types: []string{"delayed", "fair"}, Groups: []string{"a"}, Prios: pr{P(1)}, Advs: []int64{10000},
				Kinds: "create delete enq deq restart adv", MaxMsgs: d(3, 4), Depth: d(7, 9), Epilogue: "reload list recreate"},
			{Name: "C09.two", P: calm2, StartMs: 500, Queues: []string{"q", "r"}, Types: []string{"delayed", "fair"}, Groups: def, Prios: pr{P(1)},
				Kinds: "create delete enq deqa restart list", MaxMsgs: 2, Depth: d(6, 7), Epilogue: "reload list recreate"},
			{Name: "C09.cmds", P: calm2, StartMs: 500, Queues: one, Types: []string{"fair"}, Groups: def, Prios: pr{P(1)}, Upds: pr{P(2)}, Advs: []int64{10000},
				Kinds: "create delete enq deq deqa ack nack upd adv restart", MaxMsgs: 2, Depth: d(6, 8), Epilogue: "recreate list"},
			{Name: "C09.many", P: calm2, StartMs: 500, Queues: one, Types: []string{"delayed"}, Groups: def, Prios: pr{P(1), P(2)},
				Kinds: "delete create deq deqa restart", MaxMsgs: 0, Depth: d(5, 6),
				Init: with(delayed, enq("default", P(1)), enq("default", P(2)), enq("default", P(3)), enq("default", P(4)), enq("default", P(5))), Epilogue: "reload list recreate"},
			{Name: "C09.long", P: calm2, StartMs: 500, Queues: one, Types: []string{"delayed"}, Groups: def, Prios: pr{P(1)},
				Kinds: "delete create restart", MaxMsgs: 0, Depth: d(2, 3), Init: with(delayed, many(d(230, 450), enq("default", P(1)))...), Epilogue: "list recreate"},
		}
	case "C10":
		var us []*U
		ns := names
		for i, a := range ns {
			for k, b := range ns {
				if i == k {
					continue
				}
				u := &U{Name: fmt.Sprintf("C10.%d-%d", i, k), P: calm2, StartMs: 500, Queues: []string{a, b}, Groups: def, Prios: pr{P(1)},
					Kinds: "enq deq delete restart", MaxMsgs: 2, Depth: d(3, 4), Init: []qsys.Op{create("delayed", a), create("delayed", b)}, Epilogue: "list"}
				if (i+k)%2 == 0 {
					u.IDs = "same"
				}
				if i%3 == 1 {
					u.IDs = "colon"
				}
				us = append(us, u)
			}
		}
		us = append(us, &U{Name: "C10.full", P: calm2, StartMs: 500, Queues: []string{"a", "a:b"}, Groups: def, Prios: pr{P(1)}, Upds: pr{P(2)}, Advs: []int64{10000}, IDs: "same",
			Kinds: "enq deq ack nack upd delete restart adv", MaxMsgs: 2, Depth: d(5, 7), Init: []qsys.Op{create("delayed", "a"), create("fair", "a:b")}, Epilogue: "live list"})
		return us
	case "C25":
		w := func(n string, win int, prom bool, init []qsys.Op, groups []string, kinds string, depth int) *U {
			return &U{Name: "C25." + n, P: qsys.Params{AckTimeout: 3, Interval: 1, Window: win, Prometheus: prom}, StartMs: 200, Queues: one, Groups: groups, Prios: pr{P(1)}, Upds: pr{P(2)},
				Advs: []int64{1000}, Kinds: kinds, MaxMsgs: d(2, 3), Depth: depth, Types: []string{"delayed"}, Init: with(init, qsys.Op{K: "adv", D: 300}), Epilogue: "probe"}
		}
		return []*U{
			w("delayed1", 1, true, delayed, def, all, d(6, 7)),
			w("fair2", 2, true, fair, []string{"a", "b"}, "enq deq deqa ack nack adv", d(6, 7)),
			w("window3", 3, false, delayed, def, "enq deqa adv", d(9, 11)),
			w("life2", 2, true, delayed, def, "enq deq ack adv delete create restart", d(6, 7)),
			{Name: "C25.list", P: calm2, StartMs: 500, Queues: []string{"b", "a", "ab"}, Groups: def, Prios: pr{P(1)}, Types: []string{"delayed", "fair"},
				Kinds: "create delete enq deq restart list", MaxMsgs: 1, Depth: d(4, 5)},
		}
	}
	return nil
}

func universes(id string, th bool) []*U {
	us := append(univ(id, th), bulkUniv(id, th)...)
	for _, u := range us {
		if th {
			u.Name += "+"
		}
	}
	return us
}

var histIDs = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C25"}

func init() {
	for _, id := range histIDs {
		for _, th := range []bool{true, false} {
			us := universes(id, th)
			qsys.Register(us...)
			bounds[fmt.Sprint(id, th)] = us
		}
		checks[id] = func(c *core.Ctx, pool *core.Pool) {
			runFindings(c)
			if id == "C25" {
				core.RunItemsOf(c, pool, "C25conc")
			}
			for _, u := range bounds[fmt.Sprint(id, c.Thorough())] {
				qsys.Search(c, pool, u)
			}
		}
	}
}

var bounds = map[string][]*U{}
