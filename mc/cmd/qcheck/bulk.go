package main

import (
	"fmt"
	"strings"

	"vmc/core"
	"vmc/qsys"
)

// Universes that start from a large state: behaviour that changes with the number of
// messages, groups, queues or bytes, with long names and with long settings.

const bulkSize = 130

func few(n int) func(o qsys.Op, m *qsys.Model) bool {
	return func(o qsys.Op, m *qsys.Model) bool {
		switch o.K {
		case "ack", "nack", "upd":
			return !(o.M <= 1 || o.M == n/2 || o.M >= n-1)
		}
		return false
	}
}

func bulk(name, typ string, n, held int, kinds, epi string, depth int) *U {
	u := &U{Name: name, P: calm2, StartMs: 500, Queues: []string{"q"}, Groups: []string{"default"}, Prios: []qsys.Prio{P(26)}, Upds: []qsys.Prio{P(25)},
		Advs: []int64{10000}, Kinds: kinds, MaxMsgs: n + 1, Depth: depth, Epilogue: epi, Skip: few(n), Init: []qsys.Op{create(typ, "q")}}
	if typ == "fair" {
		u.Groups = []string{"g3", "new"}
	}
	for i := 0; i < n; i++ {
		o := qsys.Op{K: "enq", Q: "q", G: "default", P: P(int64(i * 37 % 53))}
		if typ == "fair" {
			o.G = fmt.Sprintf("g%d", i*5%12)
		}
		u.Init = append(u.Init, o)
	}
	for i := 0; i < held; i++ {
		u.Init = append(u.Init, qsys.Op{K: "deq", Q: "q"})
	}
	return u
}

func bulkUniv(id string, th bool) []*U {
	d := func(q, t int) int { return core.If(th, t, q) }
	n := d(bulkSize, 270)
	b := func(typ string, n, held int, kinds, epi string, depth int) *U {
		return bulk(fmt.Sprintf("%s.bulk-%s%d", id, typ, held), typ, n, held, kinds, epi, depth)
	}
	switch id {
	case "C01":
		lens := []int{0, 255, 256, 1023, 4097, 65535, 65536, 300000}
		big := &U{Name: "C01.size", P: calm2, StartMs: 500, Queues: []string{"q"}, Groups: []string{"g", strings.Repeat("long-group-", 400)}, Prios: []qsys.Prio{P(1)},
			Advs: []int64{10000}, Kinds: "enq deq deqa nack adv", MaxMsgs: len(lens) + 1, Depth: d(2, 3), Init: []qsys.Op{create("fair", "q")}, Epilogue: "live reload",
			Content: func(n int) string {
				return strings.Repeat("x\u00e9", lens[n%len(lens)]/3) + strings.Repeat("y", lens[n%len(lens)]%3)
			}, Skip: few(2)}
		for range lens {
			big.Init = append(big.Init, qsys.Op{K: "enq", Q: "q", G: "g", P: P(1)})
		}
		return []*U{big, b("delayed", n, n/2, "enq deq deqa ack nack upd adv", "live reload", d(2, 3)), b("fair", n, n/2, "enq deq deqa ack nack adv", "live reload", d(2, 3))}
	case "C02":
		return []*U{b("delayed", 40, 5, "enq deq deqa nack upd adv", "live reload", d(3, 4)), b("delayed", n, 0, "deq upd restart", "live", d(2, 3))}
	case "C03":
		return []*U{{Name: "C03.far", P: calm2, StartMs: 500, Queues: []string{"q"}, Groups: []string{"default"}, Prios: []qsys.Prio{P(1), P(1<<63 - 1), P(1<<63 - 70_000_000_000), P(1 << 61), P(9_300_000_000), At(9_300_000_000), At(86400 * 400)},
			Upds: []qsys.Prio{P(-1 << 63), P(1 << 62)}, Advs: []int64{10000}, Kinds: "enq deq nack upd adv restart", MaxMsgs: 2, Depth: d(4, 5), Init: []qsys.Op{create("delayed", "q")}, Epilogue: "probe reload"}}
	case "C04":
		return []*U{b("fair", 40, 0, "enq deqa", "live", d(4, 6)), b("fair", 40, 14, "enq deq nack upd adv", "live", d(3, 4))}
	case "C05":
		return []*U{b("delayed", n, n/2, "deq deqa ack nack adv", "live reload", d(2, 3)), b("fair", n, n/2, "deq ack nack adv", "reload", d(2, 3))}
	case "C06":
		long := func(t, i int, steps []int64) *U {
			return &U{Name: fmt.Sprintf("C06.t%di%d", t, i), P: qsys.Params{AckTimeout: int64(t), Interval: int64(i)}, StartMs: 700, Queues: []string{"q"}, Groups: []string{"default"},
				Prios: []qsys.Prio{P(1)}, Advs: steps, Kinds: "enq deq adv", MaxMsgs: 2, Depth: d(5, 7), Init: []qsys.Op{create("delayed", "q"), {K: "enq", Q: "q", G: "default", P: P(1)}}, Epilogue: "probe"}
		}
		return []*U{
			{Name: "C06.phase", P: qsys.Params{AckTimeout: 2, Interval: 1}, StartMs: 900, Queues: []string{"q"}, Groups: []string{"default"}, Advs: []int64{1100, 700}, Kinds: "deq nack adv", Depth: d(8, 10),
				Init: []qsys.Op{create("delayed", "q"), {K: "enq", Q: "q", G: "default", P: P(1)}, {K: "adv", D: 100}}, Epilogue: "probe"},
			long(61, 7, []int64{55000, 1000}), long(10, 10, []int64{9000, 1000}), long(600, 1, []int64{599000, 1000}), long(3700, 90, []int64{3600000, 60000}), long(5, 60, []int64{5000, 55000}),
			b("delayed", n, n-3, "enq deq ack nack adv", "probe", d(2, 3)), b("fair", n, n-3, "deq nack adv", "probe", d(2, 3)),
		}
	case "C07":
		return []*U{b("delayed", n, n/2, "deq nack ack adv", "live", d(2, 3)), b("fair", 40, 20, "enq deq nack upd", "live reload", d(3, 4))}
	case "C08":
		return []*U{b("delayed", n, 30, "deq nack upd adv restart", "live", d(2, 3)), b("fair", 40, 10, "deq nack upd", "live reload", d(3, 4))}
	case "C09":
		u := b("fair", n, n/2, "create delete enq restart", "list recreate", d(2, 3))
		u.Types = []string{"delayed", "fair"}
		// messages of queues whose names continue this one's, before and behind its own
		nested := &U{Name: "C09.nested", P: calm2, StartMs: 500, Queues: []string{"a", "a:b", "a:"}, Types: []string{"delayed"}, Groups: []string{"default"}, Prios: []qsys.Prio{P(1)}, IDs: "far",
			Kinds: "create delete enq restart", MaxMsgs: 12, Depth: d(3, 4), Epilogue: "list recreate", Init: []qsys.Op{create("delayed", "a"), create("delayed", "a:b"), create("fair", "a:")}}
		for k := 0; k < 3; k++ {
			for _, q := range []string{"a", "a:", "a:b"} {
				nested.Init = append(nested.Init, qsys.Op{K: "enq", Q: q, G: "default", P: P(1)})
			}
		}
		return []*U{u, nested}
	case "C10":
		l := strings.Repeat("n", 300)
		var us []*U
		for k, p := range [][2]string{{l, l + "m"}, {l[1:] + "a", l[1:] + "b"}, {strings.Repeat("\u00fc", 20000), strings.Repeat("\u00fc", 20000) + ":"}} {
			us = append(us, &U{Name: fmt.Sprintf("C10.long%d", k), P: calm2, StartMs: 500, Queues: p[:], Groups: []string{"default"}, Prios: []qsys.Prio{P(1)}, IDs: "same",
				Kinds: "enq deq delete restart", MaxMsgs: 2, Depth: d(3, 4), Init: []qsys.Op{create("delayed", p[0]), create("delayed", p[1])}, Epilogue: "list"})
		}
		many := &U{Name: "C10.many", P: calm2, StartMs: 500, Groups: []string{"default"}, Prios: []qsys.Prio{P(1)}, IDs: "same", Kinds: "enq deqa delete restart", MaxMsgs: 26, Depth: 2, Epilogue: "list"}
		for i := 0; i < 25; i++ {
			q := fmt.Sprintf("q%d", i)
			if i == 3 || i == 11 || i == 24 {
				many.Queues = append(many.Queues, q)
			}
			many.Init = append(many.Init, create([]string{"delayed", "fair"}[i%2], q), qsys.Op{K: "enq", Q: q, G: "g", P: P(1)})
		}
		return append(us, many)
	case "C11", "C16":
		del := b("delayed", 24, 6, "delete deq deqa enq ack restart", "", 1)
		two := &U{Name: id + ".many", P: calm2, StartMs: 500, Groups: []string{"default"}, Prios: []qsys.Prio{P(1)}, IDs: "same", Kinds: "enq deq delete restart", MaxMsgs: 15, Depth: 1}
		for i := 0; i < 14; i++ {
			q := fmt.Sprintf("q%d", i)
			if i == 3 || i == 12 {
				two.Queues = append(two.Queues, q)
			}
			two.Init = append(two.Init, create([]string{"delayed", "fair"}[i%2], q), qsys.Op{K: "enq", Q: q, G: "g", P: P(1)})
		}
		all := []*U{del, two}
		if id == "C11" {
			all = append(all, b("delayed", n, 9, "deqa", "", 1), b("fair", n, 9, "deqa", "", 1))
		}
		return all
	case "C12":
		us := []*U{b("delayed", 60, 20, "deq nack upd adv", "", d(1, 2)), b("fair", 60, 20, "enq deq nack adv", "", d(1, 2))}
		for _, u := range us {
			u.P, u.Advs = calm, []int64{15000}
		}
		return us
	case "C13":
		return []*U{b("delayed", 60, 20, "enq deq deqa ack nack upd", "", 1)}
	case "C25":
		u := b("delayed", n, n/2, "enq deq deqa ack nack adv", "probe", d(2, 3))
		u.P.Prometheus = true
		list := &U{Name: "C25.many", P: calm2, StartMs: 500, Groups: []string{"default"}, Prios: []qsys.Prio{P(1)}, Types: []string{"fair"}, Kinds: "create delete enq restart list", MaxMsgs: 1, Depth: d(2, 3)}
		for i := 0; i < 25; i++ {
			q := fmt.Sprintf("q%d", i)
			if i == 3 || i == 11 || i == 24 {
				list.Queues = append(list.Queues, q)
			}
			list.Init = append(list.Init, create("delayed", q))
		}
		w := func(win int) *U {
			return &U{Name: fmt.Sprintf("C25.win%d", win), P: qsys.Params{AckTimeout: 3, Interval: 1, Window: win, Prometheus: true}, StartMs: 200, Queues: []string{"q"}, Groups: []string{"default"}, Prios: []qsys.Prio{P(1)},
				Advs: []int64{1000, int64(win-1) * 1000}, Kinds: "enq deqa adv", MaxMsgs: 4, Depth: d(6, 8), Init: []qsys.Op{create("delayed", "q"), {K: "adv", D: 300}}, Epilogue: "probe"}
		}
		return []*U{u, list, w(10), w(60)}
	}
	return nil
}
