package main

import (
	"fmt"
	"time"

	"vmc/core"
	"vmc/qsys"
	"vmc/rsys"
	"vmc/sched"
	vnet "vmc/v/vnet"
)

var idP = qsys.Params{AckTimeout: 40, Interval: 5, Window: 1}

// idItem: every node numbers its ids by its place in the configuration; every sequence of
// generations on the nodes and milliseconds passing.
func idItem(nodes, depth int) core.Item {
	return core.Item{Name: fmt.Sprintf("ids of %d nodes", nodes), Run: func(ir *core.ItemRun) {
		rsys.Enumerate(ir, func(ch *rsys.Choices) *fail {
			return runCluster(nodes, idP, func(c *rsys.Cluster) *fail {
				for _, n := range c.Nodes {
					if err := n.N.InitIDGenerator(); err != nil {
						return &fail{Sig: "id-init", What: "InitIDGenerator: " + err.Error()}
					}
				}
				var x ids
				var log []string
				for i := 0; i < depth; i++ {
					k := ch.Pick(nodes + 1)
					if k == nodes {
						c.E.Sleep(time.Millisecond)
						log = append(log, "1 ms passes")
						continue
					}
					n := c.Nodes[k]
					id := n.N.GenerateID()
					log = append(log, fmt.Sprintf("%s generates %d", n.ID, id))
					if d := x.check(n.ID, id); d != nil {
						return divFail(d, log)
					}
				}
				return nil
			})
		})
	}}
}

// moveItem: ids and messages while leaders come and go: at every step an enqueue on the
// current leader, a crash of it, or its return.
func moveItem(depth int) core.Item {
	return core.Item{Name: "messages while leaders crash and return", Run: func(ir *core.ItemRun) {
		rsys.Enumerate(ir, func(ch *rsys.Choices) *fail {
			return runCluster(3, idP, func(c *rsys.Cluster) *fail {
				for _, n := range c.Nodes {
					n.N.InitIDGenerator()
				}
				u := apiUniverse([]string{"delayed"}, []string{"a"}, []qsys.Prio{qsys.P(1)}, []string{"q"})
				l := c.Nodes[0]
				r := u.NewRun(c.E, l.World())
				if d := r.Step(qsys.Op{K: "create", Q: "q", T: "delayed"}); d != nil {
					return divFail(d, r.Log)
				}
				var x ids
				var down *rsys.Node
				for i := 0; i < depth; i++ {
					switch ch.Pick(3) {
					case 0:
						if d := command(r, l, &x, qsys.Op{K: "enq", Q: "q", G: "a", P: qsys.P(1)}); d != nil {
							return divFail(d, r.Log)
						}
					case 1: // the leader crashes (one node at a time)
						if down != nil {
							down.Start()
							down.N.InitIDGenerator()
							r.Log = append(r.Log, down.ID+" starts")
							c.E.Sleep(2 * time.Second)
						}
						l.Crash()
						down = l
						r.Log = append(r.Log, l.ID+" crashes")
						if !c.Wait(30*time.Second, func() bool { l = c.Leader(); return l != nil }) {
							return &fail{Sig: "no-leader", What: "no leader 30 s after a crash", Log: r.Log}
						}
						r.W = l.World()
						r.Log = append(r.Log, l.ID+" leads")
					case 2:
						if down != nil {
							down.Start()
							down.N.InitIDGenerator()
							r.Log = append(r.Log, down.ID+" starts")
							down = nil
							c.E.Sleep(2 * time.Second)
						}
					}
				}
				c.E.Sleep(time.Second)
				if l = c.Leader(); l == nil {
					return &fail{Sig: "no-leader", What: "no leader", Log: r.Log}
				}
				r.W = l.World()
				if f := agree(c, r.Log); f != nil {
					return f
				}
				return divFail(r.Drain(), r.Log)
			})
		})
	}}
}

// offItem: every command on a node that was shut down, or cut off from the others.
func offItem() core.Item {
	return core.Item{Name: "commands on a node that is off", Run: func(ir *core.ItemRun) {
		rsys.Enumerate(ir, func(ch *rsys.Choices) *fail {
			return runCluster(3, idP, func(c *rsys.Cluster) *fail {
				u := apiUniverse([]string{"delayed"}, []string{"a"}, []qsys.Prio{qsys.P(1)}, []string{"q"})
				l := c.Nodes[0]
				r := u.NewRun(c.E, l.World())
				for _, o := range []qsys.Op{{K: "create", Q: "q", T: "delayed"}, {K: "enq", Q: "q", G: "a", P: qsys.P(1)}, {K: "enq", Q: "q", G: "a", P: qsys.P(2)}, {K: "deq", Q: "q"}} {
					if d := r.Step(o); d != nil {
						return divFail(d, r.Log)
					}
				}
				how := ch.Pick(3)
				switch how {
				case 0:
					l.N.Raft.Shutdown().Error()
				case 1:
					vnet.Of(c.E).Cut(func(a, b int) bool { return (a == l.G) != (b == l.G) })
					c.E.Sleep(5 * time.Second)
				case 2:
					vnet.Of(c.E).Cut(func(a, b int) bool { return (a == l.G) != (b == l.G) })
				}
				al := r.Alphabet()
				o := al[ch.Pick(len(al))]
				var a qsys.Issued
				t := sched.GoNamed("cmd", func() { a = r.Issue(o) })
				if !c.Wait(30*time.Second, t.Done) {
					return &fail{Sig: "hang", What: fmt.Sprintf("%s does not return", o), Log: r.Log}
				}
				r.Log = append(r.Log, fmt.Sprintf("n1, off: %s -> %s", o, a.Resp))
				if a.Resp.OK {
					return &fail{Sig: "off-ok", What: fmt.Sprintf("%s succeeded on a node without the others", o), Log: r.Log}
				}
				return nil
			})
		})
	}}
}

func init() {
	core.RegisterItems("C21", func(th bool) []core.Item {
		P := qsys.P
		one := func(name string, d int, ks string, types, groups []string, prios []qsys.Prio, queues []string, init []qsys.Op) core.Item {
			u := apiUniverse(types, groups, prios, queues)
			if ks != "" {
				u.Kinds = ks
			}
			return apiItem(name, u, init, d)
		}
		var its []core.Item
		edge := []qsys.Prio{P(0), P(-1 << 63), P(1 << 53), P(1700000000)}
		for _, typ := range []string{"delayed", "fair"} {
			its = append(its,
				one("one node, "+typ+" queue", core.If(th, 4, 3), "", []string{"fair"}, []string{"a"}, []qsys.Prio{P(5)}, []string{"q"}, []qsys.Op{{K: "create", Q: "q", T: typ}, {K: "enq", Q: "q", G: "b", P: P(3)}}),
				one("one node, edge values, "+typ, core.If(th, 4, 3), "enq deq", nil, []string{"", "default", "g:é\""}, core.If(th, edge, edge[:2]), []string{"a:\"é"}, []qsys.Op{{K: "create", Q: "a:\"é", T: typ}}),
			)
		}
		its = append(its, one("one node, two queues", core.If(th, 4, 3), "create delete enq deq", []string{"delayed", "fair"}, []string{"a"}, []qsys.Prio{P(5)}, []string{"q", "q:"}, nil))
		for _, typ := range []string{"delayed", "fair"} {
			u := apiUniverse([]string{"delayed"}, []string{"a"}, []qsys.Prio{P(5)}, []string{"q"})
			u.Upds = u.Upds[:1]
			its = append(its, clusterItem("three nodes, "+typ+" queue", u, []qsys.Op{{K: "create", Q: "q", T: typ}, {K: "enq", Q: "q", G: "b", P: P(3)}}, core.If(th, 3, 2)))
		}
		ops := map[string]qsys.Op{
			"create": {K: "create", Q: "q2", T: "fair"}, "enqueue": {K: "enq", Q: "q", G: "a", P: P(5)}, "dequeue": {K: "deq", Q: "q"}, "dequeue+ack": {K: "deqa", Q: "q"},
			"ack": {K: "ack", Q: "q", M: 0}, "nack": {K: "nack", Q: "q", M: 0}, "update": {K: "upd", Q: "q", M: 1, P: P(-5)}, "delete": {K: "delete", Q: "q"}, "create again": {K: "create", Q: "q", T: "fair"},
		}
		for _, n := range qsys.SortedKeys(ops) {
			for _, mode := range []string{"cut", "blip", "crash-net", "crash-store"} {
				for _, typ := range core.If(th, []string{"delayed", "fair"}, []string{"fair"}) {
					its = append(its, faultItem(typ+" "+n+", "+mode, typ, ops[n], mode))
				}
			}
		}
		its = append(its, idItem(3, core.If(th, 6, 4)), idItem(1, core.If(th, 8, 5)), moveItem(core.If(th, 5, 3)), offItem())
		return its
	})
	checks["C21"] = func(c *core.Ctx, pool *core.Pool) {
		idFinding(c)
		core.RunItems(c, pool)
	}
}

// idFinding: a node that rejoins under a new address changes places, and gets the number of
// a node that keeps generating.
func idFinding(c *core.Ctx) {
	f := runCluster(3, idP, func(cl *rsys.Cluster) *fail {
		n1, n2, n3 := cl.Nodes[0], cl.Nodes[1], cl.Nodes[2]
		for _, n := range cl.Nodes {
			n.N.InitIDGenerator()
		}
		n2.Crash()
		n2.Addr = "10.0.0.9:9000"
		n2.Start()
		if err := n1.N.Join(n2.ID, n2.Addr); err != nil {
			return nil
		}
		cl.E.Sleep(time.Second)
		n2.N.InitIDGenerator()
		a, b := n2.N.GenerateID(), n3.N.GenerateID()
		if a == b {
			return &fail{Sig: "id-number-moves", What: fmt.Sprintf("after n2 rejoined with another address, n2 and n3 both generate %d", a)}
		}
		return nil
	})
	c.Count("runs", 1)
	if f != nil {
		c.Report(&core.Violation{Signature: f.Sig, What: f.What, Scenario: "finding id-number-moves", History: f.Log})
	}
}
