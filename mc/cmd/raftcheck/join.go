package main

import (
	"fmt"
	"time"

	hraft "github.com/hashicorp/raft"

	"vmc/core"
	"vmc/qsys"
	"vmc/rsys"
	"vmc/sched"
	vnet "vmc/v/vnet"
)

// C22: every sequence of joins over a few ids and addresses, where a live node listens at
// each address (or not), on the leader, on a follower, and with the leader losing its
// followers at any network write during the join.

type memb map[string]string // id -> address

func members(n *rsys.Node) (memb, *fail) {
	l, err := n.Members()
	if err != nil {
		return nil, &fail{Sig: "configuration", What: err.Error()}
	}
	m := memb{}
	addrs := map[string]bool{}
	for _, s := range l {
		if _, ok := m[string(s.ID)]; ok || addrs[string(s.Address)] {
			return nil, &fail{Sig: "member-twice", What: fmt.Sprintf("the configuration %v has an id or address twice", l)}
		}
		if s.Suffrage != hraft.Voter {
			return nil, &fail{Sig: "not-voter", What: fmt.Sprintf("the configuration %v has a non-voter", l)}
		}
		m[string(s.ID)] = string(s.Address)
		addrs[string(s.Address)] = true
	}
	return m, nil
}

// majority: more than half of the members are live.
func majority(c *rsys.Cluster, live int, m memb) bool {
	reach := 0
	for _, a := range m {
		for _, n := range c.Nodes[:live] {
			if n.Addr == a {
				reach++
			}
		}
	}
	return 2*reach > len(m)
}

func after(m memb, id, addr string) memb {
	out := memb{}
	for k, v := range m {
		if k != id && v != addr {
			out[k] = v
		}
	}
	out[id] = addr
	return out
}

// joinItem: addresses beyond the started nodes are dead.
func joinItem(name string, nIDs, nAddrs, live, depth int, pre int) core.Item {
	return core.Item{Name: name, Run: func(ir *core.ItemRun) {
		rsys.Enumerate(ir, func(ch *rsys.Choices) (out *fail) {
			e := &sched.Exec{}
			var log []string
			f := rsys.Run(e, idP, nAddrs, func(c *rsys.Cluster) {
				for _, n := range c.Nodes[:live] {
					n.Start()
				}
				l := c.Nodes[0]
				want := memb{l.ID: l.Addr}
				for _, n := range c.Nodes[1:pre] {
					if err := l.N.Join(n.ID, n.Addr); err != nil {
						out = &fail{Sig: "boot-join", What: "a fresh node could not join: " + err.Error()}
						return
					}
					want = after(want, n.ID, n.Addr)
				}
				e.Sleep(300 * time.Millisecond)
				for i := 0; i < depth; i++ {
					id, addr := fmt.Sprintf("n%d", ch.Pick(nIDs)+1), c.Nodes[ch.Pick(nAddrs)].Addr
					if (id == l.ID) != (addr == l.Addr) {
						continue // the leader itself runs under that id or address
					}
					var err error
					t := l.Spawn("join", func() { err = l.N.Join(id, addr) })
					if !c.Wait(60*time.Second, t.Done) {
						out = &fail{Sig: "hang", What: fmt.Sprintf("join %s at %s does not return", id, addr), Log: log}
						return
					}
					log = append(log, fmt.Sprintf("join %s at %s -> %v", id, addr, err))
					got, ff := members(l)
					if ff != nil {
						ff.Log = log
						out = ff
						return
					}
					if err != nil {
						if majority(c, live, after(want, id, addr)) && l.N.IsLeader() {
							out = &fail{Sig: "join-failed", What: fmt.Sprintf("join %s at %s failed on the leader of %v: %v", id, addr, want, err), Log: log}
						}
						return // the cluster lost its majority
					}
					want = after(want, id, addr)
					if fmt.Sprint(got) != fmt.Sprint(want) {
						out = &fail{Sig: "members", What: fmt.Sprintf("after the join of %s at %s the members are %v, expected %v", id, addr, got, want), Log: log}
						return
					}
				}
				if !majority(c, live, want) {
					return // raft may take a join whose new member is dead
				}
				// the cluster works and every live member has what it holds
				q := fmt.Sprint("q", depth)
				if err := l.N.CreateQueue("fair", q); err != nil {
					out = &fail{Sig: "no-command", What: fmt.Sprintf("a command after the joins fails: %v", err), Log: log}
					return
				}
				e.Sleep(2 * time.Second)
				for _, n := range c.Nodes[:live] {
					for _, a := range want {
						if a == n.Addr && n.Figures() != l.Figures() {
							out = &fail{Sig: "not-replicated", What: fmt.Sprintf("the node at %s has %q, the leader %q", a, n.Figures(), l.Figures()), Log: log}
						}
					}
				}
			})
			if f != nil && out == nil {
				out = &fail{Sig: f.Kind, What: f.Kind + ": " + f.Msg, Log: log}
			}
			return out
		})
	}}
}

// followerItem: every join sent to a node that is not the leader changes nothing and fails,
// unless the node is a member already.
func followerItem() core.Item {
	return core.Item{Name: "joins sent to a follower", Run: func(ir *core.ItemRun) {
		rsys.Enumerate(ir, func(ch *rsys.Choices) *fail {
			return runCluster(3, idP, func(c *rsys.Cluster) *fail {
				f := c.Nodes[1]
				before, _ := members(c.Nodes[0])
				id, addr := fmt.Sprintf("n%d", ch.Pick(4)+1), fmt.Sprintf("10.0.0.%d:9000", ch.Pick(4)+1)
				err := f.N.Join(id, addr)
				e := c.E
				e.Sleep(500 * time.Millisecond)
				now, ff := members(c.Nodes[0])
				if ff != nil {
					return ff
				}
				if fmt.Sprint(now) != fmt.Sprint(before) {
					return &fail{Sig: "follower-join", What: fmt.Sprintf("join %s at %s on a follower changed the members from %v to %v", id, addr, before, now)}
				}
				if err == nil && before[id] != addr {
					return &fail{Sig: "follower-join-ok", What: fmt.Sprintf("join %s at %s on a follower reports success", id, addr)}
				}
				return nil
			})
		})
	}}
}

// faultJoinItem: the leader loses the others at every network write during the join.
func faultJoinItem(id, addr string, live bool, mode string) core.Item {
	return core.Item{Name: fmt.Sprintf("join %s at %s, leader %s during it", id, addr, mode), Run: func(ir *core.ItemRun) {
		for k := 1; ; k++ {
			hit := false
			run := func() (out *fail) {
				e := &sched.Exec{}
				hit = false
				var log []string
				f := rsys.Run(e, idP, 4, func(c *rsys.Cluster) {
					for _, n := range c.Nodes {
						n.Start()
					}
					l := c.Nodes[0]
					for _, n := range c.Nodes[1:3] {
						if err := l.N.Join(n.ID, n.Addr); err != nil {
							out = &fail{Sig: "boot-join", What: err.Error()}
							return
						}
					}
					e.Sleep(300 * time.Millisecond)
					net := vnet.Of(e)
					seen := 0
					net.OnWrite = func(a, b int) {
						if seen++; seen == k {
							hit = true
							if mode == "cut off" {
								net.Cut(func(a, b int) bool { return (a == l.G) != (b == l.G) })
							}
						}
					}
					var err error
					t := l.Spawn("join", func() { err = l.N.Join(id, addr) })
					e.Block("wait", func() bool { return hit || t.Done() })
					net.OnWrite = nil
					if hit && mode == "crashes" {
						l.Crash()
					} else if !c.Wait(60*time.Second, t.Done) {
						out = &fail{Sig: "hang", What: "the join does not return", Log: log}
						return
					}
					before := memb{"n1": c.Nodes[0].Addr, "n2": c.Nodes[1].Addr, "n3": c.Nodes[2].Addr}
					want := after(before, id, addr)
					log = append(log, fmt.Sprintf("write %d: leader %s; join -> %v", k, mode, err))
					ok := err == nil && t.Done() && !(hit && mode == "crashes")
					net.Cut(nil)
					if !l.Up {
						l.Start()
					}
					var nl *rsys.Node
					agreed := c.Wait(60*time.Second, func() bool {
						nl = nil
						for _, n := range c.Nodes {
							if n.N.IsLeader() && n.G != 4 {
								nl = n
							}
						}
						return nl != nil
					})
					if !agreed {
						if ok {
							out = &fail{Sig: "no-leader", What: "no leader 60 s after a successful join", Log: log}
						}
						return // two of three members may be needed that a half-done replacement lacks
					}
					e.Sleep(time.Second)
					got, ff := members(nl)
					if ff != nil {
						ff.Log = log
						out = ff
						return
					}
					log = append(log, fmt.Sprintf("members on %s: %v", nl.ID, got))
					if ok && fmt.Sprint(got) != fmt.Sprint(want) {
						out = &fail{Sig: "members", What: fmt.Sprintf("the join succeeded, the members are %v, expected %v", got, want), Log: log}
					}
					for k, v := range before {
						if k != id && v != addr && got[k] != v {
							out = &fail{Sig: "member-lost", What: fmt.Sprintf("the member %s is gone: %v", k, got), Log: log}
						}
					}
				})
				if f != nil && out == nil {
					out = &fail{Sig: f.Kind, What: f.Kind + ": " + f.Msg, Log: log}
				}
				return out
			}
			f := run()
			ir.Ran()
			ir.Count("states", 1)
			ir.Count("transitions", 1)
			if f != nil {
				ir.Report(f.Sig, f.What, "", f.Log, k, func() bool {
					f2 := run()
					return f2 != nil && f2.Sig == f.Sig
				})
				return
			}
			if !hit || ir.OutOfTime() || k > 60 {
				ir.Count("fault_points", int64(k-1))
				return
			}
		}
	}}
}

func init() {
	core.RegisterItems("C22", func(th bool) []core.Item {
		its := []core.Item{
			joinItem("joins to a single node", 4, 4, 4, core.If(th, 3, 2), 1),
			joinItem("joins to a cluster of three", 4, 4, 4, core.If(th, 3, 2), 3),
			joinItem("joins to a cluster of three, one address dead", 4, 5, 4, core.If(th, 2, 1), 3),
			joinItem("ids that are prefixes of each other", 11, 3, 3, core.If(th, 2, 1), 2),
			followerItem(),
		}
		for _, mode := range []string{"cut off", "crashes"} {
			for _, j := range []memb{{"n4": "10.0.0.4:9000"}, {"n2": "10.0.0.4:9000"}, {"n4": "10.0.0.2:9000"}} {
				for id, addr := range j {
					its = append(its, faultJoinItem(id, addr, true, mode))
				}
			}
		}
		return its
	})
	checks["C22"] = func(c *core.Ctx, pool *core.Pool) { core.RunItems(c, pool) }
}

var _ = qsys.P
