package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/kgantsov/doq/pkg/queue"

	"vmc/core"
	"vmc/qsys"
	"vmc/rsys"
	"vmc/sched"
	vnet "vmc/v/vnet"
)

// C21: commands through the node API, on one node and on clusters, with leaders, followers,
// nodes that are cut off or crash while the command is under way, and after a shutdown.

type fail = core.ItemFail

func divFail(d *qsys.Div, log []string) *fail {
	if d == nil {
		return nil
	}
	return &fail{Sig: d.Sig, What: d.What, Log: log}
}

var oddContent = []string{"", "x", "\"quoted\" \\ \n", "<&>\u2028é世界", strings.Repeat("y", 3000), "{\"op\":\"x\"}"}

func apiUniverse(types, groups []string, prios []qsys.Prio, queues []string) *qsys.Universe {
	return &qsys.Universe{
		Name: "api", P: qsys.Params{AckTimeout: 40, Interval: 5, Window: 1}, Queues: queues, Types: types, Groups: groups, Prios: prios,
		Upds: []qsys.Prio{qsys.P(math.MinInt64), qsys.P(7)}, Kinds: "enq deq deqa ack nack upd create delete", MaxMsgs: 3, Unknown: true,
		Content: func(n int) string { return oddContent[n%len(oddContent)] },
	}
}

// boot starts n nodes and joins them to the first.
func boot(c *rsys.Cluster) *fail {
	for i, n := range c.Nodes {
		n.Start()
		if i > 0 {
			if err := c.Nodes[0].N.Join(n.ID, n.Addr); err != nil {
				return &fail{Sig: "boot-join", What: "a fresh node could not join: " + err.Error()}
			}
		}
	}
	if len(c.Nodes) > 1 {
		c.E.Sleep(300 * time.Millisecond)
	}
	return nil
}

// runCluster runs body on a booted cluster of n nodes.
func runCluster(n int, p qsys.Params, body func(c *rsys.Cluster) *fail) *fail {
	var out *fail
	e := &sched.Exec{}
	f := rsys.Run(e, p, n, func(c *rsys.Cluster) {
		if out = boot(c); out == nil {
			out = body(c)
		}
	})
	if f != nil {
		return &fail{Sig: f.Kind, What: f.Kind + ": " + f.Msg}
	}
	return out
}

type ids struct {
	last map[string]uint64
	seen map[uint64]bool
}

func (x *ids) check(node string, id uint64) *qsys.Div {
	if x.seen == nil {
		x.seen, x.last = map[uint64]bool{}, map[string]uint64{}
	}
	if x.seen[id] {
		return &qsys.Div{Sig: "id-repeated", What: fmt.Sprintf("the id %d was given to two messages", id)}
	}
	if id <= x.last[node] {
		return &qsys.Div{Sig: "id-order", What: fmt.Sprintf("node %s gave the id %d after %d", node, id, x.last[node])}
	}
	x.seen[id], x.last[node] = true, id
	return nil
}

// command issues one op through the node's API and checks answer, log and ids.
func command(r *qsys.Run, n *rsys.Node, x *ids, o qsys.Op) *qsys.Div {
	before := n.Commands()
	a := r.Issue(o)
	r.Log = append(r.Log, fmt.Sprintf("%s: %s -> %s", n.ID, o, a.Resp))
	if d := r.Judge(o, a); d != nil {
		return d
	}
	if k := n.Commands() - before; k != 1 {
		return &qsys.Div{Sig: "log-count", What: fmt.Sprintf("%s: the command was replicated %d times", o, k)}
	}
	if o.K == "enq" && a.Resp.OK {
		return x.check(n.ID, a.ID)
	}
	return nil
}

// statusCheck compares the node's own status calls with the model.
func statusCheck(r *qsys.Run, n *rsys.Node, known []string) *qsys.Div {
	r.NoRates = true
	if d := r.CheckCounts(); d != nil {
		return d
	}
	for _, q := range known {
		in, err := n.N.GetQueueInfo(q)
		mq := r.M.Q(q)
		if mq.Exists != (err == nil) {
			return &qsys.Div{Sig: "info", What: fmt.Sprintf("info of %q: error %v, the queue exists: %v", q, err, mq.Exists)}
		}
		if err == nil {
			lo, hi, t := r.M.Counts(q)
			if in.Name != q || in.Type != mq.Type || in.Total != t || in.Ready < lo || in.Ready > hi || in.Ready+in.Unacked != t {
				return &qsys.Div{Sig: "info", What: fmt.Sprintf("info of %q is %+v, expected %s total %d", q, *in, mq.Type, t)}
			}
		}
	}
	return nil
}

func apiItem(name string, u *qsys.Universe, init []qsys.Op, depth int) core.Item {
	return core.Item{Name: name, Run: func(ir *core.ItemRun) {
		rsys.Enumerate(ir, func(ch *rsys.Choices) (out *fail) {
			return runCluster(1, u.P, func(c *rsys.Cluster) *fail {
				n := c.Nodes[0]
				r := u.NewRun(c.E, n.World())
				var x ids
				for _, o := range init {
					if d := command(r, n, &x, o); d != nil {
						return divFail(d, r.Log)
					}
				}
				for i := 0; i < depth; i++ {
					al := r.Alphabet()
					if d := command(r, n, &x, al[ch.Pick(len(al))]); d != nil {
						return divFail(d, r.Log)
					}
					if d := statusCheck(r, n, u.Queues); d != nil {
						return divFail(d, r.Log)
					}
				}
				return divFail(r.Drain(), r.Log)
			})
		})
	}}
}

// clusterItem: three nodes, every command from the leader or from a follower.
func clusterItem(name string, u *qsys.Universe, init []qsys.Op, depth int) core.Item {
	return core.Item{Name: name, Run: func(ir *core.ItemRun) {
		rsys.Enumerate(ir, func(ch *rsys.Choices) (out *fail) {
			return runCluster(3, u.P, func(c *rsys.Cluster) *fail {
				l := c.Nodes[0]
				r := u.NewRun(c.E, l.World())
				var x ids
				for _, o := range init {
					if d := command(r, l, &x, o); d != nil {
						return divFail(d, r.Log)
					}
				}
				for i := 0; i < depth; i++ {
					al := r.Alphabet()
					o := al[ch.Pick(len(al))]
					if ch.Pick(2) == 0 {
						if d := command(r, l, &x, o); d != nil {
							return divFail(d, r.Log)
						}
					} else {
						f := c.Nodes[1+i%2]
						before := l.Commands()
						w := f.World()
						r2 := u.NewRun(c.E, w)
						r2.Sent = map[string][]uint64{}
						for k, v := range r.Sent {
							r2.Sent[k] = append([]uint64{}, v...)
						}
						a := r2.Issue(o)
						r.Log = append(r.Log, fmt.Sprintf("%s (follower): %s -> %s", f.ID, o, a.Resp))
						if a.Resp.OK {
							return &fail{Sig: "follower-ok", What: fmt.Sprintf("%s on a follower succeeded", o), Log: r.Log}
						}
						if k := l.Commands() - before; k != 0 {
							return &fail{Sig: "follower-log", What: fmt.Sprintf("%s on a follower was replicated", o), Log: r.Log}
						}
					}
					c.E.Sleep(250 * time.Millisecond)
					if d := agree(c, r.Log); d != nil {
						return d
					}
				}
				return divFail(r.Drain(), r.Log)
			})
		})
	}}
}

func agree(c *rsys.Cluster, log []string) *fail {
	want, from := "", ""
	for _, n := range c.Nodes {
		if !n.Up {
			continue
		}
		s := n.Figures()
		if from == "" {
			want, from = s, n.ID
		} else if s != want {
			return &fail{Sig: "replicas", What: fmt.Sprintf("%s has %s; %s has %s", from, want, n.ID, s), Log: log}
		}
	}
	return nil
}

// faultItem: while a command is under way, at every network write in turn, the leader is cut
// off or crashes, or every link fails until it has stepped down.
func faultItem(name, typ string, op qsys.Op, mode string) core.Item {
	u := apiUniverse([]string{"delayed", "fair"}, []string{"a"}, []qsys.Prio{qsys.P(1)}, []string{"q"})
	init := []qsys.Op{{K: "create", Q: "q", T: typ}, {K: "enq", Q: "q", G: "a", P: qsys.P(1)}, {K: "enq", Q: "q", G: "b", P: qsys.P(2)}, {K: "deq", Q: "q"}}
	return core.Item{Name: name, Run: func(ir *core.ItemRun) {
		for k := 1; ; k++ {
			hit := false
			run := func() *fail {
				return runCluster(3, u.P, func(c *rsys.Cluster) *fail {
					l := c.Nodes[0]
					r := u.NewRun(c.E, l.World())
					for _, o := range init {
						if d := r.Step(o); d != nil {
							return divFail(d, r.Log)
						}
					}
					c.E.Sleep(200 * time.Millisecond)
					net := vnet.Of(c.E)
					var x qsys.Issued
					done := false
					seen := 0
					now := false
					event := func() {
						seen++
						if seen == k && !done {
							now = true
							switch mode { // at this very write
							case "cut":
								net.Cut(func(a, b int) bool { return (a == l.G) != (b == l.G) })
							case "blip":
								net.Cut(func(a, b int) bool { return a != b })
							}
						}
					}
					switch mode {
					case "cut", "blip", "crash-net":
						net.OnWrite = func(from, to int) { event() }
					case "crash-store":
						c.E.OnStore = func(k string) error {
							if k != "get" && k != "value" && c.E.Group() == l.G {
								event()
							}
							return nil
						}
					}
					t := l.Spawn("cmd", func() { x = r.Issue(op); done = true })
					c.E.Block("wait", func() bool { return now || t.Done() })
					net.OnWrite, c.E.OnStore = nil, nil
					hit = now
					if now && mode != "cut" && mode != "blip" {
						l.Crash()
						r.Log = append(r.Log, fmt.Sprintf("n1 crashes at event %d of %s", k, op))
					}
					if !now {
						r.Log = append(r.Log, fmt.Sprintf("n1: %s -> %s", op, x.Resp))
						return divFail(r.Judge(op, x), r.Log)
					}
					if mode == "blip" {
						// nobody reaches anybody until the leader has stepped down; then all is well again
						if !c.Wait(30*time.Second, func() bool { return !l.N.IsLeader() }) {
							return &fail{Sig: "no-stepdown", What: "a leader that reaches nobody for 30 s is still leader", Log: r.Log}
						}
						net.Cut(nil)
						if !c.Wait(30*time.Second, func() bool { return done }) {
							return &fail{Sig: "hang", What: fmt.Sprintf("%s did not return within 30 s after a short interruption", op), Log: r.Log}
						}
						r.Log = append(r.Log, fmt.Sprintf("the network fails at write %d of %s until n1 has stepped down -> %s", k, op, x.Resp))
					}
					if mode == "cut" && !c.Wait(30*time.Second, func() bool { return done }) {
						return &fail{Sig: "hang", What: fmt.Sprintf("%s did not return within 30 s after the leader was cut off", op), Log: r.Log}
					}
					if mode == "cut" {
						r.Log = append(r.Log, fmt.Sprintf("n1 is cut off at network write %d of %s -> %s", k, op, x.Resp))
					}
					if mode != "blip" && !c.Wait(30*time.Second, func() bool { return c.Nodes[1].N.IsLeader() || c.Nodes[2].N.IsLeader() }) {
						return &fail{Sig: "no-leader", What: "the two other nodes have no leader after 30 s", Log: r.Log}
					}
					switch mode {
					case "cut":
						net.Cut(nil)
					case "crash-net", "crash-store":
						l.Start()
					}
					var nl *rsys.Node
					ok := c.Wait(30*time.Second, func() bool {
						nl = c.Leader()
						if nl == nil {
							return false
						}
						for _, n := range c.Nodes {
							if n != nl && n.N.IsLeader() || n.N.Leader() != host(nl.Addr) {
								return false
							}
						}
						return true
					})
					if !ok {
						return &fail{Sig: "no-leader", What: "the nodes do not agree on a leader 30 s after the fault", Log: r.Log}
					}
					c.E.Sleep(time.Second)
					if f := agree(c, r.Log); f != nil {
						return f
					}
					// either the command was applied, or (unless it succeeded) it was not
					w := nl.World()
					r.W = w
					if done && x.Resp.OK {
						if d := r.Judge(op, x); d != nil {
							return divFail(d, r.Log)
						}
						r.Log = append(r.Log, "-- on the new leader, applied --")
						return divFail(r.Drain(), r.Log)
					}
					return eitherWay(r, op, x)
				})
			}
			f := run()
			ir.Ran()
			ir.Count("states", 1)
			ir.Count("transitions", 1)
			if f != nil {
				ir.Report(f.Sig, f.What, fmt.Sprintf("%s at event %d", name, k), f.Log, k, func() bool {
					f2 := run()
					return f2 != nil && f2.Sig == f.Sig
				})
				return
			}
			if !hit || ir.OutOfTime() {
				ir.Count("fault_points", int64(k-1))
				return
			}
		}
	}}
}

// eitherWay: an op whose answer is lost or an error was applied once or not at all; what the
// queue holds must fit one of the two. The op's own id is unknown when it is an enqueue.
func eitherWay(r *qsys.Run, op qsys.Op, x qsys.Issued) *fail {
	q := r.M.Q("q")
	var lo, hi int
	in, err := nodeInfo(r)
	switch op.K {
	case "delete":
		if err != nil {
			return nil
		}
		lo, hi = 2, 2
	case "enq":
		lo, hi = 2, 3
	case "deqa", "ack":
		lo, hi = 1, 2
	default:
		lo, hi = 2, 2
	}
	if op.K == "create" {
		return divFail(r.Drain(), r.Log)
	}
	if err != nil || int(in.Total) < lo || int(in.Total) > hi {
		return &fail{Sig: "either-way", What: fmt.Sprintf("after %s, which reported no success, the queue holds %v (error %v), expected %d to %d messages", op, in, err, lo, hi), Log: r.Log}
	}
	// take everything: each message at most once, nothing unknown but the enqueued one
	r.W.E.Sleep(50 * time.Second)
	got := map[uint64]bool{}
	for i := 0; i < int(in.Total); i++ {
		a := r.W.Dequeue("q", true)
		r.Log = append(r.Log, "dequeue auto-ack -> "+a.String())
		if !a.OK || got[a.ID] || (q.Msgs[a.ID] == nil && !(op.K == "enq" && a.Content == "\"quoted\" \\ \n")) {
			return &fail{Sig: "either-way", What: fmt.Sprintf("after %s, which reported no success, the queue delivers %s", op, a), Log: r.Log}
		}
		got[a.ID] = true
		if m := q.Msgs[a.ID]; m != nil && (a.Content != m.Content || a.Group != m.Group || (a.Prio != m.Prio && op.K != "upd")) {
			return &fail{Sig: "either-way", What: fmt.Sprintf("the queue delivers %s, expected %s", a, m), Log: r.Log}
		}
	}
	if a := r.W.Dequeue("q", true); a.OK {
		return &fail{Sig: "either-way", What: fmt.Sprintf("the queue delivers %s beyond its %d messages", a, in.Total), Log: r.Log}
	}
	return nil
}

func nodeInfo(r *qsys.Run) (*queue.QueueInfo, error) {
	q, err := r.W.QM.GetQueue("q")
	if err != nil {
		return nil, err
	}
	return q.GetStats(), nil
}

func host(addr string) string { h, _, _ := strings.Cut(addr, ":"); return h }
