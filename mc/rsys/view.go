package rsys

import (
	"fmt"
	"time"

	"vmc/core"
	"vmc/qsys"
	"vmc/sched"
	vnet "vmc/v/vnet"
)

// LeaderView: after every change of the cluster every connected node names the leader (or
// none), and a node never names one that it knows has gone.
func LeaderView(depth int) core.Item {
	return core.Item{Name: "who the nodes say leads", Run: func(ir *core.ItemRun) {
		Enumerate(ir, func(ch *Choices) (out *core.ItemFail) {
			e := &sched.Exec{}
			var log []string
			f := Run(e, qsys.Params{AckTimeout: 600, Interval: 60, Window: 1}, 3, func(c *Cluster) {
				for i, n := range c.Nodes {
					n.Start()
					if i > 0 {
						c.Nodes[0].N.Join(n.ID, n.Addr)
					}
				}
				c.E.Sleep(time.Second)
				net := vnet.Of(e)
				var off *Node
				crashed := false
				check := func() bool {
					l := 0
					for _, n := range c.Nodes {
						if n.Up && n != off && n.N.IsLeader() {
							l = n.G
						}
					}
					for _, n := range c.Nodes {
						if !n.Up || n == off {
							continue
						}
						want := ""
						if l > 0 {
							want = fmt.Sprintf("10.0.0.%d", l)
						}
						if got := n.N.Leader(); got != want {
							out = &core.ItemFail{Sig: "leader-view", What: fmt.Sprintf("%s says the leader is %q, it is %q", n.ID, got, want), Log: log}
							return false
						}
					}
					return l > 0
				}
				settle := func() bool {
					if !c.Wait(30*time.Second, func() bool {
						for _, n := range c.Nodes {
							if n.Up && n != off && n.N.IsLeader() {
								return true
							}
						}
						return false
					}) {
						out = &core.ItemFail{Sig: "no-leader", What: "no leader after 30 s", Log: log}
						return false
					}
					// heartbeats tell the followers within their interval
					e.Sleep(400 * time.Millisecond)
					return check() || out == nil
				}
				if !settle() || out != nil {
					return
				}
				for i := 0; i < depth; i++ {
					l := c.Leader()
					k := ch.Pick(4)
					if off != nil && k < 3 { // one fault at a time
						if crashed {
							off.Start()
						} else {
							net.Cut(nil)
						}
						off = nil
						e.Sleep(3 * time.Second)
						l = c.Leader()
						if l == nil {
							out = &core.ItemFail{Sig: "no-leader", What: "no leader 3 s after the nodes were joined again", Log: log}
							return
						}
					}
					switch k {
					case 0, 1:
						off, crashed = l, k == 0
						log = append(log, l.ID+core.If(crashed, " crashes", " is cut off"))
						if crashed {
							l.Crash()
						} else {
							net.Cut(func(a, b int) bool { return (a == off.G) != (b == off.G) })
						}
					case 2:
						log = append(log, "leadership is handed over")
						l.N.Raft.LeadershipTransfer().Error()
					case 3:
						log = append(log, "a second passes")
						e.Sleep(time.Second)
					}
					if !settle() || out != nil {
						return
					}
					if off != nil && !crashed {
						e.Sleep(2 * time.Second) // past every lease
						if got := off.N.Leader(); got != "" || off.N.IsLeader() {
							out = &core.ItemFail{Sig: "leader-view-off", What: fmt.Sprintf("%s, cut off for 2 s, says the leader is %q", off.ID, got), Log: log}
							return
						}
					}
				}
			})
			if f != nil && out == nil {
				out = &core.ItemFail{Sig: f.Kind, What: f.Kind + ": " + f.Msg, Log: log}
			}
			return out
		})
	}}
}
