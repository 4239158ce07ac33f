// Package rsys runs whole nodes - the real pkg/raft node over the real hashicorp/raft
// library, its TCP transport on a virtual network - under the controlled scheduler.
package rsys

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/dgraph-io/badger/v4"
	hraft "github.com/hashicorp/raft"
	badgerstore "github.com/kgantsov/doq/pkg/badger-store"
	"github.com/kgantsov/doq/pkg/config"
	"github.com/kgantsov/doq/pkg/raft"

	"vmc/qsys"
	"vmc/sched"
	vnet "vmc/v/vnet"
)

type Node struct {
	C    *Cluster
	G    int // group of its threads
	ID   string
	Addr string
	DB   *badger.DB
	Dir  string
	N    *raft.Node
	Up   bool
}

type Cluster struct {
	E     *sched.Exec
	P     qsys.Params
	Nodes []*Node
	dir   string
}

// Run executes body with n nodes (not started) in a fresh world.
func Run(e *sched.Exec, p qsys.Params, n int, body func(c *Cluster)) *sched.Failure {
	dir, err := os.MkdirTemp("", "rsys")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	c := &Cluster{E: e, P: p, dir: dir}
	for i := 0; i < n; i++ {
		db := qsys.GetDB()
		defer qsys.PutDB(db)
		c.Nodes = append(c.Nodes, &Node{C: c, G: i + 1, ID: fmt.Sprintf("n%d", i+1), Addr: fmt.Sprintf("10.0.0.%d:9000", i+1), DB: db, Dir: filepath.Join(dir, fmt.Sprint(i))})
	}
	if e.MaxSteps == 0 {
		e.MaxSteps = 3_000_000
	}
	return e.Run(func() { body(c) })
}

func (n *Node) config() *config.Config {
	cfg := n.C.P.Config()
	cfg.Cluster.NodeID = n.ID
	cfg.Raft.Address = n.Addr
	cfg.Http.Port = "8000"
	cfg.Prometheus.Enabled = n.C.P.Prometheus
	return cfg
}

// Start runs the node's own initialisation to its end.
func (n *Node) Start() {
	n.N = raft.NewNode(n.DB, n.Dir, n.config(), nil)
	n.Do("boot", func() { n.N.Initialize() })
	n.Up = true
}

// Do runs f on a thread of the node and waits for it.
func (n *Node) Do(name string, f func()) {
	t := n.Spawn(name, f)
	sched.Join(t)
}

func (n *Node) Spawn(name string, f func()) *sched.Thread {
	o := n.C.E.SetGroup(n.G)
	t := sched.GoNamed(fmt.Sprintf("%s.%s", n.ID, name), f)
	n.C.E.SetGroup(o)
	return t
}

// Crash ends everything of the node at once; its storage stays.
func (n *Node) Crash() {
	n.C.E.KillGroup(n.G)
	vnet.Of(n.C.E).Crash(n.G)
	n.Up = false
}

// Wait lets virtual time pass until cond holds, for at most d.
func (c *Cluster) Wait(d time.Duration, cond func() bool) bool {
	for t := time.Duration(0); ; t += 50 * time.Millisecond {
		if cond() {
			return true
		}
		if t >= d {
			return false
		}
		c.E.Sleep(50 * time.Millisecond)
	}
}

// Leader is the started node that is leader (the one of the highest term when there are two).
func (c *Cluster) Leader() *Node {
	for _, n := range c.Nodes {
		if n.Up && n.N.IsLeader() {
			return n
		}
	}
	return nil
}

// Commands counts the replicated commands in the node's log.
func (n *Node) Commands() int {
	st, err := badgerstore.New(n.DB, badgerstore.Options{})
	if err != nil {
		panic(err)
	}
	lo, _ := st.FirstIndex()
	hi, _ := st.LastIndex()
	k := 0
	for i := lo; i > 0 && i <= hi; i++ {
		var l hraft.Log
		if err := st.GetLog(i, &l); err == nil && l.Type == hraft.LogCommand {
			k++
		}
	}
	return k
}

// World makes the queue harness drive this node through its API.
func (n *Node) World() *qsys.World {
	w := &qsys.World{E: n.C.E, DB: n.DB, P: n.C.P, QM: n.N.QueueManager}
	w.API = n.N
	w.Reboot = func() {
		n.Crash()
		n.Start()
		n.C.Wait(10*time.Second, n.N.IsLeader)
		w.QM, w.API = n.N.QueueManager, n.N
	}
	return w
}

// Members is the configuration as the node knows it.
func (n *Node) Members() ([]hraft.Server, error) {
	f := n.N.Raft.GetConfiguration()
	if err := f.Error(); err != nil {
		return nil, err
	}
	return f.Configuration().Servers, nil
}

// Figures renders the queues of the node, without rates.
func (n *Node) Figures() string {
	s := ""
	for _, q := range n.N.GetQueues() {
		s += fmt.Sprintf("%q %s ready=%d unacked=%d total=%d; ", q.Name, q.Type, q.Ready, q.Unacked, q.Total)
	}
	return s
}

func init() { qsys.MaxUses = 20 }
