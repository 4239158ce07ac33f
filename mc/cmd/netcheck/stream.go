package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"time"

	dgrpc "github.com/kgantsov/doq/pkg/grpc"
	"github.com/kgantsov/doq/pkg/http"
	pb "github.com/kgantsov/doq/pkg/proto"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/prometheus/client_golang/prometheus"
	"google.golang.org/grpc"

	"vmc/core"
	"vmc/explore"
	"vmc/qsys"
	"vmc/sched"
)

// C18 and the consumer part of C28: the real streaming server under every schedule of
// producers and of consumers that arrive, are slow, stall and leave.

// lister is a node whose queues are plain lists.
type lister struct {
	e     *sched.Exec
	next  uint64
	lists map[string][]*queue.Message
	taken []take
	given map[uint64]given // accepted messages
	bad   map[string]bool  // contents that are refused
	w     *qsys.World      // the real state machine instead of the lists
	busy  bool
}

type given struct {
	q  string
	m  queue.Message
	at int64
}

type take struct {
	q      string
	m      *queue.Message
	ack    bool
	thread int
	at     int64
}

func (n *lister) lock() {
	n.e.Point("node")
	n.e.Block("node", func() bool { return !n.busy })
	n.busy = true
}

func (n *lister) Enqueue(q, g string, p int64, c string) (*queue.Message, error) {
	n.lock()
	defer func() { n.busy = false }()
	if n.bad[c] {
		return nil, errors.New("refused")
	}
	n.next++
	m := queue.Message{ID: 1<<62 + n.next, Group: g, Priority: p, Content: c}
	if n.w != nil {
		r := n.w.Enqueue(q, m.ID, g, p, c)
		if !r.OK {
			return nil, errors.New(r.Err)
		}
		m.Group = r.Group
	} else {
		m.Group += "'" // a node may answer with a group of its own
		x := m
		n.lists[q] = append(n.lists[q], &x)
	}
	n.given[m.ID] = given{q, m, n.e.NowNanos()}
	y := m
	return &y, nil
}

func (n *lister) Dequeue(q string, ack bool) (*queue.Message, error) {
	n.lock()
	defer func() { n.busy = false }()
	var m *queue.Message
	if n.w != nil {
		r := n.w.Dequeue(q, ack)
		if !r.OK {
			return nil, errors.New(r.Err)
		}
		m = &queue.Message{ID: r.ID, Group: r.Group, Priority: r.Prio, Content: r.Content}
	} else {
		if len(n.lists[q]) == 0 {
			return nil, errors.New("empty")
		}
		m = n.lists[q][0]
		n.lists[q] = n.lists[q][1:]
	}
	x := *m
	n.taken = append(n.taken, take{q, &x, ack, n.e.CurID(), n.e.NowNanos()})
	return m, nil
}

func (n *lister) GenerateID() uint64                            { n.next++; return n.next }
func (n *lister) Join(string, string) error                     { return nil }
func (n *lister) PrometheusRegistry() prometheus.Registerer     { return nil }
func (n *lister) Leader() string                                { return "" }
func (n *lister) IsLeader() bool                                { return true }
func (n *lister) CreateQueue(string, string) error              { return nil }
func (n *lister) DeleteQueue(string) error                      { return nil }
func (n *lister) GetQueues() []*queue.QueueInfo                 { return nil }
func (n *lister) GetQueueInfo(string) (*queue.QueueInfo, error) { return nil, errors.New("none") }
func (n *lister) Ack(string, uint64) error                      { return nil }
func (n *lister) Nack(string, uint64) error                     { return nil }
func (n *lister) GetByID(uint64) (*queue.Message, error)        { return nil, nil }
func (n *lister) UpdatePriority(string, uint64, int64) error    { return nil }

var _ http.Node = (*lister)(nil)

// oddPrio is a priority of its own, one that no float holds.
func oddPrio(c string) int64 { return -(1<<53 + 1) - 2*int64(len(c)) - 100*int64((c + " ")[0]) }

type consumer struct {
	q      string
	ack    bool
	leaves bool          // is cancelled by a thread of its own, at any point
	slow   time.Duration // each Send takes so long
	stall  int           // this Send (from 1) does not return until the consumer leaves
	fails  int           // this Send fails: the connection broke

	ctx      context.Context
	cancel   func()
	sent     []sentMsg
	tries    int
	thread   *sched.Thread
	started  int64
	left     int64 // when it was cancelled or broke
	returned int64
	after    bool // a send began after the call returned
}

type sentMsg struct {
	r  *pb.DequeueResponse
	at int64
}

type outStream struct {
	grpc.ServerStream
	e *sched.Exec
	c *consumer
}

func (s *outStream) Context() context.Context { return s.c.ctx }

func (s *outStream) Send(r *pb.DequeueResponse) error {
	c := s.c
	c.tries++
	k := c.tries
	if c.returned != 0 {
		c.after = true
	}
	c.sent = append(c.sent, sentMsg{&pb.DequeueResponse{Success: r.Success, Id: r.Id, Group: r.Group, Priority: r.Priority, Content: r.Content}, s.e.NowNanos()})
	s.e.Point("send")
	if c.slow > 0 {
		s.e.Sleep(c.slow)
	}
	if k == c.stall {
		s.e.Block("stalled send", func() bool { return c.ctx.Err() != nil })
	}
	if k == c.fails && c.left == 0 {
		c.left = s.e.NowNanos()
	}
	if k == c.fails || c.ctx.Err() != nil {
		return errors.New("the stream is broken")
	}
	return nil
}

type inStream struct {
	grpc.ServerStream
	e    *sched.Exec
	reqs []*pb.EnqueueRequest
	out  []*pb.EnqueueResponse
}

func (s *inStream) Context() context.Context { return context.Background() }
func (s *inStream) Recv() (*pb.EnqueueRequest, error) {
	s.e.Point("recv")
	if len(s.reqs) == 0 {
		return nil, io.EOF
	}
	r := s.reqs[0]
	s.reqs = s.reqs[1:]
	return r, nil
}
func (s *inStream) Send(r *pb.EnqueueResponse) error {
	s.out = append(s.out, r)
	return nil
}

type streamScn struct {
	name      string
	before    int // messages enqueued before anything else
	consumers []consumer
	producers [][]string // contents, of queue q ("r/..." of queue r); "!..." is refused; a leading "stream" sends them on one stream
	pause     time.Duration
	arriving  bool // the consumers connect while the producers are at work; otherwise they are waiting already
	real      bool // over the real state machine
	typ       string
	long      bool // many messages: fewer preemptions
}

type streamFail struct {
	sig, what string
	left      bool // what a consumer left behind
}

func (s *streamScn) run(p *explore.Path, stmts bool) (bad *streamFail, log, trace []string) {
	e := &sched.Exec{MaxSteps: 60000, Trace: p != nil && p.Record}
	n := &lister{e: e, lists: map[string][]*queue.Message{}, given: map[uint64]given{}, bad: map[string]bool{}}
	cs := make([]*consumer, len(s.consumers))
	for i := range s.consumers {
		c := s.consumers[i]
		cs[i] = &c
	}
	set := func(sig, f string, a ...any) {
		if bad == nil {
			bad = &streamFail{sig: sig, what: fmt.Sprintf(f, a...)}
		}
	}
	say := func(f string, a ...any) {
		log = append(log, fmt.Sprintf("%.3f ", float64(e.NowNanos()-sched.Epoch*1e9)/1e9)+fmt.Sprintf(f, a...))
	}
	fl := e.Run(func() {
		qsys.SleepMs(e, 500)
		if s.real {
			db := qsys.GetDB()
			defer qsys.PutDB(db)
			n.w = qsys.NewWorld(e, db, qsys.Params{AckTimeout: 600, Interval: 100, Window: 1})
			n.w.Create(s.typ, "q")
			n.w.Create(s.typ, "r")
		}
		srv := dgrpc.NewQueueServer(n, 0)
		idle := len(e.AliveThreads())
		enqueue := func(c string) {
			q := "q"
			if len(c) > 2 && c[:2] == "r/" {
				q = "r"
			}
			if c[0] == '!' {
				n.bad[c] = true
			}
			t0 := e.NowNanos()
			r, err := srv.Enqueue(context.Background(), &pb.EnqueueRequest{QueueName: q, Group: "g \"" + c, Priority: oddPrio(c), Content: c})
			if (err != nil) != (c[0] == '!') {
				set("enqueue", "enqueue of %q: %v", c, err)
			} else if err == nil && (r.Id == 0 || r.Content != c || n.given[r.Id].m.Content != c || !r.Success || r.Group != n.given[r.Id].m.Group || (n.w == nil && r.Group != "g \""+c+"'") || r.Priority != oddPrio(c)) {
				set("enqueue", "enqueue of %q answers %v", c, r)
			}
			if d := e.NowNanos() - t0; d > int64(10*time.Second) {
				set("producer-blocked", "enqueue of %q took %v", c, time.Duration(d))
			}
			say("enqueue %s returned", c)
		}
		for k := 0; k < s.before; k++ {
			enqueue(fmt.Sprintf("before%d", k))
		}
		arrive := func(i int, c *consumer) {
			ctx, cancel := context.WithCancel(context.Background())
			c.ctx = ctx
			c.cancel = func() {
				if c.left == 0 {
					c.left = e.NowNanos()
				}
				cancel()
				say("consumer %d leaves", i)
			}
			c.started = e.NowNanos()
			c.thread = sched.GoNamed(fmt.Sprintf("consumer%d", i), func() {
				srv.DequeueStream(&pb.DequeueRequest{QueueName: c.q, Ack: c.ack}, &outStream{e: e, c: c})
				c.returned = e.NowNanos()
			})
		}
		for i, c := range cs {
			arrive(i, c)
		}
		if !s.arriving {
			e.Sleep(0) // they are connected and waiting
		}
		e.StmtPoints = stmts
		if p != nil {
			e.Chooser = p
		}
		var ts []*sched.Thread
		for k, cont := range s.producers {
			cont := cont
			ts = append(ts, sched.GoNamed(fmt.Sprintf("producer%d", k), func() {
				if cont[0] == "stream" {
					in := &inStream{e: e}
					for _, c := range cont[1:] {
						in.reqs = append(in.reqs, &pb.EnqueueRequest{QueueName: "q", Group: "g \"" + c, Priority: oddPrio(c), Content: c})
					}
					t0 := e.NowNanos()
					err := srv.EnqueueStream(in)
					if err != nil || len(in.out) != len(cont)-1 {
						set("enqueue-stream", "the stream of %v ends with %v and %d answers", cont[1:], err, len(in.out))
					}
					for i, r := range in.out {
						if c := cont[1+i]; r.Content != c || n.given[r.Id].m.Content != c || !r.Success || r.Group != n.given[r.Id].m.Group || r.Priority != oddPrio(c) {
							set("enqueue-stream", "answer %d of the stream of %v is %v", i, cont[1:], r)
						}
					}
					if d := e.NowNanos() - t0; d > int64(10*time.Second)*int64(len(cont)) {
						set("producer-blocked", "the stream of %v took %v", cont[1:], time.Duration(d))
					}
					return
				}
				for _, c := range cont {
					enqueue(c)
					if s.pause > 0 {
						e.Sleep(s.pause)
					}
				}
			}))
		}
		for i, c := range cs {
			if c.leaves {
				c := c
				ts = append(ts, sched.GoNamed(fmt.Sprintf("leaver%d", i), func() { c.cancel() }))
			}
		}
		all := func() bool {
			for _, t := range ts {
				if !t.Done() {
					return false
				}
			}
			return true
		}
		for k := 0; k < 400 && !all(); k++ {
			e.Sleep(100 * time.Millisecond)
		}
		if !all() {
			set("producer-blocked", "a producer has not returned after 40 s")
			return
		}
		e.Chooser, e.StmtPoints = nil, false
		e.Sleep(12 * time.Second)
		say("12 s after the producers")
		for i, c := range cs {
			if c.returned != 0 && c.left == 0 {
				set("ended", "the call of consumer %d ended while it was connected", i)
			}
		}
		n.judge(s, cs, set)
		if bad != nil {
			return
		}
		// everyone leaves
		for _, c := range cs {
			if c.left == 0 || c.ctx.Err() == nil {
				c.cancel()
			}
		}
		e.Sleep(5 * time.Second)
		for i, c := range cs {
			if !c.thread.Done() {
				set("stream-stuck", "the call of consumer %d has not returned 5 s after it left", i)
				return
			}
			if c.after {
				set("send-after", "consumer %d was sent a message after its call returned", i)
			}
			for _, t := range n.taken {
				if t.thread == c.thread.ID && t.at > c.left {
					set("take-after", "%q was taken for consumer %d, %v after it left", t.m.Content, i, time.Duration(t.at-c.left))
				}
			}
		}
		if len(n.taken) != total(cs) {
			set("lost", "%d messages were taken from the queues, %d sent", len(n.taken), total(cs))
		}
		if bad != nil {
			return
		}
		// nothing is left of them
		t0 := e.NowNanos()
		enqueue("last")
		enqueue("r/last")
		if d := e.NowNanos() - t0; d > 0 {
			bad = &streamFail{"left-registered", fmt.Sprintf("with no consumer connected, two enqueues took %v", time.Duration(d)), true}
		}
		if n.w == nil {
			e.Sleep(3 * time.Second)
			if a := e.AliveThreads(); len(a) != idle {
				bad = &streamFail{"left-running", fmt.Sprintf("after every consumer left these still run: %v", a), true}
			} else if t := e.PendingTimers(); len(t) != 0 {
				bad = &streamFail{"left-timers", fmt.Sprintf("after every consumer left these timers remain: %v", t), true}
			}
		}
	})
	if fl != nil {
		bad = &streamFail{sig: fl.Kind, what: fl.Kind + ": " + fl.Msg}
	}
	for i, c := range cs {
		x := fmt.Sprintf("consumer %d got", i)
		for _, m := range c.sent {
			x += fmt.Sprintf(" %q@%.3f", m.r.Content, float64(m.at-sched.Epoch*1e9)/1e9)
		}
		log = append(log, x)
	}
	return bad, log, e.TraceLog
}

func total(cs []*consumer) int {
	k := 0
	for _, c := range cs {
		k += len(c.sent)
	}
	return k
}

func (n *lister) judge(s *streamScn, cs []*consumer, set func(sig, f string, a ...any)) {
	seen := map[uint64]int{}
	for i, c := range cs {
		for _, x := range c.sent {
			g, ok := n.given[x.r.Id]
			if !ok || g.q != c.q || g.m.Content != x.r.Content || g.m.Group != x.r.Group || g.m.Priority != x.r.Priority || !x.r.Success {
				set("wrong-message", "consumer %d of %s was sent %v, the message is %+v of %s", i, c.q, x.r, g.m, g.q)
			}
			seen[x.r.Id]++
		}
		for _, t := range n.taken {
			if t.thread == c.thread.ID && (t.q != c.q || t.ack != c.ack) {
				set("wrong-take", "for consumer %d of %s (ack %v) the node was asked for %s (ack %v)", i, c.q, c.ack, t.q, t.ack)
			}
		}
	}
	for id, g := range n.given {
		if seen[id] > 1 {
			set("twice", "%q was sent %d times", g.m.Content, seen[id])
		}
		var able *consumer
		all := true
		for _, c := range cs {
			if c.q == g.q && c.left == 0 && c.stall == 0 && c.thread != nil {
				able = c
			} else if c.q == g.q {
				all = false
			}
		}
		if able == nil {
			continue
		}
		if seen[id] == 0 {
			set("not-sent", "%q was not sent to anyone although a consumer of %s is connected", g.m.Content, g.q)
			continue
		}
		if all {
			var slow time.Duration
			for _, c := range cs {
				slow += c.slow
			}
			from := g.at
			if able.started > from {
				from = able.started
			}
			for _, c := range cs {
				for _, x := range c.sent {
					if x.r.Id == id && x.at-from > int64(4*time.Second+time.Duration(len(n.given))*slow) {
						set("late", "%q was sent %v after it was enqueued", g.m.Content, time.Duration(x.at-from))
					}
				}
			}
		}
	}
}

func streamScenarios(th bool) []*streamScn {
	q := consumer{q: "q"}
	with := func(f func(c *consumer)) consumer { c := q; f(&c); return c }
	ackC := with(func(c *consumer) { c.ack = true })
	leaver := with(func(c *consumer) { c.leaves = true })
	stalled := with(func(c *consumer) { c.stall = 1; c.leaves = false })
	stallLeave := with(func(c *consumer) { c.stall = 1; c.leaves = true })
	slow1 := with(func(c *consumer) { c.slow = time.Second })
	slowH := with(func(c *consumer) { c.slow = 300 * time.Millisecond })
	fail1 := with(func(c *consumer) { c.fails = 1 })
	fail2 := with(func(c *consumer) { c.fails = 2; c.ack = true })
	other := consumer{q: "r", ack: true}
	var out []*streamScn
	add := func(name string, cs []consumer, ps ...[]string) *streamScn {
		s := &streamScn{name: name, consumers: cs, producers: ps}
		out = append(out, s)
		return s
	}
	one, two := []string{"a"}, []string{"a", "b"}
	add("one consumer, one producer of two", []consumer{q}, two)
	add("one consumer, two producers", []consumer{ackC}, one, []string{"b"})
	add("one consumer, a producing stream", []consumer{ackC}, []string{"stream", "a", "b"})
	add("two consumers, one producer of two", []consumer{q, ackC}, two)
	add("two consumers, two producers", []consumer{q, q}, one, []string{"b"})
	add("backlog, one consumer", []consumer{ackC}, one).before = 2
	add("backlog, two consumers", []consumer{q, q}, one).before = 3
	add("backlog, slow consumer", []consumer{slow1}, two).before = 1
	for _, k := range []int{8, 9} { // a long backlog must not trickle
		s := add(fmt.Sprintf("long backlog of %d, one consumer", k), []consumer{ackC}, one)
		s.before = k
		s = add(fmt.Sprintf("long backlog of %d, two consumers", k), []consumer{q, q}, one)
		s.before = k
	}
	for _, k := range []int{70, 150} { // ... nor end the stream
		s := add(fmt.Sprintf("long backlog of %d, one consumer", k), []consumer{ackC}, two)
		s.before, s.long = k, true
		if th {
			s = add(fmt.Sprintf("long backlog of %d, two consumers", k), []consumer{q, q}, one)
			s.before, s.long = k, true
		}
	}
	add("two queues", []consumer{q, other}, []string{"a", "r/b"}, []string{"r/c"})
	add("refused messages", []consumer{q}, []string{"!x", "a", "!y"})
	add("a consumer leaves", []consumer{leaver}, two)
	add("one of two leaves", []consumer{leaver, q}, two)
	add("one of two leaves, two producers", []consumer{q, leaver}, one, []string{"b"})
	add("both leave", []consumer{leaver, leaver}, one)
	add("stalled beside a good one", []consumer{stalled, q}, []string{"a", "b", "c"})
	add("good beside a stalled one", []consumer{q, stalled}, []string{"a", "b", "c"})
	add("stalled leaves", []consumer{stallLeave, q}, two)
	add("slow beside a good one", []consumer{slow1, q}, []string{"a", "b", "c"})
	add("slow by exactly the time-out", []consumer{slow1}, []string{"a", "b", "c"})
	add("slow producer, slow consumer", []consumer{slowH}, []string{"a", "b", "c"}).pause = 350 * time.Millisecond
	add("producer at every tick", []consumer{q, q}, two).pause = time.Second
	add("a connection breaks", []consumer{fail1, q}, two)
	add("a connection breaks at the second", []consumer{fail2, q}, []string{"a", "b", "c"})
	add("backlog and a connection breaks", []consumer{fail1, q}, one).before = 2
	if th {
		add("three consumers", []consumer{q, ackC, q}, two)
		add("three consumers, one stalled, one leaving", []consumer{stalled, q, leaver}, two)
		add("three producers", []consumer{q}, one, []string{"b"}, []string{"c"})
		add("stream and producer", []consumer{q, leaver}, []string{"stream", "a", "b"}, []string{"c"})
		add("all leave, two producers", []consumer{leaver, leaver}, one, []string{"b"})
		add("slow ones leave", []consumer{with(func(c *consumer) { c.slow = time.Second; c.leaves = true }), q}, []string{"a", "b", "c"})
		add("two queues, one leaves", []consumer{leaver, other}, []string{"a", "r/b"}, []string{"r/c", "d"})
		add("stalled on both", []consumer{stalled, stallLeave, q}, two)
	}
	for _, x := range append([]*streamScn{}, out...) {
		y := *x
		y.name += ", arriving"
		y.arriving = true
		out = append(out, &y)
	}
	for _, typ := range []string{"delayed", "fair"} {
		for _, x := range []*streamScn{
			{name: "real " + typ + " queue, one consumer", consumers: []consumer{ackC}, producers: [][]string{two}},
			{name: "real " + typ + " queue, two consumers", consumers: []consumer{q, q}, producers: [][]string{one, {"b"}}, before: 1},
			{name: "real " + typ + " queue, one leaves", consumers: []consumer{leaver, ackC}, producers: [][]string{two}, before: 1},
		} {
			x.real, x.typ = true, typ
			out = append(out, x)
		}
	}
	return out
}

func streamItem(s *streamScn, bound, free int, stmts, left bool) core.Item {
	return core.Item{Name: fmt.Sprintf("%s (%s, preemptions %d, other %d)", s.name, core.If(stmts, "statements", "locks"), bound, free), Run: func(r *core.ItemRun) {
		roots := r.Prefixes
		if roots == nil {
			roots = [][]int{nil}
		}
		for i, root := range roots {
			x := &explore.Explorer{Bound: bound, Free: free, MaxRuns: 4000, Stop: r.Enough}
			stop := false
			rest, err := x.Run(root, func(p *explore.Path) bool {
				f, log, _ := s.run(p, stmts)
				r.Ran()
				r.Count("schedules", 1)
				r.Count("states", int64(len(p.Picks())))
				r.Count("transitions", int64(len(p.Picks())))
				if f == nil {
					return true
				}
				if f.left != left {
					r.Count("pruned_other", 1)
					return true
				}
				stop = true
				pk := p.Picks()
				q := explore.NewPath(pk)
				q.Record = true
				_, _, trace := s.run(q, stmts)
				r.Report(f.sig, f.what, s.name, append(log, explore.Switches(trace)...), pk, func() bool {
					f2, _, _ := s.run(explore.NewPath(pk), stmts)
					return f2 != nil && f2.sig == f.sig
				})
				return false
			})
			if err != nil {
				panic("harness: " + s.name + ": " + err.Error())
			}
			if stop {
				return
			}
			r.Rest(rest)
			if r.Enough() {
				r.Rest(roots[i+1:])
				return
			}
		}
	}}
}

func init() {
	for _, id := range []string{"C18", "C28streams"} {
		id := id
		core.RegisterItems(id, func(th bool) []core.Item {
			var its []core.Item
			for _, s := range streamScenarios(th) {
				b, f := core.If(th, 3, 2), core.If(th, 3, 2)
				if s.real {
					b, f = 1, core.If(th, 2, 1)
				}
				if s.long {
					b, f = core.If(th, 1, 0), core.If(th, 1, 0)
				}
				its = append(its, streamItem(s, b, f, false, id != "C18"))
				if !s.real && !s.long {
					its = append(its, streamItem(s, core.If(th, 2, 1), core.If(th, 2, 1), true, id != "C18"))
				}
			}
			return its
		})
	}
	checks["C18"] = func(c *core.Ctx, pool *core.Pool) { core.RunItems(c, pool) }
}
