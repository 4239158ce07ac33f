package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"time"

	dgrpc "github.com/kgantsov/doq/pkg/grpc"
	pb "github.com/kgantsov/doq/pkg/proto"
	"github.com/kgantsov/doq/pkg/queue"

	"vmc/core"
	"vmc/rsys"
	"vmc/sched"
)

// The streaming calls as reports of what happened (C19).

// produce sends the requests on one stream; the node refuses those with a true in no.
func produce(reqs []call, msgs []queue.Message, no []bool) (f *fail) {
	e := &sched.Exec{MaxSteps: 100000}
	s := &stub{leader: true}
	s.on = func(call) error {
		i := len(s.calls) - 1
		if i >= len(reqs) {
			return errors.New("too many")
		}
		s.msg = msgs[i]
		if no[i] {
			return errors.New("refused")
		}
		return nil
	}
	in := &inStream{e: e}
	for _, r := range reqs {
		in.reqs = append(in.reqs, &pb.EnqueueRequest{QueueName: r.Q, Group: r.G, Priority: r.P, Content: r.C})
	}
	var err error
	done := false
	fl := e.Run(func() {
		srv := dgrpc.NewQueueServer(s, 0)
		t := sched.GoNamed("stream", func() { err = srv.EnqueueStream(in); done = true })
		sched.Join(t)
	})
	log := []string{fmt.Sprintf("requests %v", reqs), fmt.Sprintf("refused %v", no), fmt.Sprintf("commands %v", s.calls), fmt.Sprintf("answers %v, error %v", in.out, err)}
	bad := func(sig, f string, a ...any) *fail {
		return &fail{Sig: "stream-" + sig, What: fmt.Sprintf(f, a...), Log: log}
	}
	if fl != nil || !done {
		return bad("stuck", "the producing stream did not end: %v", fl)
	}
	want, refused := 0, false
	for i, c := range s.calls {
		if i >= len(reqs) || c != reqs[i] {
			return bad("calls", "command %d is %v, the requests are %v", i+1, c, reqs)
		}
		if no[i] {
			refused = true
		}
	}
	k := 0
	for i := range s.calls {
		if no[i] {
			if k < len(in.out) && !in.out[k].Success {
				k++ // reported in place
			} else if err == nil {
				return bad("failure-as-success", "request %d was refused and no failure was reported", i+1)
			}
			continue
		}
		want++
		if k >= len(in.out) || !in.out[k].Success {
			return bad("answers", "request %d was accepted and not answered so", i+1)
		}
		r, m := in.out[k], msgs[i]
		if r.Id != m.ID || r.Group != m.Group || r.Priority != m.Priority || r.Content != m.Content {
			return bad("answer", "answer %d is %v, the queue said %+v", k+1, r, m)
		}
		k++
	}
	if k != len(in.out) {
		return bad("answers", "%d requests were carried out, %d answered", len(s.calls), len(in.out))
	}
	if !refused && (err != nil || len(s.calls) != len(reqs)) {
		return bad("success-as-failure", "every request was accepted, %d of %d were carried out, the stream ends with %v", len(s.calls), len(reqs), err)
	}
	return nil
}

func produceItem(n int) core.Item {
	return core.Item{Name: fmt.Sprintf("producing streams of %d", n), Run: func(ir *core.ItemRun) {
		base := []call{{Op: "enq", Q: "q", G: "g", P: 5, C: "one"}, {Op: "enq", Q: "r/x", G: "", P: math.MaxInt64, C: ""}, {Op: "enq", Q: "q", G: "日本", P: -(1<<53 + 1), C: "{\"a\":1}"}, {Op: "enq", Q: "", G: "g", P: math.MinInt64, C: "x\x00\n"}}
		ms := []queue.Message{{ID: 1, Group: "default", Priority: 5, Content: "one"}, {ID: math.MaxUint64, Group: "norm", Priority: 0, Content: "c"}, {ID: 1<<53 + 1, Group: "", Priority: math.MinInt64, Content: ""}, {ID: 1 << 63, Group: "日本", Priority: math.MaxInt64, Content: "y"}}
		rsys.Enumerate(ir, func(ch *rsys.Choices) *fail {
			var rs []call
			var m []queue.Message
			var no []bool
			for i := 0; i < n; i++ {
				k := ch.Pick(len(base))
				rs, m = append(rs, base[k]), append(m, ms[(k+i)%len(ms)])
				no = append(no, ch.Pick(2) == 1)
			}
			return produce(rs, m, no)
		})
	}}
}

func produceValues() core.Item {
	return core.Item{Name: "every value on a producing stream", Run: func(ir *core.ItemRun) {
		var rs []call
		for _, w := range grpcValues() {
			if w.Op == "enq" {
				rs = append(rs, w)
			}
		}
		rsys.Enumerate(ir, func(ch *rsys.Choices) *fail {
			w := rs[ch.Pick(len(rs))]
			return produce([]call{w}, []queue.Message{{ID: math.MaxUint64, Group: "G" + w.C, Priority: w.P, Content: w.G}}, []bool{false})
		})
	}}
}

// consume gives the messages, one per dequeue, to one consumer; from gaps[i] the queue is
// empty until a second later.
func consume(q string, ack bool, msgs []queue.Message, gap int) *fail {
	e := &sched.Exec{MaxSteps: 200000}
	s := &stub{leader: true}
	given := 0
	var resume int64
	s.on = func(x call) error {
		if x.Op == "enq" {
			return nil
		}
		if given == gap && resume == 0 {
			resume = e.NowNanos() + int64(1500*time.Millisecond)
		}
		if given >= len(msgs) || given == gap && e.NowNanos() < resume {
			return errors.New("empty")
		}
		s.msg = msgs[given]
		given++
		return nil
	}
	c := &consumer{q: q, ack: ack}
	returned := false
	var done error
	fl := e.Run(func() {
		srv := dgrpc.NewQueueServer(s, 0)
		ctx, cancel := context.WithCancel(context.Background())
		c.ctx = ctx
		t := sched.GoNamed("consumer", func() {
			done = srv.DequeueStream(&pb.DequeueRequest{QueueName: q, Ack: ack}, &outStream{e: e, c: c})
			returned = true
		})
		// the consumer is also woken by enqueues, at moments between its ticks
		for k := 0; k < 10; k++ {
			e.Sleep(370 * time.Millisecond)
			srv.Enqueue(context.Background(), &pb.EnqueueRequest{QueueName: q, Group: "e", Priority: 3, Content: "wakes"})
		}
		e.Sleep(4300 * time.Millisecond)
		cancel()
		e.Sleep(2 * time.Second)
		_ = t
	})
	var log []string
	for _, x := range c.sent {
		log = append(log, fmt.Sprintf("sent %v", x.r))
	}
	if len(s.calls) > 5 {
		log = append(log, fmt.Sprintf("commands %v...", s.calls[:5]))
	}
	bad := func(sig, f string, a ...any) *fail {
		return &fail{Sig: "stream-" + sig, What: fmt.Sprintf(f, a...), Log: log}
	}
	if fl != nil {
		return bad(fl.Kind, "%s: %s", fl.Kind, fl.Msg)
	}
	if !returned {
		return bad("stuck", "the stream did not end after its consumer left (%v)", done)
	}
	for _, x := range s.calls {
		if x.Op == "enq" {
			continue
		}
		if x != (call{Op: "deq", Q: q, Ack: ack}) {
			return bad("calls", "the node was asked %v for a consumer of %q with ack %v", x, q, ack)
		}
	}
	if given != len(msgs) || len(c.sent) != len(msgs) {
		return bad("lost", "%d of %d messages were taken, %d sent within 8 s", given, len(msgs), len(c.sent))
	}
	for i, x := range c.sent {
		if m := msgs[i]; !x.r.Success || x.r.Id != m.ID || x.r.Group != m.Group || x.r.Priority != m.Priority || x.r.Content != m.Content {
			return bad("answer", "message %d was sent as %v, the queue said %+v", i+1, x.r, m)
		}
	}
	return nil
}

func consumeItem() core.Item {
	return core.Item{Name: "every value on a consuming stream", Run: func(ir *core.ItemRun) {
		var ms []queue.Message
		for _, id := range apiIDs {
			for _, p := range append(append([]int64{}, apiPrios...), negPrios...) {
				ms = append(ms, queue.Message{ID: id, Group: "g", Priority: p, Content: "c"})
			}
		}
		for _, t := range apiTexts {
			ms = append(ms, queue.Message{ID: 1, Group: t, Priority: 1, Content: "c"}, queue.Message{ID: 1, Group: "g", Priority: 1, Content: t})
		}
		rsys.Enumerate(ir, func(ch *rsys.Choices) *fail {
			i := ch.Pick(len(ms))
			return consume(apiNames[i%len(apiNames)], i%2 == 0, []queue.Message{ms[i], ms[(i*7+3)%len(ms)], {}}, i%4)
		})
	}}
}
