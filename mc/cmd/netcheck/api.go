package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net"
	"net/url"
	"strings"

	dgrpc "github.com/kgantsov/doq/pkg/grpc"
	pb "github.com/kgantsov/doq/pkg/proto"
	"github.com/kgantsov/doq/pkg/queue"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/test/bufconn"

	"vmc/core"
	"vmc/explore"
	"vmc/qsys"
	"vmc/rsys"
	"vmc/sched"
)

// C19: every command x outcome x edge value on both APIs against a node that records what it
// is asked, pairs of requests on one connection and concurrent ones, and histories on the real
// state machine through each API.

// grpcAPI is the unary part of the service: the server itself or a client connected to it.
type grpcAPI interface {
	do(c call) (ok bool, m *queue.Message, err error)
}

type direct struct{ s pb.DOQServer }
type remote struct{ c pb.DOQClient }

func (d direct) do(c call) (bool, *queue.Message, error) {
	ctx := context.Background()
	switch c.Op {
	case "create":
		r, err := d.s.CreateQueue(ctx, &pb.CreateQueueRequest{Name: c.Q, Type: c.T})
		return r.GetSuccess(), nil, err
	case "delete":
		r, err := d.s.DeleteQueue(ctx, &pb.DeleteQueueRequest{Name: c.Q})
		return r.GetSuccess(), nil, err
	case "enq":
		r, err := d.s.Enqueue(ctx, &pb.EnqueueRequest{QueueName: c.Q, Group: c.G, Priority: c.P, Content: c.C})
		return r.GetSuccess(), &queue.Message{ID: r.GetId(), Group: r.GetGroup(), Priority: r.GetPriority(), Content: r.GetContent()}, err
	case "deq":
		r, err := d.s.Dequeue(ctx, &pb.DequeueRequest{QueueName: c.Q, Ack: c.Ack})
		return r.GetSuccess(), &queue.Message{ID: r.GetId(), Group: r.GetGroup(), Priority: r.GetPriority(), Content: r.GetContent()}, err
	case "ack":
		r, err := d.s.Ack(ctx, &pb.AckRequest{QueueName: c.Q, Id: c.ID})
		return r.GetSuccess(), nil, err
	case "nack":
		r, err := d.s.Nack(ctx, &pb.NackRequest{QueueName: c.Q, Id: c.ID})
		return r.GetSuccess(), nil, err
	case "upd":
		r, err := d.s.UpdatePriority(ctx, &pb.UpdatePriorityRequest{QueueName: c.Q, Id: c.ID, Priority: c.P})
		return r.GetSuccess(), nil, err
	}
	panic("harness: " + c.Op)
}

// caller makes a client usable where a server is.
type caller struct {
	pb.UnimplementedDOQServer
	c pb.DOQClient
}

func (x caller) CreateQueue(ctx context.Context, r *pb.CreateQueueRequest) (*pb.CreateQueueResponse, error) {
	return x.c.CreateQueue(ctx, r)
}
func (x caller) DeleteQueue(ctx context.Context, r *pb.DeleteQueueRequest) (*pb.DeleteQueueResponse, error) {
	return x.c.DeleteQueue(ctx, r)
}
func (x caller) Enqueue(ctx context.Context, r *pb.EnqueueRequest) (*pb.EnqueueResponse, error) {
	return x.c.Enqueue(ctx, r)
}
func (x caller) Dequeue(ctx context.Context, r *pb.DequeueRequest) (*pb.DequeueResponse, error) {
	return x.c.Dequeue(ctx, r)
}
func (x caller) Ack(ctx context.Context, r *pb.AckRequest) (*pb.AckResponse, error) {
	return x.c.Ack(ctx, r)
}
func (x caller) Nack(ctx context.Context, r *pb.NackRequest) (*pb.NackResponse, error) {
	return x.c.Nack(ctx, r)
}
func (x caller) UpdatePriority(ctx context.Context, r *pb.UpdatePriorityRequest) (*pb.UpdatePriorityResponse, error) {
	return x.c.UpdatePriority(ctx, r)
}

// judgeG compares the answer to a gRPC request with what the node said.
func judgeG(want call, ok bool, m *queue.Message, err error, calls []call, nerr error, msg *queue.Message) *fail {
	bad := func(sig, f string, a ...any) *fail {
		return &fail{Sig: sig, What: fmt.Sprintf(f, a...), Log: []string{"gRPC " + want.String(), fmt.Sprintf("-> success %v, error %v", ok, err), fmt.Sprintf("commands: %v", calls), fmt.Sprintf("the node's outcome: %v", nerr)}}
	}
	if len(calls) != 1 {
		return bad("calls", "the request caused %d commands: %v", len(calls), calls)
	}
	if calls[0] != want {
		return bad("arguments", "the node was asked %v, the request says %v", calls[0], want)
	}
	if nerr != nil {
		if err == nil || ok {
			return bad("failure-as-success", "the command failed, the answer is success %v, error %v", ok, err)
		}
		return nil
	}
	if err != nil || !ok {
		return bad("success-as-failure", "the command succeeded, the answer is success %v, error %v", ok, err)
	}
	if m != nil && *m != *msg {
		return bad("answer", "the answer has %+v, the queue said %+v", *m, *msg)
	}
	return nil
}

var longName = strings.Repeat("n", 1024)

var apiNames = []string{
	"q", "Q", "qQ", "a b", "a/b", "a%b", "a%2Fb", "a%25", "%", "a+b", "a?b", "a#b", "a&b=c", "a;b", "a:b", ":id", "*", "a*b", "-", "_", "~", "a.b", ".a", "a,b", "a@b", "a$b", "a!b", "(a)", "[a]", "{a}", "'a'", "\"a\"", "\\", "a\\b", "|", "^", "`", "<a>",
	"ü", "日本語", "🙂", "é/%", "messages", "queues", "ack", "messages/1/ack", "a/messages", "  ", "\t", "a\nb", "\x01", "\u2028", "0", "123", "true", "null", longName[:200],
}

var apiIDs = []uint64{0, 1, 42, 1<<53 - 1, 1<<53 + 1, math.MaxInt64, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64, 1234567890123456789}
var apiPrios = []int64{0, 1, 10, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1<<53 - 1, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64}
var negPrios = []int64{-1, math.MinInt64, math.MinInt64 + 1, -(1<<53 + 1)}
var apiTexts = []string{
	"x", "", " ", "a b", "\"", "\"quoted\" \\ text", "\\", "\\n", "\n", "\r\n\t", "\x00", "\x01\x1f\x7f", "<script>&amp;</script>", "\u2028\u2029", "é", "日本語", "🙂🙂", "%41%2F", "+", "null", "123", "{\"user_id\": 1}", "[1,2]", "'", strings.Repeat("long ", 4000), "\uffff", "default",
}
var apiErrs = []error{errors.New("x"), queue.ErrQueueNotFound, queue.ErrEmptyQueue, queue.ErrMessageNotFound, context.DeadlineExceeded, errors.New("")}

func defMsg() queue.Message { return queue.Message{ID: 5, Group: "g", Priority: 3, Content: "c"} }

var someInfo = &queue.QueueInfo{Name: "q", Type: "fair", Stats: &queue.QueueStats{EnqueueRPS: 1.5, DequeueRPS: 2.25, NackRPS: 3.125, AckRPS: 4.0625}, Ready: 5, Unacked: 6, Total: 7}

// httpValues lists the requests with edge values.
func httpValues() []hreq {
	var out []hreq
	for _, q := range apiNames {
		out = append(out, hCreate("delayed", q), hCreate("fair", q), hDelete(q), hEnq(q, "g", 1, "c"), hDeq(q, true), hDeq(q, false), hAck(q, 7), hNack(q, 7), hUpd(q, 7, 9), hInfo(q))
	}
	out = append(out, hCreate("fair", longName), hDelete(longName), hDeq(longName, true), hInfo(longName))
	for _, id := range apiIDs {
		out = append(out, hAck("q", id), hNack("q", id))
		for _, p := range apiPrios {
			out = append(out, hUpd("q", id, p))
		}
	}
	for _, p := range apiPrios {
		out = append(out, hEnq("q", "g", p, "c"))
	}
	for _, t := range apiTexts {
		out = append(out, hEnq("q", "g", 1, t), hEnq("q", t, 1, "c"), hEnq("q", t, 2, t), hJoin(t, "h:1"), hJoin("n", t))
	}
	for _, a := range []struct {
		s string
		b bool
	}{{"true", true}, {"false", false}, {"1", true}, {"0", false}, {"t", true}, {"F", false}, {"True", true}} {
		r := hDeq("q", a.b)
		r.Path = qpath("q") + "/messages?ack=" + a.s
		out = append(out, r)
	}
	r := hDeq("q", false)
	r.Path = qpath("q") + "/messages"
	out = append(out, r)
	r = hEnq("q", "", 1, "c")
	r.Body = `{"priority":1,"content":"c"}`
	out = append(out, r)
	for _, b := range []string{" {\"content\" : \"c\", \"priority\":1 ,\n\"group\":\"g\"}", `{"content":"\u0063","priority":1,"group":"\u0067"}`} {
		r := hEnq("q", "g", 1, "c")
		r.Body = b
		out = append(out, r)
	}
	// over the documented limits: refused, or carried out exactly
	for _, p := range negPrios {
		for _, r := range []hreq{hEnq("q", "g", p, "c"), hUpd("q", 7, p)} {
			r.Either = true
			out = append(out, r)
		}
	}
	for _, r := range []hreq{hCreate("delayed", longName+"x"), hDelete(longName + "x"), hEnq(longName+"x", "g", 1, "c"), hDeq(longName+"x", true), hCreate("fair", ""), hDeq(".", true), hDeq("..", true), hDelete(".."), hDelete(strings.Repeat("/", 1024))} {
		r.Either = true
		out = append(out, r)
	}
	return out
}

// httpBad lists malformed requests.
func httpBad() []hreq {
	var out []hreq
	add := func(m, p, b string) { out = append(out, hreq{Method: m, Path: p, Body: b, Bad: true}) }
	for _, x := range []struct{ m, p string }{{"POST", "/API/v1/queues"}, {"POST", "/API/v1/queues/q/messages"}, {"PUT", "/API/v1/queues/q/messages/7/priority"}, {"POST", "/join"}} {
		for _, b := range []string{"", "{", "}", "[]", "null", "1", "\"x\"", "{}", "{\"a\":1}", "not json", "{\"priority\":", "\x00", "{\"priority\":1,\"content\":\"c\",\"group\":\"g\"", "{\"name\":\"q\",\"type\":\"fair\"", "{\"id\":\"a\"}", "{\"addr\":\"a\"}"} {
			if b == "{}" || !strings.Contains(x.p, "priority") || !strings.Contains(b, "priority") {
				add(x.m, x.p, b)
			}
		}
	}
	for _, b := range []string{`{"name":"q"}`, `{"type":"fair"}`, `{"name":1,"type":"fair"}`, `{"name":null,"type":"fair"}`, `{"name":"q","type":1}`, `{"name":"q","type":null}`, `{"name":"q","type":""}`, `{"name":"q","type":"other"}`, `{"name":"q","type":"Fair"}`, `{"name":"q","type":"fair "}`, `{"name":["q"],"type":"fair"}`} {
		add("POST", "/API/v1/queues", b)
	}
	badNum := []string{`"1"`, `1.5`, `null`, `true`, `[]`, `{}`, `9223372036854775808`, `18446744073709551615`, `1e30`, `""`, `-1.5`, `0x1`, `01`, `NaN`}
	for _, n := range badNum {
		add("POST", "/API/v1/queues/q/messages", `{"group":"g","priority":`+n+`,"content":"c"}`)
		add("PUT", "/API/v1/queues/q/messages/7/priority", `{"priority":`+n+`}`)
	}
	for _, b := range []string{`{"group":"g","content":"c"}`, `{"group":"g","priority":1}`, `{"group":1,"priority":1,"content":"c"}`, `{"group":"g","priority":1,"content":1}`, `{"group":"g","priority":1,"content":null}`, `{"group":"g","priority":1,"content":{"a":1}}`, `{"group":["g"],"priority":1,"content":"c"}`} {
		add("POST", "/API/v1/queues/q/messages", b)
	}
	for _, id := range []string{"x", "-1", "1.5", "1e3", "18446744073709551616", "99999999999999999999999", "0x10", "%20", "1%20", "+1", "7a", "%00"} {
		for _, k := range []string{"ack", "nack"} {
			add("POST", "/API/v1/queues/q/messages/"+id+"/"+k, "")
		}
		add("PUT", "/API/v1/queues/q/messages/"+id+"/priority", `{"priority":1}`)
	}
	for _, a := range []string{"maybe", "2", "yes", "-1", "tru"} {
		add("GET", "/API/v1/queues/q/messages?ack="+a, "")
	}
	for _, q := range []string{"%", "%2", "%zz", "a%", "a%2", "%%41", "%g1"} {
		add("DELETE", "/API/v1/queues/"+q, "")
		add("GET", "/API/v1/queues/"+q+"/messages?ack=true", "")
		add("GET", "/API/v1/queues/"+q, "")
		add("POST", "/API/v1/queues/"+q+"/messages", `{"group":"g","priority":1,"content":"c"}`)
		add("POST", "/API/v1/queues/"+q+"/messages/7/ack", "")
		add("POST", "/API/v1/queues/"+q+"/messages/7/nack", "")
		add("PUT", "/API/v1/queues/"+q+"/messages/7/priority", `{"priority":1}`)
	}
	for _, x := range []struct{ m, p string }{
		{"PUT", "/API/v1/queues"}, {"DELETE", "/API/v1/queues"}, {"PATCH", "/API/v1/queues/q"}, {"POST", "/API/v1/queues/q"}, {"PUT", "/API/v1/queues/q"}, {"DELETE", "/API/v1/queues/q/messages"}, {"PUT", "/API/v1/queues/q/messages"}, {"DELETE", "/API/v1/queues/q/messages/7/ack"}, {"PUT", "/API/v1/queues/q/messages/7/ack"}, {"POST", "/API/v1/queues/q/messages/7/priority"}, {"POST", "/API/v1/queues/q/messages/7"}, {"POST", "/API/v1/queues/q/messages//ack"}, {"POST", "/API/v1/queues//messages/7/ack"}, {"POST", "/API/v1/queues/q/messages/7/ackk"}, {"PUT", "/join"}, {"DELETE", "/join"}, {"POST", "/API/v2/queues"},
	} {
		add(x.m, x.p, `{"name":"q","type":"fair","group":"g","priority":1,"content":"c","id":"a","addr":"b"}`)
	}
	return out
}

// oneHTTP sends one request and judges it.
func oneHTTP(c *conn, s *stub, r hreq, err error, msg queue.Message) *fail {
	s.calls, s.err, s.msg, s.infos = nil, err, msg, []*queue.QueueInfo{someInfo}
	code, body := c.send(r)
	return r.judge(code, body, s.calls, err, &msg, someInfo)
}

func httpItem(name string, part, parts int, reqs func() []hreq) core.Item {
	return core.Item{Name: name, Run: func(ir *core.ItemRun) {
		s := &stub{leader: true}
		c := newConn(newService(s, "8000"))
		ok := 0
		for i, r := range reqs() {
			if i%parts != part {
				continue
			}
			for _, err := range append([]error{nil}, apiErrs...) {
				if r.Bad && err != nil {
					continue
				}
				f := oneHTTP(c, s, r, err, defMsg())
				ir.Ran()
				ir.Count("states", 1)
				ir.Count("transitions", 1)
				if len(s.calls) == 1 {
					ok++
				}
				if f != nil {
					r, err := r, err
					ir.Report(f.Sig, f.What, "", f.Log, r.String(), func() bool {
						c2 := newConn(newService(s, "8000"))
						return oneHTTP(c2, s, r, err, defMsg()) != nil || oneHTTP(c, s, r, err, defMsg()) != nil
					})
					return
				}
			}
		}
		ir.Count("commands_caused", int64(ok))
	}}
}

// answersItem: every combination of edge values in the node's answer.
func answersItem() core.Item {
	return core.Item{Name: "every answer of the node, over HTTP and gRPC", Run: func(ir *core.ItemRun) {
		s := &stub{leader: true}
		c := newConn(newService(s, "8000"))
		g := direct{dgrpc.NewQueueServer(s, 0)}
		try := func(m queue.Message) bool {
			for _, r := range []hreq{hEnq("q", "g2", 9, "c2"), hDeq("q", true), hDeq("q", false)} {
				f := oneHTTP(c, s, r, nil, m)
				if f == nil {
					s.calls = nil
					ok, got, err := g.do(r.Want)
					f = judgeG(r.Want, ok, got, err, s.calls, nil, &m)
				}
				ir.Ran()
				ir.Count("states", 1)
				ir.Count("transitions", 1)
				if f != nil {
					ir.Report(f.Sig, f.What, "", f.Log, nil, nil)
					return false
				}
			}
			return true
		}
		for _, id := range apiIDs {
			for _, p := range append(append([]int64{}, apiPrios...), negPrios...) {
				if !try(queue.Message{ID: id, Group: "g", Priority: p, Content: "c"}) {
					return
				}
			}
		}
		for _, t := range apiTexts {
			if !try(queue.Message{ID: 1, Group: t, Priority: 1, Content: "c"}) || !try(queue.Message{ID: 1, Group: "g", Priority: 1, Content: t}) {
				return
			}
		}
		// status of every shape
		st := func(k int) *queue.QueueInfo {
			f := func(i int) float64 { return float64(k*10+i) + 0.5 }
			return &queue.QueueInfo{Name: apiNames[k%len(apiNames)], Type: core.If(k%2 == 0, "delayed", "fair"), Stats: &queue.QueueStats{EnqueueRPS: f(1), DequeueRPS: f(2), AckRPS: f(3), NackRPS: f(4)}, Ready: int64(k*3 + 1), Unacked: int64(k*5 + 2), Total: math.MaxInt64 - int64(k)}
		}
		for n := 0; n <= len(apiNames); n++ {
			s.infos, s.calls, s.err = nil, nil, nil
			for k := 0; k < n; k++ {
				s.infos = append(s.infos, st(k))
			}
			code, body := c.send(hreq{Method: "GET", Path: "/API/v1/queues"})
			var a answer
			err := json.Unmarshal(body, &a)
			bad := ""
			if code != 200 || err != nil || len(a.Queues) != n || a.Queues == nil || len(s.calls) != 0 {
				bad = fmt.Sprintf("status %d, %d queues of %d, error %v, commands %v", code, len(a.Queues), n, err, s.calls)
			}
			for k := 0; k < n && bad == ""; k++ {
				if a.Queues[k] != infoT(s.infos[k].Name, s.infos[k]) {
					bad = fmt.Sprintf("entry %d is %+v, expected %+v", k, a.Queues[k], *s.infos[k])
				}
			}
			ir.Ran()
			ir.Count("states", 1)
			ir.Count("transitions", 1)
			if bad != "" {
				ir.Report("queue-list", "the list of queues: "+bad, "", nil, n, nil)
				return
			}
		}
	}}
}

func grpcValues() []call {
	var out []call
	for _, q := range append(append([]string{}, apiNames...), "", ".", "..", longName+"x") {
		out = append(out, call{Op: "create", Q: q, T: "fair"}, call{Op: "delete", Q: q}, call{Op: "enq", Q: q, G: "g", P: 1, C: "c"}, call{Op: "deq", Q: q, Ack: true}, call{Op: "deq", Q: q},
			call{Op: "ack", Q: q, ID: 7}, call{Op: "nack", Q: q, ID: 7}, call{Op: "upd", Q: q, ID: 7, P: 9})
	}
	for _, t := range []string{"delayed", "fair"} {
		out = append(out, call{Op: "create", Q: "q", T: t})
	}
	ps := append(append([]int64{}, apiPrios...), negPrios...)
	for _, id := range apiIDs {
		out = append(out, call{Op: "ack", Q: "q", ID: id}, call{Op: "nack", Q: "q", ID: id})
		for _, p := range ps {
			out = append(out, call{Op: "upd", Q: "q", ID: id, P: p})
		}
	}
	for _, p := range ps {
		out = append(out, call{Op: "enq", Q: "q", G: "g", P: p, C: "c"})
	}
	for _, t := range apiTexts {
		out = append(out, call{Op: "enq", Q: "q", G: "g", P: 1, C: t}, call{Op: "enq", Q: "q", G: t, P: 1, C: "c"}, call{Op: "enq", Q: "q", G: t, P: 2, C: t})
	}
	return out
}

// grpcItem: every gRPC request and outcome, on the server directly or over a connection.
func grpcItem(over bool) core.Item {
	return core.Item{Name: core.If(over, "every gRPC request over a connection", "every gRPC request"), Run: func(ir *core.ItemRun) {
		s := &stub{leader: true}
		var g grpcAPI = direct{dgrpc.NewQueueServer(s, 0)}
		if over {
			l := bufconn.Listen(1 << 20)
			srv, err := dgrpc.NewGRPCServer(s, 0)
			if err != nil {
				panic("harness: " + err.Error())
			}
			go srv.Serve(l)
			defer srv.Stop()
			cc, err := grpc.Dial("passthrough:///x", grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { return l.DialContext(ctx) }))
			if err != nil {
				panic("harness: " + err.Error())
			}
			defer cc.Close()
			g = direct{caller{c: pb.NewDOQClient(cc)}}
		}
		for _, w := range grpcValues() {
			for _, err := range append([]error{nil}, apiErrs...) {
				if over && err != nil && err != apiErrs[0] {
					continue
				}
				one := func() *fail {
					s.calls, s.err, s.msg = nil, err, defMsg()
					ok, m, e := g.do(w)
					if over && e != nil {
						ok = false // a client sees the error only
					}
					return judgeG(w, ok, m, e, s.calls, err, &s.msg)
				}
				f := one()
				ir.Ran()
				ir.Count("states", 1)
				ir.Count("transitions", 1)
				if f != nil {
					ir.Report(f.Sig, f.What, "", f.Log, nil, func() bool { return one() != nil })
					return
				}
			}
		}
	}}
}

func someReqs() []hreq {
	return []hreq{
		hCreate("delayed", "aaaa"), hCreate("fair", "b/%"), hDelete("aaaa"), hDelete("cc cc"), hEnq("aaaa", "group-1", 5, "content one"), hEnq("bbbb", "", 1<<53+1, ""), hEnq("x%2F", "日本", 0, strings.Repeat("z", 300)),
		hDeq("aaaa", true), hDeq("bbbb", false), hAck("aaaa", math.MaxUint64), hAck("bb", 1), hNack("aaaa", 12345678901), hNack("cccc", 2), hUpd("aaaa", 1<<63, 0), hUpd("dddd", 3, math.MaxInt64), hInfo("aaaa"), hInfo("é"), hJoin("node-1", "host:1"), hJoin("n", "h"),
		{Method: "POST", Path: "/API/v1/queues/aaaa/messages", Body: "{", Bad: true}, {Method: "POST", Path: "/API/v1/queues/q/messages/x/ack", Bad: true}, {Method: "PUT", Path: qpath("q") + "/messages/1/priority", Body: "{}", Bad: true},
	}
}

// seqItem: all sequences of n requests with their outcomes on one connection.
func seqItem(n int) core.Item {
	return core.Item{Name: fmt.Sprintf("sequences of %d requests on one connection", n), Run: func(ir *core.ItemRun) {
		rs := someReqs()
		s := &stub{leader: true}
		c := newConn(newService(s, "8000"))
		rsys.Enumerate(ir, func(ch *rsys.Choices) *fail {
			var log []string
			for i := 0; i < n; i++ {
				r := rs[ch.Pick(len(rs))]
				var err error
				if ch.Pick(2) == 1 {
					err = apiErrs[0]
				}
				m := queue.Message{ID: uint64(ir.Runs()), Group: fmt.Sprint("g", i), Priority: int64(i), Content: r.Path}
				log = append(log, r.String())
				if f := oneHTTP(c, s, r, err, m); f != nil {
					f.Log = append(log, f.Log...)
					return f
				}
			}
			return nil
		})
	}}
}

// concItem: every schedule of concurrent requests to one service.
func concItem(name string, http bool, ws []call, bound, free int) core.Item {
	return core.Item{Name: name, Run: func(ir *core.ItemRun) {
		req := map[string]func(w call) hreq{
			"create": func(w call) hreq { return hCreate(w.T, w.Q) }, "delete": func(w call) hreq { return hDelete(w.Q) }, "enq": func(w call) hreq { return hEnq(w.Q, w.G, w.P, w.C) },
			"deq": func(w call) hreq { return hDeq(w.Q, w.Ack) }, "ack": func(w call) hreq { return hAck(w.Q, w.ID) }, "nack": func(w call) hreq { return hNack(w.Q, w.ID) }, "upd": func(w call) hreq { return hUpd(w.Q, w.ID, w.P) }, "info": func(w call) hreq { return hInfo(w.Q) },
		}
		one := func(p *explore.Path) (out *fail) {
			e := &sched.Exec{MaxSteps: 20000}
			s := &stub{leader: true, infos: []*queue.QueueInfo{someInfo}}
			svc := newService(s, "8000")
			gs := dgrpc.NewQueueServer(s, 0)
			f := e.Run(func() {
				s.e = e
				s.msg = defMsg()
				s.on = func(c call) error { // the outcome depends on the queue
					if strings.HasPrefix(c.Q, "bad") {
						return errors.New("refused")
					}
					return nil
				}
				res := make([]*fail, len(ws))
				var ts []*sched.Thread
				e.Chooser, e.StmtPoints = p, true
				for i, w := range ws {
					i, w := i, w
					ts = append(ts, sched.GoNamed(fmt.Sprint("client ", i+1), func() {
						mine := func() (l []call) {
							for _, c := range s.calls {
								if c.Q == w.Q && c.Op == w.Op {
									l = append(l, c)
								}
							}
							return
						}
						var err error
						if strings.HasPrefix(w.Q, "bad") {
							err = errors.New("refused")
						}
						if http {
							r := req[w.Op](w)
							code, body := newConn(svc).send(r)
							res[i] = r.judge(code, body, mine(), err, &s.msg, someInfo)
						} else {
							ok, m, e := direct{gs}.do(w)
							res[i] = judgeG(w, ok, m, e, mine(), err, &s.msg)
						}
					}))
				}
				sched.Join(ts...)
				e.Chooser, e.StmtPoints = nil, false
				for _, f := range res {
					if f != nil {
						out = f
					}
				}
				if out == nil && len(s.calls) != len(ws) {
					out = &fail{Sig: "calls", What: fmt.Sprintf("%d requests caused %v", len(ws), s.calls)}
				}
			})
			if f != nil {
				out = &fail{Sig: f.Kind, What: f.Kind + ": " + f.Msg}
			}
			return out
		}
		exploreItem(ir, name, bound, free, one)
	}}
}

// exploreItem runs one under every schedule within the bounds.
func exploreItem(ir *core.ItemRun, name string, bound, free int, one func(p *explore.Path) *fail) {
	roots := ir.Prefixes
	if roots == nil {
		roots = [][]int{nil}
	}
	for i, root := range roots {
		x := &explore.Explorer{Bound: bound, Free: free, MaxRuns: 3000, Stop: ir.Enough}
		stop := false
		rest, err := x.Run(root, func(p *explore.Path) bool {
			f := one(p)
			ir.Ran()
			ir.Count("schedules", 1)
			ir.Count("states", int64(len(p.Picks())))
			ir.Count("transitions", int64(len(p.Picks())))
			if f == nil {
				return true
			}
			stop = true
			pk := p.Picks()
			ir.Report(f.Sig, f.What, name, f.Log, pk, func() bool {
				f2 := one(explore.NewPath(pk))
				return f2 != nil && f2.Sig == f.Sig
			})
			return false
		})
		if err != nil {
			panic("harness: " + name + ": " + err.Error())
		}
		if stop {
			return
		}
		ir.Rest(rest)
		if ir.Enough() {
			ir.Rest(roots[i+1:])
			return
		}
	}
}

// real is a node whose commands go to the real state machine.
type real struct {
	stub
	w  *qsys.World
	id uint64
}

func (n *real) ans(r qsys.Resp) error {
	if !r.OK {
		return errors.New(r.String())
	}
	return nil
}
func (n *real) CreateQueue(t, q string) error { return n.ans(n.w.Create(t, q)) }
func (n *real) DeleteQueue(q string) error    { return n.ans(n.w.Delete(q)) }
func (n *real) GetQueues() []*queue.QueueInfo { return n.w.QM.GetQueues() }
func (n *real) GetQueueInfo(q string) (*queue.QueueInfo, error) {
	x, err := n.w.QM.GetQueue(q)
	if err != nil {
		return nil, err
	}
	return x.GetStats(), nil
}
func (n *real) msg(r qsys.Resp) (*queue.Message, error) {
	if !r.OK {
		return nil, errors.New(r.String())
	}
	return &queue.Message{ID: r.ID, Group: r.Group, Priority: r.Prio, Content: r.Content}, nil
}
func (n *real) Enqueue(q, g string, p int64, c string) (*queue.Message, error) {
	n.id++
	return n.msg(n.w.Enqueue(q, 1<<63+n.id, g, p, c))
}
func (n *real) Dequeue(q string, ack bool) (*queue.Message, error) { return n.msg(n.w.Dequeue(q, ack)) }
func (n *real) Ack(q string, id uint64) error                      { return n.ans(n.w.Ack(q, id)) }
func (n *real) Nack(q string, id uint64) error                     { return n.ans(n.w.Nack(q, id)) }
func (n *real) UpdatePriority(q string, id uint64, prio int64) error {
	return n.ans(n.w.Update(q, id, prio))
}

// viaHTTP and viaGRPC make the API of a service look like a node.
type viaHTTP struct{ c *conn }

func (v viaHTTP) call(r hreq) (*queue.Message, error) {
	code, body := v.c.send(r)
	if code != 200 {
		return nil, fmt.Errorf("status %d", code)
	}
	var a answer
	if err := json.Unmarshal(body, &a); err != nil {
		return nil, err
	}
	m := &queue.Message{Group: a.Group, Content: a.Content}
	fmt.Sscan(a.ID, &m.ID)
	fmt.Sscan(string(a.Priority), &m.Priority)
	return m, nil
}
func (v viaHTTP) CreateQueue(t, q string) error { _, err := v.call(hCreate(t, q)); return err }
func (v viaHTTP) DeleteQueue(q string) error    { _, err := v.call(hDelete(q)); return err }
func (v viaHTTP) Enqueue(q, g string, p int64, c string) (*queue.Message, error) {
	return v.call(hEnq(q, g, p, c))
}
func (v viaHTTP) Dequeue(q string, ack bool) (*queue.Message, error) { return v.call(hDeq(q, ack)) }
func (v viaHTTP) Ack(q string, id uint64) error                      { _, err := v.call(hAck(q, id)); return err }
func (v viaHTTP) Nack(q string, id uint64) error                     { _, err := v.call(hNack(q, id)); return err }
func (v viaHTTP) UpdatePriority(q string, id uint64, p int64) error {
	_, err := v.call(hUpd(q, id, p))
	return err
}

type viaGRPC struct{ g direct }

func (v viaGRPC) call(c call) (*queue.Message, error) {
	ok, m, err := v.g.do(c)
	if err == nil && !ok {
		err = errors.New("no success")
	}
	return m, err
}
func (v viaGRPC) CreateQueue(t, q string) error {
	_, err := v.call(call{Op: "create", Q: q, T: t})
	return err
}
func (v viaGRPC) DeleteQueue(q string) error { _, err := v.call(call{Op: "delete", Q: q}); return err }
func (v viaGRPC) Enqueue(q, g string, p int64, c string) (*queue.Message, error) {
	return v.call(call{Op: "enq", Q: q, G: g, P: p, C: c})
}
func (v viaGRPC) Dequeue(q string, ack bool) (*queue.Message, error) {
	return v.call(call{Op: "deq", Q: q, Ack: ack})
}
func (v viaGRPC) Ack(q string, id uint64) error {
	_, err := v.call(call{Op: "ack", Q: q, ID: id})
	return err
}
func (v viaGRPC) Nack(q string, id uint64) error {
	_, err := v.call(call{Op: "nack", Q: q, ID: id})
	return err
}
func (v viaGRPC) UpdatePriority(q string, id uint64, p int64) error {
	_, err := v.call(call{Op: "upd", Q: q, ID: id, P: p})
	return err
}

// endItem: histories through an API on the real state machine, each answer and the drained
// queues judged by the model, the status calls by what the queues hold.
func endItem(name string, over string, u *qsys.Universe, init []qsys.Op, depth int) core.Item {
	return core.Item{Name: name, Run: func(ir *core.ItemRun) {
		rsys.Enumerate(ir, func(ch *rsys.Choices) (out *fail) {
			db := qsys.GetDB()
			defer qsys.PutDB(db)
			e := &sched.Exec{MaxSteps: 60000}
			f := e.Run(func() {
				in := qsys.NewWorld(e, db, u.P)
				n := &real{w: in}
				n.leader = true
				w := &qsys.World{E: e, DB: db, P: u.P}
				var hc *conn
				boot := func() {
					w.QM = in.QM
					hc = newConn(newService(n, "8000"))
					if over == "http" {
						w.API = viaHTTP{hc}
					} else {
						w.API = viaGRPC{direct{dgrpc.NewQueueServer(n, 0)}}
					}
				}
				boot()
				w.Reboot = func() { in.Restart(); boot() }
				r := u.NewRun(e, w)
				for _, o := range init {
					if d := r.Step(o); d != nil {
						out = &fail{Sig: d.Sig, What: d.What, Log: r.Log}
						return
					}
				}
				infos := map[string]bool{}
				for i := 0; i < depth; i++ {
					al := r.Alphabet()
					k := ch.Pick(len(al) + len(u.Queues) + 1)
					switch {
					case k < len(al):
						if al[k].K == "restart" {
							infos = map[string]bool{}
						}
						if d := r.Step(al[k]); d != nil {
							out = &fail{Sig: d.Sig, What: d.What, Log: r.Log}
							return
						}
					case k < len(al)+len(u.Queues):
						q := u.Queues[k-len(al)]
						code, body := hc.send(hInfo(q))
						r.Log = append(r.Log, fmt.Sprintf("info of %q -> %d", q, code))
						mq := r.M.Q(q)
						if (code == 200) != mq.Exists {
							out = &fail{Sig: "info", What: fmt.Sprintf("info of %q: status %d, the queue exists: %v", q, code, mq.Exists), Log: r.Log}
							return
						}
						if mq.Exists {
							infos[q] = true
							var a answer
							json.Unmarshal(body, &a)
							lo, hi, t := r.M.Counts(q)
							if a.Name != q || a.Type != mq.Type || a.Total != t || a.Ready < lo || a.Ready > hi || a.Ready+a.Unacked != t {
								out = &fail{Sig: "info", What: fmt.Sprintf("info of %q is %s, expected %s with %d messages", q, body, mq.Type, t), Log: r.Log}
								return
							}
						}
					default:
						if f := listed(hc, r, infos); f != nil {
							out = f
							return
						}
					}
				}
				if out = listed(hc, r, infos); out != nil {
					return
				}
				if d := r.Drain(); d != nil {
					out = &fail{Sig: d.Sig, What: d.What, Log: r.Log}
				}
			})
			if f != nil {
				out = &fail{Sig: f.Kind, What: f.Kind + ": " + f.Msg}
			}
			return out
		})
	}}
}

// listed: the list names existing queues only, each once, with its type, and at least those
// whose status was read since the start.
func listed(c *conn, r *qsys.Run, must map[string]bool) *fail {
	code, body := c.send(hreq{Method: "GET", Path: "/API/v1/queues"})
	r.Log = append(r.Log, fmt.Sprintf("list -> %d %s", code, short(string(body))))
	var a answer
	err := json.Unmarshal(body, &a)
	seen := map[string]bool{}
	for _, x := range a.Queues {
		mq := r.M.Queues[x.Name]
		if seen[x.Name] || mq == nil || !mq.Exists || mq.Type != x.Type {
			return &fail{Sig: "list", What: fmt.Sprintf("the list of queues has %q (%s)", x.Name, x.Type), Log: r.Log}
		}
		seen[x.Name] = true
	}
	for q := range must {
		if r.M.Q(q).Exists && !seen[q] {
			return &fail{Sig: "list", What: fmt.Sprintf("the list of queues lacks %q", q), Log: r.Log}
		}
	}
	if code != 200 || err != nil {
		return &fail{Sig: "list", What: fmt.Sprintf("the list of queues: status %d, %v", code, err), Log: r.Log}
	}
	return nil
}

func endUniverse(queues, types, groups []string, prios, upds []qsys.Prio, kinds string) *qsys.Universe {
	return &qsys.Universe{
		Name: "end", P: qsys.Params{AckTimeout: 40, Interval: 5, Window: 1}, Queues: queues, Types: types, Groups: groups, Prios: prios,
		Upds: upds, Kinds: kinds, MaxMsgs: 3, Unknown: true,
		Content: func(n int) string { return apiTexts[(n*5+5)%24] },
	}
}

func init() {
	core.RegisterItems("C19", func(th bool) []core.Item {
		var its []core.Item
		for k := 0; k < 4; k++ {
			its = append(its, httpItem(fmt.Sprintf("every HTTP request and outcome, part %d", k+1), k, 4, httpValues))
		}
		its = append(its, httpItem("malformed HTTP requests", 0, 1, httpBad), answersItem(), produceItem(core.If(th, 4, 2)), produceItem(1), produceItem(3), produceValues(), consumeItem(), grpcItem(false), grpcItem(true), seqItem(core.If(th, 3, 2)))
		ws := []call{
			{Op: "create", Q: "q1", T: "fair"}, {Op: "delete", Q: "q2"}, {Op: "enq", Q: "q3", G: "g3", P: 3, C: "c3"}, {Op: "enq", Q: "bad4", G: "g4", P: 4, C: "c4"},
			{Op: "deq", Q: "q5", Ack: true}, {Op: "deq", Q: "bad6"}, {Op: "ack", Q: "q7", ID: 7}, {Op: "nack", Q: "q8", ID: 8}, {Op: "upd", Q: "q9", ID: 9, P: 9}, {Op: "ack", Q: "bad10", ID: 10}, {Op: "enq", Q: "q11", G: "g11", P: 11, C: "c11"},
		}
		for _, http := range []bool{true, false} {
			for i := range ws {
				for j := i + 1; j < len(ws); j++ {
					its = append(its, concItem(fmt.Sprintf("%s: %s %s beside %s %s", core.If(http, "HTTP", "gRPC"), ws[i].Op, ws[i].Q, ws[j].Op, ws[j].Q), http, []call{ws[i], ws[j]}, core.If(th, 3, 2), 2))
				}
			}
		}
		P := qsys.P
		all := "enq deq deqa ack nack upd create delete restart"
		for _, over := range []string{"http", "grpc"} {
			for _, t := range []string{"delayed", "fair"} {
				mk := []qsys.Op{{K: "create", Q: "aa", T: t}, {K: "enq", Q: "aa", G: "g", P: P(1<<53 + 1)}}
				its = append(its, endItem(over+", "+t+" queue, from nothing", over, endUniverse([]string{"aa"}, []string{t}, []string{"g"}, []qsys.Prio{P(1<<53 + 1)}, []qsys.Prio{P(0)}, all), nil, core.If(th, 5, 3)))
				its = append(its, endItem(over+", "+t+" queue with two messages", over, endUniverse([]string{"aa"}, nil, []string{"h"}, []qsys.Prio{P(7)}, []qsys.Prio{P(math.MaxInt64)}, all), append(mk, qsys.Op{K: "enq", Q: "aa", G: "h", P: P(7)}), core.If(th, 4, 3)))
				its = append(its, endItem(over+", "+t+" and another queue of equal length", over, endUniverse([]string{"aa", "b%"}, nil, nil, nil, nil, "deq delete restart"), append(mk, qsys.Op{K: "create", Q: "b%", T: core.If(t == "fair", "delayed", "fair")}), core.If(th, 5, 4)))
			}
		}
		return its
	})
	checks["C19"] = func(c *core.Ctx, pool *core.Pool) { core.RunItems(c, pool) }
}

var _ = url.PathEscape
