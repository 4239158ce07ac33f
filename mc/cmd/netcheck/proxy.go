package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	gohttp "net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	dgrpc "github.com/kgantsov/doq/pkg/grpc"
	pb "github.com/kgantsov/doq/pkg/proto"
	"github.com/kgantsov/doq/pkg/queue"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"vmc/core"
	"vmc/explore"
	"vmc/qsys"
	"vmc/rsys"
	"vmc/sched"
)

// C20: a real follower (HTTP service and gRPC server over a node that does not lead) and up to
// three leaders on loopback addresses with the same port: every request and outcome, every
// sequence of leader changes, leaders that break off, and concurrent requests under every
// schedule while the leader changes.

const deadHost = "127.0.0.9"

// ports listens on 127.0.0.1 to 127.0.0.n with one port.
func ports(n int) (string, []*tracked) {
	for try := 0; try < 50; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			continue
		}
		_, port, _ := net.SplitHostPort(l.Addr().String())
		ls := []*tracked{{Listener: l}}
		ok := true
		for i := 2; i <= n && ok; i++ {
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.%d:%s", i, port))
			if ok = err == nil; ok {
				ls = append(ls, &tracked{Listener: l})
			}
		}
		if ok {
			d, err := net.Listen("tcp", deadHost+":"+port) // nobody may answer there
			if ok = err == nil; ok {
				d.Close()
				return port, ls
			}
		}
		for _, l := range ls {
			l.Close()
		}
	}
	panic("harness: no free port on the loopback addresses")
}

// tracked is a listener whose connections can be closed.
type tracked struct {
	net.Listener
	mu sync.Mutex
	cs []net.Conn
}

func (t *tracked) Accept() (net.Conn, error) {
	c, err := t.Listener.Accept()
	if err == nil {
		t.mu.Lock()
		t.cs = append(t.cs, c)
		t.mu.Unlock()
	}
	return c, err
}

func (t *tracked) drop() {
	t.mu.Lock()
	for _, c := range t.cs {
		c.Close()
	}
	t.cs = nil
	t.mu.Unlock()
}

func hostN(i int) string { return fmt.Sprintf("127.0.0.%d", i+1) }

// forwarded are the requests that a follower passes on.
func forwarded(rs []hreq) (out []hreq) {
	for _, r := range rs {
		if r.Want.Op != "info" && r.Want.Op != "join" {
			out = append(out, r)
		}
	}
	return
}

// group is a follower and its possible leaders, on one of the two APIs.
type group struct {
	http    bool
	lead    string
	leaders []*stub
	fol     *stub
	hc      *conn
	g       direct
	gsrv    []*grpc.Server
	ls      []*tracked
	apps    []interface{ Shutdown() error }
}

func newGroup(http bool, n int) *group {
	port, ls := ports(n)
	gr := &group{http: http, ls: ls, fol: &stub{}}
	gr.fol.Lead = func() string { return gr.lead }
	p, _ := strconv.Atoi(port)
	for i, l := range ls {
		s := &stub{leader: true}
		s.Lead = func() string { return hostN(i) }
		gr.leaders = append(gr.leaders, s)
		if http {
			app := appOf(newService(s, port))
			app.Server().Handler = app.Handler()
			gr.apps = append(gr.apps, app.Server())
			go app.Server().Serve(l)
		} else {
			srv, err := dgrpc.NewGRPCServer(s, p)
			if err != nil {
				panic("harness: " + err.Error())
			}
			gr.gsrv = append(gr.gsrv, srv)
			go srv.Serve(l)
		}
	}
	if http {
		gr.hc = newConn(newService(gr.fol, port))
	} else {
		gr.g = direct{dgrpc.NewQueueServer(gr.fol, p)}
	}
	return gr
}

func (g *group) close() {
	for _, s := range g.gsrv {
		s.Stop()
	}
	for _, l := range g.ls {
		l.Close()
		l.drop()
	}
}

// one sends a request while lead is the leader (-1: unknown, -2: dead) and judges it.
func (g *group) one(r hreq, lead int, err error, msg queue.Message) *fail {
	g.lead = ""
	if lead >= 0 {
		g.lead = hostN(lead)
	} else if lead == -2 {
		g.lead = deadHost
	}
	g.fol.calls = nil
	for _, s := range g.leaders {
		s.calls, s.err, s.msg = nil, err, msg
	}
	var code int
	var body []byte
	var ok bool
	var m *queue.Message
	var gerr error
	if g.http {
		code, body = g.hc.send(r)
	} else {
		ok, m, gerr = g.g.do(r.Want)
		if gerr != nil {
			ok = false // a client sees the error only
		}
	}
	log := func() []string {
		l := []string{fmt.Sprintf("leader %q: %s", g.lead, r), fmt.Sprintf("follower's node: %v", g.fol.calls)}
		for i, s := range g.leaders {
			l = append(l, fmt.Sprintf("%s received %v", hostN(i), s.calls))
		}
		return append(l, fmt.Sprintf("-> %d %s / success %v error %v", code, short(string(body)), ok, gerr))
	}
	if len(g.fol.calls) > 0 {
		return &fail{Sig: "local", What: "the follower carried the command out itself", Log: log()}
	}
	for i, s := range g.leaders {
		if i != lead && len(s.calls) > 0 {
			return &fail{Sig: "wrong-node", What: fmt.Sprintf("the command went to %s, the leader is %q", hostN(i), g.lead), Log: log()}
		}
	}
	if lead < 0 {
		if (g.http && (code < 400 || code > 599)) || (!g.http && gerr == nil) {
			return &fail{Sig: "no-leader-success", What: fmt.Sprintf("with the leader %q the request is answered with success", g.lead), Log: log()}
		}
		return nil
	}
	var f *fail
	if g.http {
		f = r.judge(code, body, g.leaders[lead].calls, err, &msg, nil)
	} else {
		f = judgeG(r.Want, ok, m, gerr, g.leaders[lead].calls, err, &msg)
	}
	if f != nil {
		f.Log = append(log(), f.Log...)
	}
	return f
}

func (g *group) many(ir *core.ItemRun, again func() *group, r hreq, lead int, err error, msg queue.Message) bool {
	f := g.one(r, lead, err, msg)
	ir.Ran()
	ir.Count("states", 1)
	ir.Count("transitions", 1)
	if f == nil {
		return true
	}
	ir.Report(f.Sig, f.What, "", f.Log, r.String(), func() bool {
		g2 := again()
		defer g2.close()
		return g2.one(r, lead, err, msg) != nil || g.one(r, lead, err, msg) != nil
	})
	return false
}

func gReqs(cs []call) (out []hreq) {
	for _, c := range cs {
		out = append(out, hreq{Method: "gRPC", Path: c.Op, Want: c})
	}
	return
}

// valuesItem: every request and outcome through the follower.
func valuesItem(http bool, part, parts int) core.Item {
	return core.Item{Name: fmt.Sprintf("every %s request through a follower, part %d", core.If(http, "HTTP", "gRPC"), part+1), Run: func(ir *core.ItemRun) {
		mk := func() *group { return newGroup(http, 1) }
		g := mk()
		defer g.close()
		rs := gReqs(grpcValues())
		if http {
			rs = forwarded(append(httpValues(), httpBad()...))
		}
		for i, r := range rs {
			if i%parts != part {
				continue
			}
			for _, err := range []error{nil, apiErrs[0]} {
				if r.Bad && err != nil {
					continue
				}
				if !g.many(ir, mk, r, 0, err, defMsg()) {
					return
				}
			}
		}
		if part > 0 {
			return
		}
		for _, r := range []hreq{hEnq("q", "g2", 9, "c2"), hDeq("q", true), hDeq("q", false)} {
			for _, id := range apiIDs {
				for _, p := range append(append([]int64{}, apiPrios...), negPrios...) {
					if !g.many(ir, mk, r, 0, nil, queue.Message{ID: id, Group: "g", Priority: p, Content: "c"}) {
						return
					}
				}
			}
			for _, t := range apiTexts {
				if !g.many(ir, mk, r, 0, nil, queue.Message{ID: 1, Group: t, Priority: 1, Content: "c"}) || !g.many(ir, mk, r, 0, nil, queue.Message{ID: 1, Group: "g", Priority: 1, Content: t}) {
					return
				}
			}
		}
	}}
}

// movesItem: every sequence of leaders, with a request of each kind under each.
func movesItem(http bool, depth int) core.Item {
	return core.Item{Name: fmt.Sprintf("%s requests while the leader moves", core.If(http, "HTTP", "gRPC")), Run: func(ir *core.ItemRun) {
		rs := []hreq{hEnq("q", "g", 1<<53+1, "c"), hDeq("q", true), hAck("q", math.MaxUint64), hNack("q", 8), hUpd("q", 9, 10), hCreate("fair", "q2"), hDelete("q3"), hDeq("q", false)}
		rsys.Enumerate(ir, func(ch *rsys.Choices) *fail {
			g := newGroup(http, 3)
			defer g.close()
			var log []string
			last := -3
			k := ch.Pick(len(rs))
			for i := 0; i < depth; i++ {
				lead := ch.Pick(5) - 2
				var err error
				if (i+k)%3 == 2 {
					err = apiErrs[0]
				}
				r := rs[(k+i)%len(rs)]
				m := queue.Message{ID: math.MaxUint64 - uint64(i), Group: fmt.Sprint("g", i), Priority: int64(i), Content: fmt.Sprint("c", i)}
				log = append(log, fmt.Sprintf("leader %d: %s", lead, r))
				if f := g.one(r, lead, err, m); f != nil {
					f.Log = append(log, f.Log...)
					return f
				}
				last = lead
			}
			_ = last
			return nil
		})
	}}
}

// breakItem: every sequence of ways a leader answers on a connection that is kept open.
func breakItem(depth int) core.Item {
	return core.Item{Name: "leaders that break off", Run: func(ir *core.ItemRun) {
		modes := []string{"ok", "closes before the answer", "500", "garbage", "cut short", "empty", "404 html", "302", "409 with an answer", "404 json"}
		rs := []hreq{hEnq("q", "g", 5, "c"), hDeq("q", true), hDeq("q", false), hAck("q", 7), hNack("q", 7), hUpd("q", 7, 8), hCreate("fair", "q"), hDelete("q")}
		good := map[string]string{
			"enq": `{"status":"ENQUEUED","id":"5","group":"g","priority":3,"content":"c"}`, "deq": `{"status":"DEQUEUED","id":"5","group":"g","priority":3,"content":"c"}`, "ack": `{"status":"ACKNOWLEDGED","id":"7"}`, "nack": `{"status":"UNACKNOWLEDGED","id":"7"}`, "upd": `{"status":"UPDATED","id":"7","priority":8}`, "create": `{"status":"CREATED","name":"q","type":"fair"}`, "delete": `{"status":"DELETED"}`,
		}
		rsys.Enumerate(ir, func(ch *rsys.Choices) (out *fail) {
			port, ls := ports(1)
			defer ls[0].Close()
			defer ls[0].drop()
			var mu sync.Mutex
			seen := 0
			mode, op := "", ""
			go func() {
				for {
					c, err := ls[0].Accept()
					if err != nil {
						return
					}
					go func() {
						defer c.Close()
						br := bufio.NewReader(c)
						for {
							q, err := gohttp.ReadRequest(br)
							if err != nil {
								return
							}
							io.Copy(io.Discard, q.Body)
							mu.Lock()
							seen++
							m, o := mode, op
							mu.Unlock()
							answer := func(status, typ, body string) {
								fmt.Fprintf(c, "HTTP/1.1 %s\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n%s", status, typ, len(body), body)
							}
							switch m {
							case "ok":
								answer("200 OK", "application/json", good[o])
							case "closes before the answer":
								return
							case "500":
								answer("500 Internal Server Error", "application/json", good[o])
							case "garbage":
								answer("200 OK", "application/json", "<html>")
							case "cut short":
								fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: 500\r\n\r\n%s", good[o][:len(good[o])-2])
								return
							case "empty":
								answer("200 OK", "application/json", "")
							case "404 html":
								answer("404 Not Found", "text/html", "<html>")
							case "409 with an answer":
								answer("409 Conflict", "application/json", good[o])
							case "404 json":
								answer("404 Not Found", "application/json", "{}")
							case "302":
								answer("302 Found", "text/html", "moved")
							}
						}
					}()
				}
			}()
			fol := &stub{}
			fol.Lead = func() string { return "127.0.0.1" }
			hc := newConn(newService(fol, port))
			r := rs[ch.Pick(len(rs))]
			var log []string
			for i := 0; i < depth; i++ {
				mu.Lock()
				mode, op, seen = modes[ch.Pick(len(modes))], r.Want.Op, 0
				mu.Unlock()
				code, body := hc.send(r)
				mu.Lock()
				n := seen
				mu.Unlock()
				log = append(log, fmt.Sprintf("%s, the leader answers: %s -> %d %s, %d requests", r, mode, code, short(string(body)), n))
				if mode != "ok" {
					if n == 0 && i > 0 {
						continue // the connection was found closed
					}
					if code < 400 {
						return &fail{Sig: "broken-as-success", What: fmt.Sprintf("the leader's answer: %s; the follower answers %d", mode, code), Log: log}
					}
					if n != 1 {
						return &fail{Sig: "resent", What: fmt.Sprintf("the leader received the %s request %d times", r.Want.Op, n), Log: log}
					}
					continue
				}
				if n == 0 && code >= 400 && i > 0 {
					continue // the kept connection was closed by the leader in the meantime
				}
				if n != 1 {
					return &fail{Sig: "resent", What: fmt.Sprintf("the leader received the %s request %d times", r.Want.Op, n), Log: log}
				}
				m := queue.Message{ID: 5, Group: "g", Priority: 3, Content: "c"}
				if f := r.judge(code, body, []call{r.Want}, nil, &m, nil); f != nil {
					f.Log = append(log, f.Log...)
					return f
				}
			}
			return nil
		})
	}}
}

// breaker is a gRPC leader that answers as told.
type breaker struct {
	pb.UnimplementedDOQServer
	mu   sync.Mutex
	mode string
	seen []call
	drop func()
}

var breakCodes = map[string]codes.Code{"unavailable": codes.Unavailable, "exhausted": codes.ResourceExhausted, "deadline": codes.DeadlineExceeded, "aborted": codes.Aborted, "canceled": codes.Canceled,
	"internal": codes.Internal, "unknown": codes.Unknown, "not found": codes.NotFound, "unimplemented": codes.Unimplemented, "precondition": codes.FailedPrecondition}

func (b *breaker) answer(c call) error {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.seen = append(b.seen, c)
	if b.mode == "breaks the connection" {
		b.drop()
		return nil
	}
	if k, bad := breakCodes[b.mode]; bad {
		return status.Error(k, b.mode)
	}
	return nil
}
func (b *breaker) ok() bool { b.mu.Lock(); defer b.mu.Unlock(); return b.mode != "no success" }
func (b *breaker) CreateQueue(_ context.Context, q *pb.CreateQueueRequest) (*pb.CreateQueueResponse, error) {
	err := b.answer(call{Op: "create", Q: q.Name, T: q.Type})
	return &pb.CreateQueueResponse{Success: b.ok()}, err
}
func (b *breaker) DeleteQueue(_ context.Context, q *pb.DeleteQueueRequest) (*pb.DeleteQueueResponse, error) {
	err := b.answer(call{Op: "delete", Q: q.Name})
	return &pb.DeleteQueueResponse{Success: b.ok()}, err
}
func (b *breaker) Enqueue(_ context.Context, q *pb.EnqueueRequest) (*pb.EnqueueResponse, error) {
	err := b.answer(call{Op: "enq", Q: q.QueueName, G: q.Group, P: q.Priority, C: q.Content})
	return &pb.EnqueueResponse{Success: b.ok(), Id: 5, Group: "g", Priority: 3, Content: "c"}, err
}
func (b *breaker) Dequeue(_ context.Context, q *pb.DequeueRequest) (*pb.DequeueResponse, error) {
	err := b.answer(call{Op: "deq", Q: q.QueueName, Ack: q.Ack})
	return &pb.DequeueResponse{Success: b.ok(), Id: 5, Group: "g", Priority: 3, Content: "c"}, err
}
func (b *breaker) Ack(_ context.Context, q *pb.AckRequest) (*pb.AckResponse, error) {
	err := b.answer(call{Op: "ack", Q: q.QueueName, ID: q.Id})
	return &pb.AckResponse{Success: b.ok()}, err
}
func (b *breaker) Nack(_ context.Context, q *pb.NackRequest) (*pb.NackResponse, error) {
	err := b.answer(call{Op: "nack", Q: q.QueueName, ID: q.Id})
	return &pb.NackResponse{Success: b.ok()}, err
}
func (b *breaker) UpdatePriority(_ context.Context, q *pb.UpdatePriorityRequest) (*pb.UpdatePriorityResponse, error) {
	err := b.answer(call{Op: "upd", Q: q.QueueName, ID: q.Id, P: q.Priority})
	return &pb.UpdatePriorityResponse{Success: b.ok()}, err
}

// grpcBreakItem: every sequence of ways a leader ends a forwarded gRPC call.
func grpcBreakItem(depth int) core.Item {
	return core.Item{Name: "gRPC leaders that break off", Run: func(ir *core.ItemRun) {
		modes := append([]string{"ok", "breaks the connection", "no success"}, qsys.SortedKeys(breakCodes)...)
		rs := gReqs([]call{{Op: "enq", Q: "q", G: "g", P: 5, C: "c"}, {Op: "deq", Q: "q", Ack: true}, {Op: "deq", Q: "q"}, {Op: "ack", Q: "q", ID: 7}, {Op: "nack", Q: "q", ID: 7}, {Op: "upd", Q: "q", ID: 7, P: 8}, {Op: "create", Q: "q", T: "fair"}, {Op: "delete", Q: "q"}})
		rsys.Enumerate(ir, func(ch *rsys.Choices) (out *fail) {
			r := rs[ch.Pick(len(rs))]
			var ms []string
			for i := 0; i < depth; i++ {
				k := modes
				if i > 0 && ms[0] != "ok" && ms[0] != "breaks the connection" { // the connection stays as it is
					k = modes[:3]
				}
				ms = append(ms, k[ch.Pick(len(k))])
			}
			port, ls := ports(1)
			defer ls[0].Close()
			defer ls[0].drop()
			b := &breaker{drop: ls[0].drop}
			srv := grpc.NewServer()
			pb.RegisterDOQServer(srv, b)
			go srv.Serve(ls[0])
			defer srv.Stop()
			fol := &stub{}
			fol.Lead = func() string { return "127.0.0.1" }
			p, _ := strconv.Atoi(port)
			g := direct{dgrpc.NewQueueServer(fol, p)}
			var log []string
			for i, mode := range ms {
				b.mu.Lock()
				b.mode, b.seen = mode, nil
				b.mu.Unlock()
				ok, m, err := g.do(r.Want)
				b.mu.Lock()
				seen := b.seen
				b.mu.Unlock()
				log = append(log, fmt.Sprintf("%v, the leader: %s -> success %v, error %v, received %v", r.Want, mode, ok, err, seen))
				bad := func(sig, f string, a ...any) *fail { return &fail{Sig: sig, What: fmt.Sprintf(f, a...), Log: log} }
				if len(seen) == 0 && err != nil && i > 0 && ms[i-1] == "breaks the connection" {
					continue // not connected again yet
				}
				if len(seen) != 1 {
					return bad("resent", "the leader received the %s request %d times", r.Want.Op, len(seen))
				}
				if seen[0] != r.Want {
					return bad("arguments", "the leader received %v, the request says %v", seen[0], r.Want)
				}
				switch {
				case mode == "ok":
					if err != nil || !ok || m != nil && *m != (queue.Message{ID: 5, Group: "g", Priority: 3, Content: "c"}) {
						return bad("answer", "the leader carried the request out, the follower answers success %v %v, error %v", ok, m, err)
					}
				case mode == "no success" && (err != nil || !ok), err != nil:
				default:
					return bad("broken-as-success", "the leader: %s; the follower answers success %v", mode, ok)
				}
			}
			return nil
		})
	}}
}

// recorder is a gRPC leader that notes what it is asked (not part of the controlled execution).
type recorder struct {
	pb.UnimplementedDOQServer
	mu    sync.Mutex
	calls []call
}

func (r *recorder) note(c call) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.calls = append(r.calls, c)
	if strings.HasPrefix(c.Q, "bad") {
		return errors.New("refused")
	}
	return nil
}
func (r *recorder) take() []call {
	r.mu.Lock()
	defer r.mu.Unlock()
	c := r.calls
	r.calls = nil
	return c
}
func (r *recorder) CreateQueue(_ context.Context, q *pb.CreateQueueRequest) (*pb.CreateQueueResponse, error) {
	return &pb.CreateQueueResponse{Success: true}, r.note(call{Op: "create", Q: q.Name, T: q.Type})
}
func (r *recorder) DeleteQueue(_ context.Context, q *pb.DeleteQueueRequest) (*pb.DeleteQueueResponse, error) {
	return &pb.DeleteQueueResponse{Success: true}, r.note(call{Op: "delete", Q: q.Name})
}
func (r *recorder) Enqueue(_ context.Context, q *pb.EnqueueRequest) (*pb.EnqueueResponse, error) {
	return &pb.EnqueueResponse{Success: true, Id: uint64(len(q.QueueName)), Group: q.Group, Priority: q.Priority, Content: q.Content}, r.note(call{Op: "enq", Q: q.QueueName, G: q.Group, P: q.Priority, C: q.Content})
}
func (r *recorder) Dequeue(_ context.Context, q *pb.DequeueRequest) (*pb.DequeueResponse, error) {
	return &pb.DequeueResponse{Success: true, Id: uint64(len(q.QueueName)), Content: q.QueueName}, r.note(call{Op: "deq", Q: q.QueueName, Ack: q.Ack})
}
func (r *recorder) Ack(_ context.Context, q *pb.AckRequest) (*pb.AckResponse, error) {
	return &pb.AckResponse{Success: true}, r.note(call{Op: "ack", Q: q.QueueName, ID: q.Id})
}
func (r *recorder) Nack(_ context.Context, q *pb.NackRequest) (*pb.NackResponse, error) {
	return &pb.NackResponse{Success: true}, r.note(call{Op: "nack", Q: q.QueueName, ID: q.Id})
}
func (r *recorder) UpdatePriority(_ context.Context, q *pb.UpdatePriorityRequest) (*pb.UpdatePriorityResponse, error) {
	return &pb.UpdatePriorityResponse{Success: true}, r.note(call{Op: "upd", Q: q.QueueName, ID: q.Id, P: q.Priority})
}

// recorders are shared by all executions of a worker: two gRPC leaders and two HTTP ones.
type recSet struct {
	port  string
	ls    []*tracked
	recs  []*recorder
	hport string
	hls   []*tracked
	hrecs []*recorder
}

var recsOnce *recSet

func recorders() *recSet {
	if recsOnce != nil {
		return recsOnce
	}
	s := &recSet{}
	s.port, s.ls = ports(2)
	s.hport, s.hls = ports(2)
	for i := 0; i < 2; i++ {
		r := &recorder{}
		srv := grpc.NewServer()
		pb.RegisterDOQServer(srv, r)
		go srv.Serve(s.ls[i])
		s.recs = append(s.recs, r)
		h := &recorder{}
		s.hrecs = append(s.hrecs, h)
		go gohttp.Serve(s.hls[i], gohttp.HandlerFunc(func(w gohttp.ResponseWriter, q *gohttp.Request) {
			b, _ := io.ReadAll(q.Body)
			p := strings.Split(q.URL.EscapedPath(), "/")
			name := ""
			if len(p) > 4 {
				name = p[4]
			}
			if h.note(call{Op: q.Method, Q: name, C: string(b), G: q.URL.RequestURI()}) != nil {
				w.WriteHeader(409)
				return
			}
			fmt.Fprintf(w, `{"id":"%d","content":%q,"group":"g","priority":1}`, len(name), name)
		}))
	}
	recsOnce = s
	return s
}

// concProxy: concurrent forwarded requests while the leader changes from the first to the
// second host.
func concProxy(name string, http bool, ws []call, warm bool, changes []string, bound, free int) core.Item {
	return core.Item{Name: name, Run: func(ir *core.ItemRun) {
		rs := recorders()
		one := func(p *explore.Path) (out *fail) {
			recs, ls, port := rs.recs, rs.ls, rs.port
			if http {
				recs, ls, port = rs.hrecs, rs.hls, rs.hport
			}
			defer func() {
				for _, l := range ls {
					l.drop()
				}
			}()
			for _, r := range recs {
				r.take()
			}
			pn, _ := strconv.Atoi(port)
			lead := hostN(0)
			e := &sched.Exec{MaxSteps: 20000}
			told := map[int][]string{} // what each thread was told
			fol := &stub{}
			fol.Lead = func() string {
				if e.Chooser != nil {
					e.Point("leader?")
				}
				told[e.CurID()] = append(told[e.CurID()], lead)
				return lead
			}
			var svc *conn
			gs := dgrpc.NewQueueServer(fol, pn)
			var hs = newService(fol, port)
			f := e.Run(func() {
				send := func(w call) (ok bool, m *queue.Message) {
					if !http {
						var err error
						ok, m, err = direct{gs}.do(w)
						return ok && err == nil, m
					}
					r := hEnq(w.Q, w.G, w.P, w.C)
					if w.Op == "deq" {
						r = hDeq(w.Q, w.Ack)
					}
					m, err := viaHTTP{newConn(hs)}.call(r)
					return err == nil, m
				}
				if warm {
					send(call{Op: "deq", Q: "warm"})
					for _, r := range recs {
						r.take()
					}
				}
				e.Chooser, e.StmtPoints = p, true
				var ts []*sched.Thread
				type result struct {
					ok bool
					m  *queue.Message
					id int
				}
				res := make([]result, len(ws))
				for i, w := range ws {
					i, w := i, w
					ts = append(ts, sched.GoNamed(fmt.Sprint("client ", i+1), func() {
						res[i].id = e.CurID()
						res[i].ok, res[i].m = send(w)
					}))
				}
				if len(changes) > 0 {
					ts = append(ts, sched.GoNamed("leadership", func() {
						for _, c := range changes {
							e.Point("leadership moves")
							lead = c
						}
					}))
				}
				sched.Join(ts...)
				e.Chooser, e.StmtPoints = nil, false
				var got []string
				for k, r := range recs {
					for _, c := range r.take() {
						got = append(got, fmt.Sprintf("%s: %s %s", hostN(k), c.Op, c.Q))
					}
				}
				for i, w := range ws {
					at := []string{}
					for _, g := range got {
						if f := strings.Fields(g); len(f) > 2 && f[2] == w.Q {
							at = append(at, strings.TrimSuffix(f[0], ":"))
						}
					}
					t := told[res[i].id]
					log := []string{fmt.Sprintf("client %d sends %v, its node named the leader %q", i+1, w, t), fmt.Sprintf("received: %v", got), fmt.Sprintf("answer: success %v %v", res[i].ok, res[i].m)}
					// the node may be asked more than once; the last name counts
					if len(t) == 0 {
						out = &fail{Sig: "no-leader-asked", What: "the follower did not ask who leads", Log: log}
						return
					}
					want := t[len(t)-1]
					switch {
					case want == "" && len(at) > 0:
						out = &fail{Sig: "wrong-node", What: fmt.Sprintf("no leader was known, %v received the request", at), Log: log}
					case want == "" && res[i].ok:
						out = &fail{Sig: "no-leader-success", What: "no leader was known, the request succeeded", Log: log}
					case want == "":
					case len(at) != 1:
						out = &fail{Sig: "calls", What: fmt.Sprintf("the request was received %d times", len(at)), Log: log}
					case at[0] != want:
						out = &fail{Sig: "wrong-node", What: fmt.Sprintf("the request went to %s, the leader was %s", at[0], want), Log: log}
					case res[i].ok == strings.HasPrefix(w.Q, "bad"):
						out = &fail{Sig: "answer", What: fmt.Sprintf("the leader's outcome for %v is passed on as success %v", w, res[i].ok), Log: log}
					case res[i].ok && (w.Op == "enq" || w.Op == "deq") && res[i].m.ID != uint64(len(w.Q)):
						out = &fail{Sig: "answer", What: fmt.Sprintf("the answer to %v is %+v", w, *res[i].m), Log: log}
					}
					if out != nil {
						return
					}
				}
				for _, g := range got {
					known := false
					for _, w := range ws {
						known = known || strings.HasSuffix(g, " "+w.Q)
					}
					if !known {
						out = &fail{Sig: "calls", What: "a leader received " + g}
					}
				}
			})
			_ = svc
			if f != nil {
				out = &fail{Sig: f.Kind, What: f.Kind + ": " + f.Msg}
			}
			return out
		}
		exploreItem(ir, name, bound, free, one)
	}}
}

func init() {
	core.RegisterItems("C20", func(th bool) []core.Item {
		var its []core.Item
		for k := 0; k < 3; k++ {
			its = append(its, valuesItem(true, k, 3), valuesItem(false, k, 3))
		}
		its = append(its, movesItem(true, core.If(th, 4, 3)), movesItem(false, core.If(th, 4, 3)), breakItem(core.If(th, 3, 2)), grpcBreakItem(core.If(th, 3, 2)), rsys.LeaderView(core.If(th, 3, 2)))
		a := call{Op: "enq", Q: "one", G: "g", P: 5, C: "c"}
		b := call{Op: "deq", Q: "three", Ack: true}
		x := call{Op: "deq", Q: "bad-queue"}
		var all []call
		for _, c := range []call{{Op: "create", T: "fair"}, {Op: "delete"}, {Op: "enq", G: "g", P: 1, C: "c"}, {Op: "deq"}, {Op: "ack", ID: 1}, {Op: "nack", ID: 2}, {Op: "upd", ID: 3, P: 4}} {
			c.Q = "queue-" + c.Op
			all = append(all, c)
		}
		bd := core.If(th, 2, 1)
		for _, warm := range []bool{false, true} {
			w := core.If(warm, ", connected before", "")
			for i, c := range all {
				its = append(its, concProxy(fmt.Sprintf("gRPC %s beside %s, leader moves%s", c.Op, all[(i+1)%len(all)].Op, w), false, []call{c, all[(i+1)%len(all)]}, warm, []string{hostN(1)}, bd, 2))
			}
			its = append(its,
				concProxy("gRPC, leader lost"+w, false, []call{a, x}, warm, []string{""}, bd, 2),
				concProxy("gRPC, leader moves away and back"+w, false, []call{a, b}, warm, []string{hostN(1), hostN(0)}, bd, 2),
				concProxy("HTTP, leader moves"+w, true, []call{a, b}, warm, []string{hostN(1)}, bd, 2),
				concProxy("HTTP, one fails, leader lost"+w, true, []call{a, x}, warm, []string{""}, bd, 2),
			)
		}
		its = append(its, concProxy("gRPC, three at once, leader moves", false, []call{a, b, x}, true, []string{hostN(1)}, 1, 1))
		return its
	})
	checks["C20"] = func(c *core.Ctx, pool *core.Pool) { core.RunItems(c, pool) }
}

var _ = time.Second
