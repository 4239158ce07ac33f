package main

import (
	"bufio"
	"bytes"
	"embed"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/gofiber/fiber/v2"
	"github.com/kgantsov/doq/pkg/config"
	"github.com/kgantsov/doq/pkg/http"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/valyala/fasthttp"

	"vmc/sched"
)

// call is one command that reached a node.
type call struct {
	Op, Q, G, C, T string
	P              int64
	ID             uint64
	Ack            bool
}

func (c call) String() string {
	return fmt.Sprintf("%s(queue %q group %q content %s prio %d id %d ack %v type %q)", c.Op, short(c.Q), short(c.G), short(c.C), c.P, c.ID, c.Ack, c.T)
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s...(%d bytes)", s[:60], len(s))
	}
	return s
}

// stub is a node that records what it is asked and answers as told.
type stub struct {
	leader bool
	Lead   func() string
	reg    prometheus.Registerer
	calls  []call
	err    error
	msg    queue.Message
	infos  []*queue.QueueInfo
	e      *sched.Exec
	busy   bool
	mu     sync.Mutex
	on     func(c call) error // when set decides the outcome
}

func (s *stub) do(c call) error {
	if s.e != nil {
		s.e.Point("node")
		s.e.Block("node", func() bool { return !s.busy })
		s.busy = true
		defer func() { s.busy = false }()
	}
	c.Q, c.G, c.C, c.T = strings.Clone(c.Q), strings.Clone(c.G), strings.Clone(c.C), strings.Clone(c.T)
	s.mu.Lock()
	s.calls = append(s.calls, c)
	s.mu.Unlock()
	if s.on != nil {
		return s.on(c)
	}
	return s.err
}

func (s *stub) Join(id, addr string) error { return s.do(call{Op: "join", Q: id, G: addr}) }
func (s *stub) PrometheusRegistry() prometheus.Registerer {
	if s.reg == nil {
		s.reg = prometheus.NewRegistry()
	}
	return s.reg
}
func (s *stub) Leader() string {
	if s.Lead != nil {
		return s.Lead()
	}
	return ""
}
func (s *stub) IsLeader() bool                { return s.leader }
func (s *stub) GenerateID() uint64            { return 77 }
func (s *stub) CreateQueue(t, q string) error { return s.do(call{Op: "create", Q: q, T: t}) }
func (s *stub) DeleteQueue(q string) error    { return s.do(call{Op: "delete", Q: q}) }
func (s *stub) GetQueues() []*queue.QueueInfo { return s.infos }
func (s *stub) GetQueueInfo(q string) (*queue.QueueInfo, error) {
	if err := s.do(call{Op: "info", Q: q}); err != nil {
		return nil, err
	}
	if len(s.infos) == 0 {
		return nil, errors.New("no queue")
	}
	return s.infos[0], nil
}
func (s *stub) Enqueue(q, g string, p int64, c string) (*queue.Message, error) {
	if err := s.do(call{Op: "enq", Q: q, G: g, P: p, C: c}); err != nil {
		return nil, err
	}
	m := s.msg
	return &m, nil
}
func (s *stub) Dequeue(q string, ack bool) (*queue.Message, error) {
	if err := s.do(call{Op: "deq", Q: q, Ack: ack}); err != nil {
		return nil, err
	}
	m := s.msg
	return &m, nil
}
func (s *stub) Ack(q string, id uint64) error  { return s.do(call{Op: "ack", Q: q, ID: id}) }
func (s *stub) Nack(q string, id uint64) error { return s.do(call{Op: "nack", Q: q, ID: id}) }
func (s *stub) GetByID(id uint64) (*queue.Message, error) {
	return nil, errors.New("not part of the interface")
}
func (s *stub) UpdatePriority(q string, id uint64, p int64) error {
	return s.do(call{Op: "upd", Q: q, ID: id, P: p})
}

var _ http.Node = (*stub)(nil)

// appOf finds the service's router.
func appOf(s *http.Service) *fiber.App {
	v := reflect.ValueOf(s).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf((*fiber.App)(nil)) {
			return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface().(*fiber.App)
		}
	}
	panic("harness: the HTTP service has no router")
}

func newService(n http.Node, port string) *http.Service {
	cfg := &config.Config{}
	cfg.Http.Port = port
	return http.NewHttpService(cfg, n, embed.FS{}, embed.FS{})
}

// conn is one keep-alive connection to a service: requests are parsed from their bytes into
// the same buffers, one after the other.
type conn struct {
	h   fasthttp.RequestHandler
	ctx fasthttp.RequestCtx
}

// noConn is the connection a request context hangs on.
type noConn struct{}

func (noConn) Read([]byte) (int, error)         { return 0, io.EOF }
func (noConn) Write(b []byte) (int, error)      { return len(b), nil }
func (noConn) Close() error                     { return nil }
func (noConn) LocalAddr() net.Addr              { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 80} }
func (noConn) RemoteAddr() net.Addr             { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 81} }
func (noConn) SetDeadline(time.Time) error      { return nil }
func (noConn) SetReadDeadline(time.Time) error  { return nil }
func (noConn) SetWriteDeadline(time.Time) error { return nil }

func newConn(s *http.Service) *conn {
	c := &conn{h: appOf(s).Handler()}
	c.ctx.Init2(noConn{}, nil, false)
	return c
}

// hreq is one HTTP request and the command it stands for.
type hreq struct {
	Method, Path, Body string
	Want               call
	Bad                bool // must be rejected without any command
	Either             bool // may be rejected without any command
}

func (r hreq) String() string {
	return fmt.Sprintf("%s %s %s", r.Method, short(r.Path), short(r.Body))
}

func (r hreq) bytes() []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: localhost\r\n", r.Method, r.Path)
	if r.Body != "" || r.Method == "POST" || r.Method == "PUT" {
		fmt.Fprintf(&b, "Content-Type: application/json\r\nContent-Length: %d\r\n", len(r.Body))
	}
	b.WriteString("\r\n")
	b.WriteString(r.Body)
	return b.Bytes()
}

// send hands the request to the service and returns status and body.
func (c *conn) send(r hreq) (int, []byte) {
	c.ctx.ResetUserValues()
	c.ctx.Response.Reset()
	c.ctx.Request.Reset()
	br := bufio.NewReaderSize(bytes.NewReader(r.bytes()), 64<<10)
	if err := c.ctx.Request.Read(br); err != nil {
		return 400, []byte(err.Error()) // the server closes the connection
	}
	c.h(&c.ctx)
	return c.ctx.Response.StatusCode(), append([]byte{}, c.ctx.Response.Body()...)
}

func jsonOf(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

func qpath(q string) string { return "/API/v1/queues/" + url.PathEscape(q) }

// The requests for each command.
func hCreate(t, q string) hreq {
	return hreq{Method: "POST", Path: "/API/v1/queues", Body: jsonOf(map[string]any{"name": q, "type": t}), Want: call{Op: "create", Q: q, T: t}}
}
func hDelete(q string) hreq {
	return hreq{Method: "DELETE", Path: qpath(q), Want: call{Op: "delete", Q: q}}
}
func hEnq(q, g string, p int64, c string) hreq {
	w := call{Op: "enq", Q: q, G: g, P: p, C: c}
	if g == "" {
		w.G = "default" // the documented default
	}
	return hreq{Method: "POST", Path: qpath(q) + "/messages", Body: jsonOf(map[string]any{"group": g, "priority": p, "content": c}), Want: w}
}
func hDeq(q string, ack bool) hreq {
	return hreq{Method: "GET", Path: qpath(q) + "/messages?ack=" + fmt.Sprint(ack), Want: call{Op: "deq", Q: q, Ack: ack}}
}
func hAck(q string, id uint64) hreq {
	return hreq{Method: "POST", Path: qpath(q) + "/messages/" + strconv.FormatUint(id, 10) + "/ack", Want: call{Op: "ack", Q: q, ID: id}}
}
func hNack(q string, id uint64) hreq {
	return hreq{Method: "POST", Path: qpath(q) + "/messages/" + strconv.FormatUint(id, 10) + "/nack", Want: call{Op: "nack", Q: q, ID: id}}
}
func hUpd(q string, id uint64, p int64) hreq {
	return hreq{Method: "PUT", Path: qpath(q) + "/messages/" + strconv.FormatUint(id, 10) + "/priority", Body: jsonOf(map[string]any{"priority": p}), Want: call{Op: "upd", Q: q, ID: id, P: p}}
}
func hInfo(q string) hreq {
	return hreq{Method: "GET", Path: qpath(q), Want: call{Op: "info", Q: q}}
}
func hJoin(id, addr string) hreq {
	return hreq{Method: "POST", Path: "/join", Body: jsonOf(map[string]any{"id": id, "addr": addr}), Want: call{Op: "join", Q: id, G: addr}}
}

// answer is the body of a successful answer.
type answer struct {
	Status   string       `json:"status"`
	ID       string       `json:"id"`
	Group    string       `json:"group"`
	Priority json.Number  `json:"priority"`
	Content  string       `json:"content"`
	Name     string       `json:"name"`
	Type     string       `json:"type"`
	Addr     string       `json:"addr"`
	Enq      float64      `json:"enqueue_rps"`
	Deq      float64      `json:"dequeue_rps"`
	AckR     float64      `json:"ack_rps"`
	NackR    float64      `json:"nack_rps"`
	Ready    int64        `json:"ready"`
	Unacked  int64        `json:"unacked"`
	Total    int64        `json:"total"`
	Queues   []queueInfoT `json:"queues"`
}
type queueInfoT struct {
	Name    string  `json:"name"`
	Type    string  `json:"type"`
	Enq     float64 `json:"enqueue_rps"`
	Deq     float64 `json:"dequeue_rps"`
	AckR    float64 `json:"ack_rps"`
	NackR   float64 `json:"nack_rps"`
	Ready   int64   `json:"ready"`
	Unacked int64   `json:"unacked"`
	Total   int64   `json:"total"`
}

func infoT(name string, i *queue.QueueInfo) queueInfoT {
	return queueInfoT{name, i.Type, i.Stats.EnqueueRPS, i.Stats.DequeueRPS, i.Stats.AckRPS, i.Stats.NackRPS, i.Ready, i.Unacked, i.Total}
}

// judge compares the answer to a request with what the node said (err, msg, info).
func (r hreq) judge(code int, body []byte, calls []call, err error, msg *queue.Message, info *queue.QueueInfo) *fail {
	bad := func(sig, f string, a ...any) *fail {
		return &fail{Sig: sig, What: fmt.Sprintf(f, a...), Log: []string{r.String(), fmt.Sprintf("-> %d %s", code, short(string(body))), fmt.Sprintf("commands: %v", calls), fmt.Sprintf("the node's outcome: %v", err)}}
	}
	if r.Bad || (r.Either && code >= 400 && len(calls) == 0) {
		if code < 400 {
			return bad("malformed-accepted", "a malformed request is answered with status %d", code)
		}
		if len(calls) != 0 {
			return bad("malformed-command", "a rejected request caused %v", calls)
		}
		return nil
	}
	if len(calls) != 1 {
		return bad("calls", "the request caused %d commands: %v", len(calls), calls)
	}
	if calls[0] != r.Want {
		return bad("arguments", "the node was asked %v, the request says %v", calls[0], r.Want)
	}
	if err != nil {
		if code < 400 || code > 599 {
			return bad("failure-as-success", "the command failed, the status is %d", code)
		}
		return nil
	}
	if code != 200 {
		return bad("success-as-failure", "the command succeeded, the status is %d", code)
	}
	var a answer
	if e := json.Unmarshal(body, &a); e != nil {
		return bad("answer", "the answer is not readable: %v", e)
	}
	w := r.Want
	switch w.Op {
	case "create":
		if a.Name != w.Q || a.Type != w.T {
			return bad("answer", "the answer names %q %q", a.Name, a.Type)
		}
	case "join":
		if a.ID != w.Q || a.Addr != w.G {
			return bad("answer", "the answer names %q %q", a.ID, a.Addr)
		}
	case "enq", "deq":
		if a.ID != strconv.FormatUint(msg.ID, 10) || a.Group != msg.Group || string(a.Priority) != strconv.FormatInt(msg.Priority, 10) || a.Content != msg.Content {
			return bad("answer", "the answer has id %s group %q priority %s content %s, the queue said %d %q %d %s", a.ID, a.Group, a.Priority, short(a.Content), msg.ID, msg.Group, msg.Priority, short(msg.Content))
		}
	case "ack", "nack":
		if a.ID != strconv.FormatUint(w.ID, 10) {
			return bad("answer", "the answer names message %s", a.ID)
		}
	case "upd":
		if a.ID != strconv.FormatUint(w.ID, 10) || string(a.Priority) != strconv.FormatInt(w.P, 10) {
			return bad("answer", "the answer names message %s priority %s", a.ID, a.Priority)
		}
	case "info":
		got := queueInfoT{a.Name, a.Type, a.Enq, a.Deq, a.AckR, a.NackR, a.Ready, a.Unacked, a.Total}
		if got != infoT(w.Q, info) {
			return bad("answer", "the answer says %+v, the queue %+v", got, infoT(w.Q, info))
		}
	}
	return nil
}
