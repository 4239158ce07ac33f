package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"

	"github.com/kgantsov/doq/pkg/cluster"

	"vmc/core"
	vtime "vmc/v/vtime"
)

// C24: the real Joiner against up to three real peers on loopback: every pattern of answers.

type ask struct {
	peer int
	body string
}

type peer struct {
	srv  *httptest.Server
	host string
	n    int // asks so far
}

type peers struct {
	mu     sync.Mutex
	ps     []*peer
	asks   []ask
	answer func(p, n int) string // what peer p does on its n-th ask
	bad    string
	quit   chan struct{}
}

func newPeers(n int) *peers {
	g := &peers{quit: make(chan struct{})}
	for i := 0; i < n; i++ {
		p := &peer{}
		p.srv = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { g.serve(i, w, r) }))
		p.srv.Config.SetKeepAlivesEnabled(false)
		p.srv.Start()
		p.host = p.srv.Listener.Addr().String()
		g.ps = append(g.ps, p)
	}
	return g
}

func (g *peers) close() {
	close(g.quit)
	for _, p := range g.ps {
		p.srv.CloseClientConnections()
		p.srv.Close()
	}
}

func (g *peers) reset(answer func(p, n int) string) {
	g.mu.Lock()
	g.asks, g.answer, g.bad = nil, answer, ""
	for _, p := range g.ps {
		p.n = 0
	}
	g.mu.Unlock()
}

func (g *peers) serve(i int, w http.ResponseWriter, r *http.Request) {
	b, _ := io.ReadAll(r.Body)
	g.mu.Lock()
	if r.Method != "POST" || r.URL.RequestURI() != "/join" {
		g.bad = r.Method + " " + r.URL.RequestURI()
	}
	if !strings.HasPrefix(r.Header.Get("Content-Type"), "application/json") {
		g.bad = "content type " + r.Header.Get("Content-Type")
	}
	g.asks = append(g.asks, ask{i, string(b)})
	n := g.ps[i].n
	g.ps[i].n++
	how := g.answer(i, n)
	g.mu.Unlock()
	drop := func() {
		if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
			if t, ok := c.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
			c.Close()
		}
	}
	switch how {
	case "accept":
		w.Header().Set("Content-Type", "application/json")
		fmt.Fprintf(w, `{"id":"x","addr":"y"}`)
	case "refuse":
		w.WriteHeader(500)
		fmt.Fprint(w, `{"title":"Internal Server Error"}`)
	case "invalid":
		w.WriteHeader(422)
	case "unavailable":
		w.WriteHeader(503)
	case "elsewhere": // an answer that carries no acceptance
		w.WriteHeader(300)
	case "unchanged":
		w.WriteHeader(304)
	case "reset":
		drop()
	case "late":
		select {
		case <-time.After(2500 * time.Millisecond):
		case <-g.quit:
		}
		fmt.Fprintf(w, `{"id":"x","addr":"y"}`)
	case "hang":
		select {
		case <-r.Context().Done():
		case <-g.quit:
		}
		drop()
	default:
		panic("harness: " + how)
	}
}

const minRounds, maxRounds = 3, 10

// judge compares the asks with the answers: in turn, every peer in every round, up to the
// first acceptance.
func (g *peers) judge(hosts []int, dead []bool, id, addr string, err error, accepted bool) *fail {
	g.mu.Lock()
	defer g.mu.Unlock()
	var seq []string
	for _, a := range g.asks {
		seq = append(seq, fmt.Sprint("peer ", a.peer))
	}
	bad := func(sig, f string, x ...any) *fail {
		ff := failf(sig, f, x...)
		ff.Log = seq
		return ff
	}
	if g.bad != "" {
		return bad("request", "a peer is asked with %s", g.bad)
	}
	for _, a := range g.asks {
		var m map[string]any
		if e := json.Unmarshal([]byte(a.body), &m); e != nil || m["id"] != id || m["addr"] != addr {
			return bad("body", "a peer is asked with %s, must name id %q and address %q", a.body, id, addr)
		}
	}
	if accepted != (err == nil) {
		return bad("verdict", "accepted by a peer: %v, result: %v", accepted, err)
	}
	var live []int
	for i, h := range hosts {
		if !dead[i] {
			live = append(live, h)
		}
	}
	for k, a := range g.asks {
		if a.peer != live[k%len(live)] {
			return bad("order", "the peers are not asked in turn")
		}
	}
	if !accepted && len(live) > 0 {
		rounds := len(g.asks) / len(live)
		if len(g.asks)%len(live) != 0 || rounds < minRounds || rounds > maxRounds {
			return bad("gave-up", "failure after %d asks of %d peers", len(g.asks), len(live))
		}
	}
	return nil
}

// join runs the real joiner with its pauses taken at once.
func join(id, addr string, hosts []string, slept *time.Duration) error {
	vtime.SleepHook = func(d time.Duration) { *slept += d }
	return cluster.NewJoiner(id, addr, hosts).Join()
}

var ids = [][2]string{{"node-2", "localhost:9002"}, {"doq-1.doq-internal.default.svc.cluster.local.:8000", "doq-1.doq-internal.default.svc.cluster.local.:12000"}, {`n"ö\<`, "[::1]:9"}}

func init() {
	core.RegisterItems("C24", func(th bool) (its []core.Item) {
		pattern := func(n int, kinds []string, dead int, who int) {
			var shared *peers
			name := fmt.Sprintf("%d peers answering %v", n, kinds)
			if dead >= 0 {
				name += fmt.Sprintf(", unreachable ones %03b", dead)
			}
			its = append(its, core.Item{Name: name, Run: func(r *core.ItemRun) {
				if shared == nil {
					shared = newPeers(n)
					defer func() { shared.close(); shared = nil }()
				}
				core.Enumerate(r, func(ch *core.Choices) *fail {
					total, accepted := 0, false
					shared.reset(func(p, k int) string {
						total++
						if total > 40 || k >= maxRounds {
							return "refuse"
						}
						if k >= minRounds { // more rounds than are enumerated
							return "refuse"
						}
						how := kinds[ch.Pick(len(kinds))]
						accepted = accepted || how == "accept"
						return how
					})
					var hosts []string
					var idx []int
					ds := make([]bool, n)
					for i, p := range shared.ps {
						h := p.host
						if dead > 0 && dead>>i&1 == 1 {
							ds[i] = true
							h = []string{"127.0.0.1:1", "no host:80", "127.0.0.1:99999"}[i%3]
						}
						hosts, idx = append(hosts, h), append(idx, i)
					}
					var slept time.Duration
					err := join(ids[who][0], ids[who][1], hosts, &slept)
					return shared.judge(idx, ds, ids[who][0], ids[who][1], err, accepted)
				})
			}})
		}
		for n := 1; n <= 3; n++ {
			k := []string{"accept", "refuse", "reset"}
			if n < 3 || th {
				k = []string{"accept", "refuse", "reset", "invalid"}
			}
			if n == 1 {
				k = append(k, "unavailable", "elsewhere", "unchanged")
			} else if n == 2 {
				k[3] = "unchanged"
			}
			pattern(n, k, -1, n%len(ids))
			for d := 1; d < 1<<n; d++ {
				pattern(n, k[:3], d, (n+d)%len(ids))
			}
		}
		its = append(its, core.Item{Name: "no peers", Run: func(r *core.ItemRun) {
			core.Enumerate(r, func(ch *core.Choices) *fail {
				var slept time.Duration
				hosts := [][]string{nil, {}}[ch.Pick(2)]
				if err := join("a", "b", hosts, &slept); err != nil {
					return failf("no-peers", "a node without peers fails to start: %v", err)
				}
				return nil
			})
		}})
		// peers that come up between the rounds
		its = append(its, core.Item{Name: "peers that come up later", Run: func(r *core.ItemRun) {
			core.Enumerate(r, func(ch *core.Choices) *fail {
				n := 1 + ch.Pick(2)
				up := []time.Duration{500 * time.Millisecond, 1500 * time.Millisecond}[ch.Pick(2)]
				which := ch.Pick(n)
				g := newPeers(n)
				defer g.close()
				g.reset(func(p, k int) string { return "accept" })
				var hosts []string
				for _, p := range g.ps {
					hosts = append(hosts, p.host)
					p.srv.Listener.Close()
				}
				var slept time.Duration
				t0 := time.Now()
				var late net.Listener
				vtime.SleepHook = func(d time.Duration) {
					slept += d
					if late == nil && slept+time.Since(t0) >= up {
						l, err := net.Listen("tcp", hosts[which])
						if err != nil {
							return
						}
						late = l
						go (&http.Server{Handler: g.ps[which].srv.Config.Handler}).Serve(l)
					}
				}
				err := cluster.NewJoiner("a", "b", hosts).Join()
				if late != nil {
					late.Close()
				} else if slept > 0 {
					return nil // the port was taken by another process
				}
				if err != nil {
					return failf("late-peer", "a peer that comes up after %v is not joined: %v", up, err)
				}
				return nil
			})
		}})
		// real time: one peer answers late or never
		for k, c := range []struct {
			first, second string
			want          bool
			asks          string
		}{
			{"late", "accept", true, "[0]"},
			{"hang", "accept", true, "[0 1]"},
		} {
			its = append(its, core.Item{Name: fmt.Sprintf("real time: the first peer %s, the second %s", c.first, c.second), Run: func(r *core.ItemRun) {
				one := func() *fail {
					g := newPeers(2)
					defer g.close()
					g.reset(func(p, k int) string { return []string{c.first, c.second}[p] })
					done := make(chan error, 1)
					go func() {
						var slept time.Duration
						done <- join("a", "b", []string{g.ps[0].host, g.ps[1].host}, &slept)
					}()
					var err error
					select {
					case err = <-done:
					case <-time.After(25 * time.Second):
						return failf("stuck", "the first peer does not answer and the second is not asked within 25 s")
					}
					g.mu.Lock()
					defer g.mu.Unlock()
					var seq []int
					for _, a := range g.asks {
						seq = append(seq, a.peer)
					}
					if err != nil || fmt.Sprint(seq) != c.asks {
						return failf("late", "peers that %s and %s: result %v, asked %v, must be %s", c.first, c.second, err, seq, c.asks)
					}
					return nil
				}
				f := one()
				r.Ran()
				r.Count("states", 1)
				r.Count("transitions", 1)
				if f != nil {
					r.ReportFail(f, func() bool { r.Ran(); f2 := one(); return f2 != nil && f2.Sig == f.Sig })
				}
			}})
			_ = k
		}
		return
	})
	checks["C24"] = func(c *core.Ctx, pool *core.Pool) {
		c.Assumptions = []string{"peers are HTTP servers on loopback; the pauses between rounds are taken at once, a peer that never answers is waited for in real time"}
		c.Coverage["bounds"] = map[string]any{"peers": 3, "rounds": minRounds, "answers": "accept, 500, 422, 503, 300, 304, reset, unreachable, late, never"}
		core.RunItems(c, pool)
	}
}
