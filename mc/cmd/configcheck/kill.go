package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vmc/core"
)

// C30: the real server process, on a real disk, killed at every point of every write to its
// storage: while it starts for the first time, while it carries out commands, while it
// recovers. VERIF_KILL_AT is the number of the point at which the process ends itself.

type kmsg struct {
	id, group, content string // an empty id: not known, the answer was lost
	prio               int64
	out                bool // delivered, not acknowledged
}

type kqueue struct {
	typ  string
	msgs []kmsg
}

type kstate map[string]*kqueue

func (s kstate) clone() kstate {
	n := kstate{}
	for k, q := range s {
		n[k] = &kqueue{q.typ, append([]kmsg{}, q.msgs...)}
	}
	return n
}

func (s kstate) String() string {
	var ks []string
	for k, q := range s {
		ks = append(ks, fmt.Sprintf("%s(%s) %+v", k, q.typ, q.msgs))
	}
	sort.Strings(ks)
	return strings.Join(ks, "; ")
}

type kop struct {
	op, q, g, c string // c: the content that names the message
	p           int64
	ack         bool
	typ         string
}

func (o kop) String() string {
	switch o.op {
	case "create":
		return fmt.Sprintf("create %s (%s)", o.q, o.typ)
	case "enq":
		return fmt.Sprintf("enqueue %q to %s (group %s, priority %d)", o.c, o.q, o.g, o.p)
	case "deq":
		return fmt.Sprintf("dequeue from %s (ack %v)", o.q, o.ack)
	case "prio":
		return fmt.Sprintf("priority of %q of %s to %d", o.c, o.q, o.p)
	}
	return fmt.Sprintf("%s %q of %s", o.op, o.c, o.q)
}

type kans struct {
	lost bool // no answer
	ok   bool
	code int
	body map[string]any
}

func (a kans) String() string {
	if a.lost {
		return "no answer"
	}
	b, _ := json.Marshal(a.body)
	return fmt.Sprintf("%d %s", a.code, b)
}

func (a kans) str(k string) string { s, _ := a.body[k].(string); return s }
func (a kans) num(k string) int64 {
	n, _ := a.body[k].(json.Number)
	i, err := n.Int64()
	if err != nil {
		return -1
	}
	return i
}

// firsts are the messages that a dequeue may give: the first of the queue, or of any group.
func (q *kqueue) firsts() (is []int) {
	best := map[string]int{}
	for i, m := range q.msgs {
		g := m.group
		if q.typ != "fair" {
			g = ""
		}
		if m.out {
			continue
		}
		if j, ok := best[g]; !ok || m.prio < q.msgs[j].prio {
			best[g] = i
		}
	}
	for _, i := range best { // a message whose id is not known may stand before or after its equals
		g := q.msgs[i]
		for j, m := range q.msgs {
			if !m.out && m.prio == g.prio && (q.typ != "fair" || m.group == g.group) && (j == i || m.id == "" || g.id == "" || j < i) {
				is = append(is, j)
			}
		}
	}
	sort.Ints(is)
	return
}

func (q *kqueue) find(content string) int {
	if q != nil {
		for i, m := range q.msgs {
			if m.content == content {
				return i
			}
		}
	}
	return -1
}

// next are the states after the operation that agree with the answer.
func (s kstate) next(o kop, a kans) (out []kstate) {
	q := s[o.q]
	add := func(f func(n kstate, q *kqueue)) {
		n := s.clone()
		f(n, n[o.q])
		out = append(out, n)
	}
	same := func() { out = append(out, s.clone()) }
	done := func(ok bool, f func(n kstate, q *kqueue)) {
		switch {
		case a.lost:
			same()
			if ok {
				add(f)
			}
		case a.ok && ok:
			add(f)
		case !a.ok && !ok:
			same()
		}
	}
	i := q.find(o.c)
	switch o.op {
	case "create":
		done(true, func(n kstate, _ *kqueue) {
			if q == nil {
				n[o.q] = &kqueue{typ: o.typ}
			}
		})
	case "delete":
		if q == nil { // either answer will do
			same()
			return
		}
		done(true, func(n kstate, _ *kqueue) { delete(n, o.q) })
	case "enq":
		g := o.g
		if q != nil && q.typ != "fair" {
			g = "default"
		}
		if a.ok && (a.str("group") != g || a.num("priority") != o.p || a.str("content") != o.c || a.str("id") == "") {
			return nil
		}
		for _, x := range s {
			for _, m := range x.msgs {
				if a.ok && m.id == a.str("id") {
					return nil
				}
			}
		}
		done(q != nil, func(n kstate, q *kqueue) {
			q.msgs = append(q.msgs, kmsg{id: a.str("id"), group: g, content: o.c, prio: o.p})
		})
	case "deq":
		var fs []int
		if q != nil {
			fs = q.firsts()
		}
		if a.lost || !a.ok && len(fs) == 0 {
			same()
		}
		for _, f := range fs {
			m := q.msgs[f]
			if a.lost || a.ok && (m.id == "" || m.id == a.str("id")) && m.group == a.str("group") && m.content == a.str("content") && m.prio == a.num("priority") {
				add(func(_ kstate, q *kqueue) {
					if o.ack {
						q.msgs = append(q.msgs[:f:f], q.msgs[f+1:]...)
					} else {
						q.msgs[f].out = true
						if a.ok {
							q.msgs[f].id = a.str("id")
						}
					}
				})
			}
		}
	case "ack":
		done(i >= 0 && q.msgs[i].out, func(_ kstate, q *kqueue) { q.msgs = append(q.msgs[:i:i], q.msgs[i+1:]...) })
	case "nack":
		done(i >= 0 && q.msgs[i].out, func(_ kstate, q *kqueue) { q.msgs[i].out = false })
	case "prio":
		done(i >= 0, func(_ kstate, q *kqueue) { q.msgs[i].prio = o.p })
	case "info":
		if !a.ok && !a.lost && q == nil {
			same()
		}
		if a.ok && q != nil {
			var ready, unacked int64
			for _, m := range q.msgs {
				if m.out {
					unacked++
				} else {
					ready++
				}
			}
			if a.num("ready") == ready && a.num("unacked") == unacked && a.num("total") == ready+unacked && a.str("type") == q.typ {
				same()
			}
		}
	}
	return
}

// request performs the operation on the server.
func request(base string, o kop, id string) kans {
	u := base + "/API/v1/queues"
	qu := u + "/" + url.PathEscape(o.q)
	enc := func(v any) string { b, _ := json.Marshal(v); return string(b) }
	var code int
	var body string
	switch o.op {
	case "create":
		code, body = call("POST", u, enc(map[string]any{"name": o.q, "type": o.typ}))
	case "delete":
		code, body = call("DELETE", qu, "")
	case "enq":
		code, body = call("POST", qu+"/messages", enc(map[string]any{"content": o.c, "group": o.g, "priority": o.p}))
	case "deq":
		code, body = call("GET", fmt.Sprintf("%s/messages?ack=%v", qu, o.ack), "")
	case "ack", "nack":
		code, body = call("POST", fmt.Sprintf("%s/messages/%s/%s", qu, id, o.op), "")
	case "prio":
		code, body = call("PUT", fmt.Sprintf("%s/messages/%s/priority", qu, id), enc(map[string]any{"priority": o.p}))
	case "info":
		code, body = call("GET", qu, "")
	}
	if code == 0 {
		return kans{lost: true}
	}
	a := kans{code: code, ok: code >= 200 && code < 300, body: map[string]any{}}
	d := json.NewDecoder(strings.NewReader(body))
	d.UseNumber()
	d.Decode(&a.body)
	return a
}

// kserver is the server over one directory.
type kserver struct {
	dir, http, raft string
	p               *proc
	log             []string
}

func (k *kserver) base() string { return "http://127.0.0.1:" + k.http }

func (k *kserver) start(at int) {
	k.p = startIn(k.dir, []string{"--http.port=" + k.http, "--raft.address=" + k.raft, "--queue.acknowledgement_timeout=3600"},
		fmt.Sprintf("VERIF_KILL_AT=%d", at), "VERIF_KILL_COUNT=points.txt")
}

// up waits until the server carries out commands; false when the process has ended.
func (k *kserver) up(d time.Duration) (up, ended bool) {
	up = until(d, func() bool {
		core.Beat()
		select {
		case <-k.p.done:
			ended = true
			return true
		default:
		}
		a := request(k.base(), kop{op: "create", q: "probe", typ: "delayed"}, "")
		return a.ok
	})
	return up && !ended, ended
}

func (k *kserver) kill() {
	syscall.Kill(-k.p.cmd.Process.Pid, syscall.SIGKILL)
	<-k.p.done
}

func (k *kserver) points() int {
	b, _ := os.ReadFile(filepath.Join(k.dir, "points.txt"))
	n, _ := strconv.Atoi(strings.TrimSpace(string(b)))
	return n
}

type kscn struct {
	name string
	ops  []kop
}

// run performs the operations on a server that is killed at the point (0: after the last),
// started again with a kill at the point again (0: none), and started a last time.
func (s *kscn) run(at, again int) (f *core.ItemFail, points, recovery int) {
	dir, err := os.MkdirTemp("", "vkill")
	must(err)
	defer os.RemoveAll(dir)
	k := &kserver{dir: dir, http: freePort(), raft: "localhost:" + freePort()}
	defer func() {
		if k.p != nil {
			k.kill()
		}
	}()
	say := func(f string, a ...any) { k.log = append(k.log, fmt.Sprintf(f, a...)) }
	bad := func(sig, f string, a ...any) *core.ItemFail {
		return &core.ItemFail{Sig: sig, What: fmt.Sprintf(f, a...), Log: k.log}
	}
	states := []kstate{{}}
	seen := map[string]string{} // id to content
	do := func(o kop) (kans, bool) {
		id := "1"
		for _, st := range states {
			if i := st[o.q].find(o.c); i >= 0 && st[o.q].msgs[i].id != "" {
				id = st[o.q].msgs[i].id
			}
		}
		a := request(k.base(), o, id)
		say("%s: %v", o, a)
		var ns []kstate
		have := map[string]bool{}
		for _, st := range states {
			for _, n := range st.next(o, a) {
				if x := n.String(); !have[x] {
					have[x] = true
					ns = append(ns, n)
				}
			}
		}
		if o.op == "enq" && a.ok {
			if c, ok := seen[a.str("id")]; ok && c != o.c {
				return a, false
			}
			seen[a.str("id")] = o.c
		}
		if len(ns) == 0 {
			return a, false
		}
		states = ns
		return a, true
	}
	expected := func() string {
		var l []string
		for _, st := range states {
			l = append(l, st.String())
		}
		return strings.Join(l, "  OR  ")
	}
	k.start(at)
	up, ended := k.up(90 * time.Second)
	if !up && !ended {
		return bad("first-start", "the server does not carry out commands within a minute of its first start"), 0, 0
	}
	say("first start: up %v", up)
	if up {
		for _, o := range s.ops {
			was := expected()
			a, ok := do(o)
			if a.lost {
				select {
				case <-k.p.done:
				case <-time.After(5 * time.Second):
					return bad("no-answer", "%v is not answered", o), 0, 0
				}
			}
			if !ok {
				return bad("answer", "%v is answered %v, the state is %s", o, a, was), 0, 0
			}
			if a.lost {
				break
			}
		}
	}
	k.kill()
	points = k.points()
	os.Remove(filepath.Join(k.dir, "points.txt"))
	if again >= 0 {
		say("killed; started again")
		k.start(again)
		up, ended := k.up(90 * time.Second)
		if !up && !ended {
			return bad("restart", "after a kill at point %d the server does not carry out commands within a minute of its start", at), points, 0
		}
		k.kill()
		recovery = k.points()
		os.Remove(filepath.Join(k.dir, "points.txt"))
	}
	say("killed; started again")
	k.start(0)
	if up, ended := k.up(90 * time.Second); !up {
		return bad("restart", "after a kill at point %d (%d of the recovery) the server does not carry out commands within a minute of its start (ended: %v): %s", at, again, ended, tail(k.p.text())), points, recovery
	}
	names := map[string]bool{}
	for _, o := range s.ops {
		names[o.q] = true
	}
	var qs []string
	for n := range names {
		qs = append(qs, n)
	}
	sort.Strings(qs)
	step := func(o kop) *core.ItemFail {
		was := expected()
		if a, ok := do(o); !ok {
			return bad("recovered-"+o.op, "after the kill %v is answered %v, the state must be %s", o, a, was)
		}
		return nil
	}
	for _, n := range qs {
		if f := step(kop{op: "info", q: n}); f != nil {
			return f, points, recovery
		}
	}
	n := 0
	for _, name := range qs {
		for _, m := range append([]kmsg{}, msgsOf(states[0], name)...) {
			if m.out && m.id != "" {
				n++
				if f := step(kop{op: []string{"ack", "nack"}[n%2], q: name, c: m.content}); f != nil {
					return f, points, recovery
				}
			}
		}
		if states[0][name] != nil {
			if f := step(kop{op: "enq", q: name, g: "new", p: 40, c: "new in " + name}); f != nil {
				return f, points, recovery
			}
		}
	}
	for _, name := range qs {
		for x := 0; x < 50; x++ {
			was := expected()
			a, ok := do(kop{op: "deq", q: name, ack: true})
			if !ok {
				return bad("recovered-deq", "after the kill a dequeue from %s is answered %v, the state must be %s", name, a, was), points, recovery
			}
			if a.ok {
				id := a.str("id")
				if c, ok := seen[id]; ok && c != a.str("content") {
					return bad("recovered-id", "the id %s is given to %q and to %q", id, c, a.str("content")), points, recovery
				}
				seen[id] = a.str("content")
				continue
			}
			break
		}
	}
	return nil, points, recovery
}

func msgsOf(s kstate, q string) []kmsg {
	if s[q] == nil {
		return nil
	}
	return s[q].msgs
}

func killScenarios(th bool) []*kscn {
	create := func(q, t string) kop { return kop{op: "create", q: q, typ: t} }
	enq := func(q, g, c string, p int64) kop { return kop{op: "enq", q: q, g: g, c: c, p: p} }
	deq := func(q string, ack bool) kop { return kop{op: "deq", q: q, ack: ack} }
	on := func(op, q, c string) kop { return kop{op: op, q: q, c: c} }
	prio := func(q, c string, p int64) kop { return kop{op: "prio", q: q, c: c, p: p} }
	long := "long " + strings.Repeat("x", 70000)
	out := []*kscn{
		{"a delayed queue", []kop{create("d", "delayed"), enq("d", "g", "a", 5), enq("d", "g", "b \"\\u0000\"", 1), deq("d", false), enq("d", "g", "c", 5), on("ack", "d", "b \"\\u0000\""), prio("d", "c", 2), deq("d", false), on("nack", "d", "c"), deq("d", true)}},
		{"a fair queue", []kop{create("f", "fair"), enq("f", "x", "a", 5), enq("f", "y", "b", 1), enq("f", "x", "c", 2), deq("f", true), deq("f", false), enq("f", "y", long, 3), deq("f", false)}},
		{"queues that go and come back", []kop{create("q", "delayed"), create("q:", "fair"), enq("q", "g", "a", 5), enq("q:", "g", "b", 1), {op: "delete", q: "q"}, create("q", "fair"), enq("q", "h", "c", 0), {op: "delete", q: "q:"}, deq("q", true)}},
	}
	if th {
		out = append(out,
			&kscn{"two queues at once", []kop{create("d", "delayed"), create("f", "fair"), enq("d", "g", "a", 9), enq("f", "x", "b", 9), deq("d", false), deq("f", false), on("nack", "d", "a"), on("ack", "f", "b"), enq("f", "y", "e", 1), prio("d", "a", 1), deq("d", false), enq("d", "g", "h", 0), deq("f", true)}},
			&kscn{"many messages", append([]kop{create("d", "delayed")}, func() (l []kop) {
				for i := 0; i < 15; i++ {
					l = append(l, enq("d", "g", fmt.Sprint("m", i), int64(i*7%5)))
				}
				return append(l, deq("d", false), deq("d", true), on("ack", "d", "m0"))
			}()...)})
	}
	return out
}

func init() {
	const lanes = 6 // servers per worker: they wait most of the time
	core.RegisterItems("C30", func(th bool) (its []core.Item) {
		for _, s := range killScenarios(th) {
			s := s
			for part := 0; part < 8; part++ {
				part := part
				its = append(its, core.Item{Name: fmt.Sprintf("%s, part %d", s.name, part+1), Run: func(r *core.ItemRun) { s.explore(r, part, 8, lanes, th) }})
			}
		}
		return
	})
	checks["C30"] = func(c *core.Ctx, pool *core.Pool) {
		c.Assumptions = []string{"a kill ends the process, not the machine: what was handed to the operating system stays", "the number of a point of a run may differ by a few between runs, as raft writes in the background; every number up to the last is taken, and some beyond"}
		core.RunItems(c, pool)
	}
}

// explore takes the kill points whose number leaves the rest part.
func (s *kscn) explore(r *core.ItemRun, part, parts, lanes int, th bool) {
	_, n, rec := s.run(0, 0) // its verdict is taken again below, at point 0
	type job struct{ at, again int }
	var jobs []job
	k := 0
	take := func(j job) {
		if k++; k%parts == part {
			jobs = append(jobs, j)
		}
	}
	for at := 0; at <= n+2; at++ {
		take(job{at, -1})
	}
	step := 2
	if th {
		step = 1
	}
	for again := 1; again <= rec+2; again += step { // a second kill while it recovers
		take(job{0, again})
	}
	var mu sync.Mutex
	var broken any
	guard := func() {
		if p := recover(); p != nil {
			mu.Lock()
			broken = p
			mu.Unlock()
		}
	}
	var wg sync.WaitGroup
	ch := make(chan job, len(jobs))
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	for l := 0; l < lanes; l++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer guard()
			for j := range ch {
				mu.Lock()
				stop := r.OutOfTime() || r.HasFound()
				if r.OutOfTime() {
					r.Capped("out of time")
				}
				mu.Unlock()
				if stop {
					return
				}
				f, _, _ := s.run(j.at, j.again)
				mu.Lock()
				r.Ran()
				r.Count("kill_points", 1)
				r.Count("states", 1)
				r.Count("transitions", int64(len(s.ops)))
				mu.Unlock()
				if f == nil {
					continue
				}
				var same atomic.Int32 // the points of a run may move a little: most repeats must fail too
				var rep sync.WaitGroup
				for x := 0; x < 4; x++ {
					rep.Add(1)
					go func() {
						defer rep.Done()
						defer guard()
						if f2, _, _ := s.run(j.at, j.again); f2 != nil && f2.Sig == f.Sig {
							same.Add(1)
						}
					}()
				}
				rep.Wait()
				fmt.Fprintln(os.Stderr, "FAIL", j, same.Load(), f.Sig, f.What, f.Log)
				mu.Lock()
				if same.Load() >= 2 {
					r.Report(f.Sig, f.What, s.name, f.Log, []int{j.at, j.again}, nil)
				} else {
					r.Count("not_repeated", 1)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if broken != nil {
		panic(fmt.Sprint("harness: ", broken))
	}
}
