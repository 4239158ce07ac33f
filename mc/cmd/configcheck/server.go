package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/dgraph-io/badger/v4/options"

	"vmc/core"
)

// The real server process. VERIF_SERVER is built from /repo's cmd/server with a copy of badger
// that writes the options it is opened with to a file (and then ends the process, when asked).

func optionMap(o badger.Options) map[string]string {
	m := map[string]string{}
	v := reflect.ValueOf(o)
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() || f.Name == "Logger" {
			continue
		}
		switch f.Type.Kind() {
		case reflect.Slice, reflect.Func, reflect.Interface, reflect.Ptr, reflect.Map:
		default:
			m[f.Name] = fmt.Sprint(v.Field(i).Interface())
		}
	}
	return m
}

// storageWant is what the storage must be opened with.
func storageWant(gs []given) map[string]string {
	val := map[string]string{}
	for i, o := range opts {
		val[o.key], _ = want(gs, i)
	}
	num := func(k string) int64 {
		n, _ := strconv.ParseInt(val["storage."+k], 10, 64)
		return n
	}
	o := badger.DefaultOptions(filepath.Join(val["storage.data_dir"], val["cluster.node_id"], "store"))
	switch val["storage.compression"] {
	case "none":
		o.Compression = options.None
	case "snappy":
		o.Compression = options.Snappy
	case "zstd":
		o.Compression = options.ZSTD
	}
	if n := num("zstd_compression_level"); n > 0 {
		o.ZSTDCompressionLevel = int(n)
	}
	if n := num("block_cache_size"); n > 0 {
		o.BlockCacheSize = n
	}
	if n := num("index_cache_size"); n > 0 {
		o.IndexCacheSize = n
	}
	if n := num("base_table_size"); n > 0 {
		o.BaseTableSize = n
	}
	if n := num("num_compactors"); n > 0 {
		o.NumCompactors = int(n)
	}
	if n := num("num_level_zero_tables"); n > 0 {
		o.NumLevelZeroTables = int(n)
	}
	if n := num("num_level_zero_tables_stall"); n > 0 {
		o.NumLevelZeroTablesStall = int(n)
	}
	if n := num("num_memtables"); n > 0 {
		o.NumMemtables = int(n)
	}
	if n := num("value_log_file_size"); n > 0 {
		o.ValueLogFileSize = n
	}
	return optionMap(o)
}

type proc struct {
	cmd  *exec.Cmd
	dir  string
	out  *bytes.Buffer
	mu   sync.Mutex
	done chan struct{}
}

func (p *proc) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.Write(b)
}

func (p *proc) text() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

// start runs the server in a scratch directory of its own.
func start(gs []given, named string, env ...string) *proc {
	dir, err := os.MkdirTemp("", "vsrv")
	must(err)
	args, e := setup(dir, gs, named, "=")
	return startIn(dir, args, append(e, env...)...)
}

// startIn runs the server in the directory.
func startIn(dir string, args []string, env ...string) *proc {
	cmd := exec.Command(os.Getenv("VERIF_SERVER"), args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir, "GOMAXPROCS=2"}, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	p := &proc{cmd: cmd, dir: dir, out: &bytes.Buffer{}, done: make(chan struct{})}
	cmd.Stderr = p
	cmd.WaitDelay = time.Second
	must(cmd.Start())
	go func() { cmd.Wait(); close(p.done) }()
	return p
}

func (p *proc) wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

func (p *proc) stop() {
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
	<-p.done
	os.RemoveAll(p.dir)
}

// storage starts the server up to the point where it opens its storage.
func storage(gs []given, named string) *core.ItemFail {
	p := start(gs, named, "VERIF_BADGER_OPTIONS=opened.json", "VERIF_BADGER_EXIT=1")
	defer p.stop()
	desc := describe(gs, p.cmd.Args[1:], p.cmd.Env[4:])
	if !p.wait(60 * time.Second) {
		return &core.ItemFail{Sig: "server-stuck", What: "the server does not open its storage within a minute", Log: desc}
	}
	b, err := os.ReadFile(filepath.Join(p.dir, "opened.json"))
	var got map[string]string
	if err != nil || json.Unmarshal(b, &got) != nil {
		return &core.ItemFail{Sig: "server-ended", What: "the server ends before it opens its storage", Log: append(desc, tail(p.text()))}
	}
	for k, w := range storageWant(gs) {
		if got[k] != w {
			return &core.ItemFail{Sig: "storage:" + k, What: fmt.Sprintf("the storage is opened with %s=%s, must be %s", k, got[k], w), Log: desc}
		}
	}
	return nil
}

func tail(s string) string {
	if len(s) > 500 {
		s = s[len(s)-500:]
	}
	return s
}

func optOf(key string) int {
	for i, o := range opts {
		if o.key == key {
			return i
		}
	}
	panic("harness: " + key)
}

var storageKeys = []string{"storage.data_dir", "storage.compression", "storage.zstd_compression_level", "storage.block_cache_size", "storage.index_cache_size", "storage.base_table_size",
	"storage.num_compactors", "storage.num_level_zero_tables", "storage.num_level_zero_tables_stall", "storage.num_memtables", "storage.value_log_file_size", "cluster.node_id"}

// value of a storage option for a process: relative directories only.
func storageVals(i int) []string {
	if opts[i].key == "storage.data_dir" {
		return []string{"elsewhere", "a b/c"}
	}
	return opts[i].vals
}

var ports = struct {
	sync.Mutex
	next int
	held []net.PacketConn
}{next: os.Getpid() * 97}

// freePort is a port that no other run of the check takes while this process lives (it holds
// the UDP port of the same number) and that no outgoing connection takes.
func freePort() string {
	ports.Lock()
	defer ports.Unlock()
	for k := 0; k < 20000; k++ {
		ports.next++
		a := fmt.Sprint("127.0.0.1:", 12000+ports.next%20000)
		u, err := net.ListenPacket("udp", a)
		if err != nil {
			continue
		}
		_, p, _ := net.SplitHostPort(a)
		l, err := net.Listen("tcp", ":"+p)
		if err != nil {
			u.Close()
			continue
		}
		l.Close()
		ports.held = append(ports.held, u)
		return p
	}
	panic("harness: no free port")
}

var client = &http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}

func call(method, url, body string) (int, string) {
	req, err := http.NewRequest(method, url, strings.NewReader(body))
	must(err)
	req.Header.Set("Content-Type", "application/json")
	r, err := client.Do(req)
	if err != nil {
		return 0, err.Error()
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	return r.StatusCode, string(b)
}

// until polls f for up to d.
func until(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); ; time.Sleep(50 * time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

func listens(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

// live is one run of the whole server: key comes from src, the ports it needs from flags.
type live struct {
	key, src string
	set      func(l *live) string // the value
	extra    map[string]string
	check    func(l *live, p *proc) string
	noReady  bool
	val      string
	http     string
	raft     string
}

func (l *live) base() string { return "http://127.0.0.1:" + l.http }

func (l *live) run() *core.ItemFail {
	l.http, l.raft = freePort(), "localhost:"+freePort()
	l.val = l.set(l)
	var gs []given
	has := map[string]bool{l.key: true}
	gs = append(gs, given{opt: optOf(l.key), src: l.src, val: l.val})
	give := func(k, v string) {
		if !has[k] {
			has[k] = true
			gs = append(gs, given{opt: optOf(k), src: "flag", val: v})
		}
	}
	for k, v := range l.extra {
		give(k, v)
	}
	give("http.port", l.http)
	give("raft.address", l.raft)
	p := start(gs, "other.yaml", "VERIF_BADGER_GC=gc.txt")
	defer p.stop()
	desc := describe(gs, p.cmd.Args[1:], p.cmd.Env[4:])
	if !l.noReady && !until(60*time.Second, func() bool {
		select {
		case <-p.done:
			return true
		default:
		}
		c, _ := call("GET", l.base()+"/API/v1/queues", "")
		return c == 200
	}) {
		return &core.ItemFail{Sig: "live-start:" + l.key, What: "the server does not answer on its port within a minute", Log: append(desc, tail(p.text()))}
	}
	if what := l.check(l, p); what != "" {
		return &core.ItemFail{Sig: "live:" + l.key, What: what, Log: append(desc, tail(p.text()))}
	}
	return nil
}

func (l *live) order() string { // a queue with one message that is delivered
	c, b := call("POST", l.base()+"/API/v1/queues", `{"name":"q","type":"delayed"}`)
	if c != 200 {
		return fmt.Sprint("create: ", c, b)
	}
	if c, b = call("POST", l.base()+"/API/v1/queues/q/messages", `{"content":"m","group":"g","priority":5}`); c != 200 {
		return fmt.Sprint("enqueue: ", c, b)
	}
	if c, b = call("GET", l.base()+"/API/v1/queues/q/messages?ack=false", ""); c != 200 {
		return fmt.Sprint("dequeue: ", c, b)
	}
	return ""
}

func (l *live) again() bool {
	c, _ := call("GET", l.base()+"/API/v1/queues/q/messages?ack=true", "")
	return c == 200
}

func constant(v string) func(*live) string { return func(*live) string { return v } }

func serverItems(th bool) (its []core.Item) {
	add := func(name string, f func(ch *core.Choices) *core.ItemFail) {
		its = append(its, core.Item{Name: name, Run: func(r *core.ItemRun) { core.Enumerate(r, f) }})
	}
	for k, key := range storageKeys {
		i := optOf(key)
		add("server storage: "+key, func(ch *core.Choices) *core.ItemFail {
			vs := storageVals(i)
			return storage([]given{{opt: i, src: sources[ch.Pick(4)], val: vs[ch.Pick(len(vs))]}}, "other.yaml")
		})
		add("server storage, pairs with: "+key, func(ch *core.Choices) *core.ItemFail {
			if k+1 == len(storageKeys) {
				return storage(nil, "")
			}
			j := optOf(storageKeys[k+1+ch.Pick(len(storageKeys)-k-1)])
			a, b := "flag", "file"
			if th {
				a, b = sources[ch.Pick(4)], sources[ch.Pick(4)]
			}
			if a == "file" && b == "named" || a == "named" && b == "file" {
				return nil
			}
			return storage([]given{{opt: i, src: a, val: storageVals(i)[0]}, {opt: j, src: b, val: storageVals(j)[1]}}, "other.yaml")
		})
	}
	srcs := []string{"flag", "env", "named"}
	if th {
		srcs = sources
	}
	lives := []live{
		{key: "http.port", set: func(l *live) string { return l.http }, check: func(l *live, p *proc) string {
			if !listens(l.raft) {
				return "nothing listens on the raft address " + l.raft
			}
			return ""
		}},
		{key: "raft.address", set: func(l *live) string { return l.raft }, check: func(l *live, p *proc) string {
			if !listens(l.raft) {
				return "nothing listens on the raft address " + l.raft
			}
			return ""
		}},
		{key: "grpc.address", set: func(l *live) string { return "localhost:" + freePort() }, check: func(l *live, p *proc) string {
			if !until(10*time.Second, func() bool { return listens(l.val) }) {
				return "nothing listens on the gRPC address " + l.val
			}
			return ""
		}},
		{key: "prometheus.enabled", set: constant("true"), check: func(l *live, p *proc) string {
			if _, b := call("GET", l.base()+"/metrics", ""); !strings.Contains(b, "doq_") {
				return "no metrics although they are enabled"
			}
			return ""
		}},
		{key: "prometheus.enabled", set: constant("false"), check: func(l *live, p *proc) string {
			if _, b := call("GET", l.base()+"/metrics", ""); strings.Contains(b, "doq_") {
				return "metrics although they are disabled"
			}
			return ""
		}},
		{key: "profiling.port", extra: map[string]string{"profiling.enabled": "true"}, set: func(l *live) string { return freePort() }, check: func(l *live, p *proc) string {
			if !until(10*time.Second, func() bool { c, _ := call("GET", "http://127.0.0.1:"+l.val+"/debug/pprof/", ""); return c == 200 }) {
				return "no profiling on port " + l.val
			}
			return ""
		}},
		{key: "logging.level", set: constant("debug"), check: levels(true, true)},
		{key: "logging.level", set: constant("info"), check: levels(false, true)},
		{key: "logging.level", set: constant("warning"), check: levels(false, false)},
		{key: "storage.data_dir", set: constant("elsewhere"), check: func(l *live, p *proc) string {
			if s := levels(false, false)(l, p); s != "" {
				return "by default: " + s
			}
			if _, b := call("GET", l.base()+"/metrics", ""); strings.Contains(b, "doq_") {
				return "metrics although they are disabled by default"
			}
			if !exists(p.dir+"/elsewhere/node-1/store") || !exists(p.dir+"/elsewhere/node-1/raft") || exists(p.dir+"/data") {
				return "the data is not in the data directory alone"
			}
			return ""
		}},
		{key: "queue.stats.window_side", set: constant("5"), check: rate("0.2")},
		{key: "queue.stats.window_side", set: constant("20"), check: rate("0.05")},
		{key: "cluster.service_name", noReady: true, set: constant("svc"), check: func(l *live, p *proc) string {
			if !p.wait(60 * time.Second) {
				return "with a service name the server starts although nothing can be discovered"
			}
			return ""
		}},
		{key: "cluster.join_addr", noReady: true, set: func(l *live) string { return "" }, check: nil},
		{key: "queue.acknowledgement_timeout", set: constant("1"), check: func(l *live, p *proc) string {
			if e := l.order(); e != "" {
				return e
			}
			if !until(20*time.Second, l.again) {
				return "a message is not delivered again after its time-out of 1 s"
			}
			return ""
		}},
		{key: "queue.acknowledgement_timeout", set: constant("600"), check: func(l *live, p *proc) string {
			if e := l.order(); e != "" {
				return e
			}
			if until(4*time.Second, l.again) {
				return "a message is delivered again before its time-out of 600 s"
			}
			return ""
		}},
		{key: "queue.acknowledgement_check_interval", extra: map[string]string{"queue.acknowledgement_timeout": "1"}, set: constant("600"), check: func(l *live, p *proc) string {
			if e := l.order(); e != "" {
				return e
			}
			if until(4*time.Second, l.again) {
				return "a time-out is noticed although they are looked for every 600 s"
			}
			return ""
		}},
		{key: "storage.gc_discard_ratio", extra: map[string]string{"storage.gc_interval": "1"}, set: constant("0.25"), check: gcs("0.25")},
		{key: "storage.gc_interval", set: constant("1"), check: gcs("0.7")},
	}
	for n, c := range lives {
		for _, src := range srcs {
			l := c
			l.src = src
			if l.key == "cluster.join_addr" {
				joins(&l)
			}
			its = append(its, core.Item{Name: fmt.Sprintf("server %d: %s from %s", n, l.key, src), Run: func(r *core.ItemRun) {
				f := l.run()
				r.Ran()
				r.Count("states", 1)
				r.Count("transitions", 1)
				if f != nil {
					r.ReportFail(f, func() bool { f2 := l.run(); r.Ran(); return f2 != nil && f2.Sig == f.Sig })
				}
			}})
		}
	}
	return
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

// rate: one message within the window.
func rate(want string) func(l *live, p *proc) string {
	return func(l *live, p *proc) string {
		if e := l.order(); e != "" {
			return e
		}
		var b string
		if !until(10*time.Second, func() bool {
			_, b = call("GET", l.base()+"/API/v1/queues/q", "")
			return strings.Contains(b, `"enqueue_rps":`+want+",")
		}) {
			return "one message within the window is not a rate of " + want + ": " + b
		}
		return ""
	}
}

// levels: which lines the log has.
func levels(dbg, inf bool) func(l *live, p *proc) string {
	return func(l *live, p *proc) string {
		l.order()
		s := p.text()
		if got := strings.Contains(s, "DBG"); got != dbg {
			return fmt.Sprintf("log level %s: debug lines: %v", l.val, got)
		}
		if got := strings.Contains(s, "INF"); got != inf {
			return fmt.Sprintf("log level %s: info lines: %v", l.val, got)
		}
		return ""
	}
}

// gcs: the storage is cleaned with the ratio, soon.
func gcs(ratio string) func(l *live, p *proc) string {
	return func(l *live, p *proc) string {
		var b []byte
		if !until(20*time.Second, func() bool { b, _ = os.ReadFile(filepath.Join(p.dir, "gc.txt")); return len(b) > 0 }) {
			return "the storage is not cleaned within 20 s with an interval of 1 s"
		}
		for _, r := range strings.Fields(string(b)) {
			if r != ratio {
				return fmt.Sprintf("the storage is cleaned with ratio %s, must be %s", r, ratio)
			}
		}
		return ""
	}
}

// joins: the node asks the peer to join, by its own id and address.
func joins(l *live) {
	l.extra = map[string]string{"cluster.node_id": "node-77"}
	var srv *http.Server
	var got chan string
	l.set = func(l *live) string {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		got = make(chan string, 100)
		srv = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			b, _ := io.ReadAll(r.Body)
			got <- r.Method + " " + r.URL.Path + " " + string(b)
			w.WriteHeader(200)
		})}
		go srv.Serve(ln)
		return ln.Addr().String()
	}
	l.check = func(l *live, p *proc) string {
		defer srv.Close()
		select {
		case g := <-got:
			var m map[string]string
			body, ok := strings.CutPrefix(g, "POST /join ")
			if !ok || json.Unmarshal([]byte(body), &m) != nil || m["id"] != "node-77" || m["addr"] != l.raft {
				return fmt.Sprintf("the peer is asked %s, must be asked to take node-77 at %s", g, l.raft)
			}
			return ""
		case <-time.After(60 * time.Second):
			return "the peer named by the join address is not asked"
		}
	}
}
