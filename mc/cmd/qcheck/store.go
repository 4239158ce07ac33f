package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/hashicorp/raft"
	badgerstore "github.com/kgantsov/doq/pkg/badger-store"

	"vmc/core"
	"vmc/qsys"
	"vmc/sched"
)

// C14 and C15: every sequence of operations on the real raft storage against plain maps.

type sOp struct {
	K    string // log batch del set setu reopen
	Idx  []uint64
	V    int
	A, B uint64
	Key  string
	Val  string
	N    uint64
}

func (o sOp) String() string {
	switch o.K {
	case "log":
		return fmt.Sprintf("StoreLog(%d, v%d)", o.Idx[0], o.V)
	case "batch":
		return fmt.Sprintf("StoreLogs(%v, v%d)", o.Idx, o.V)
	case "del":
		return fmt.Sprintf("DeleteRange(%d, %d)", o.A, o.B)
	case "set":
		return short(fmt.Sprintf("Set(%q, %q)", o.Key, o.Val))
	case "setu":
		return fmt.Sprintf("SetUint64(%q, %d)", o.Key, o.N)
	}
	return o.K
}

var when = time.Unix(1_700_000_000, 123_456_789).UTC()

// variant v of the entry at index i
func logOf(i uint64, v int) *raft.Log {
	switch v {
	case 0:
		return &raft.Log{Index: i, Term: 1, Type: raft.LogCommand, Data: []byte(fmt.Sprintf("data-%d", i)), AppendedAt: when}
	case 1:
		return &raft.Log{Index: i, Term: math.MaxUint64, Type: raft.LogConfiguration, Data: nil, Extensions: []byte{0, 0xff, 'x'}}
	case 2:
		return &raft.Log{Index: i, Term: 1 << 63, Type: raft.LogNoop, Data: []byte{}, Extensions: bytes.Repeat([]byte{7}, 300), AppendedAt: time.Unix(0, 1).UTC()}
	}
	return &raft.Log{Index: i, Term: uint64(v), Type: raft.LogBarrier, Data: bytes.Repeat([]byte{byte(v), 0, 0xff}, 500), AppendedAt: when.Add(time.Duration(v))}
}

func sameLog(a, b *raft.Log) string {
	switch {
	case a.Index != b.Index:
		return fmt.Sprintf("index %d, stored %d", a.Index, b.Index)
	case a.Term != b.Term:
		return fmt.Sprintf("term %d, stored %d", a.Term, b.Term)
	case a.Type != b.Type:
		return fmt.Sprintf("type %v, stored %v", a.Type, b.Type)
	case !bytes.Equal(a.Data, b.Data):
		return fmt.Sprintf("%d bytes of data, stored %d (or others)", len(a.Data), len(b.Data))
	case !bytes.Equal(a.Extensions, b.Extensions):
		return fmt.Sprintf("extensions %q, stored %q", a.Extensions, b.Extensions)
	case !a.AppendedAt.Equal(b.AppendedAt):
		return fmt.Sprintf("time %v, stored %v", a.AppendedAt, b.AppendedAt)
	}
	return ""
}

type cval struct {
	b    string
	isU  bool
	u    uint64
	some bool
}

// storeRun is the store with its model.
type storeRun struct {
	db     *badger.DB
	dir    string
	s      *badgerstore.BadgerStore
	logs   map[uint64]*raft.Log
	conf   map[string]cval
	keys   []string // every key of interest
	probe  []uint64 // every index of interest
	extra  map[string]string
	log    []string
	logger bool
}

func (r *storeRun) open() error {
	if r.dir != "" {
		var err error
		if r.s != nil {
			if err = r.s.Close(); err != nil {
				return err
			}
		}
		r.s, err = badgerstore.NewBadgerStore(r.dir)
		return err
	}
	var err error
	r.s, err = badgerstore.New(r.db, badgerstore.Options{})
	return err
}

type sFail struct{ sig, what string }

func (r *storeRun) step(o sOp) *sFail {
	r.log = append(r.log, o.String())
	var err error
	switch o.K {
	case "log":
		l := logOf(o.Idx[0], o.V)
		err = r.s.StoreLog(l)
		r.logs[o.Idx[0]] = logOf(o.Idx[0], o.V)
		scribble(l.Data)
	case "batch":
		var ls []*raft.Log
		for k, i := range o.Idx {
			ls = append(ls, logOf(i, o.V+k%2))
			r.logs[i] = logOf(i, o.V+k%2)
		}
		err = r.s.StoreLogs(ls)
		for _, l := range ls {
			scribble(l.Data)
		}
	case "del":
		err = r.s.DeleteRange(o.A, o.B)
		for i := range r.logs {
			if i >= o.A && i <= o.B {
				delete(r.logs, i)
			}
		}
	case "set":
		k, v := []byte(o.Key), []byte(o.Val)
		err = r.s.Set(k, v)
		scribble(k)
		scribble(v)
		r.conf[o.Key] = cval{b: o.Val, some: true}
	case "setu":
		k := []byte(o.Key)
		err = r.s.SetUint64(k, o.N)
		scribble(k)
		r.conf[o.Key] = cval{isU: true, u: o.N, some: true}
	case "reopen":
		err = r.open()
	}
	if err != nil {
		return &sFail{"op-failed", fmt.Sprintf("%s failed: %v", o, err)}
	}
	return nil
}

// scribble overwrites a buffer the caller owns again.
func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

func (r *storeRun) check() *sFail {
	var first, last uint64
	for i := range r.logs {
		if first == 0 || i < first {
			first = i
		}
		if i > last {
			last = i
		}
	}
	if _, ok := r.logs[0]; ok {
		first = 0
	}
	if g, err := r.s.FirstIndex(); err != nil || g != first {
		return &sFail{"first-index", fmt.Sprintf("FirstIndex is %d (%v), the entries are %v", g, err, idxs(r.logs))}
	}
	if g, err := r.s.LastIndex(); err != nil || g != last {
		return &sFail{"last-index", fmt.Sprintf("LastIndex is %d (%v), the entries are %v", g, err, idxs(r.logs))}
	}
	for _, i := range r.probe {
		for _, out := range []*raft.Log{{}, {Index: 9, Term: 9, Type: 9, Data: []byte("dirty"), Extensions: []byte("dirty"), AppendedAt: when}} {
			err := r.s.GetLog(i, out)
			w := r.logs[i]
			if w == nil {
				if err != raft.ErrLogNotFound {
					return &sFail{"not-found", fmt.Sprintf("GetLog(%d) answers %v, there is no such entry (entries %v)", i, err, idxs(r.logs))}
				}
				continue
			}
			if err != nil {
				return &sFail{"get-log", fmt.Sprintf("GetLog(%d) answers %v, the entry is stored", i, err)}
			}
			if d := sameLog(out, w); d != "" {
				return &sFail{"log-altered", fmt.Sprintf("GetLog(%d) returns %s", i, d)}
			}
		}
	}
	for _, k := range r.keys {
		if f := r.checkKey(k); f != nil {
			return f
		}
	}
	if r.db != nil && len(r.extra) > 0 {
		fail := (*sFail)(nil)
		r.db.View(func(txn *badger.Txn) error {
			for k, v := range r.extra {
				it, err := txn.Get([]byte(k))
				if err != nil {
					fail = &sFail{"foreign", fmt.Sprintf("other data under %q: %v", k, err)}
					return nil
				}
				b, _ := it.ValueCopy(nil)
				if string(b) != v {
					fail = &sFail{"foreign", fmt.Sprintf("other data under %q changed to %q", k, b)}
				}
			}
			return nil
		})
		return fail
	}
	return nil
}

func (r *storeRun) checkKey(k string) *sFail {
	v := r.conf[k]
	g, err := r.s.Get([]byte(k))
	switch {
	case !v.some:
		if err == nil || err.Error() != "not found" {
			return &sFail{"unset-key", short(fmt.Sprintf("Get(%q) of a key never set answers %q, %v", k, g, err))}
		}
		if n, err := r.s.GetUint64([]byte(k)); err == nil || err.Error() != "not found" {
			return &sFail{"unset-key", short(fmt.Sprintf("GetUint64(%q) of a key never set answers %d, %v", k, n, err))}
		}
	case v.isU:
		n, err := r.s.GetUint64([]byte(k))
		if err != nil || n != v.u {
			return &sFail{"get-uint64", short(fmt.Sprintf("GetUint64(%q) answers %d, %v; %d was set", k, n, err, v.u))}
		}
	default:
		if err != nil || string(g) != v.b {
			return &sFail{"get", fmt.Sprintf("Get(%s) answers %s, %v; %s was set", short(fmt.Sprintf("%q", k)), short(fmt.Sprintf("%q", g)), err, short(fmt.Sprintf("%q", v.b)))}
		}
		scribble(g)
		if g2, err := r.s.Get([]byte(k)); err != nil || string(g2) != v.b {
			return &sFail{"get-shared", fmt.Sprintf("writing to the answer of Get(%s) changed what it returns", short(fmt.Sprintf("%q", k)))}
		}
	}
	return nil
}

func idxs(m map[uint64]*raft.Log) []uint64 {
	var r []uint64
	for i := range m {
		r = append(r, i)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	if len(r) > 12 {
		r = r[:12]
	}
	return r
}

// data a node keeps in the same storage
var foreign = map[string]string{"queues:a:": `{"Name":"a"}`, "messages:a:\x00\x00\x00\x00\x00\x00\x00\x01": "m", "messages:logs:\x00\x00\x00\x00\x00\x00\x00\x02": "n",
	"queues:logs:": "x", "queues:conf:": "y"}

type storeU struct {
	name  string
	ops   []sOp
	keys  []string
	idx   []uint64
	probe []uint64
	extra bool
	pre   []sOp
	depth int
	disk  bool
}

func (u *storeU) exec(hist []int, full bool) (fail *sFail, hash string, log []string) {
	var db *badger.DB
	dir := ""
	if u.disk {
		d, err := os.MkdirTemp("", "vstore")
		if err != nil {
			panic("harness: " + err.Error())
		}
		dir = d
		defer os.RemoveAll(d)
	} else {
		db = qsys.GetDB()
		defer qsys.PutDB(db)
	}
	r := &storeRun{db: db, dir: dir, logs: map[uint64]*raft.Log{}, conf: map[string]cval{}, keys: u.keys, probe: u.probe}
	if u.extra && db != nil {
		r.plantForeign()
	}
	e := &sched.Exec{MaxSteps: 20000}
	f := e.Run(func() {
		if err := r.open(); err != nil {
			fail = &sFail{"open", "cannot open the store: " + err.Error()}
			return
		}
		if u.disk {
			defer func() { r.s.Close() }()
		}
		for _, o := range u.pre {
			if fail = r.step(o); fail != nil {
				return
			}
		}
		for n, k := range hist {
			if fail = r.step(u.ops[k]); fail != nil {
				return
			}
			if full || n == len(hist)-1 {
				if fail = r.check(); fail != nil {
					return
				}
			}
		}
		if len(hist) == 0 {
			fail = r.check()
		}
		if db != nil {
			d := core.Dumper{}
			hash = d.Hash(r.s, qsys.DBDump(db, 0))
		}
	})
	if f != nil {
		fail = &sFail{f.Kind, f.Kind + ": " + f.Msg}
	}
	return fail, hash, r.log
}

// search runs every operation in every reachable state up to the depth (states reached
// twice are expanded once); without a state hash every sequence is run.
func (u *storeU) search(r *core.ItemRun) {
	seen := map[string]bool{}
	frontier := [][]int{{}}
	report := func(h []int, f *sFail, log []string) {
		r.Report(f.sig, f.what, u.name, log, nil, func() bool { g, _, _ := u.exec(h, false); return g != nil && g.sig == f.sig })
	}
	if f, h, log := u.exec(nil, true); f != nil {
		report(nil, f, log)
		return
	} else {
		seen[h] = true
	}
	for d := 1; d <= u.depth && len(frontier) > 0; d++ {
		var next [][]int
		for _, h := range frontier {
			for k := range u.ops {
				n := append(append(make([]int, 0, len(h)+1), h...), k)
				f, hash, log := u.exec(n, false)
				r.Ran()
				r.Count("transitions", 1)
				if f != nil {
					report(n, f, log)
					return
				}
				if u.disk || !seen[hash] {
					seen[hash] = true
					r.Count("states", 1)
					next = append(next, n)
				}
			}
			if r.OutOfTime() {
				r.Capped(fmt.Sprintf("time budget reached at depth %d of %d", d, u.depth))
				return
			}
		}
		frontier = next
	}
	if len(frontier) == 0 {
		r.Count("universes_closed", 1) // every reachable state was expanded
	}
	if len(frontier) > 0 && len(frontier[0]) > 0 {
		_, _, log := u.exec(frontier[len(frontier)-1], false)
		r.Sample(log)
	}
}

func around(is []uint64) []uint64 {
	m := map[uint64]bool{}
	for _, i := range is {
		m[i] = true
		m[i-1] = true
		m[i+1] = true
	}
	m[0] = true
	m[math.MaxUint64] = true
	var r []uint64
	for i := range m {
		r = append(r, i)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func logUniverse(is []uint64, vs []int, depth int, extra bool) *storeU {
	u := &storeU{name: fmt.Sprintf("log %v v%v extra=%v", is, vs, extra), idx: is, probe: around(is), depth: depth, extra: extra}
	for _, i := range is {
		for _, v := range vs {
			u.ops = append(u.ops, sOp{K: "log", Idx: []uint64{i}, V: v})
		}
	}
	u.ops = append(u.ops, sOp{K: "batch", Idx: is, V: 0})
	rev := []uint64{}
	for k := len(is) - 1; k >= 0; k-- {
		rev = append(rev, is[k])
	}
	u.ops = append(u.ops, sOp{K: "batch", Idx: rev, V: 1}, sOp{K: "batch", Idx: []uint64{is[0], is[0]}, V: 0}, sOp{K: "batch"})
	b := around(is)
	for x, lo := range b {
		for y, hi := range b {
			if lo > hi && (x+y)%3 != 0 {
				continue
			}
			u.ops = append(u.ops, sOp{K: "del", A: lo, B: hi})
		}
	}
	u.ops = append(u.ops, sOp{K: "reopen"})
	if extra {
		u.keys = []string{"CurrentTerm", "never"}
		u.ops = append(u.ops, sOp{K: "setu", Key: "CurrentTerm", N: 7})
	}
	return u
}

// bulk: n entries (with gaps when stride > 1), one range deletion, everything compared.
func bulkItem(n int, base, stride uint64) core.Item {
	return core.Item{Name: fmt.Sprintf("bulk n=%d base=%d stride=%d", n, base, stride), Run: func(r *core.ItemRun) {
		at := func(k int) uint64 { return base + uint64(k)*stride }
		m := map[uint64]bool{0: true, base - 1: true, math.MaxUint64: true}
		for _, k := range []int{0, 1, 2, 9, 10, 11, 49, 99, 100, 101, 199, 200, 201, n - 2, n - 1, n} {
			if k >= 0 && k <= n {
				m[at(k)] = true
				m[at(k)+1] = true
			}
		}
		var bs []uint64
		for b := range m {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
		u := &storeU{name: r0name(n, base, stride), extra: true, keys: []string{"CurrentTerm"}}
		var is []uint64
		for k := 0; k < n; k++ {
			is = append(is, at(k))
		}
		u.pre = []sOp{{K: "setu", Key: "CurrentTerm", N: 7}, {K: "batch", Idx: is, V: 0}}
		if n == 0 {
			u.pre = u.pre[:1]
		}
		u.probe = append(append([]uint64{}, is...), bs...)
		for _, a := range bs {
			for _, b := range bs {
				if a > b && !(a == bs[len(bs)-1] || b == bs[0]) {
					continue
				}
				u.ops = append(u.ops, sOp{K: "del", A: a, B: b})
			}
		}
		u.depth = 1
		u.search(r)
	}}
}

func r0name(n int, base, stride uint64) string {
	return fmt.Sprintf("bulk n=%d base=%d stride=%d", n, base, stride)
}

func logItems(th bool) []core.Item {
	var items []core.Item
	sets := [][]uint64{{1, 2, 3}, {1, 255, 256}, {255, 256, 257}, {9, 10, 100}, {65535, 65536, 65537}, {1, 256, 65536}, {1<<32 - 1, 1 << 32, 1}, {1<<63 - 1, 1 << 63, 1},
		{58, 0x3a3a, 0x3a3a3a3a3a3a3a3a}, {1<<64 - 2, 1<<64 - 1, 1}, {0xfeffffffffffffff, 0xff00000000000000, 3}}
	depth := 12
	for n, is := range sets {
		for _, vs := range [][]int{{2, 3}, {0, 1}} {
			for _, x := range []bool{true, false} {
				if !th && ((vs[0] == 2) == x || (n > 1 && x)) {
					continue
				}
				u := logUniverse(is, vs, depth, x)
				items = append(items, core.Item{Name: u.name, Run: u.search})
			}
		}
	}
	ns := []int{0, 2, 10, 99, 100, 101, 200, 201}
	if th {
		ns = append(ns, 1, 9, 11, 102, 199, 205, 299, 300, 301, 350, 500)
	}
	for _, n := range ns {
		items = append(items, bulkItem(n, 1, 1))
		if th {
			items = append(items, bulkItem(n, 200, 3), bulkItem(n, 1<<32-50, 1))
		}
	}
	disk := &storeU{name: "log on disk, closed and reopened", probe: around([]uint64{1, 256}), disk: true, depth: 2,
		ops: []sOp{{K: "log", Idx: []uint64{1}, V: 0}, {K: "batch", Idx: []uint64{1, 256}, V: 1}, {K: "del", A: 1, B: 1}, {K: "reopen"}}}
	if th {
		disk.depth = 4
	}
	items = append(items, core.Item{Name: disk.name, Run: disk.search})
	return items
}

// ---- C15

var confKeys = []string{"", "a", "a\x00", "ab", "\x00", "\xff", "logs", "conf", "confa", "CurrentTerm", "LastVoteCand", "queues:a:", "logs\x00\x00\x00\x00\x00\x00\x00\x01", "s\x00", strings.Repeat("k", 2000)}

func confItems(th bool) []core.Item {
	var items []core.Item
	vals := []string{"", "\x00", "x", "\xff\xfe\x00y", "12345678"}
	if th {
		vals = append(vals, strings.Repeat("v\x00", 20000), "null")
	}
	nums := []uint64{0, 1, 255, 1 << 63, math.MaxUint64}
	mk := func(keys []string, vals []string, nums []uint64) *storeU {
		u := &storeU{name: short(fmt.Sprintf("conf %q", keys)), keys: append(append([]string{}, keys...), "never", keys[0]+"z"), probe: []uint64{1, 2}, extra: true, depth: 12}
		for _, k := range keys {
			for _, v := range vals {
				u.ops = append(u.ops, sOp{K: "set", Key: k, Val: v})
			}
			for _, n := range nums {
				u.ops = append(u.ops, sOp{K: "setu", Key: k, N: n})
			}
		}
		u.ops = append(u.ops, sOp{K: "log", Idx: []uint64{1}, V: 0}, sOp{K: "del", A: 0, B: math.MaxUint64}, sOp{K: "reopen"})
		return u
	}
	for i, a := range confKeys {
		for k, b := range confKeys {
			if k <= i {
				continue
			}
			us := []*storeU{mk([]string{a, b}, vals[:core.If(th, 3, 2)], nums[:core.If(th, 2, 1)])}
			if i == 0 || th {
				us = append(us, mk([]string{a, b}, vals, nums))
			}
			for _, u := range us {
				items = append(items, core.Item{Name: u.name, Run: u.search})
			}
		}
	}
	disk := &storeU{name: "conf on disk, closed and reopened", keys: []string{"a", "CurrentTerm", "never"}, probe: []uint64{1, 2}, disk: true, depth: 2,
		ops: []sOp{{K: "set", Key: "a", Val: ""}, {K: "set", Key: "a", Val: "x\x00"}, {K: "setu", Key: "CurrentTerm", N: 1<<64 - 1}, {K: "log", Idx: []uint64{1}, V: 0}, {K: "reopen"}}}
	if th {
		disk.depth = 4
	}
	items = append(items, core.Item{Name: disk.name, Run: disk.search})
	return items
}

func init() {
	core.RegisterItems("C14", func(th bool) []core.Item {
		return append(append(logItems(th), logFaultItems(th)...), logConcItems(th)...)
	})
	core.RegisterItems("C15", func(th bool) []core.Item {
		return append(append(confItems(th), confFaultItems(th)...), confConcItems(th)...)
	})
	checks["C14"] = core.RunItems
	checks["C15"] = core.RunItems
}
