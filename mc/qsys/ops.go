package qsys

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/kgantsov/doq/pkg/queue"

	"vmc/core"
	"vmc/sched"
)

// Prio is a priority: absolute, or relative to the current second.
type Prio struct {
	Rel bool  `json:"r,omitempty"`
	V   int64 `json:"v"`
}

func P(v int64) Prio  { return Prio{false, v} }
func At(v int64) Prio { return Prio{true, v} }

func (p Prio) String() string {
	if p.Rel {
		return fmt.Sprintf("now%+d", p.V)
	}
	return fmt.Sprint(p.V)
}

// Op is one step of a history.
type Op struct {
	K string `json:"k"` // create delete enq deq deqa ack nack upd adv restart list
	Q string `json:"q,omitempty"`
	T string `json:"t,omitempty"` // queue type
	G string `json:"g,omitempty"` // group
	P Prio   `json:"p,omitempty"`
	M int    `json:"m,omitempty"` // message number, -1 unknown
	D int64  `json:"d,omitempty"` // milliseconds
}

func (o Op) String() string {
	switch o.K {
	case "create":
		return fmt.Sprintf("create %s %q", o.T, o.Q)
	case "enq":
		return fmt.Sprintf("enqueue %q group=%q prio=%s", o.Q, o.G, o.P)
	case "deq":
		return fmt.Sprintf("dequeue %q", o.Q)
	case "deqa":
		return fmt.Sprintf("dequeue %q auto-ack", o.Q)
	case "ack", "nack":
		return fmt.Sprintf("%s %q #%d", o.K, o.Q, o.M)
	case "upd":
		return fmt.Sprintf("priority %q #%d -> %s", o.Q, o.M, o.P)
	case "adv":
		return fmt.Sprintf("wait %d ms", o.D)
	}
	return strings.TrimSpace(o.K + " " + o.Q)
}

// Universe is an alphabet with its bounds.
type Universe struct {
	Name     string
	P        Params
	StartMs  int64 // offset of the first command into its second
	Queues   []string
	Types    []string // types for create ops (empty: no create op beyond Init)
	Groups   []string
	Prios    []Prio
	Upds     []Prio
	Advs     []int64
	Kinds    string // enabled op kinds, space separated
	Init     []Op
	MaxMsgs  int
	MaxAdvs  int // 0: unlimited
	Depth    int
	Unknown  bool   // ack/nack/upd of an id that never existed
	IDs      string // "", "same" (numbered per queue), "colon" (ids made of separators) or "far" (apart)
	Epilogue string // live, reload, list, recreate (space separated)
	Drain    []Prio
	Content  func(n int) string `json:"-"`
	// Extra replaces the epilogues: it is run once for every distinct history.
	Extra func(x *Extra)            `json:"-"`
	Twice int                       // Extra crashes twice in histories up to this long
	Raw   bool                      // Extra also runs on histories that a defect of another property ends
	Paths bool                      // every history counts, also when it leads to a known state
	Skip  func(o Op, m *Model) bool `json:"-"` // operations left out of the alphabet
}

// Extra is the context of a universe's own work on one history.
type Extra struct {
	U      *Universe
	Prop   string
	Hist   []int
	Runs   int
	Counts map[string]int64
	Found  []Found
}

func (x *Extra) Count(n string, k int64) {
	if x.Counts == nil {
		x.Counts = map[string]int64{}
	}
	x.Counts[n] += k
}

// Report records a violation that repeats.
func (x *Extra) Report(o Outcome, again func() Outcome) {
	for _, f := range x.Found {
		if f.Sig == o.Div.Sig {
			return
		}
	}
	for k := 0; k < 3; k++ {
		if o2 := again(); o2.Div == nil || o2.Div.Sig != o.Div.Sig {
			panic(fmt.Sprintf("harness: not reproducible: %s: %v vs %v", o.Div.What, o.Log, o2.Log))
		}
	}
	x.Found = append(x.Found, Found{Sig: o.Div.Sig, What: o.Div.What, Props: o.Div.Props, Log: o.Log, Hist: x.Hist, U: x.U.Name, Ops: o.Ops})
}

const idBase = uint64(1) << 60

// farIDs grow by steps that differ in every part of the number
var farIDs = []uint64{2, 3 << 30, 3<<30 + 256, 5 << 31, 3 << 50, 7<<60 + 1, 7<<60 + 3<<30, 1<<63 - 1}

func (u *Universe) id(n int) uint64 {
	if u.IDs == "colon" {
		return 0x3a3a3a3a3a3a3a00 + uint64(n)
	}
	if u.IDs == "far" && n < len(farIDs) {
		return farIDs[n]
	}
	return idBase + uint64(n) + 1
}

func (u *Universe) has(k string) bool {
	for _, x := range strings.Fields(u.Kinds) {
		if x == k {
			return true
		}
	}
	return false
}

// Run is one history in progress: the world and the model side by side.
type Run struct {
	U    *Universe
	W    *World
	M    *Model
	Log  []string
	Adv  int
	Enqs map[string]int // per-queue numbering (IDs == "same")
	// Ordinals of messages per queue
	Sent  map[string][]uint64
	Prop  string
	Sizes bool // CheckCounts leaves out rates and monitoring
	// NoRates: only rates are left out.
	NoRates bool
}

func (u *Universe) NewRun(e *sched.Exec, w *World) *Run {
	r := &Run{U: u, W: w, M: NewModel(u.P), Enqs: map[string]int{}, Sent: map[string][]uint64{}}
	r.M.Now = w.Now()
	return r
}

// Alphabet lists the ops applicable after the history so far.
func (r *Run) Alphabet() []Op {
	u := r.U
	var ops []Op
	for _, q := range u.Queues {
		mq := r.M.Q(q)
		if u.has("enq") && r.total() < u.MaxMsgs {
			for _, g := range u.Groups {
				for _, p := range u.Prios {
					ops = append(ops, Op{K: "enq", Q: q, G: g, P: p})
				}
			}
		}
		if u.has("deq") {
			ops = append(ops, Op{K: "deq", Q: q})
		}
		if u.has("deqa") {
			ops = append(ops, Op{K: "deqa", Q: q})
		}
		n := len(r.Sent[q])
		lo := 0
		if u.Unknown {
			lo = -1
		}
		if u.IDs != "same" && len(u.Queues) > 1 {
			// a message of another queue is an unknown id here
		}
		for k := lo; k < n; k++ {
			if u.has("ack") {
				ops = append(ops, Op{K: "ack", Q: q, M: k})
			}
			if u.has("nack") {
				ops = append(ops, Op{K: "nack", Q: q, M: k})
			}
			if u.has("upd") {
				for _, p := range u.Upds {
					ops = append(ops, Op{K: "upd", Q: q, M: k, P: p})
				}
			}
		}
		if u.has("create") {
			for _, t := range u.Types {
				if mq.Exists && !mq.Loaded {
					continue // known finding, decided separately
				}
				ops = append(ops, Op{K: "create", Q: q, T: t})
			}
		}
		if u.has("delete") {
			ops = append(ops, Op{K: "delete", Q: q})
		}
	}
	if u.has("adv") && (u.MaxAdvs == 0 || r.Adv < u.MaxAdvs) {
		for _, d := range u.Advs {
			ops = append(ops, Op{K: "adv", D: d})
		}
	}
	if u.has("restart") {
		ops = append(ops, Op{K: "restart"})
	}
	loaded := false
	for _, q := range r.M.Queues {
		loaded = loaded || q.Loaded
	}
	if u.has("list") && !loaded { // listing is how a node opens its queues at start
		ops = append(ops, Op{K: "list"})
	}
	if u.Skip != nil {
		keep := ops[:0]
		for _, o := range ops {
			if !u.Skip(o, r.M) {
				keep = append(keep, o)
			}
		}
		ops = keep
	}
	return ops
}

func (r *Run) total() int {
	n := 0
	for _, s := range r.Sent {
		n += len(s)
	}
	return n
}

func (r *Run) idOf(o Op) uint64 {
	if o.M < 0 || o.M >= len(r.Sent[o.Q]) {
		return idBase + 999_999
	}
	return r.Sent[o.Q][o.M]
}

func (r *Run) prio(p Prio) int64 {
	if p.Rel {
		return r.W.NowSec() + p.V
	}
	return p.V
}

func (u *Universe) content(n int, queue string) string {
	if u.Content != nil {
		return u.Content(n)
	}
	return fmt.Sprintf("m%d-%s", n, queue)
}

// Raw issues the command of an op without consulting the model.
type Issued struct {
	Resp    Resp
	ID      uint64
	Prio    int64
	Content string
}

func (r *Run) Issue(o Op) Issued {
	w := r.W
	x := Issued{}
	switch o.K {
	case "create":
		x.Resp = w.Create(o.T, o.Q)
	case "delete":
		x.Resp = w.Delete(o.Q)
	case "enq":
		n := r.total()
		if r.U.IDs == "same" {
			n = len(r.Sent[o.Q])
		}
		x.ID, x.Prio, x.Content = r.U.id(n), r.prio(o.P), r.U.content(r.total(), o.Q)
		x.Resp = w.Enqueue(o.Q, x.ID, o.G, x.Prio, x.Content)
		if w.API != nil && x.Resp.OK {
			x.ID = x.Resp.ID // the node chooses it
		}
		r.Sent[o.Q] = append(r.Sent[o.Q], x.ID)
	case "deq":
		x.Resp = w.Dequeue(o.Q, false)
	case "deqa":
		x.Resp = w.Dequeue(o.Q, true)
	case "ack":
		x.ID = r.idOf(o)
		x.Resp = w.Ack(o.Q, x.ID)
	case "nack":
		x.ID = r.idOf(o)
		x.Resp = w.Nack(o.Q, x.ID)
	case "upd":
		x.ID, x.Prio = r.idOf(o), r.prio(o.P)
		x.Resp = w.Update(o.Q, x.ID, x.Prio)
	case "adv":
		r.Adv++
		w.Sleep(o.D)
	case "restart":
		w.Restart()
	case "list":
		w.QM.LoadQueues()
	}
	return x
}

// judge feeds the answer to the model.
func (r *Run) Judge(o Op, x Issued) *Div {
	m := r.M
	switch o.K {
	case "create":
		return m.Create(o.T, o.Q, x.Resp)
	case "delete":
		return m.Delete(o.Q, x.Resp)
	case "enq":
		return m.Enqueue(o.Q, x.ID, o.G, x.Prio, x.Content, x.Resp)
	case "deq", "deqa":
		return m.Dequeue(o.Q, o.K == "deqa", x.Resp)
	case "ack":
		return m.Ack(o.Q, x.ID, x.Resp)
	case "nack":
		return m.Nack(o.Q, x.ID, x.Resp)
	case "upd":
		return m.Update(o.Q, x.ID, x.Prio, x.Resp)
	case "adv":
		m.Advance(r.W.Now())
	case "restart":
		m.Advance(r.W.Now())
		m.Reload()
	}
	return nil
}

// Step runs one op on both sides.
func (r *Run) Step(o Op) *Div {
	x := r.Issue(o)
	s := o.String()
	switch o.K {
	case "adv", "restart", "list":
	default:
		s += " -> " + x.Resp.String()
	}
	r.Log = append(r.Log, s)
	if d := r.Judge(o, x); d != nil {
		return d
	}
	if r.Prop == "C25" {
		return r.CheckCounts()
	}
	return nil
}

// CheckCounts compares the reported figures of every existing loaded queue.
func (r *Run) CheckCounts() *Div {
	infos := r.W.QM.GetQueues()
	seen := map[string]bool{}
	prev := ""
	for i, in := range infos {
		if seen[in.Name] || (i > 0 && in.Name < prev) {
			return div("list-order", fmt.Sprintf("queue list out of order or repeated at %q", in.Name), "C25")
		}
		prev = in.Name
		seen[in.Name] = true
		q := r.M.Q(in.Name)
		if !q.Exists {
			return div("list-ghost", fmt.Sprintf("queue list shows %q, which does not exist", in.Name), "C25", "C09")
		}
		if in.Type != q.Type {
			return div("list-type", fmt.Sprintf("queue %q is listed as %q, created as %q", in.Name, in.Type, q.Type), "C25", "C09")
		}
		lo, hi, total := r.M.Counts(in.Name)
		if in.Total != total || in.Ready < lo || in.Ready > hi || in.Ready+in.Unacked != in.Total {
			return div("counts", fmt.Sprintf("queue %q reports ready=%d unacked=%d total=%d, expected ready in [%d,%d] total=%d", in.Name, in.Ready, in.Unacked, in.Total, lo, hi, total),
				"C25")
		}
	}
	if r.Sizes {
		return nil
	}
	for _, in := range infos {
		if !r.NoRates {
			if d := r.checkRates(in); d != nil {
				return d
			}
		}
		if d := r.checkGauges(in); d != nil {
			return d
		}
	}
	if r.U.P.Prometheus {
		for n, q := range r.M.Queues {
			if !q.Exists {
				g := r.W.Gauges(n)
				for _, k := range SortedKeys(g) {
					if strings.HasSuffix(k, "messages") && g[k] != 0 {
						return div("gauge-deleted", fmt.Sprintf("queue %q is deleted, its gauge %s is %v", n, k, g[k]), "C25")
					}
				}
			}
		}
	}
	for n, q := range r.M.Queues {
		if q.Exists && q.Loaded && !seen[n] {
			return div("list-missing", fmt.Sprintf("queue %q is in use but not listed", n), "C25")
		}
	}
	return nil
}

// checkRates: some window of the configured length that ends within the last second
// explains all four reported rates.
func (r *Run) checkRates(in *queue.QueueInfo) *Div {
	w := int64(r.U.P.Window)
	if w == 0 {
		w = 1
	}
	got := map[string]float64{"enq": in.Stats.EnqueueRPS, "deq": in.Stats.DequeueRPS, "ack": in.Stats.AckRPS, "nack": in.Stats.NackRPS}
	q := r.M.Q(in.Name)
	now := r.W.Now()
	var last map[string]float64
	for end := now - 1001; end <= now; end++ { // an operation at the very instant of a tick may fall on either side
		if x := (now - end) % 100; x > 1 {
			continue
		}
		exp := map[string]float64{"enq": 0, "deq": 0, "ack": 0, "nack": 0}
		for _, o := range q.Ops {
			if o.Ms > end-w*1000 && o.Ms <= end {
				exp[o.Kind] += 1 / float64(w)
			}
		}
		ok := true
		for k := range exp {
			if d := exp[k] - got[k]; d > 1e-9 || d < -1e-9 {
				ok = false
			}
		}
		if ok {
			return nil
		}
		last = exp
	}
	return div("rates", fmt.Sprintf("queue %q reports rates %v; the last window of %d s gives %v (window ending now)", in.Name, got, w, last), "C25")
}

// checkGauges compares the monitoring figures with the counts and commands.
func (r *Run) checkGauges(in *queue.QueueInfo) *Div {
	if !r.U.P.Prometheus {
		return nil
	}
	g := r.W.Gauges(in.Name)
	q := r.M.Q(in.Name)
	exp := map[string]int64{"_enqueue_total": q.CEnq, "_dequeue_total": q.CDeq, "_ack_total": q.CAck, "_nack_total": q.CNack}
	for _, k := range SortedKeys(exp) {
		if v := suffix(g, k); v != float64(exp[k]) {
			return div("counter", fmt.Sprintf("queue %q: counter %s is %v, %d such commands succeeded", in.Name, k, v, exp[k]), "C25")
		}
	}
	lo, hi, total := r.M.Counts(in.Name)
	rd, un, all := suffix(g, "queues_ready_messages"), suffix(g, "queues_unacked_messages"), suffix(g, "queues_messages")
	if all != float64(total) || rd < float64(lo) || rd > float64(hi) || rd+un != all {
		return div("gauge", fmt.Sprintf("queue %q: gauges ready=%v unacked=%v total=%v, expected ready in [%d,%d] total=%d", in.Name, rd, un, all, lo, hi, total), "C25")
	}
	return nil
}

func suffix(g map[string]float64, s string) float64 {
	for k, v := range g {
		if strings.HasSuffix(k, s) {
			return v
		}
	}
	return 0
}

// Settings of the queues after draining.
func (r *Run) maxFuture() int64 {
	now := r.W.NowSec()
	var f int64
	for _, q := range r.M.Queues {
		for _, x := range q.Msgs {
			if q.Type != "fair" && x.Prio-now > f && x.Prio-now < 1_000_000 {
				f = x.Prio - now
			}
		}
	}
	return f
}

// Drain waits until everything is due and takes every message.
func (r *Run) Drain() *Div {
	wait := int64(0)
	for _, q := range r.M.Queues {
		for _, x := range q.Msgs {
			if x.Unacked {
				wait = r.U.P.AckTimeout + r.U.P.Interval + 2
			}
		}
	}
	if f := r.maxFuture(); f+1 > wait && f > 0 {
		wait = f + 1
	}
	if wait > 0 {
		if d := r.Step(Op{K: "adv", D: wait * 1000}); d != nil {
			return d
		}
	}
	for pass := 0; pass < 2; pass++ {
		for _, q := range SortedKeys(r.M.Queues) {
			n := len(r.M.Q(q).Msgs) + 1
			if !r.M.Q(q).Exists {
				n = 1
			}
			for i := 0; i < n; i++ {
				if d := r.Step(Op{K: "deqa", Q: q}); d != nil {
					return d
				}
			}
			for _, x := range r.M.Q(q).sorted() {
				if r.M.due(r.M.Q(q), x) {
					return div("drain-left", fmt.Sprintf("queue %q still holds %s after draining", q, x), append([]string{"C01"}, tagProps(x)...)...)
				}
			}
		}
		if pass == 0 {
			if d := r.Step(Op{K: "adv", D: (r.U.P.AckTimeout + r.U.P.Interval + 2) * 1000}); d != nil {
				return d
			}
		}
	}
	return nil
}

// RunEpilogue performs one named epilogue.
func (r *Run) RunEpilogue(name string) *Div {
	r.Log = append(r.Log, "-- "+name+" --")
	if r.Prop == "C09" { // what the queues are, as they are listed
		was := r.Sizes
		r.Sizes = true
		d := r.CheckCounts()
		r.Sizes = was
		if d != nil && d.Is("C09") {
			return d
		}
	}
	switch name {
	case "live":
		return r.Drain()
	case "reload":
		if d := r.Step(Op{K: "restart"}); d != nil {
			return d
		}
		return r.Drain()
	case "list":
		if d := r.Step(Op{K: "restart"}); d != nil {
			return d
		}
		if d := r.Step(Op{K: "list"}); d != nil {
			return d
		}
		if d := r.CheckListed(); d != nil {
			return d
		}
		return r.Drain()
	case "recreate":
		// every queue is deleted and created again with the other type
		for _, q := range SortedKeys(r.M.Queues) {
			if d := r.Step(Op{K: "delete", Q: q}); d != nil {
				return d
			}
		}
		if ks := Keys(r.W.DB); len(ks) > 0 {
			return div("storage-trace", fmt.Sprintf("storage still holds %q after every queue was deleted", ks), "C09")
		}
		for _, q := range SortedKeys(r.M.Queues) {
			t := "fair"
			if r.M.Q(q).Type == "fair" {
				t = "delayed"
			}
			if d := r.Step(Op{K: "create", Q: q, T: t}); d != nil {
				return d
			}
			if d := r.Step(Op{K: "deq", Q: q}); d != nil {
				return d
			}
			if d := r.Step(Op{K: "enq", Q: q, G: "default", P: P(7)}); d != nil {
				return d
			}
		}
		if d := r.Step(Op{K: "restart"}); d != nil {
			return d
		}
		return r.Drain()
	}
	if name == "probe" {
		// ask every second until every time-out has certainly passed
		for i := int64(0); i <= r.U.P.AckTimeout+r.U.P.Interval+1; i++ {
			for _, q := range SortedKeys(r.M.Queues) {
				n := len(r.M.Q(q).Msgs) + 1
				for k := 0; k < n; k++ {
					if d := r.Step(Op{K: "deqa", Q: q}); d != nil {
						return d
					}
				}
			}
			if d := r.Step(Op{K: "adv", D: 1000}); d != nil {
				return d
			}
		}
		return r.Drain()
	}
	panic("unknown epilogue " + name)
}

// CheckListed: after loading by listing, exactly the existing queues are in the list.
func (r *Run) CheckListed() *Div {
	names := map[string]bool{}
	for _, in := range r.W.QM.GetQueues() {
		names[in.Name] = true
	}
	for n, q := range r.M.Queues {
		if q.Exists && !names[n] {
			return div("load-missing", fmt.Sprintf("queue %q is missing after loading all queues", n), "C11", "C10")
		}
		if !q.Exists && names[n] {
			return div("load-ghost", fmt.Sprintf("deleted queue %q is back after loading all queues", n), "C11", "C09", "C10")
		}
		if q.Exists {
			q.Loaded = true
		}
	}
	for n := range names {
		if r.M.Queues[n] == nil || !r.M.Queues[n].Exists {
			return div("load-invented", fmt.Sprintf("queue %q appeared after loading all queues", n), "C11", "C10")
		}
	}
	return nil
}

// skipStats leaves rate bookkeeping out of the state: it flows only into reported rates,
// which no check using this hash observes.
func skipStats(t reflect.Type) bool { return strings.Contains(strings.ToLower(t.Name()), "stats") }

// Hash canonicalises the joint state of implementation and model.
func (r *Run) Hash() string {
	d := core.Dumper{Now: r.W.NowSec()}
	if r.Prop != "C25" {
		d.SkipType = skipStats
	}
	return d.Hash(r.W.QM, DBDump(r.W.DB, r.W.NowSec()), r.W.E.PendingTimers(), r.W.Now()%1000, r.M.Canon())
}
