package qsys

import (
	"fmt"
	"sort"
	"strings"
)

// MMsg is one message of the reference model.
type MMsg struct {
	ID      uint64
	Ord     int
	Group   string
	Prio    int64
	Content string
	Unacked bool
	DeqMs   int64    // when it was last delivered
	Tags    []string // what happened to it: nack, upd, timeout, reload, held-upd
}

func (m *MMsg) tag(t string) {
	for _, x := range m.Tags {
		if x == t {
			return
		}
	}
	m.Tags = append(m.Tags, t)
	sort.Strings(m.Tags)
}
func (m *MMsg) has(t string) bool {
	for _, x := range m.Tags {
		if x == t {
			return true
		}
	}
	return false
}

type MQueue struct {
	Name   string
	Type   string
	Exists bool
	Loaded bool
	Gen    int
	Msgs   map[uint64]*MMsg
	Debt   map[string]map[string]bool // fair: groups still to be served before this one
	// last gone messages: why
	Gone map[uint64]string // "ack", "auto", "delete"
	// successful operations since the queue was loaded
	Ops []OpAt
	// successful commands since the process started (not reset by deletion)
	CEnq, CDeq, CAck, CNack int64
}

// OpAt is a successful operation for rate checks.
type OpAt struct {
	Kind string
	Ms   int64
}

// Model is the reference model of one node's queues.
type Model struct {
	P       Params
	Now     int64 // ms
	Queues  map[string]*MQueue
	NextOrd int
}

func NewModel(p Params) *Model { return &Model{P: p, Queues: map[string]*MQueue{}} }

func (m *Model) Clone() *Model {
	c := &Model{P: m.P, Now: m.Now, Queues: map[string]*MQueue{}, NextOrd: m.NextOrd}
	for n, q := range m.Queues {
		k := *q
		k.Msgs = map[uint64]*MMsg{}
		for id, x := range q.Msgs {
			y := *x
			y.Tags = append([]string{}, x.Tags...)
			k.Msgs[id] = &y
		}
		k.Debt = map[string]map[string]bool{}
		for g, d := range q.Debt {
			k.Debt[g] = map[string]bool{}
			for h := range d {
				k.Debt[g][h] = true
			}
		}
		k.Gone = map[uint64]string{}
		for id, w := range q.Gone {
			k.Gone[id] = w
		}
		k.Ops = append([]OpAt{}, q.Ops...)
		c.Queues[n] = &k
	}
	return c
}

func (m *Model) Q(n string) *MQueue {
	q := m.Queues[n]
	if q == nil {
		q = &MQueue{Name: n, Msgs: map[uint64]*MMsg{}, Debt: map[string]map[string]bool{}, Gone: map[uint64]string{}}
		m.Queues[n] = q
	}
	return q
}

// Canon renders the model for state hashing (times relative to now).
func (m *Model) Canon() string {
	var sb strings.Builder
	for _, n := range SortedKeys(m.Queues) {
		q := m.Queues[n]
		if !q.Exists && len(q.Gone) == 0 {
			continue
		}
		fmt.Fprintf(&sb, "%q %s %v %v:", n, q.Type, q.Exists, q.Loaded)
		for _, x := range q.sorted() {
			fmt.Fprintf(&sb, " %d/%s/%s/%v/%v", x.Ord, x.Group, rel(x.Prio, m.Now/1000), x.Unacked, x.Tags)
			if x.Unacked {
				fmt.Fprintf(&sb, "@%d", m.Now-x.DeqMs)
			}
		}
		for _, g := range SortedKeys(q.Debt) {
			fmt.Fprintf(&sb, " %s:%v", g, SortedKeys(q.Debt[g]))
		}
		var gone []uint64
		for id := range q.Gone {
			gone = append(gone, id)
		}
		sort.Slice(gone, func(i, j int) bool { return gone[i] < gone[j] })
		for _, id := range gone {
			fmt.Fprintf(&sb, " -%d%s", id, q.Gone[id])
		}
		sb.WriteByte(';')
	}
	fmt.Fprintf(&sb, "n%d", m.NextOrd)
	return sb.String()
}

func rel(p, now int64) string {
	if p > now-5_000_000 && p < now+5_000_000 {
		return fmt.Sprintf("t%+d", p-now)
	}
	return fmt.Sprint(p)
}

func (q *MQueue) sorted() []*MMsg {
	var r []*MMsg
	for _, x := range q.Msgs {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].less(r[j]) })
	return r
}

func (a *MMsg) less(b *MMsg) bool {
	if a.Prio != b.Prio {
		return a.Prio < b.Prio
	}
	return a.ID < b.ID
}

const (
	stReady = iota
	stHeld
	stMaybe // the time-out window: held or ready
)

func (m *Model) status(x *MMsg) int {
	if !x.Unacked {
		return stReady
	}
	early := (x.DeqMs/1000 + m.P.AckTimeout) * 1000
	late := x.DeqMs + (m.P.AckTimeout+m.P.Interval)*1000
	if m.Now < early {
		return stHeld
	}
	if m.Now > late {
		return stReady
	}
	return stMaybe
}

// settle turns definitely timed-out messages into waiting ones.
func (m *Model) settle() {
	for _, q := range m.Queues {
		for _, x := range q.Msgs {
			if x.Unacked && m.status(x) == stReady {
				x.Unacked = false
				x.tag("timeout")
			}
		}
	}
}

// Advance moves the model's clock.
func (m *Model) Advance(now int64) { m.Now = now; m.settle() }

// Reload is a stop (or crash) and reopening of the node's storage.
func (m *Model) Reload() {
	for _, q := range m.Queues {
		q.Loaded = false
		q.Debt = map[string]map[string]bool{}
		q.Ops = nil
		q.CEnq, q.CDeq, q.CAck, q.CNack = 0, 0, 0, 0
		for _, x := range q.Msgs {
			x.Unacked = false
			x.tag("reload")
		}
	}
}

// Div is a divergence of the implementation from the model.
type Div struct {
	Props []string
	Sig   string
	What  string
}

func (d *Div) Is(p string) bool {
	for _, x := range d.Props {
		if x == p || x == "*" {
			return true
		}
	}
	return false
}

func div(sig, what string, props ...string) *Div { return &Div{Props: props, Sig: sig, What: what} }

// tagProps maps what happened to a message to the properties that speak about it.
func tagProps(ms ...*MMsg) []string {
	var r []string
	for _, x := range ms {
		if x == nil {
			continue
		}
		for _, t := range x.Tags {
			switch t {
			case "nack":
				r = append(r, "C07")
			case "upd":
				r = append(r, "C08")
			case "heldupd":
				r = append(r, "C08", "C06")
			case "timeout":
				r = append(r, "C06")
			case "reload":
				r = append(r, "C11")
			}
		}
	}
	return r
}

// Create of an existing queue that is not loaded is not decided here (see DESIGN.md).
func (m *Model) Create(typ, name string, r Resp) *Div {
	if r.Bad != "" {
		return div("bad-answer", r.Bad, "*")
	}
	if !r.OK {
		return div("create-failed", fmt.Sprintf("create %s %q failed: %s", typ, name, r.Err), "C09")
	}
	q := m.Q(name)
	if !q.Exists {
		*q = MQueue{Name: name, Type: typ, Exists: true, Loaded: true, Gen: q.Gen + 1, Msgs: map[uint64]*MMsg{},
			Debt: map[string]map[string]bool{}, Gone: q.Gone, CEnq: q.CEnq, CDeq: q.CDeq, CAck: q.CAck, CNack: q.CNack}
	}
	q.Loaded = true
	return nil
}

func (m *Model) Delete(name string, r Resp) *Div {
	if r.Bad != "" {
		return div("bad-answer", r.Bad, "*")
	}
	q := m.Q(name)
	if !q.Exists {
		if r.OK {
			return div("delete-missing-ok", fmt.Sprintf("delete of missing queue %q succeeded", name), "C09")
		}
		return nil
	}
	if !r.OK {
		return div("delete-failed", fmt.Sprintf("delete of existing queue %q failed: %s", name, r.Err), "C09")
	}
	for id := range q.Msgs {
		q.Gone[id] = "delete"
	}
	q.Exists, q.Loaded, q.Msgs = false, false, map[uint64]*MMsg{}
	q.Debt = map[string]map[string]bool{}
	return nil
}

// noQueue handles commands on a queue that does not exist.
func (m *Model) noQueue(q *MQueue, what string, r Resp) (*Div, bool) {
	if r.Bad != "" {
		return div("bad-answer", r.Bad, "*"), true
	}
	if q.Exists {
		q.Loaded = true
		return nil, false
	}
	if r.OK {
		return div(what+"-on-missing-queue", fmt.Sprintf("%s on queue %q, which does not exist, succeeded: %s", what, q.Name, r), "C09"), true
	}
	return nil, true
}

func (m *Model) Enqueue(name string, id uint64, group string, prio int64, content string, r Resp) *Div {
	q := m.Q(name)
	ord := m.NextOrd
	m.NextOrd++
	if d, done := m.noQueue(q, "enqueue", r); done {
		return d
	}
	if q.Type != "fair" {
		group = "default"
	}
	if !r.OK {
		return div("enqueue-failed", "enqueue failed: "+r.Err, "C01")
	}
	if r.ID != id || r.Content != content || r.Prio != prio || r.Group != group {
		props := []string{"C01"}
		if r.Group != group && (r.Group == "default" || group == "default") {
			props = append(props, "C09") // the queue behaves as one of the other type
		}
		return div("enqueue-answer", fmt.Sprintf("enqueue(id=%d group=%q prio=%d content=%q) answered %s", id, group, prio, content, r), props...)
	}
	if q.Msgs[id] != nil {
		return nil
	}
	q.Msgs[id] = &MMsg{ID: id, Ord: ord, Group: group, Prio: prio, Content: content}
	delete(q.Gone, id)
	q.CEnq++
	q.Ops = append(q.Ops, OpAt{"enq", m.Now})
	return nil
}

// deliverable: fair queues ignore the schedule.
func (m *Model) due(q *MQueue, x *MMsg) bool { return q.Type == "fair" || x.Prio <= m.Now/1000 }

// Dequeue checks one delivery and records it.
func (m *Model) Dequeue(name string, ack bool, r Resp) *Div {
	q := m.Q(name)
	if d, done := m.noQueue(q, "dequeue", r); done {
		return d
	}
	var ready, maybe []*MMsg
	for _, x := range q.sorted() {
		if !m.due(q, x) {
			continue
		}
		switch m.status(x) {
		case stReady:
			ready = append(ready, x)
		case stMaybe:
			maybe = append(maybe, x)
		}
	}
	if !r.OK {
		if len(ready) == 0 {
			return nil
		}
		x := ready[0]
		props := append([]string{"C01"}, tagProps(ready...)...)
		if q.Type == "fair" {
			props = append(props, "C04")
		} else {
			props = append(props, "C02")
			if x.Prio > 1_000_000_000 {
				props = append(props, "C03")
			}
		}
		if len(m.Queues) > 1 {
			props = append(props, "C10")
		}
		return div("empty-with-waiting", fmt.Sprintf("dequeue on %q answered %s while %s is waiting", name, r, x), props...)
	}
	x := q.Msgs[r.ID]
	if x == nil {
		switch q.Gone[r.ID] {
		case "ack", "auto":
			return div("gone-delivered", fmt.Sprintf("dequeue on %q delivered %s again after it was acknowledged", name, r), "C05", "C01")
		case "delete":
			return div("deleted-delivered", fmt.Sprintf("dequeue on %q delivered %s of a deleted queue", name, r), "C09", "C01")
		}
		for _, o := range m.Queues {
			if o != q && (o.Msgs[r.ID] != nil || o.Gone[r.ID] != "") {
				return div("foreign-delivered", fmt.Sprintf("dequeue on %q delivered %s, which belongs to %q", name, r, o.Name), "C10", "C01")
			}
		}
		return div("unknown-delivered", fmt.Sprintf("dequeue on %q delivered %s, which was never enqueued", name, r), "C01")
	}
	if r.Content != x.Content || r.Group != x.Group || r.Prio != x.Prio {
		props := append([]string{"C01"}, tagProps(x)...)
		if r.Prio != x.Prio {
			props = append(props, "C08")
		}
		if len(m.Queues) > 1 {
			props = append(props, "C10")
		}
		return div("altered", fmt.Sprintf("dequeue on %q delivered %s, expected %s", name, r, x), props...)
	}
	st := m.status(x)
	if st == stHeld {
		return div("held-delivered", fmt.Sprintf("dequeue on %q delivered %s while its delivery is outstanding (%d ms old)", name, r, m.Now-x.DeqMs),
			append([]string{"C05", "C06"}, tagProps(x)...)...)
	}
	if !m.due(q, x) {
		return div("too-early", fmt.Sprintf("dequeue on %q delivered %s before its time (now %d)", name, r, m.Now/1000), append([]string{"C03"}, tagProps(x)...)...)
	}
	if q.Type == "fair" {
		if d := m.fairCheck(q, x, ready, r); d != nil {
			return d
		}
	} else if len(ready) > 0 && ready[0].less(x) {
		return div("order", fmt.Sprintf("dequeue on %q delivered %s while %s is waiting", name, x, ready[0]),
			append([]string{"C02"}, append(tagProps(x, ready[0]), schedProps(x, ready[0])...)...)...)
	}
	// accept
	if q.Type == "fair" {
		m.fairServe(q, x)
	}
	q.CDeq++
	q.Ops = append(q.Ops, OpAt{"deq", m.Now})
	if st == stMaybe {
		x.tag("timeout")
	}
	if ack {
		delete(q.Msgs, x.ID)
		q.Gone[x.ID] = "auto"
	} else {
		x.Unacked = true
		x.DeqMs = m.Now
	}
	return nil
}

func schedProps(xs ...*MMsg) []string {
	for _, x := range xs {
		if x.Prio > 1_000_000_000 {
			return []string{"C03"}
		}
	}
	return nil
}

func (m *Model) fairCheck(q *MQueue, x *MMsg, ready []*MMsg, r Resp) *Div {
	for _, y := range ready {
		if y.Group == x.Group && y.less(x) {
			return div("fair-order", fmt.Sprintf("dequeue on %q delivered %s while %s of the same group is waiting", q.Name, x, y),
				append([]string{"C04"}, tagProps(x, y)...)...)
		}
	}
	if d := q.Debt[x.Group]; len(d) > 0 {
		return div("fair-starved", fmt.Sprintf("dequeue on %q served group %q again although %v waited since its last turn", q.Name, x.Group, SortedKeys(d)), "C04")
	}
	return nil
}

// fairServe records that x's group was served: every other group with a definitely
// waiting message must be served before it again; groups that have none are off the hook.
func (m *Model) fairServe(q *MQueue, x *MMsg) {
	for _, d := range q.Debt {
		delete(d, x.Group)
	}
	d := map[string]bool{}
	for _, y := range q.Msgs {
		if y.Group != x.Group && m.status(y) == stReady {
			d[y.Group] = true
		}
	}
	q.Debt[x.Group] = d
}

func (m *Model) Ack(name string, id uint64, r Resp) *Div {
	q := m.Q(name)
	if d, done := m.noQueue(q, "ack", r); done {
		return d
	}
	x := q.Msgs[id]
	st := stReady
	if x != nil {
		st = m.status(x)
	}
	if x == nil || st == stReady {
		if r.OK {
			if x == nil && len(m.Queues) > 1 {
				for _, o := range m.Queues {
					if o != q && o.Msgs[id] != nil {
						return div("ack-foreign", fmt.Sprintf("ack of %d on %q succeeded, the message is in %q", id, name, o.Name), "C05", "C10")
					}
				}
			}
			props := []string{"C05"}
			if x != nil {
				props = append(props, tagProps(x)...)
			}
			if q.Gone[id] == "delete" {
				props = append(props, "C09")
			}
			return div("ack-not-held-ok", fmt.Sprintf("ack of %d on %q succeeded although it is not held (%v %s)", id, name, x, q.Gone[id]), props...)
		}
		return nil
	}
	if st == stHeld && !r.OK {
		props := append([]string{"C05", "C01", "C06"}, tagProps(x)...)
		if len(m.Queues) > 1 {
			props = append(props, "C10")
		}
		return div("ack-held-failed", fmt.Sprintf("ack of held %s on %q failed: %s", x, name, r.Err), props...)
	}
	if r.OK {
		delete(q.Msgs, id)
		q.Gone[id] = "ack"
		q.CAck++
		q.Ops = append(q.Ops, OpAt{"ack", m.Now})
	} else { // maybe: it had come back
		x.Unacked = false
		x.tag("timeout")
	}
	return nil
}

func (m *Model) Nack(name string, id uint64, r Resp) *Div {
	q := m.Q(name)
	if d, done := m.noQueue(q, "nack", r); done {
		return d
	}
	x := q.Msgs[id]
	st := stReady
	if x != nil {
		st = m.status(x)
	}
	if x == nil || st == stReady {
		if r.OK {
			return div("nack-not-held-ok", fmt.Sprintf("nack of %d on %q succeeded although it is not held (%v %s)", id, name, x, q.Gone[id]), "C07", "C05")
		}
		return nil
	}
	if st == stHeld && !r.OK {
		props := append([]string{"C07", "C06"}, tagProps(x)...)
		if len(m.Queues) > 1 {
			props = append(props, "C10")
		}
		return div("nack-held-failed", fmt.Sprintf("nack of held %s on %q failed: %s", x, name, r.Err), props...)
	}
	x.Unacked = false
	if r.OK {
		x.tag("nack")
		q.CNack++
		q.Ops = append(q.Ops, OpAt{"nack", m.Now})
	} else {
		x.tag("timeout")
	}
	return nil
}

func (m *Model) Update(name string, id uint64, prio int64, r Resp) *Div {
	q := m.Q(name)
	if d, done := m.noQueue(q, "priority change", r); done {
		return d
	}
	x := q.Msgs[id]
	if x == nil {
		if r.OK {
			props := []string{"C08"}
			if len(m.Queues) > 1 {
				props = append(props, "C10")
			}
			return div("upd-missing-ok", fmt.Sprintf("priority change of %d on %q succeeded although it is not in the queue (%s)", id, name, q.Gone[id]), props...)
		}
		return nil
	}
	if !r.OK {
		return div("upd-failed", fmt.Sprintf("priority change of %s on %q failed: %s", x, name, r.Err), append([]string{"C08"}, tagProps(x)...)...)
	}
	if x.Unacked {
		x.tag("heldupd")
	}
	x.tag("upd")
	x.Prio = prio
	return nil
}

// Counts gives the bounds of the ready and unacknowledged counts.
func (m *Model) Counts(name string) (readyMin, readyMax, total int64) {
	for _, x := range m.Q(name).Msgs {
		total++
		switch m.status(x) {
		case stReady:
			readyMin++
			readyMax++
		case stMaybe:
			readyMax++
		}
	}
	return
}

func (x *MMsg) String() string {
	s := "waiting"
	if x.Unacked {
		s = "unacked"
	}
	return fmt.Sprintf("#%d(id=%d group=%q prio=%d %s %v)", x.Ord, x.ID, x.Group, x.Prio, s, x.Tags)
}
