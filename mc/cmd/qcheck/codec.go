package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/kgantsov/doq/pkg/raft"

	"vmc/core"
	"vmc/qsys"
)

// C27: every command over a grid of edge values is encoded, decoded and applied; every
// truncation and every listed corruption of an encoding is applied and must change nothing.

var edgeText = []string{"", "q", "a b", "a:b", "\"\\/", "<&>\u2028\u2029", "\x00\x01\x1f\x7f", "\u00e4\u4e16\U0001F600", "null", "{\"op\":\"ack\"}",
	"\ufffd\ufeff", " lead", "\n\r\t", strings.Repeat("x\u00e9", 10000)}
var edgeID = []uint64{1, 0, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1, 10_000_000_000_000_000_001}
var edgePrio = []int64{1, 0, -1, 1<<53 + 1, -1<<53 - 1, 1<<63 - 1, -1 << 63}

func codecCommands(th bool, f func(op string, payload any)) {
	ids, prios := edgeID, edgePrio
	for _, q := range edgeText {
		for _, b := range []bool{false, true} {
			f("dequeue", raft.DequeuePayload{QueueName: q, Ack: b})
		}
		for _, t := range []string{"fair", "delayed", "", "x"} {
			f("createQueue", raft.CreateQueuePayload{QueueType: t, QueueName: q})
		}
		f("deleteQueue", raft.DeleteQueuePayload{QueueName: q})
		for _, id := range ids {
			f("ack", raft.AckPayload{QueueName: q, ID: id})
			f("nack", raft.NackPayload{QueueName: q, ID: id})
			for _, p := range prios {
				f("updatePriority", raft.UpdatePriorityPayload{QueueName: q, ID: id, Priority: p})
			}
		}
	}
	for qi, q := range edgeText {
		for gi, g := range edgeText {
			for ci, c := range edgeText {
				if !th && qi != 0 && gi != 0 && ci != 0 && (qi+gi+ci)%3 != 0 {
					continue
				}
				big := len(q)+len(g)+len(c) > 1000
				for ii, id := range ids {
					for pi, p := range prios {
						if (big || !th) && ii > 0 && pi > 0 && (ii+pi)%3 != 0 {
							continue
						}
						if big && (qi+gi+ci+ii+pi)%4 != 0 {
							continue
						}
						f("enqueue", raft.EnqueuePayload{ID: id, QueueName: q, Group: g, Priority: p, Content: c})
					}
				}
			}
		}
	}
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s... (%d bytes)", s[:60], len(s))
	}
	return s
}

func codecRoundTrip(r *core.ItemRun) {
	codecCommands(r.Thorough, func(op string, payload any) {
		if r.HasFound() || r.OutOfTime() {
			return
		}
		r.Count("encodings", 1)
		data, err := json.Marshal(raft.Command{Op: op, Payload: payload})
		desc := short(fmt.Sprintf("%s %+q", op, fmt.Sprintf("%+v", payload)))
		if err != nil {
			r.Report("encode", "cannot encode "+desc+": "+err.Error(), "", []string{desc}, nil, nil)
			return
		}
		var c raft.Command
		if err := json.Unmarshal(data, &c); err != nil {
			r.Report("decode", "cannot decode "+desc+": "+err.Error(), "", []string{desc}, nil, nil)
			return
		}
		got := reflect.Indirect(reflect.ValueOf(c.Payload))
		if c.Op != op || !got.IsValid() || !reflect.DeepEqual(got.Interface(), payload) {
			r.Report("round-trip", fmt.Sprintf("%s decoded as %s", desc, short(fmt.Sprintf("%s %+v", c.Op, c.Payload))), "", []string{desc}, nil, nil)
		}
	})
	if r.OutOfTime() {
		r.Capped("time budget reached")
	}
}

// codecApply runs the whole life of a message with the given values on the real state machine.
func codecApply(typ, q, g, content string, id uint64, prio int64) *core.ItemFail {
	u := &qsys.Universe{Name: "C27.apply", P: calm2, StartMs: 500}
	out := u.Exec("C27", nil, func(r *qsys.Run) *qsys.Div {
		w, m := r.W, r.M
		var seq func() *qsys.Div
		step := func(s string, d *qsys.Div) *qsys.Div {
			r.Log = append(r.Log, short(s))
			return d
		}
		seq = func() *qsys.Div {
			if d := step("create", m.Create(typ, q, w.Create(typ, q))); d != nil {
				return d
			}
			if d := step("enqueue", m.Enqueue(q, id, g, prio, content, w.Enqueue(q, id, g, prio, content))); d != nil {
				return d
			}
			for _, p := range edgePrio {
				if d := step(fmt.Sprint("priority ", p), m.Update(q, id, p, w.Update(q, id, p))); d != nil {
					return d
				}
			}
			if d := step("priority back", m.Update(q, id, 0, w.Update(q, id, 0))); d != nil {
				return d
			}
			if d := step("ack early", m.Ack(q, id, w.Ack(q, id))); d != nil {
				return d
			}
			if d := step("dequeue", m.Dequeue(q, false, w.Dequeue(q, false))); d != nil {
				return d
			}
			if d := step("nack", m.Nack(q, id, w.Nack(q, id))); d != nil {
				return d
			}
			if d := step("nack other", m.Nack(q, id+1, w.Nack(q, id+1))); d != nil {
				return d
			}
			if d := step("dequeue", m.Dequeue(q, false, w.Dequeue(q, false))); d != nil {
				return d
			}
			if d := step("ack other", m.Ack(q, id^(1<<63), w.Ack(q, id^(1<<63)))); d != nil {
				return d
			}
			if d := step("ack", m.Ack(q, id, w.Ack(q, id))); d != nil {
				return d
			}
			if d := step("enqueue", m.Enqueue(q, id, g, 1, content, w.Enqueue(q, id, g, 1, content))); d != nil {
				return d
			}
			w.Restart()
			m.Reload()
			if d := step("dequeue auto-ack", m.Dequeue(q, true, w.Dequeue(q, true))); d != nil {
				return d
			}
			if d := step("dequeue", m.Dequeue(q, true, w.Dequeue(q, true))); d != nil {
				return d
			}
			if d := step("delete", m.Delete(q, w.Delete(q))); d != nil {
				return d
			}
			return step("delete", m.Delete(q, w.Delete(q)))
		}
		return seq()
	})
	if out.Div != nil {
		return &core.ItemFail{Sig: out.Div.Sig, What: out.Div.What, Log: out.Log}
	}
	return nil
}

// codecBad lists entries that are not complete known commands.
func codecBad(th bool) [][]byte {
	var bad [][]byte
	add := func(s string) { bad = append(bad, []byte(s)) }
	base := map[string]any{
		"createQueue":    raft.CreateQueuePayload{QueueType: "fair", QueueName: "new"},
		"deleteQueue":    raft.DeleteQueuePayload{QueueName: "q"},
		"enqueue":        raft.EnqueuePayload{ID: 77, QueueName: "q", Group: "g", Priority: 1, Content: "c"},
		"dequeue":        raft.DequeuePayload{QueueName: "q", Ack: true},
		"ack":            raft.AckPayload{QueueName: "q", ID: 1001},
		"nack":           raft.NackPayload{QueueName: "q", ID: 1001},
		"updatePriority": raft.UpdatePriorityPayload{QueueName: "q", ID: 1002, Priority: 99},
	}
	for _, op := range qsys.SortedKeys(base) {
		full := qsys.Encode(op, base[op])
		for k := 0; k < len(full); k++ { // every truncation
			bad = append(bad, full[:k:k])
		}
		for _, t := range []string{"x", "{}", "}", ",", "\x00", string(full)} { // trailing data
			add(string(full) + t)
		}
		pl, _ := json.Marshal(base[op])
		for _, o := range []string{"", "x", op + " ", " " + op, strings.ToUpper(op), op + "s", op[:len(op)-1], "noop", "Command", op + "\x00", "enqueue,dequeue"} {
			if o != op {
				ob, _ := json.Marshal(o)
				add(fmt.Sprintf(`{"op":%s,"payload":%s}`, ob, pl))
			}
		}
		add(fmt.Sprintf(`{"payload":%s}`, pl))
		for _, o := range []string{"null", "1", "true", "[]", "{}"} {
			add(fmt.Sprintf(`{"op":%s,"payload":%s}`, o, pl))
		}
		add(fmt.Sprintf(`{"op":%q}`, op))
		for _, p := range []string{"null", " null ", `""`, `"q"`, "1", "true", "[]", "[" + string(pl) + "]", `"` + strings.ReplaceAll(string(pl), `"`, `\"`) + `"`} {
			add(fmt.Sprintf(`{"op":%q,"payload":%s}`, op, p))
		}
		// every field with values of another type or outside its range
		var m map[string]json.RawMessage
		json.Unmarshal(pl, &m)
		for _, f := range qsys.SortedKeys(m) {
			var vals []string
			switch m[f][0] {
			case '"':
				vals = []string{"1", "true", "[]", "{}", `["q"]`, "1.5"}
			case 't', 'f':
				vals = []string{"1", "0", `"true"`, "[]", "{}", `""`}
			default:
				vals = []string{`"1"`, "true", "[]", "{}", "1.5", "1e400", "18446744073709551616", "-18446744073709551617"}
				if f == "id" {
					vals = append(vals, "-1", "1001.5")
				}
			}
			for _, v := range vals {
				n := map[string]json.RawMessage{}
				for k, x := range m {
					n[k] = x
				}
				n[f] = json.RawMessage(v)
				b, err := json.Marshal(n)
				if err != nil { // not valid JSON by itself
					b = []byte(strings.Replace(string(pl), string(m[f]), v, 1))
				}
				add(fmt.Sprintf(`{"op":%q,"payload":%s}`, op, b))
			}
		}
		// every single byte of the structure replaced by one that cannot stand there
		for k := range full {
			b := append([]byte{}, full...)
			b[k] = 0x01 // a raw control byte is nowhere allowed in an encoding
			bad = append(bad, b)
		}
	}
	for _, s := range []string{"", " ", "null", "[]", "{}", "0", `""`, "true", "\x00", "\xff\xfe", "{", "}", "[[[[", `{"op":"enqueue","payload":{"id":1}`} {
		add(s)
	}
	bad = append(bad, nil)
	return bad
}

// codecReject applies bad[lo:hi], one after another, to a node that holds waiting and held
// messages, and compares the whole state before and after each.
func codecReject(bad [][]byte) *core.ItemFail {
	u := &qsys.Universe{Name: "C27.reject", P: calm2, StartMs: 500, Queues: []string{"q", "f"}}
	var fail *core.ItemFail
	out := u.Exec("C27", nil, func(r *qsys.Run) *qsys.Div {
		w, m := r.W, r.M
		var d *qsys.Div
		do := func(x *qsys.Div) {
			if d == nil {
				d = x
			}
		}
		do(m.Create("delayed", "q", w.Create("delayed", "q")))
		do(m.Create("fair", "f", w.Create("fair", "f")))
		for i, q := range []string{"q", "f"} {
			for k := uint64(1); k <= 3; k++ {
				id := uint64(1000*(i+1)) + k
				do(m.Enqueue(q, id, "g", int64(k), "c", w.Enqueue(q, id, "g", int64(k), "c")))
			}
			do(m.Dequeue(q, false, w.Dequeue(q, false)))
		}
		if d != nil {
			return nil // ordinary use already fails: other properties
		}
		before := r.Hash()
		for _, b := range bad {
			resp := w.ApplyRaw(b)
			r.Log = append(r.Log, short(fmt.Sprintf("apply %q -> %s", b, resp)))
			if resp.Bad != "" || resp.OK {
				fail = &core.ItemFail{Sig: "accepted", What: fmt.Sprintf("the entry %s was not rejected: %s", short(fmt.Sprintf("%q", b)), resp), Log: r.Log[len(r.Log)-1:]}
				return nil
			}
			if h := r.Hash(); h != before {
				fail = &core.ItemFail{Sig: "rejected-but-applied", What: fmt.Sprintf("the rejected entry %s changed the node's state", short(fmt.Sprintf("%q", b))), Log: r.Log[len(r.Log)-1:]}
				return nil
			}
		}
		return r.Drain()
	})
	if fail == nil && out.Div != nil {
		n := len(out.Log)
		if n > 12 {
			n = 12
		}
		fail = &core.ItemFail{Sig: "reject-" + out.Div.Sig, What: out.Div.What, Log: out.Log[len(out.Log)-n:]}
	}
	return fail
}

func codecItems(th bool) []core.Item {
	items := []core.Item{{Name: "encode and decode", Run: codecRoundTrip}}
	for _, typ := range []string{"delayed", "fair"} {
		for qi := range edgeText {
			items = append(items, core.Item{Name: fmt.Sprintf("apply %s %d", typ, qi), Run: func(r *core.ItemRun) {
				for gi, g := range edgeText {
					for ci, c := range edgeText {
						if !th && gi != ci && gi != 0 && ci != 0 {
							continue
						}
						for ii, id := range edgeID {
							p := edgePrio[(gi+ci+ii)%len(edgePrio)]
							f := func() *core.ItemFail { return codecApply(typ, edgeText[qi], g, c, id, p) }
							r.Ran()
							if x := f(); x != nil {
								r.ReportFail(x, func() bool { return f() != nil })
								return
							}
						}
						if r.OutOfTime() {
							r.Capped("time budget reached")
							return
						}
					}
				}
			}})
		}
	}
	bad := codecBad(th)
	const size = 60
	for lo := 0; lo < len(bad); lo += size {
		hi := min(lo+size, len(bad))
		items = append(items, core.Item{Name: fmt.Sprintf("reject %d-%d", lo, hi), Run: func(r *core.ItemRun) {
			f := func() *core.ItemFail { return codecReject(bad[lo:hi]) }
			r.Ran()
			r.Count("rejected_entries", int64(hi-lo))
			if x := f(); x != nil {
				r.ReportFail(x, func() bool { return f() != nil })
				return
			}
			if lo == 0 {
				r.Sample(short(fmt.Sprintf("%q", bad[:8])))
			}
		}})
	}
	return items
}

func init() {
	core.RegisterItems("C27", codecItems)
	checks["C27"] = core.RunItems
}
