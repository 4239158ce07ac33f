// Package qsys drives the real replicated state machine (pkg/raft FSM over pkg/queue and
// BadgerDB) command by command under the controlled scheduler, and compares it with a
// reference model.
package qsys

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/dgraph-io/badger/v4"
	"github.com/dgraph-io/badger/v4/options"
	hraft "github.com/hashicorp/raft"
	"github.com/kgantsov/doq/pkg/config"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/kgantsov/doq/pkg/raft"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/rs/zerolog"

	"vmc/sched"
)

func init() { zerolog.SetGlobalLevel(zerolog.Disabled) }

// OpenMem opens a small in-memory storage.
func OpenMem() *badger.DB {
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil).
		WithMemTableSize(8 << 20).WithCompression(options.None).WithBlockCacheSize(0).
		WithIndexCacheSize(0).WithValueThreshold(600 << 10).WithNumCompactors(2).WithMetricsEnabled(false))
	if err != nil {
		panic(err)
	}
	return db
}

var (
	dbMu   sync.Mutex
	dbFree []*badger.DB
	dbUses = map[*badger.DB]int{}
)

// MaxUses is how often one storage is emptied and used again (what was deleted slows it down).
var MaxUses = 400

// GetDB returns an empty in-memory storage; PutDB gives it back.
func GetDB() *badger.DB {
	dbMu.Lock()
	defer dbMu.Unlock()
	if n := len(dbFree); n > 0 {
		db := dbFree[n-1]
		dbFree = dbFree[:n-1]
		return db
	}
	return OpenMem()
}

func PutDB(db *badger.DB) {
	dbMu.Lock()
	dbUses[db]++
	if dbUses[db] > MaxUses {
		delete(dbUses, db)
		dbMu.Unlock()
		db.Close()
		return
	}
	dbMu.Unlock()
	ks := Keys(db)
	if len(ks) > 0 {
		err := db.Update(func(txn *badger.Txn) error {
			for _, k := range ks {
				if err := txn.Delete([]byte(k)); err != nil {
					return err
				}
			}
			return nil
		})
		if err != nil {
			db.Close()
			return
		}
	}
	dbMu.Lock()
	dbFree = append(dbFree, db)
	dbMu.Unlock()
}

// Keys lists every key in the storage.
func Keys(db *badger.DB) []string {
	var ks []string
	db.View(func(txn *badger.Txn) error {
		o := badger.DefaultIteratorOptions
		o.PrefetchValues = false
		it := txn.NewIterator(o)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			ks = append(ks, string(it.Item().KeyCopy(nil)))
		}
		return nil
	})
	return ks
}

// DBDump renders the whole storage; decimal numbers near now are rendered relative.
func DBDump(db *badger.DB, now int64) string {
	var sb strings.Builder
	db.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			fmt.Fprintf(&sb, "%q=", it.Item().Key())
			it.Item().Value(func(v []byte) error {
				sb.WriteString(relNums(v, now))
				return nil
			})
			sb.WriteByte('\n')
		}
		return nil
	})
	return sb.String()
}

func relNums(v []byte, now int64) string {
	var out bytes.Buffer
	for i := 0; i < len(v); {
		if v[i] >= '0' && v[i] <= '9' {
			j := i
			for j < len(v) && v[j] >= '0' && v[j] <= '9' {
				j++
			}
			if j-i == 10 {
				if x, err := strconv.ParseInt(string(v[i:j]), 10, 64); err == nil && x > now-5_000_000 && x < now+5_000_000 {
					fmt.Fprintf(&out, "t%+d", x-now)
					i = j
					continue
				}
			}
			out.Write(v[i:j])
			i = j
			continue
		}
		out.WriteByte(v[i])
		i++
	}
	return out.String()
}

// CloneDB copies the contents of one storage into another.
func CloneDB(dst, src *badger.DB) {
	type kv struct{ k, v []byte }
	var kvs []kv
	src.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			v, _ := it.Item().ValueCopy(nil)
			kvs = append(kvs, kv{it.Item().KeyCopy(nil), v})
		}
		return nil
	})
	dst.Update(func(txn *badger.Txn) error {
		for _, e := range kvs {
			if err := txn.Set(e.k, e.v); err != nil {
				return err
			}
		}
		return nil
	})
}

// Params are the configured values of one world.
type Params struct {
	AckTimeout, Interval int64
	Window               int
	Prometheus           bool
}

func (p Params) Config() *config.Config {
	c := &config.Config{}
	c.Queue.AcknowledgementTimeout = p.AckTimeout
	c.Queue.AcknowledgementCheckInterval = p.Interval
	c.Queue.QueueStats.WindowSide = p.Window
	if c.Queue.QueueStats.WindowSide == 0 {
		c.Queue.QueueStats.WindowSide = 1
	}
	c.Prometheus.Enabled = p.Prometheus
	return c
}

// World is one node's state machine over one storage.
type World struct {
	E   *sched.Exec
	DB  *badger.DB
	P   Params
	FSM *raft.FSM
	QM  *queue.QueueManager
	Reg *prometheus.Registry
	// API, when set, takes the commands instead of the state machine (a whole node).
	API    API
	Reboot func() // what Restart does then
	index  uint64
	// Journal is the replicated log so far.
	Journal [][]byte
}

// API is the command interface of a node.
type API interface {
	CreateQueue(queueType, queueName string) error
	DeleteQueue(queueName string) error
	Enqueue(queueName, group string, priority int64, content string) (*queue.Message, error)
	Dequeue(queueName string, ack bool) (*queue.Message, error)
	Ack(queueName string, id uint64) error
	Nack(queueName string, id uint64) error
	UpdatePriority(queueName string, id uint64, priority int64) error
}

func apiResp(m *queue.Message, err error) Resp {
	if err != nil {
		return Resp{Err: err.Error()}
	}
	if m == nil {
		return Resp{OK: true}
	}
	return Resp{OK: true, ID: m.ID, Group: m.Group, Prio: m.Priority, Content: m.Content}
}

// SetField sets the first field of *obj (a struct) whose type is that of val.
func SetField(obj any, val any) bool {
	v := reflect.ValueOf(obj).Elem()
	want := reflect.TypeOf(val)
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == want {
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(val))
			return true
		}
	}
	return false
}

func NewWorld(e *sched.Exec, db *badger.DB, p Params) *World {
	w := &World{E: e, DB: db, P: p}
	w.Boot()
	return w
}

// Boot builds a new queue manager and state machine over the storage.
func (w *World) Boot() {
	cfg := w.P.Config()
	var pm *queue.PrometheusMetrics
	if w.P.Prometheus {
		w.Reg = prometheus.NewRegistry()
		prometheus.DefaultRegisterer = prometheus.NewRegistry()
		pm = queue.NewPrometheusMetrics(w.Reg, "doq", "queues")
	}
	w.QM = queue.NewQueueManager(w.DB, cfg, pm)
	f := &raft.FSM{NodeID: "n1"}
	if !SetField(f, w.QM) {
		panic("harness: the state machine has no queue manager field")
	}
	SetField(f, w.DB)
	SetField(f, cfg)
	w.FSM = f
}

// Restart stops everything of the node and boots it over the same storage.
func (w *World) Restart() {
	if w.API != nil {
		w.Reboot()
		return
	}
	w.E.KillOthers()
	w.Boot()
}

// Resp is the state machine's answer to one command.
type Resp struct {
	OK                    bool
	Err                   string
	ID                    uint64
	Queue, Group, Content string
	Prio                  int64
	Bad                   string // the answer was not of the expected form
}

func (r Resp) String() string {
	if r.Bad != "" {
		return "bad answer: " + r.Bad
	}
	if !r.OK {
		return "error(" + r.Err + ")"
	}
	return fmt.Sprintf("ok(id=%d group=%q prio=%d content=%q)", r.ID, r.Group, r.Prio, r.Content)
}

// ReadResp decodes an *FSMResponse.
func ReadResp(x any) Resp {
	fr, ok := x.(*raft.FSMResponse)
	if !ok || fr == nil {
		return Resp{Bad: fmt.Sprintf("%T", x)}
	}
	r := Resp{ID: fr.ID, Queue: fr.QueueName, Group: fr.Group, Content: fr.Content, Prio: fr.Priority}
	v := reflect.ValueOf(fr).Elem()
	errT := reflect.TypeOf((*error)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == errT {
			f := v.Field(i)
			e := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
			if e == nil {
				r.OK = true
			} else {
				r.Err = e.(error).Error()
			}
			return r
		}
	}
	return Resp{Bad: "no error field"}
}

// ApplyRaw appends an entry to the log and applies it.
func (w *World) ApplyRaw(data []byte) Resp {
	w.Journal = append(w.Journal, data)
	return w.Replay(data)
}

// Replay applies an entry that is in the log already.
func (w *World) Replay(data []byte) Resp {
	w.index++
	return ReadResp(w.FSM.Apply(&hraft.Log{Index: w.index, Term: 1, Type: hraft.LogCommand, Data: data}))
}

func Encode(op string, payload any) []byte {
	b, err := json.Marshal(raft.Command{Op: op, Payload: payload})
	if err != nil {
		panic(err)
	}
	return b
}

func (w *World) Apply(op string, payload any) Resp { return w.ApplyRaw(Encode(op, payload)) }

func (w *World) Create(typ, q string) Resp {
	if w.API != nil {
		return apiResp(nil, w.API.CreateQueue(typ, q))
	}
	return w.Apply("createQueue", raft.CreateQueuePayload{QueueType: typ, QueueName: q})
}
func (w *World) Delete(q string) Resp {
	if w.API != nil {
		return apiResp(nil, w.API.DeleteQueue(q))
	}
	return w.Apply("deleteQueue", raft.DeleteQueuePayload{QueueName: q})
}
func (w *World) Enqueue(q string, id uint64, group string, prio int64, content string) Resp {
	if w.API != nil {
		return apiResp(w.API.Enqueue(q, group, prio, content))
	}
	return w.Apply("enqueue", raft.EnqueuePayload{ID: id, QueueName: q, Group: group, Priority: prio, Content: content})
}
func (w *World) Dequeue(q string, ack bool) Resp {
	if w.API != nil {
		return apiResp(w.API.Dequeue(q, ack))
	}
	return w.Apply("dequeue", raft.DequeuePayload{QueueName: q, Ack: ack})
}
func (w *World) Ack(q string, id uint64) Resp {
	if w.API != nil {
		return apiResp(nil, w.API.Ack(q, id))
	}
	return w.Apply("ack", raft.AckPayload{QueueName: q, ID: id})
}
func (w *World) Nack(q string, id uint64) Resp {
	if w.API != nil {
		return apiResp(nil, w.API.Nack(q, id))
	}
	return w.Apply("nack", raft.NackPayload{QueueName: q, ID: id})
}
func (w *World) Update(q string, id uint64, prio int64) Resp {
	if w.API != nil {
		return apiResp(nil, w.API.UpdatePriority(q, id, prio))
	}
	return w.Apply("updatePriority", raft.UpdatePriorityPayload{QueueName: q, ID: id, Priority: prio})
}

// Now is the virtual time in milliseconds.
func (w *World) Now() int64    { return w.E.NowNanos() / 1e6 }
func (w *World) NowSec() int64 { return w.E.NowNanos() / 1e9 }

func (w *World) Sleep(ms int64) { w.E.Sleep(time.Duration(ms) * time.Millisecond) }

// Snapshot calls the state machine's snapshot and persists it into buf.
func (w *World) Snapshot(buf *bytes.Buffer) error {
	s, err := w.FSM.Snapshot()
	if err != nil {
		return err
	}
	sink := &memSink{buf: buf}
	if err := s.Persist(sink); err != nil {
		return err
	}
	s.Release()
	return nil
}

type memSink struct{ buf *bytes.Buffer }

func (m *memSink) Write(p []byte) (int, error) { return m.buf.Write(p) }
func (m *memSink) Close() error                { return nil }
func (m *memSink) ID() string                  { return "mem" }
func (m *memSink) Cancel() error               { return nil }

func (w *World) RestoreFrom(b []byte) error { return w.FSM.Restore(io.NopCloser(bytes.NewReader(b))) }

// Gauges reads the monitoring figures of one queue.
func (w *World) Gauges(q string) map[string]float64 {
	out := map[string]float64{}
	if w.Reg == nil {
		return out
	}
	mfs, err := w.Reg.Gather()
	if err != nil {
		return out
	}
	for _, mf := range mfs {
		for _, m := range mf.Metric {
			for _, l := range m.Label {
				if l.GetName() == "queue_name" && l.GetValue() == q {
					if m.Counter != nil {
						out[mf.GetName()] = m.Counter.GetValue()
					}
					if m.Gauge != nil {
						out[mf.GetName()] = m.Gauge.GetValue()
					}
				}
			}
		}
	}
	return out
}

func SortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
