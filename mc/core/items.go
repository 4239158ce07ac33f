package core

import (
	"encoding/json"
	"fmt"
	"os"
	"time"
)

// Item is one independent part of a check, run in a worker process.
type Item struct {
	Name string
	Run  func(r *ItemRun)
}

// ItemRun collects what one item did and found.
type ItemRun struct {
	Thorough bool
	Prefixes [][]int // roots to explore (nil: the whole item)
	until    time.Time
	slice    time.Time
	res      itemRes
}

type itemFound struct {
	Sig, What, Scenario string
	Log                 []string
	Replay              any
}
type itemRes struct {
	Counts map[string]int64
	Found  []itemFound
	Rest   [][]int
	Capped string
	Sample any
	Ms     int64
}
type itemJob struct {
	ID       string
	Thorough bool
	N        int
	Prefixes [][]int
	Ms       int64
}

var itemSets = map[string]func(thorough bool) []Item{}
var itemCache = map[string][]Item{}

// RegisterItems makes a check's items known to the workers; the list must be deterministic.
func RegisterItems(id string, f func(thorough bool) []Item) { itemSets[id] = f }

func itemsOf(id string, th bool) []Item {
	k := fmt.Sprint(id, th)
	if itemCache[k] == nil {
		itemCache[k] = itemSets[id](th)
	}
	return itemCache[k]
}

func (r *ItemRun) Count(name string, n int64) {
	if r.res.Counts == nil {
		r.res.Counts = map[string]int64{}
	}
	r.res.Counts[name] += n
}

// Run counts one execution of the real code.
func (r *ItemRun) Ran() {
	r.Count("runs", 1)
	r.Count("traces_validated_against_impl", 1)
	beat()
}

// Beat tells the pool that a run that waits is not stuck.
func Beat() { beat() }

func (r *ItemRun) OutOfTime() bool { return time.Now().After(r.until) }

// Enough tells an item that can leave work for other workers to do so.
func (r *ItemRun) Enough() bool      { return time.Now().After(r.slice) || r.OutOfTime() }
func (r *ItemRun) Capped(why string) { r.res.Capped = why }
func (r *ItemRun) Sample(v any) {
	if r.res.Sample == nil {
		r.res.Sample = v
	}
}
func (r *ItemRun) Rest(ps [][]int) { r.res.Rest = append(r.res.Rest, ps...) }
func (r *ItemRun) HasFound() bool  { return len(r.res.Found) > 0 }

// Report records a violation. again (when given) repeats the run and tells whether it fails
// in the same way; a failure that does not repeat is an error of the check.
func (r *ItemRun) Report(sig, what, scen string, log []string, replay any, again func() bool) {
	for _, f := range r.res.Found {
		if f.Sig == sig {
			return
		}
	}
	if again != nil {
		for k := 0; k < 3; k++ {
			if !again() {
				panic(fmt.Sprintf("harness: not reproducible: %s: %v", what, log))
			}
		}
	}
	r.res.Found = append(r.res.Found, itemFound{sig, what, scen, log, replay})
}

func init() {
	RegisterWorker("item", func(arg json.RawMessage) (any, error) {
		var j itemJob
		if err := json.Unmarshal(arg, &j); err != nil {
			return nil, err
		}
		its := itemsOf(j.ID, j.Thorough)
		if j.N >= len(its) {
			return nil, fmt.Errorf("item %d of %d", j.N, len(its))
		}
		r := &ItemRun{Thorough: j.Thorough, Prefixes: j.Prefixes, until: time.Now().Add(time.Duration(j.Ms) * time.Millisecond)}
		t0 := time.Now()
		r.slice = t0.Add(20 * time.Second)
		its[j.N].Run(r)
		r.res.Ms = time.Since(t0).Milliseconds()
		return r.res, nil
	})
}

// RunItems runs every item of the check on the pool, including the parts that items leave
// for later.
func RunItems(c *Ctx, pool *Pool) {
	RunItemsOf(c, pool, c.ID)
}

func RunItemsOf(c *Ctx, pool *Pool, set string) {
	its := itemsOf(set, c.Thorough())
	type part struct {
		n  int
		ps [][]int
	}
	var todo []part
	for i := range its {
		todo = append(todo, part{i, nil})
	}
	done := map[int]bool{}
	for len(todo) > 0 && !c.OutOfTime() && !c.HasViolations() {
		var jobs []Job
		for _, p := range todo {
			jobs = append(jobs, Job{Kind: "item", Arg: itemJob{set, c.Thorough(), p.n, p.ps, time.Until(c.Deadline).Milliseconds()}})
		}
		cur := todo
		todo = nil
		finished := 0
		pool.Map(jobs, func() bool { return c.OutOfTime() || c.HasViolations() }, func(i int, raw json.RawMessage, err error) {
			finished++
			name := its[cur[i].n].Name
			if err != nil {
				if wd, ok := err.(*WorkerDied); ok {
					c.Report(&Violation{Signature: "process-died", What: "the process ended while executing the scenario: " + wd.Msg, Scenario: name})
					return
				}
				c.Broken(err)
			}
			var r itemRes
			if err := json.Unmarshal(raw, &r); err != nil {
				c.Broken(err)
			}
			done[cur[i].n] = true
			if os.Getenv("VERIF_TIMES") != "" {
				fmt.Fprintf(os.Stderr, "%6d ms %s %v\n", r.Ms, name, r.Counts)
			}
			for k, v := range r.Counts {
				c.Count(k, v)
			}
			for _, f := range r.Found {
				s := f.Scenario
				if s == "" {
					s = name
				}
				c.Report(&Violation{Signature: f.Sig, What: f.What, Scenario: s, History: f.Log, Replay: map[string]any{"item": name, "n": cur[i].n, "detail": f.Replay}})
			}
			if r.Capped != "" {
				c.NotExhaustive(name + ": " + r.Capped)
			}
			if r.Sample != nil {
				c.Sample(map[string]any{"scenario": name, "execution": r.Sample})
			}
			for k := 0; k < len(r.Rest); k += 4 {
				e := k + 4
				if e > len(r.Rest) {
					e = len(r.Rest)
				}
				todo = append(todo, part{cur[i].n, r.Rest[k:e]})
			}
		})
		if finished < len(jobs) || (len(todo) > 0 && c.OutOfTime()) {
			if !c.HasViolations() {
				c.NotExhaustive(fmt.Sprintf("time budget reached with %d of %d parts of a round done", finished, len(jobs)))
			}
		}
	}
	c.Count("scenarios", int64(len(done)))
	c.Coverage["scenarios_total"] = len(its)
}

// ItemFail is what one run of an item found.
type ItemFail struct {
	Sig, What string
	Log       []string
}

func (r *ItemRun) ReportFail(f *ItemFail, again func() bool) {
	r.Report(f.Sig, f.What, "", f.Log, nil, again)
}

// If is a conditional value.
func If[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// Runs is how many executions the item has counted so far.
func (r *ItemRun) Runs() int64 { return r.res.Counts["runs"] }
