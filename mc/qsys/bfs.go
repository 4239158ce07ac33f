package qsys

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"

	"vmc/core"
	"vmc/sched"
)

// Universes are registered by name so that worker processes can look them up.
var Universes = map[string]*Universe{}

func Register(us ...*Universe) {
	for _, u := range us {
		if Universes[u.Name] != nil && Universes[u.Name] != u {
			panic("universe registered twice: " + u.Name)
		}
		Universes[u.Name] = u
	}
}

// Outcome of one controlled run.
type Outcome struct {
	Div  *Div
	Log  []string
	Ops  []Op
	N    int // size of the alphabet where the last op was chosen
	Hash string
}

// Exec runs body in a fresh world under the deterministic default schedule.
func (u *Universe) Exec(prop string, ch sched.Chooser, body func(r *Run) *Div) (out Outcome) {
	db := GetDB()
	defer PutDB(db)
	e := &sched.Exec{Chooser: ch, MaxSteps: 2000000}
	var r *Run
	f := e.Run(func() {
		if u.StartMs > 0 {
			e.Sleep(0)
			SleepMs(e, u.StartMs)
		}
		w := NewWorld(e, db, u.P)
		r = u.NewRun(e, w)
		r.Prop = prop
		for _, o := range u.Init {
			if d := r.Step(o); d != nil {
				out.Div = d
				return
			}
		}
		out.Div = body(r)
	})
	if r != nil {
		out.Log = r.Log
	}
	if f != nil {
		out.Div = div(f.Kind, f.Kind+": "+f.Msg, "*")
	}
	return out
}

// Extend replays a history of alphabet indexes and then runs alternative alt of the
// alphabet reached (alt < 0: none), and an epilogue ("" : none).
func (u *Universe) Extend(prop string, hist []int, alt int, epi string, wantHash bool) Outcome {
	var ops []Op
	n := 0
	hash := ""
	out := u.Exec(prop, nil, func(r *Run) *Div {
		for _, k := range hist {
			al := r.Alphabet()
			if k >= len(al) {
				panic(fmt.Sprintf("harness: replay diverged: op %d of %d after %v", k, len(al), r.Log))
			}
			ops = append(ops, al[k])
			if d := r.Step(al[k]); d != nil {
				return d
			}
		}
		if alt >= 0 {
			al := r.Alphabet()
			n = len(al)
			if alt < n {
				ops = append(ops, al[alt])
				if d := r.Step(al[alt]); d != nil {
					return d
				}
			}
		}
		if wantHash {
			hash = r.Hash()
		}
		if epi != "" {
			return r.RunEpilogue(epi)
		}
		return nil
	})
	out.Ops, out.N, out.Hash = ops, n, hash
	return out
}

// Job and results exchanged with the workers.
type bfsJob struct {
	U     string  `json:"u"`
	Prop  string  `json:"p"`
	Hists [][]int `json:"h"`
	Epi   string  `json:"e"`
	Phase int     `json:"ph"`
}
type bfsChild struct {
	P int    `json:"p"`
	K int    `json:"k"`
	H string `json:"h"`
}
type Found struct {
	Sig   string   `json:"sig"`
	What  string   `json:"what"`
	Props []string `json:"props"`
	Log   []string `json:"log"`
	Hist  []int    `json:"hist"`
	Alt   int      `json:"alt"`
	Epi   string   `json:"epi"`
	U     string   `json:"u"`
	Ops   []Op     `json:"ops"`
}
type bfsRes struct {
	Kids   []bfsChild       `json:"kids"`
	Found  []Found          `json:"found"`
	Runs   int              `json:"runs"`
	Other  map[string]int   `json:"other"`
	Counts map[string]int64 `json:"c"`
}

func init() {
	core.RegisterWorker("bfs", func(arg json.RawMessage) (any, error) {
		var j bfsJob
		if err := json.Unmarshal(arg, &j); err != nil {
			return nil, err
		}
		u := Universes[j.U]
		if u == nil {
			return nil, fmt.Errorf("unknown universe %s", j.U)
		}
		res := bfsRes{Other: map[string]int{}}
		sigs := map[string]bool{}
		note := func(o Outcome, hist []int, alt int, epi string) {
			if !o.Div.Is(j.Prop) {
				res.Other[o.Div.Sig]++
				return
			}
			if sigs[o.Div.Sig] {
				return
			}
			sigs[o.Div.Sig] = true
			// the same history must fail every time
			for k := 0; k < 4; k++ {
				o2 := u.Extend(j.Prop, hist, alt, epi, false)
				if o2.Div == nil || o2.Div.Sig != o.Div.Sig {
					panic(fmt.Sprintf("harness: not reproducible: %s: %v vs %v", o.Div.What, o.Log, o2.Log))
				}
			}
			res.Found = append(res.Found, Found{Sig: o.Div.Sig, What: o.Div.What, Props: o.Div.Props, Log: o.Log, Hist: hist, Alt: alt, Epi: epi, U: j.U, Ops: o.Ops})
		}
		raw := 0
		for i, h := range j.Hists {
			if j.Phase == 2 && u.Extra != nil {
				x := &Extra{U: u, Prop: j.Prop, Hist: h}
				u.Extra(x)
				res.Runs += x.Runs
				res.Found = append(res.Found, x.Found...)
				for k, v := range x.Counts {
					if res.Counts == nil {
						res.Counts = map[string]int64{}
					}
					res.Counts[k] += v
				}
				if len(x.Found) > 0 {
					break
				}
				continue
			}
			if j.Phase == 2 {
				for _, epi := range strings.Fields(j.Epi) {
					res.Runs++
					if o := u.Extend(j.Prop, h, -1, epi, false); o.Div != nil {
						note(o, h, -1, epi)
					}
				}
				continue
			}
			n := 1
			for k := 0; k < n; k++ {
				res.Runs++
				o := u.Extend(j.Prop, h, k, "", true)
				if o.N == 0 {
					break
				}
				n = o.N
				if o.Div != nil {
					note(o, h, k, "")
					// a defect of another property ends the history here; what this
					// property says of it is still checked
					if u.Raw && u.Extra != nil && !o.Div.Is(j.Prop) && raw < 4 {
						raw++
						x := &Extra{U: u, Prop: j.Prop, Hist: append(append([]int{}, h...), k)}
						u.Extra(x)
						res.Runs += x.Runs
						res.Found = append(res.Found, x.Found...)
					}
					continue
				}
				res.Kids = append(res.Kids, bfsChild{i, k, o.Hash})
			}
		}
		return res, nil
	})
}

// Search explores a universe breadth first to its depth and reports what it finds.
func Search(c *core.Ctx, pool *core.Pool, u *Universe) {
	Register(u)
	if os.Getenv("VERIF_TIMES") != "" {
		t0 := time.Now()
		defer func() { fmt.Fprintf(os.Stderr, "%6d ms %s\n", time.Since(t0).Milliseconds(), u.Name) }()
	}
	seen := map[string]bool{}
	root := u.Extend(c.ID, nil, -1, "", true)
	if root.Div != nil {
		if root.Div.Is(c.ID) {
			c.Report(&core.Violation{Signature: root.Div.Sig, What: root.Div.What, Scenario: u.Name, History: root.Log})
		}
		return
	}
	seen[root.Hash] = true
	frontier := [][]int{{}}
	reached := 0
	capped := false
	epilogue := func(hs [][]int) {
		if (u.Epilogue == "" && u.Extra == nil) || len(hs) == 0 {
			return
		}
		jobs := chunk(u, c.ID, hs, 2)
		pool.Map(jobs, func() bool { return c.OutOfTime() || c.HasViolations() }, func(i int, raw json.RawMessage, err error) {
			collect(c, u, raw, err, nil)
		})
	}
	epilogue(frontier)
	for d := 1; d <= u.Depth && len(frontier) > 0; d++ {
		if c.OutOfTime() || c.HasViolations() {
			capped = true
			break
		}
		var next [][]int
		jobs := chunk(u, c.ID, frontier, 1)
		done := 0
		pool.Map(jobs, func() bool { return c.OutOfTime() || c.HasViolations() }, func(i int, raw json.RawMessage, err error) {
			done++
			j := jobs[i].Arg.(bfsJob)
			collect(c, u, raw, err, func(k bfsChild) {
				c.Count("transitions", 1)
				if u.Paths {
					k.H = fmt.Sprint(j.Hists[k.P], k.K)
				}
				if seen[k.H] {
					return
				}
				seen[k.H] = true
				h := make([]int, 0, len(j.Hists[k.P])+1)
				next = append(next, append(append(h, j.Hists[k.P]...), k.K))
			})
		})
		epilogue(next)
		if done < len(jobs) || c.OutOfTime() {
			capped = true
			break
		}
		reached = d
		frontier = next
	}
	c.Count("states", int64(len(seen)))
	if capped && !c.HasViolations() {
		c.NotExhaustive(fmt.Sprintf("%s: time budget reached after depth %d of %d", u.Name, reached, u.Depth))
	}
	scopes, _ := c.Coverage["universes"].([]string)
	c.Coverage["universes"] = append(scopes, fmt.Sprintf("%s: depth %d of %d complete, %d states", u.Name, reached, u.Depth, len(seen)))
	if len(frontier) > 0 {
		o := u.Extend(c.ID, frontier[len(frontier)-1], -1, "", false)
		c.Sample(map[string]any{"universe": u.Name, "history": o.Log})
	}
}

func chunk(u *Universe, prop string, hs [][]int, phase int) []core.Job {
	size := 32
	if len(hs) < 256 {
		size = len(hs)/16 + 1
	}
	var jobs []core.Job
	for i := 0; i < len(hs); i += size {
		e := i + size
		if e > len(hs) {
			e = len(hs)
		}
		jobs = append(jobs, core.Job{Kind: "bfs", Arg: bfsJob{U: u.Name, Prop: prop, Hists: hs[i:e], Epi: u.Epilogue, Phase: phase}})
	}
	return jobs
}

func collect(c *core.Ctx, u *Universe, raw json.RawMessage, err error, kid func(bfsChild)) {
	if Died(c, u.Name, err) {
		return
	}
	var r bfsRes
	if err := json.Unmarshal(raw, &r); err != nil {
		c.Broken(err)
		return
	}
	c.Count("runs", int64(r.Runs))
	c.Count("traces_validated_against_impl", int64(r.Runs))
	for s, n := range r.Counts {
		c.Count(s, n)
	}
	for s, n := range r.Other {
		c.Count("pruned_other:"+s, int64(n))
	}
	for _, f := range r.Found {
		c.Report(&core.Violation{Signature: f.Sig, What: f.What, Scenario: u.Name, History: f.Log,
			Replay: map[string]any{"universe": f.U, "hist": f.Hist, "alt": f.Alt, "epilogue": f.Epi, "ops": f.Ops}})
	}
	if kid != nil {
		for _, k := range r.Kids {
			kid(k)
		}
	}
}

func SleepMs(e *sched.Exec, ms int64) { (&World{E: e}).Sleep(ms) }

// Died handles job errors: a worker process that ended twice on the same job was ended by
// the code under test; anything else is an error of the check.
func Died(c *core.Ctx, scen string, err error) bool {
	if err == nil {
		return false
	}
	if wd, ok := err.(*core.WorkerDied); ok {
		c.Report(&core.Violation{Signature: "process-died", What: "the process ended while executing the scenario: " + wd.Msg, Scenario: scen})
		return true
	}
	c.Broken(err)
	return true
}
