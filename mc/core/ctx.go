// Package core holds what every check shares: run context, evidence, known findings,
// violation reports and the worker pool.
package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Out is where verdicts go; Silence keeps it on the real standard output.
var Out = os.Stdout

// Silence points the standard output of the code under test at nothing.
func Silence() {
	if fd, err := syscall.Dup(1); err == nil {
		Out = os.NewFile(uintptr(fd), "verdict")
		syscall.CloseOnExec(fd)
		if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			syscall.Dup3(int(n.Fd()), 1, 0)
		}
	}
}

// Violation is one confirmed counterexample.
type Violation struct {
	Property  string   `json:"property"`
	Signature string   `json:"signature"` // identifies the failing history or input class
	What      string   `json:"what"`
	Scenario  string   `json:"scenario,omitempty"`
	History   []string `json:"history,omitempty"`
	Schedule  []string `json:"schedule,omitempty"`
	Replay    any      `json:"replay,omitempty"`
}

// Ctx is the context of one check run.
type Ctx struct {
	ID       string
	Tier     string
	Seed     int
	Root     string // /verif
	Start    time.Time
	Deadline time.Time

	mu         sync.Mutex
	Violations []*Violation
	Known      map[string]string // signature -> what
	KnownHit   map[string]string

	Coverage    map[string]any
	Samples     []any
	Assumptions []string
	Exhaustive  bool
	Level       string
	counts      map[string]int64
}

func New(id, tier string, root string) *Ctx {
	c := &Ctx{ID: id, Tier: tier, Root: root, Start: time.Now(), Coverage: map[string]any{}, Exhaustive: true,
		Level: "model_checking", counts: map[string]int64{}, KnownHit: map[string]string{}}
	c.Seed = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &c.Seed)
	budget := 100 * time.Second
	if tier == "thorough" {
		budget = 700 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		var n int
		fmt.Sscan(s, &n)
		budget = time.Duration(n) * time.Second
	}
	c.Deadline = c.Start.Add(budget)
	c.Known = loadKnown(filepath.Join(root, "known_findings.txt"), id)
	return c
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q for the quick tier and t for the thorough one.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

func (c *Ctx) OutOfTime() bool { return time.Now().After(c.Deadline) }

func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.counts[name] += n
	c.mu.Unlock()
}

func (c *Ctx) GetCount(name string) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.counts[name]
}

func (c *Ctx) Sample(s any) {
	c.mu.Lock()
	if len(c.Samples) < 6 {
		c.Samples = append(c.Samples, s)
	}
	c.mu.Unlock()
}

// NotExhaustive records that a cap or the deadline was hit.
func (c *Ctx) NotExhaustive(why string) {
	c.mu.Lock()
	c.Exhaustive = false
	l, _ := c.Coverage["caps_hit"].([]string)
	c.Coverage["caps_hit"] = append(l, why)
	c.mu.Unlock()
}

// Report records a violation (or a known finding when its signature is listed).
func (c *Ctx) Report(v *Violation) {
	c.mu.Lock()
	defer c.mu.Unlock()
	v.Property = c.ID
	if _, ok := c.Known[v.Signature]; ok {
		if _, seen := c.KnownHit[v.Signature]; !seen {
			c.KnownHit[v.Signature] = v.What
		}
		return
	}
	for _, o := range c.Violations {
		if o.Signature == v.Signature {
			return
		}
	}
	if len(c.Violations) < 20 {
		c.Violations = append(c.Violations, v)
	}
}

// Broken ends the run with an error of the check itself.
func (c *Ctx) Broken(err error) {
	fmt.Fprintln(os.Stderr, "CHECK ERROR:", err)
	os.Exit(3)
}

func (c *Ctx) HasViolations() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.Violations) > 0
}

func loadKnown(path, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: property="+id+" signature=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" signature=")
		sig, what, _ := strings.Cut(rest, " ")
		m[sig] = what
	}
	return m
}

// Finish writes the evidence file, prints the verdict and returns the exit code.
func (c *Ctx) Finish() int {
	for k, v := range c.counts {
		c.Coverage[k] = v
	}
	if c.Samples != nil {
		c.Coverage["samples"] = c.Samples
	} else {
		c.Coverage["samples"] = []any{}
	}
	c.Coverage["exhaustive"] = c.Exhaustive
	for _, k := range []string{"states", "transitions", "traces_validated_against_impl"} {
		if c.Level == "model_checking" {
			if _, ok := c.Coverage[k]; !ok {
				c.Coverage[k] = int64(0)
			}
		}
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": c.Coverage, "wall_s": float64(int(time.Since(c.Start).Seconds()*100)) / 100,
		"violations": len(c.Violations), "assumptions": c.Assumptions,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(c.Root, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 3
	}
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 3
	}
	var ks []string
	for s := range c.KnownHit {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	for _, s := range ks {
		fmt.Fprintf(Out, "KNOWN-FINDING: property=%s signature=%s %s\n", c.ID, s, c.Known[s])
	}
	fmt.Fprintf(Out, "%s %s: exhaustive=%v wall=%.1fs", c.ID, c.Tier, c.Exhaustive, time.Since(c.Start).Seconds())
	var names []string
	for k := range c.counts {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Fprintf(Out, " %s=%d", k, c.counts[k])
	}
	fmt.Fprintln(Out)
	if len(c.Violations) == 0 {
		return 0
	}
	old, _ := filepath.Glob(filepath.Join(dir, "replay-"+c.ID+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	for i, v := range c.Violations {
		p := filepath.Join(dir, fmt.Sprintf("replay-%s-%d.json", c.ID, i+1))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Fprintf(Out, "VIOLATION property=%s replay=%s\n", c.ID, p)
		fmt.Fprintf(Out, "  %s [%s]\n", v.What, v.Signature)
		for _, h := range v.History {
			fmt.Fprintf(Out, "    %s\n", h)
		}
	}
	return 1
}
