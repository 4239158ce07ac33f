// Package explore enumerates every choice sequence of a controlled execution up to a
// deviation bound, depth first, by replaying prefixes.
package explore

import (
	"fmt"
	"strings"
)

type choice struct {
	kind, n, pick int
	cost          []int8
}

// Path is a chooser that replays a prefix and then takes alternative 0.
type Path struct {
	prefix  []int
	choices []choice
	Diverge string
	Record  bool
	Labels  []string
}

func NewPath(prefix []int) *Path { return &Path{prefix: prefix} }

// Choose implements sched.Chooser.
func (p *Path) Choose(kind, n int, cost func(int) int, label func(int) string) int {
	i := len(p.choices)
	c := choice{kind: kind, n: n, cost: make([]int8, n)}
	for k := range c.cost {
		c.cost[k] = int8(cost(k))
	}
	if i < len(p.prefix) {
		c.pick = p.prefix[i]
		if c.pick >= n {
			if p.Diverge == "" {
				p.Diverge = fmt.Sprintf("choice %d: replaying alternative %d of %d", i, c.pick, n)
			}
			c.pick = 0
		}
	}
	if p.Record {
		p.Labels = append(p.Labels, label(c.pick))
	}
	p.choices = append(p.choices, c)
	return c.pick
}

// Picks returns the choices taken.
func (p *Path) Picks() []int {
	r := make([]int, len(p.choices))
	for i := range p.choices {
		r[i] = p.choices[i].pick
	}
	return r
}

// Deviations is the total cost of the choices taken.
func (p *Path) Deviations() int {
	c := 0
	for i := range p.choices {
		c += int(p.choices[i].cost[p.choices[i].pick])
	}
	return c
}

// Explorer performs the search below a fixed prefix.
type Explorer struct {
	Bound   int
	Free    int // bound on non-default choices that cost nothing (negative: none)
	MaxRuns int // 0: no limit
	Stop    func() bool
	Runs    int
	MaxLen  int
}

// Run explores the subtree below root. one executes with the given chooser and reports
// false to abandon the search. The prefixes left unexplored (when MaxRuns or Stop ended
// the search) are returned.
func (x *Explorer) Run(root []int, one func(p *Path) bool) (rest [][]int, err error) {
	prefix := append([]int{}, root...)
	floor := len(root)
	for {
		p := NewPath(prefix)
		more := one(p)
		x.Runs++
		if p.Diverge != "" {
			return nil, fmt.Errorf("replay diverged: %s (prefix %v)", p.Diverge, prefix)
		}
		if len(p.choices) < len(prefix) {
			return nil, fmt.Errorf("replay diverged: %d choices, prefix has %d", len(p.choices), len(prefix))
		}
		if len(p.choices) > x.MaxLen {
			x.MaxLen = len(p.choices)
		}
		if !more {
			return nil, nil
		}
		stop := (x.MaxRuns > 0 && x.Runs >= x.MaxRuns) || (x.Stop != nil && x.Stop())
		// cost before each position
		ch := p.choices
		cum := make([]int, len(ch)+1)
		free := make([]int, len(ch)+1)
		for i := range ch {
			cum[i+1] = cum[i] + int(ch[i].cost[ch[i].pick])
			free[i+1] = free[i]
			if ch[i].pick > 0 && ch[i].cost[ch[i].pick] == 0 {
				free[i+1]++
			}
		}
		allowed := func(i, a int) bool {
			c := int(ch[i].cost[a])
			if c == 0 && a > 0 && x.Free >= 0 && free[i] >= x.Free {
				return false
			}
			return cum[i]+c <= x.Bound
		}
		next := func(i int) int {
			for a := ch[i].pick + 1; a < ch[i].n; a++ {
				if allowed(i, a) {
					return a
				}
			}
			return -1
		}
		if stop {
			for i := len(ch) - 1; i >= floor; i-- {
				for a := ch[i].pick + 1; a < ch[i].n; a++ {
					if allowed(i, a) {
						q := make([]int, 0, i+1)
						for k := 0; k < i; k++ {
							q = append(q, ch[k].pick)
						}
						rest = append(rest, append(q, a))
					}
				}
			}
			return rest, nil
		}
		found := false
		for i := len(ch) - 1; i >= floor; i-- {
			if a := next(i); a >= 0 {
				np := make([]int, 0, i+1)
				for k := 0; k < i; k++ {
					np = append(np, ch[k].pick)
				}
				prefix = append(np, a)
				found = true
				break
			}
		}
		if !found {
			return nil, nil
		}
	}
}

// Prefer lets one thread run whenever it can.
type Prefer struct {
	Name  string // prefix of the label
	taken bool
}

func (p *Prefer) Choose(kind, n int, cost func(int) int, label func(int) string) int {
	for i := 0; i < n; i++ {
		if strings.HasPrefix(label(i), p.Name) {
			p.taken = true
			return i
		}
	}
	return 0
}

// Taken reports whether it ran since the last call.
//
//go:noinline
func (p *Prefer) Taken() bool {
	t := p.taken
	p.taken = false
	return t
}

// Switches keeps the context switches of a trace.
func Switches(trace []string) []string {
	var out []string
	last := ""
	for _, l := range trace {
		f := strings.Fields(l)
		if len(f) > 1 && f[1] != last {
			last = f[1]
			out = append(out, "  schedule: "+l)
		}
	}
	if len(out) > 60 {
		out = out[len(out)-60:]
	}
	return out
}
