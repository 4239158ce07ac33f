package core

// Choices is one path through a tree of choices, in the order they are made.
type Choices struct {
	want []int
	n    []int
	got  []int
}

// Pick returns the next choice among n alternatives.
func (c *Choices) Pick(n int) int {
	if n <= 0 {
		panic("harness: choice among nothing")
	}
	k := 0
	if len(c.got) < len(c.want) {
		k = c.want[len(c.got)]
	}
	if k >= n {
		panic("harness: replay diverged")
	}
	c.got = append(c.got, k)
	c.n = append(c.n, n)
	return k
}

// next is the following path in depth-first order that keeps the first keep choices.
func (c *Choices) next(keep int) []int {
	for i := len(c.got) - 1; i >= keep; i-- {
		if c.got[i]+1 < c.n[i] {
			return append(append([]int{}, c.got[:i]...), c.got[i]+1)
		}
	}
	return nil
}

// Enumerate runs f on every path of choices; parts of the tree are left to other workers
// when the first run says how it branches.
func Enumerate(r *ItemRun, f func(c *Choices) *ItemFail) {
	roots := r.Prefixes
	split := roots == nil
	if split {
		roots = [][]int{nil}
	}
	for ri, root := range roots {
		path := root
		for first := true; path != nil || first; first = false {
			c := &Choices{want: path}
			fail := f(c)
			r.Ran()
			r.Count("states", int64(len(c.got)))
			r.Count("transitions", int64(len(c.got)))
			if fail != nil {
				p := append([]int{}, c.got...)
				r.Report(fail.Sig, fail.What, "", fail.Log, p, func() bool {
					f2 := f(&Choices{want: p})
					return f2 != nil && f2.Sig == fail.Sig
				})
				return
			}
			if split {
				// hand out the alternatives of the first two choices
				for i := 0; i < 2 && i < len(c.got); i++ {
					for k := c.got[i] + 1; k < c.n[i]; k++ {
						r.Rest([][]int{append(append([]int{}, c.got[:i]...), k)})
					}
				}
				k := 2
				if len(c.got) < k {
					k = len(c.got)
				}
				root, split = append([]int{}, c.got[:k]...), false
			}
			path = c.next(len(root))
			if r.Enough() {
				if path != nil {
					// the remainder as subtrees: every later sibling on the way up
					for i := len(c.got) - 1; i >= len(root); i-- {
						for k := c.got[i] + 1; k < c.n[i]; k++ {
							r.Rest([][]int{append(append([]int{}, c.got[:i]...), k)})
						}
					}
				}
				r.Rest(roots[ri+1:])
				return
			}
		}
	}
}
