package core

import (
	"fmt"
	"os"
)

// Main runs the check named on the command line.
func Main(checks map[string]func(c *Ctx, pool *Pool)) {
	MaybeWorker()
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: check ID TIER")
		os.Exit(3)
	}
	Silence()
	id, tier := os.Args[1], os.Args[2]
	f := checks[id]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(3)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	c := New(id, tier, root)
	pool, err := NewPool()
	if err != nil {
		c.Broken(err)
	}
	f(c, pool)
	pool.Close()
	os.Exit(c.Finish())
}
