package rsys

import "vmc/core"

// Choices and Enumerate are shared with the checks that need no raft.
type Choices = core.Choices

func Enumerate(r *core.ItemRun, f func(c *core.Choices) *core.ItemFail) { core.Enumerate(r, f) }
