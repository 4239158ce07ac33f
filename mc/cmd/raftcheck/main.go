// raftcheck decides the properties of whole nodes on the real raft library, run under the
// controlled scheduler with a virtual clock and network.
package main

import "vmc/core"

var checks = map[string]func(c *core.Ctx, pool *core.Pool){}

func main() { core.Main(checks) }
