// qcheck decides the properties of the queue engine, its replication and its storage.
package main

import "vmc/core"

var checks = map[string]func(c *core.Ctx, pool *core.Pool){}

func main() { core.Main(checks) }
