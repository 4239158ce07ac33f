package main

import (
	_ "github.com/kgantsov/doq/pkg/grpc"
	_ "github.com/kgantsov/doq/pkg/http"
	"vmc/core"
	_ "vmc/rsys"
)

type fail = core.ItemFail

var checks = map[string]func(c *core.Ctx, pool *core.Pool){}

func main() { core.Main(checks) }
