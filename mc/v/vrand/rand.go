// Package rand replaces math/rand in the instrumented raft library: under an execution the
// numbers come from a fixed sequence.
package rand

import (
	"math/rand"

	"vmc/sched"
)

var Seed = rand.Seed

func Int63() int64 {
	e := sched.Active()
	if e == nil {
		return rand.Int63()
	}
	if e.Ext == nil {
		e.Ext = map[string]any{}
	}
	x, _ := e.Ext["rand"].(uint64)
	x = x*6364136223846793005 + 1442695040888963407
	e.Ext["rand"] = x
	return int64(x >> 1)
}

func Float64() float64 { return float64(Int63()>>10) / (1 << 53) }
func Intn(n int) int   { return int(Int63() % int64(n)) }
func Int63n(n int64) int64 {
	return Int63() % n
}
