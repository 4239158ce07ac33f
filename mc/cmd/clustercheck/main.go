package main

import (
	"reflect"
	"unsafe"

	"vmc/core"
)

type fail = core.ItemFail

var checks = map[string]func(c *core.Ctx, pool *core.Pool){}

func main() { core.Main(checks) }

// setField puts val into the first field of its type.
func setField(obj any, val any) {
	v := reflect.ValueOf(obj).Elem()
	want := reflect.TypeOf(val)
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == want {
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(val))
			return
		}
	}
	panic("harness: no field of type " + want.String())
}
