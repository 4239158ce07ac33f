package core

import (
	"fmt"
	"hash"
	"hash/fnv"
	"math"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// Dumper renders the reachable in-memory state of a value canonically. Times (Unix seconds
// and nanoseconds close to Now) are rendered relative to Now, so that states that differ
// only by a shift in time coincide.
type Dumper struct {
	Now      int64 // Unix seconds
	SkipType func(t reflect.Type) bool
	ids      map[unsafe.Pointer]int
	h        hash.Hash
	sb       *strings.Builder
}

func (d *Dumper) w(f string, a ...any) {
	if d.sb != nil {
		fmt.Fprintf(d.sb, f, a...)
		return
	}
	fmt.Fprintf(d.h, f, a...)
}

// Hash returns a 128-bit hash of the values.
func (d *Dumper) Hash(vs ...any) string {
	d.h = fnv.New128a()
	d.sb = nil
	d.ids = map[unsafe.Pointer]int{}
	for _, v := range vs {
		d.walk(reflect.ValueOf(v), 0)
		d.w("|")
	}
	return fmt.Sprintf("%x", d.h.Sum(nil))
}

// String returns the rendering itself (debugging).
func (d *Dumper) String(vs ...any) string {
	d.sb = &strings.Builder{}
	d.ids = map[unsafe.Pointer]int{}
	for _, v := range vs {
		d.walk(reflect.ValueOf(v), 0)
		d.w("|")
	}
	return d.sb.String()
}

func skipPkg(p string) bool {
	for _, s := range []string{"github.com/dgraph-io/", "github.com/prometheus/", "github.com/rs/zerolog", "vmc/sched", "vmc/v/", "google.golang.org/", "github.com/hashicorp/raft", "pkg/config"} {
		if strings.Contains(p, s) {
			return true
		}
	}
	return p == "sync" || p == "sync/atomic" || p == "reflect" || p == "context"
}

func (d *Dumper) num(x int64) {
	if x > d.Now-5_000_000 && x < d.Now+5_000_000 {
		d.w("t%+d ", x-d.Now)
		return
	}
	if ns := d.Now * 1e9; x > ns-5e15 && x < ns+5e15 {
		d.w("n%+d ", x-ns)
		return
	}
	d.w("%d ", x)
}

func (d *Dumper) walk(v reflect.Value, depth int) {
	if depth > 60 || !v.IsValid() {
		d.w("nil ")
		return
	}
	t := v.Type()
	if (t.PkgPath() != "" && skipPkg(t.PkgPath())) || (d.SkipType != nil && d.SkipType(t)) {
		d.w("~ ")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		d.w("%v ", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.num(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if v.Uint() > math.MaxInt64 {
			d.w("%d ", v.Uint())
		} else {
			d.num(int64(v.Uint()))
		}
	case reflect.Float32, reflect.Float64:
		d.w("%v ", v.Float())
	case reflect.String:
		d.w("%q ", v.String())
	case reflect.Pointer:
		if v.IsNil() {
			d.w("nil ")
			return
		}
		et := t.Elem()
		if (et.PkgPath() != "" && skipPkg(et.PkgPath())) || (d.SkipType != nil && d.SkipType(et)) {
			d.w("~ ")
			return
		}
		p := v.UnsafePointer()
		if k, ok := d.ids[p]; ok {
			d.w("#%d ", k)
			return
		}
		d.ids[p] = len(d.ids)
		d.w("&")
		d.walk(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			d.w("nil ")
			return
		}
		d.w("%s:", v.Elem().Type().String())
		d.walk(v.Elem(), depth+1)
	case reflect.Struct:
		d.w("{")
		for i := 0; i < v.NumField(); i++ {
			d.walk(v.Field(i), depth+1)
		}
		d.w("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			d.w("[] ")
			return
		}
		d.w("[")
		for i := 0; i < v.Len(); i++ {
			d.walk(v.Index(i), depth+1)
		}
		d.w("]")
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
		d.w("m[")
		for _, k := range keys {
			d.walk(k, depth+1)
			d.w("=>")
			d.walk(v.MapIndex(k), depth+1)
		}
		d.w("]")
	case reflect.Chan:
		if v.IsNil() {
			d.w("nil ")
		} else {
			d.w("ch%d ", v.Len())
		}
	default:
		d.w("%s ", v.Kind())
	}
}

func keyLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() < b.Uint()
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if keyLess(a.Field(i), b.Field(i)) {
				return true
			}
			if keyLess(b.Field(i), a.Field(i)) {
				return false
			}
		}
	case reflect.Pointer:
		return uintptr(a.UnsafePointer()) < uintptr(b.UnsafePointer())
	}
	return false
}
