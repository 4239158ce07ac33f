ints=[("Int32","int32"),("Int64","int64"),("Uint32","uint32"),("Uint64","uint64"),("Uintptr","uintptr")]
o='''// Package atomic replaces sync/atomic in instrumented code. Generated by gen.py.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"vmc/sched"
)

func pt() {
	if e := sched.Active(); e != nil && !e.Killing() {
		e.Point("atomic")
	}
}

'''
for N,t in ints:
    o+=f'''func Add{N}(p *{t}, d {t}) {t} {{ pt(); return atomic.Add{N}(p, d) }}
func Load{N}(p *{t}) {t} {{ pt(); return atomic.Load{N}(p) }}
func Store{N}(p *{t}, v {t}) {{ pt(); atomic.Store{N}(p, v) }}
func Swap{N}(p *{t}, v {t}) {t} {{ pt(); return atomic.Swap{N}(p, v) }}
func CompareAndSwap{N}(p *{t}, a, b {t}) bool {{ pt(); return atomic.CompareAndSwap{N}(p, a, b) }}

type {N} struct{{ v atomic.{N} }}

func (x *{N}) Load() {t} {{ pt(); return x.v.Load() }}
func (x *{N}) Store(v {t}) {{ pt(); x.v.Store(v) }}
func (x *{N}) Add(d {t}) {t} {{ pt(); return x.v.Add(d) }}
func (x *{N}) Swap(v {t}) {t} {{ pt(); return x.v.Swap(v) }}
func (x *{N}) CompareAndSwap(a, b {t}) bool {{ pt(); return x.v.CompareAndSwap(a, b) }}

'''
o+='''func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { pt(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(); atomic.StorePointer(p, v) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool { pt(); return x.v.Load() }
func (x *Bool) Store(v bool) { pt(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { pt(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { pt(); return x.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T { pt(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T) { pt(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { pt(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { pt(); return x.v.CompareAndSwap(a, b) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any { pt(); return x.v.Load() }
func (x *Value) Store(v any) { pt(); x.v.Store(v) }
func (x *Value) Swap(v any) any { pt(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool { pt(); return x.v.CompareAndSwap(a, b) }
'''
open('atomic.go','w').write(o)
