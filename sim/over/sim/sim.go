// Package sim holds helpers called by rewritten code.
package sim

import (
	"fmt"
	"gevsim/core"
	"reflect"
	"sort"
	"unsafe"
)

// Y is a preemption point; it is inlined into the rewritten code.
func Y() { core.Y() }

// MapKeys returns the keys of m in a deterministic order chosen by the simulator.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	if core.HB {
		core.RMap(reflect.ValueOf(m).UnsafePointer(), false, "a map iteration")
	}
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	switch reflect.ValueOf(ks[0]).Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Int() < reflect.ValueOf(ks[j]).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Uint() < reflect.ValueOf(ks[j]).Uint() })
	case reflect.String:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).String() < reflect.ValueOf(ks[j]).String() })
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		core.Abort("range over a map with unordered keys is not supported")
	case reflect.Interface:
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprintf("%T%v", ks[i], ks[i]) < fmt.Sprintf("%T%v", ks[j], ks[j]) })
	default:
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	}
	if core.S != nil && !core.Killing() {
		if r := int(core.Choose("map", 500, int64(len(ks)))); r > 0 {
			ks = append(ks[r:len(ks):len(ks)], ks[:r]...)
		}
	}
	return ks
}

// Alloc guards sizes passed to make.
func Alloc[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	if int64(n) > 1<<30 && core.S != nil && core.Cur() != nil {
		panic(fmt.Sprintf("runtime: out of memory: cannot allocate %d elements", int64(n)))
	}
	return n
}

// Zero clears a package variable before its initialiser is run again.
func Zero[T any](p *T) { var z T; *p = z }

// Set is used by nothing but keeps the import alive.
func Set() {}

// KeyOf and ElemOf only carry types.
func KeyOf[M ~map[K]V, K comparable, V any](m M) (k K)  { return }
func ElemOf[M ~map[K]V, K comparable, V any](m M) (v V) { return }

type mark struct {
	m     uintptr
	t     *core.Task
	write bool
}

var marks []mark

func init() { core.OnReset(func() { marks = nil }) }

// access holds a map open for one preemption point: the runtime allows no concurrent access.
func access(p uintptr, write bool) {
	if p == 0 || core.S == nil || core.Cur() == nil || core.Killing() {
		return
	}
	if core.HB {
		core.RMap(*(*unsafe.Pointer)(unsafe.Pointer(&p)), write, "a map element")
	}
	t := core.Cur()
	for _, k := range marks {
		if k.m == p && k.t != t && (write || k.write) {
			what := "map read and map write"
			if write && k.write {
				what = "map writes"
			}
			core.FailNow("crash", "fatal error: concurrent %s (task %d %s, task %d %s)", what, k.t.ID, k.t.Name, t.ID, t.Name)
			core.Point()
			return
		}
	}
	marks = append(marks, mark{p, t, write})
	core.Point()
	for i := len(marks) - 1; i >= 0; i-- {
		if marks[i].t == t && marks[i].m == p {
			marks = append(marks[:i], marks[i+1:]...)
			return
		}
	}
}

// MapR and MapW come before every read and write of a map element.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	access(reflect.ValueOf(m).Pointer(), false)
	return m
}

func MapW[M ~map[K]V, K comparable, V any](m M) M {
	access(reflect.ValueOf(m).Pointer(), true)
	return m
}

// MapLen is len for maps.
func MapLen[M ~map[K]V, K comparable, V any](m M, pos string) int {
	if core.HB {
		core.RMap(reflect.ValueOf(m).UnsafePointer(), false, pos)
	}
	return len(m)
}

// Copy is copy for byte slices.
func Copy(d, s []byte, pos string) int {
	if core.HB && len(d) > 0 && len(s) > 0 {
		core.RBuf(s, false, pos)
		core.RBuf(d, true, pos)
	}
	return copy(d, s)
}
