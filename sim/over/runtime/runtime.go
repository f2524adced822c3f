// Package runtime replaces the standard package in simulated code.
package runtime

import (
	"gevsim/core"
	stdrt "runtime"
)

func Gosched()                                  { core.Gosched() }
func NumCPU() int                               { return core.S.NumCPU }
func GOMAXPROCS(n int) int                      { return core.S.NumCPU }
func NumGoroutine() int                         { return len(core.Tasks()) }
func GC()                                       {}
func KeepAlive(x any)                           {}
func SetFinalizer(o, f any)                     {}
func LockOSThread()                             {}
func UnlockOSThread()                           {}
func Stack(b []byte, a bool) int                { return copy(b, "simulated stack") }
func Caller(n int) (uintptr, string, int, bool) { return 0, "sim.go", 0, false }
func Goexit()                                   { panic("runtime.Goexit is not simulated") }

type MemStats = stdrt.MemStats

func ReadMemStats(m *MemStats) {}
