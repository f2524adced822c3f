// Package log replaces the standard logger in simulated code: output goes to the trace.
package log

import (
	"fmt"
	"gevsim/core"
)

func Print(v ...any)            { core.Logf("log: %s", fmt.Sprint(v...)) }
func Println(v ...any)          { core.Logf("log: %s", fmt.Sprintln(v...)) }
func Printf(f string, v ...any) { core.Logf("log: "+f, v...) }
func Fatal(v ...any)            { core.FailNow("crash", "log.Fatal: %s", fmt.Sprint(v...)); core.Park("exit") }
func Fatalf(f string, v ...any) { core.FailNow("crash", "log.Fatal: "+f, v...); core.Park("exit") }
func Panic(v ...any)            { panic(fmt.Sprint(v...)) }
func Panicf(f string, v ...any) { panic(fmt.Sprintf(f, v...)) }
func SetFlags(int)              {}
func SetPrefix(string)          {}
