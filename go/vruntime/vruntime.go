// Package vruntime replaces package runtime under the controlled scheduler.
package vruntime

import (
	"runtime"

	"verif.local/mbv/vsched"
)

// Re-exported types.
type (
	Error    = runtime.Error
	MemStats = runtime.MemStats
	Frame    = runtime.Frame
	Frames   = runtime.Frames
	Func     = runtime.Func
)

// Constants.
const (
	GOOS     = runtime.GOOS
	GOARCH   = runtime.GOARCH
	Compiler = runtime.Compiler
)

// Gosched yields.
func Gosched() { vsched.Gosched() }

// Re-exported functions.
func Goexit()                                      { runtime.Goexit() }
func NumGoroutine() int                            { return runtime.NumGoroutine() }
func NumCPU() int                                  { return runtime.NumCPU() }
func GOMAXPROCS(n int) int                         { return runtime.GOMAXPROCS(n) }
func GC()                                          { runtime.GC() }
func KeepAlive(x any)                              { runtime.KeepAlive(x) }
func SetFinalizer(o, f any)                        {}
func Stack(b []byte, all bool) int                 { return runtime.Stack(b, all) }
func Caller(skip int) (uintptr, string, int, bool) { return runtime.Caller(skip + 1) }
func Callers(skip int, pc []uintptr) int           { return runtime.Callers(skip+1, pc) }
func CallersFrames(c []uintptr) *Frames            { return runtime.CallersFrames(c) }
func FuncForPC(pc uintptr) *Func                   { return runtime.FuncForPC(pc) }
func ReadMemStats(m *MemStats)                     { runtime.ReadMemStats(m) }
func LockOSThread()                                {}
func UnlockOSThread()                              {}
func Version() string                              { return runtime.Version() }
