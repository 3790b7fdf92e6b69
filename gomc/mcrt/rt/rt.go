// Package rt stands in for package runtime in the code under test, to notice finalizers.
package rt

import (
	"runtime"

	"gomc.local/mcrt"
)

type Pinner = runtime.Pinner
type Error = runtime.Error

const GOOS, GOARCH = runtime.GOOS, runtime.GOARCH

func SetFinalizer(obj any, finalizer any) {
	mcrt.Finalizers++
	runtime.SetFinalizer(obj, finalizer)
}

func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) runtime.Cleanup {
	mcrt.Finalizers++
	return runtime.AddCleanup(ptr, cleanup, arg)
}

func KeepAlive(x any)             { runtime.KeepAlive(x) }
func GC()                         {}
func Gosched()                    { mcrt.Point("gosched") }
func NumGoroutine() int           { return runtime.NumGoroutine() }
func LockOSThread()               {}
func UnlockOSThread()             {}
func GOMAXPROCS(n int) int        { return runtime.GOMAXPROCS(0) }
func NumCPU() int                 { return runtime.NumCPU() }
func Stack(b []byte, a bool) int  { return runtime.Stack(b, a) }
func Caller(s int) (uintptr, string, int, bool) {
	return runtime.Caller(s + 1)
}
