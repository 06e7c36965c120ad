package runtime

import (
	"fmt"
	rr "runtime"

	"github.com/innerr/ticat/zsim/rt"
)

const (
	GOOS   = rr.GOOS
	GOARCH = rr.GOARCH
	Compiler = rr.Compiler
)

type Error = rr.Error
type MemStats = rr.MemStats
type Frame = rr.Frame
type Frames = rr.Frames
type Func = rr.Func

func Stack(buf []byte, all bool) int {
	return copy(buf, fmt.Sprintf("goroutine %d [running]:\nmain.main()\n", rt.CurTask().GoID))
}
func Gosched()                                  { rt.Point(); rt.S.Gosched() }
func NumCPU() int                               { return 4 }
func GOMAXPROCS(n int) int                      { return 4 }
func NumGoroutine() int                         { return rt.NumTasks() }
func GC()                                       {}
func KeepAlive(x interface{})                   {}
func SetFinalizer(a, b interface{})             {}
func Version() string                           { return rr.Version() }
func Caller(n int) (uintptr, string, int, bool) { return rr.Caller(n + 1) }
func Callers(n int, pc []uintptr) int           { return rr.Callers(n+1, pc) }
func CallersFrames(pc []uintptr) *Frames        { return rr.CallersFrames(pc) }
func FuncForPC(pc uintptr) *Func                { return rr.FuncForPC(pc) }
func ReadMemStats(m *MemStats)                  {}
func Goexit()                                   { rt.Goexit() }
