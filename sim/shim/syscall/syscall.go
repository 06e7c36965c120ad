package syscall

import (
	rs "syscall"

	"github.com/innerr/ticat/zsim/rt"
)

func Kill(pid int, sig Signal) error {
	if sig == 0 {
		return rt.S.Signal0(pid)
	}
	return rt.S.SignalKill(pid)
}
func Getpid() int { return rt.Cur().Pid }
func Syscall(trap, a, b, c uintptr) (uintptr, uintptr, Errno) {
	return ^uintptr(0), 0, rs.ENOTTY
}
func Flock(fd int, how int) error { rt.Unsupported("syscall.Flock"); return nil }
