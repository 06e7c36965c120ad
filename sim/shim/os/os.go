package os

import (
	"io"
	"io/fs"
	ros "os"
	"strings"
	rsys "syscall"
	rtime "time"

	"github.com/innerr/ticat/zsim/rt"
)

// File is the simulated os.File.
type File struct{ F *rt.File }

func wrap(f *rt.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}

func std(f *rt.File, key string) *File {
	return *rt.PV("os."+key, func() *File { return &File{f} })
}

func GetStdin() *File {
	return std(rt.Cur().Stdin, "stdin")
}
func GetStdout() *File { return std(rt.Cur().Stdout, "stdout") }
func GetStderr() *File { return std(rt.Cur().Stderr, "stderr") }
func SetStdin(f *File) { GetStdin(); *rt.PV("os.stdin", func() *File { return f }) = f }
func SetStdout(f *File) {
	GetStdout()
	*rt.PV("os.stdout", func() *File { return f }) = f
}
func SetStderr(f *File) {
	GetStderr()
	*rt.PV("os.stderr", func() *File { return f }) = f
}
func GetArgs() []string { return rt.Cur().Args }

func (f *File) rf() *rt.File {
	if f == nil {
		return nil
	}
	return f.F
}
func (f *File) Read(b []byte) (int, error)                   { return f.rf().Read(b) }
func (f *File) ReadAt(b []byte, off int64) (int, error)      { return f.rf().ReadAt(b, off) }
func (f *File) Write(b []byte) (int, error)                  { return f.rf().Write(b) }
func (f *File) WriteString(s string) (int, error)            { return f.rf().Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error)     { return f.rf().WriteAt(b, off) }
func (f *File) Close() error                                 { return f.rf().Close() }
func (f *File) Sync() error                                  { return f.rf().Sync() }
func (f *File) Seek(off int64, wh int) (int64, error)        { return f.rf().Seek(off, wh) }
func (f *File) Truncate(n int64) error                       { return f.rf().Truncate(n) }
func (f *File) Stat() (fs.FileInfo, error)                   { return f.rf().Stat() }
func (f *File) Name() string                                 { return f.rf().Name() }
func (f *File) Fd() uintptr                                  { return uintptr(f.rf().Fd()) }
func (f *File) ReadDir(n int) ([]fs.DirEntry, error)         { return f.rf().ReadDir(n) }
func (f *File) Chmod(m fs.FileMode) error                    { return rt.Chmod(f.rf().Path(), m) }
func (f *File) SetDeadline(rtime.Time) error                 { return nil }
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.rf().ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.rf().ReadDir(n)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

func Open(name string) (*File, error)   { return wrap(rt.OpenFile(name, rt.O_RDONLY, 0)) }
func Create(name string) (*File, error) { return wrap(rt.OpenFile(name, rt.O_RDWR|rt.O_CREATE|rt.O_TRUNC, 0666)) }
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	return wrap(rt.OpenFile(name, flag, perm))
}
func Stat(name string) (fs.FileInfo, error)       { return rt.Stat(name) }
func Lstat(name string) (fs.FileInfo, error)      { return rt.Lstat(name) }
func Mkdir(name string, p fs.FileMode) error      { return rt.Mkdir(name, p) }
func MkdirAll(name string, p fs.FileMode) error   { return rt.MkdirAll(name, p) }
func Remove(name string) error                    { return rt.Remove(name) }
func RemoveAll(name string) error                 { return rt.RemoveAll(name) }
func Rename(a, b string) error                    { return rt.Rename(a, b) }
func Symlink(a, b string) error                   { return rt.Symlink(a, b) }
func Link(a, b string) error                      { return rt.Link(a, b) }
func Readlink(n string) (string, error)           { return rt.Readlink(n) }
func Chmod(n string, m fs.FileMode) error         { return rt.Chmod(n, m) }
func Chtimes(n string, a, m rtime.Time) error     { return rt.Chtimes(n, m.UnixNano()-rt.Epoch) }
func Chdir(n string) error                        { return rt.Chdir(n) }
func ReadDir(n string) ([]fs.DirEntry, error)     { return rt.ReadDir(n) }
func Truncate(n string, size int64) error {
	f, err := OpenFile(n, rt.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, rt.O_WRONLY|rt.O_CREATE|rt.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func nextTemp(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return dir + "/" + pre + rt.RandDigits() + suf
}
func CreateTemp(dir, pattern string) (*File, error) {
	for i := 0; i < 100; i++ {
		f, err := OpenFile(nextTemp(dir, pattern), rt.O_RDWR|rt.O_CREATE|rt.O_EXCL, 0600)
		if ros.IsExist(err) {
			continue
		}
		return f, err
	}
	return nil, &fs.PathError{Op: "createtemp", Path: dir, Err: fs.ErrExist}
}
func MkdirTemp(dir, pattern string) (string, error) {
	for i := 0; i < 100; i++ {
		n := nextTemp(dir, pattern)
		err := Mkdir(n, 0700)
		if ros.IsExist(err) {
			continue
		}
		return n, err
	}
	return "", &fs.PathError{Op: "mkdirtemp", Path: dir, Err: fs.ErrExist}
}
func Pipe() (*File, *File, error) {
	p := rt.Cur()
	pp := rt.S.NewPipe()
	return &File{rt.S.PipeReader(p, "|0", pp)}, &File{rt.S.PipeWriter(p, "|1", pp)}, nil
}

func TempDir() string { return "/tmp" }
func Getwd() (string, error) {
	rt.Tick()
	return rt.Cur().Cwd, nil
}
func Executable() (string, error)      { rt.Tick(); return rt.Cur().Exe, nil }
func Hostname() (string, error)        { return "simhost", nil }
func Getpid() int                      { rt.Tick(); return rt.Cur().Pid }
func Getppid() int                     { return rt.Cur().PPid }
func Getuid() int                      { return 1000 }
func Getgid() int                      { return 1000 }
func Geteuid() int                     { return 1000 }
func UserHomeDir() (string, error)     { return "/home/user", nil }
func UserCacheDir() (string, error)    { return "/home/user/.cache", nil }
func UserConfigDir() (string, error)   { return "/home/user/.config", nil }
func Getenv(k string) string           { return rt.Cur().Env[k] }
func LookupEnv(k string) (string, bool) { v, ok := rt.Cur().Env[k]; return v, ok }
func Setenv(k, v string) error         { rt.Cur().Env[k] = v; return nil }
func Unsetenv(k string) error          { delete(rt.Cur().Env, k); return nil }
func Environ() []string                { return rt.Environ(rt.Cur()) }
func ExpandEnv(s string) string        { return ros.Expand(s, Getenv) }
func Exit(code int)                    { rt.Exit(code) }
func Getpagesize() int                 { return 4096 }

func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*rt.Info)
	y, ok2 := b.(*rt.Info)
	return ok1 && ok2 && x.Ino() == y.Ino()
}

// Signals.
type Signal = ros.Signal

var (
	Interrupt Signal = rsys.SIGINT
	Kill      Signal = rsys.SIGKILL
)

type Process struct {
	Pid  int
	Wait_ func() (*ProcessState, error)
}
type ProcessState struct {
	Code     int
	Signaled bool
	Pid_     int
	Sys_     interface{}
}

func (p *ProcessState) ExitCode() int {
	if p == nil || p.Signaled {
		return -1
	}
	return p.Code
}
func (p *ProcessState) Success() bool { return !p.Signaled && p.Code == 0 }
func (p *ProcessState) Exited() bool  { return !p.Signaled }
func (p *ProcessState) Pid() int      { return p.Pid_ }
func (p *ProcessState) Sys() interface{} {
	if p.Signaled {
		return rsys.WaitStatus(9)
	}
	return rsys.WaitStatus(p.Code << 8)
}
func (p *ProcessState) String() string {
	if p == nil {
		return "<nil>"
	}
	if p.Signaled {
		return "signal: killed"
	}
	return "exit status " + itoa(p.Code)
}
func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}

func FindProcess(pid int) (*Process, error) { return &Process{Pid: pid}, nil }
func (p *Process) Kill() error              { return p.Signal(Kill) }
func (p *Process) Release() error           { return nil }
func (p *Process) Wait() (*ProcessState, error) {
	if p.Wait_ != nil {
		return p.Wait_()
	}
	return nil, rsys.ECHILD
}
func (p *Process) Signal(sig Signal) error {
	var err error
	if sig == rsys.Signal(0) {
		err = rt.S.Signal0(p.Pid)
	} else {
		err = rt.S.SignalKill(p.Pid)
	}
	if err == rsys.ESRCH {
		return ros.ErrProcessDone
	}
	return err
}
