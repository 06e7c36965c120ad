package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"strings"

	ros "os"
	rexec "os/exec"

	"github.com/innerr/ticat/zsim/rt"
	"github.com/innerr/ticat/zsim/shim/os"
)

type Error = rexec.Error

var (
	ErrNotFound  = rexec.ErrNotFound
	ErrDot       = rexec.ErrDot
	ErrWaitDelay = rexec.ErrWaitDelay
)

type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	child        *rt.Child
	closeAfter   []*os.File
}

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if !strings.Contains(name, "/") {
		p, err := LookPath(name)
		if p != "" {
			c.Path = p
		}
		if err != nil {
			c.Err = err
		}
	}
	return c
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	return Command(name, arg...)
}

func (c *Cmd) String() string { return strings.Join(append([]string{c.Path}, c.Args[1:]...), " ") }

func (c *Cmd) Environ() []string {
	if c.Env != nil {
		return c.Env
	}
	return os.Environ()
}

func LookPath(name string) (string, error) {
	p, ok := rt.S.LookPath(name)
	if !ok {
		return "", &Error{Name: name, Err: ErrNotFound}
	}
	return p, nil
}

func unwrap(x interface{}) *rt.File {
	if f, ok := x.(*os.File); ok && f != nil {
		return f.F
	}
	return nil
}

func (c *Cmd) Start() error {
	if c.Err != nil {
		return c.Err
	}
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	ch, err := rt.S.StartExec(rt.ExecSpec{Name: c.Path, Args: c.Args, Dir: c.Dir, Env: c.Env,
		Stdin: c.Stdin, Stdout: c.Stdout, Stderr: c.Stderr, Unwrap: unwrap})
	for _, f := range c.closeAfter {
		f.Close()
	}
	if err != nil {
		return err
	}
	c.child = ch
	c.Process = &os.Process{Pid: ch.P.Pid}
	c.Process.Wait_ = func() (*os.ProcessState, error) {
		err := c.Wait()
		return c.ProcessState, err
	}
	return nil
}

func (c *Cmd) Wait() error {
	if c.child == nil {
		return errors.New("exec: not started")
	}
	if c.ProcessState != nil {
		return errors.New("exec: Wait was already called")
	}
	code, sig, cerr := c.child.Wait(rt.S)
	c.ProcessState = &os.ProcessState{Code: code, Signaled: sig, Pid_: c.child.P.Pid}
	if !c.ProcessState.Success() {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return cerr
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	var b, e bytes.Buffer
	c.Stdout = &b
	cap := c.Stderr == nil
	if cap {
		c.Stderr = &e
	}
	err := c.Run()
	if x, ok := err.(*ExitError); ok && cap {
		x.Stderr = e.Bytes()
	}
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	r, w, _ := os.Pipe()
	c.Stdout = w
	c.closeAfter = append(c.closeAfter, w)
	return r, nil
}
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	r, w, _ := os.Pipe()
	c.Stderr = w
	c.closeAfter = append(c.closeAfter, w)
	return r, nil
}
func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	r, w, _ := os.Pipe()
	c.Stdin = r
	c.closeAfter = append(c.closeAfter, r)
	return w, nil
}

var _ = ros.Getpid
