package rt

import (
	"io"
	"syscall"
)

// ExecFunc is the body of a simulated external program.
type ExecFunc func(c *ExecCtx) int

type ExecCtx struct {
	S      *Sim
	P      *Proc
	Args   []string // without the program name
	Dir    string
	Stdin  *File
	Stdout *File
	Stderr *File
}

// Out writes to the program's stdout; a broken pipe kills the program.
func (c *ExecCtx) Out(str string)    { c.write(c.Stdout, str) }
func (c *ExecCtx) ErrOut(str string) { c.write(c.Stderr, str) }

func (c *ExecCtx) write(f *File, str string) {
	if f == nil {
		return
	}
	_, err := f.Write([]byte(str))
	if err != nil {
		c.P.Crashed = true
		c.S.killProc(c.P, -13, "broken pipe")
		c.S.die(c.S.cur)
	}
}

// Child is a started external program.
type Child struct {
	P     *Proc
	pipes []*copier
	files []*File
}

type copier struct {
	done  bool
	err   error
	wait  *Task
	task  *Task
}

type ExecSpec struct {
	Name   string
	Args   []string // including argv[0]
	Dir    string
	Env    []string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
	// unwrap gives the simulated file behind an *os.File
	Unwrap func(interface{}) *File
}

// LookPath says whether a program exists.
func (s *Sim) LookPath(name string) (string, bool) {
	s.tick()
	if _, ok := s.Execs[name]; ok {
		return "/usr/bin/" + name, true
	}
	if len(name) > 9 && name[:9] == "/usr/bin/" {
		if _, ok := s.Execs[name[9:]]; ok {
			return name, true
		}
	}
	return "", false
}

// StartExec starts an external program as a child of the current process.
func (s *Sim) StartExec(sp ExecSpec) (*Child, error) {
	me := s.alive()
	p := me.Proc
	a := s.op("exec", sp.Name+" "+first(sp.Args), 0)
	if a.err != nil {
		return nil, perr("fork/exec", sp.Name, a.err)
	}
	base := sp.Name
	if len(base) > 9 && base[:9] == "/usr/bin/" {
		base = base[9:]
	}
	fn, ok := s.Execs[base]
	if !ok {
		return nil, perr("fork/exec", sp.Name, syscall.ENOENT)
	}
	if sp.Dir != "" {
		_, _, n, err := s.FS.walk(clean(p.Cwd, sp.Dir), true)
		if err != nil {
			return nil, perr("chdir", sp.Dir, err)
		}
		if !n.Dir {
			return nil, perr("chdir", sp.Dir, syscall.ENOTDIR)
		}
	}
	c := s.NewProc(base, p.Pid)
	c.Kind = base
	c.Args = sp.Args
	c.Cwd = p.Cwd
	if sp.Dir != "" {
		c.Cwd = clean(p.Cwd, sp.Dir)
	}
	for k, v := range p.Env {
		c.Env[k] = v
	}
	c.Faulty = p.Faulty
	ch := &Child{P: c}
	ctx := &ExecCtx{S: s, P: c, Dir: c.Cwd}
	if len(sp.Args) > 0 {
		ctx.Args = sp.Args[1:]
	}
	in := func(r io.Reader, name string) *File {
		if r == nil {
			pp := &Pipe{}
			return s.PipeReader(c, name, pp) // like /dev/null
		}
		if f := sp.Unwrap(r); f != nil {
			return f.Dup(s, c)
		}
		// A reader that is not a file: copy all of it.
		pp := &Pipe{Unlimited: true}
		rf := s.PipeReader(c, name, pp)
		wf := s.PipeWriter(p, "|"+name, pp)
		cp := &copier{}
		cp.task = s.newTask(p, func() {
			_, err := io.Copy(wf, r)
			cp.err = err
			wf.Close()
			cp.finish(s)
		})
		ch.pipes = append(ch.pipes, cp)
		return rf
	}
	out := func(w io.Writer, name string) *File {
		if w == nil {
			return nil
		}
		if f := sp.Unwrap(w); f != nil {
			return f.Dup(s, c)
		}
		pp := &Pipe{}
		wf := s.PipeWriter(c, name, pp)
		rf := s.PipeReader(p, "|"+name, pp)
		cp := &copier{}
		cp.task = s.newTask(p, func() {
			_, err := io.Copy(w, readerOnly{rf})
			cp.err = err
			rf.Close()
			cp.finish(s)
		})
		ch.pipes = append(ch.pipes, cp)
		return wf
	}
	ctx.Stdin = in(sp.Stdin, "stdin")
	ctx.Stdout = out(sp.Stdout, "stdout")
	if sp.Stderr != nil && sameWriter(sp.Stderr, sp.Stdout) {
		ctx.Stderr = ctx.Stdout
	} else {
		ctx.Stderr = out(sp.Stderr, "stderr")
	}
	c.Stdin, c.Stdout, c.Stderr = ctx.Stdin, ctx.Stdout, ctx.Stderr
	s.StartProc(c, func() {
		code := fn(ctx)
		if c.Dead {
			s.die(s.cur)
		}
		s.killProc(c, code&0xff, "")
		s.die(s.cur)
	})
	s.done(a, "exec")
	return ch, nil
}

type readerOnly struct{ f *File }

func (r readerOnly) Read(b []byte) (int, error) { return r.f.Read(b) }

func sameWriter(a, b io.Writer) (same bool) {
	defer func() { recover() }()
	return a == b
}

func (cp *copier) finish(s *Sim) {
	cp.done = true
	if cp.wait != nil {
		s.ready(cp.wait)
	}
}

func first(a []string) string {
	if len(a) > 1 {
		return a[1]
	}
	return ""
}

// Wait waits for the program and for the copying of its output.
func (ch *Child) Wait(s *Sim) (code int, signaled bool, copyErr error) {
	me := s.alive()
	for !ch.P.Dead {
		ch.P.waiters = append(ch.P.waiters, me)
		s.block("wait for child")
	}
	for _, cp := range ch.pipes {
		for !cp.done {
			cp.wait = me
			s.block("wait for output copy")
		}
		if cp.err != nil && copyErr == nil {
			copyErr = cp.err
		}
	}
	s.tick()
	s.opPoint()
	s.alive()
	return ch.P.Code, ch.P.Crashed || ch.P.Code < 0, copyErr
}

// Signal0 is kill(pid, 0).
func (s *Sim) Signal0(pid int) error {
	s.alive()
	s.op("kill0", "", 0)
	if _, ok := s.Procs[pid]; ok {
		return nil
	}
	if pid == 1 || s.Foreign[pid] {
		return syscall.EPERM
	}
	return syscall.ESRCH
}

func (s *Sim) SignalKill(pid int) error {
	s.alive()
	s.op("kill9", "", 0)
	p, ok := s.Procs[pid]
	if s.Foreign[pid] {
		return syscall.EPERM
	}
	if !ok {
		return syscall.ESRCH
	}
	p.Crashed = true
	s.killProc(p, -9, "killed by signal")
	if s.cur.Proc == p {
		s.die(s.cur)
	}
	return nil
}
