package main

import (
	"fmt"
	"io"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"

	zmain "github.com/innerr/ticat/pkg/main"
	"github.com/innerr/ticat/zsim/rt"
)

const (
	exePath  = "/home/user/bin/ticat"
	dataDir  = exePath + ".data"
	modsDir  = "/home/user/mods"
	flowsDir = dataDir + "/flows"
	sessDir  = dataDir + "/sessions"
	hubDir   = dataDir + "/hub"
	envFile  = dataDir + "/bootstrap.env"
	hubFile  = hubDir + "/repos.hub"
)

type Failure struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

// Ev is one run of an external program.
type Ev struct {
	N       int // order of start, 1...
	Prog    string
	Name    string // script file without directory and extension
	File    string
	Args    []string
	Session string
	Env     map[string]string // session env seen at the start
	EnvErr  string
	Pid     int
	PPid    int
	Top     int // pid of the outermost ticat process
	Start   int64
	StartT  int64
	End     int64 // 0: never ended
	EndT    int64
	Code    int
	Killed  bool
	Out     string
	Outs    []string // what it wrote to stdout and stderr, piece by piece
	Errs    []string
	P       *rt.Proc
	Nested  []int // exit codes of nested ticat calls
}

// TP is a ticat process.
type TP struct {
	P      *rt.Proc
	Args   []string
	Out    *rt.Sink
	Err    *rt.Sink
	All    *rt.Sink
	In     *rt.Pipe
	Nested bool
	Hung   bool
}

func (t *TP) Code() int { return t.P.Code }
func (t *TP) OK() bool  { return t.P.Dead && t.P.Code == 0 && !t.P.Crashed }

type W struct {
	S       *rt.Sim
	Ch      *Choice
	Prop    *Prop
	Fails   []Failure
	Hist    []*Ev
	Tics    []*TP
	Probes  map[string]int
	Sample  string // a short description of the workload
	Shape   string // what makes this run distinct
	Git     *Git
	Stalls  bool // started processes may be slow at a random moment
	inject  bool              // faults may be injected in this run (variant > 0)
	onRun   func(e *Ev)       // called when a script starts
	retried map[string]string // session dir -> the one it retries
	setVals map[string]string // what the script operation setval writes
}

func (w *W) Fail(key, f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	w.S.Event("ORACLE %s: %s", key, msg)
	for _, x := range w.Fails {
		if x.Key == key && x.Msg == msg {
			return
		}
	}
	if len(w.Fails) < 20 {
		w.Fails = append(w.Fails, Failure{key, msg})
	}
}

func (w *W) Check(cond bool, key, f string, a ...interface{}) bool {
	if !cond {
		w.Fail(key, f, a...)
	}
	return cond
}

func (w *W) Probe(name string) { w.Probes[name]++ }

// Faulted says whether any fault has struck so far.
func (w *W) Faulted() bool { return len(w.S.Fired) > 0 }

// Crashes says how many crash faults struck.
func (w *W) FaultKind(prefix string) bool {
	for _, f := range w.S.Fired {
		if strings.HasPrefix(f.Kind, prefix) {
			return true
		}
	}
	return false
}

func NewWorld(prop *Prop, s *rt.Sim, ch *Choice) *W {
	w := &W{S: s, Ch: ch, Prop: prop, Probes: map[string]int{}, setVals: map[string]string{}}
	w.Git = newGit(w)
	s.Execs["bash"] = w.bash
	s.Execs["python3"] = w.bash
	s.Execs["python"] = w.bash
	s.Execs["sh"] = w.bash
	s.Execs["mysh"] = func(c *rt.ExecCtx) int { // called as "mysh -x FILE"
		if len(c.Args) > 0 && c.Args[0] == "-x" {
			c.Args = c.Args[1:]
		}
		return w.bash(c)
	}
	s.Execs["go"] = func(c *rt.ExecCtx) int {
		if len(c.Args) > 0 && c.Args[0] == "run" {
			c.Args = c.Args[1:]
		}
		return w.bash(c)
	}
	s.Execs["ticat"] = w.nestedTicat
	s.Execs["mv"] = w.mv
	s.Execs["cp"] = w.cp
	s.Execs["rm"] = w.rmProg
	s.Execs["git"] = w.Git.run
	s.FS.MkAll("/tmp")
	s.FS.MkAll("/home/user/work")
	s.FS.MkAll(hubDir)
	s.FS.MkAll(modsDir)
	s.FS.Put(exePath, "ELF")
	s.FaultWin = true
	return w
}

type Opt struct {
	Faulty bool
	Stdin  string // what the user types before the start; then end of input
	In     *rt.Pipe
	Cwd    string
	Name   string
}

// Start starts ticat without waiting for it.
func (w *W) Start(o Opt, args ...string) *TP {
	s := w.S
	p := s.NewProc("ticat", 1)
	p.Kind = "ticat"
	p.Exe = exePath
	p.Cwd = "/home/user/work"
	if o.Cwd != "" {
		p.Cwd = o.Cwd
	}
	p.Args = append([]string{"ticat"}, args...)
	p.Env["HOME"] = "/home/user"
	p.Faulty = o.Faulty
	if w.Stalls && w.Ch.P(3) { // a slow process
		p.StallMut = 1 + w.Ch.N(pick(w.Ch, 3, 4, 12, 40))
		p.StallFor = int64(pick(w.Ch, 20, 100, 400, 1500, 10000, 1100000)) * 1000
	}
	t := &TP{P: p, Args: args, Out: &rt.Sink{}, Err: &rt.Sink{}, All: &rt.Sink{}}
	t.Out.Peers, t.Err.Peers = t.All, t.All
	t.In = o.In
	if t.In == nil {
		if o.Stdin != "" {
			t.In = s.NewInput()
			t.In.Lines = true
			t.In.Feed(s, o.Stdin)
			t.In.CloseWrite(s)
		} else {
			t.In = s.NewPipe()
		}
	}
	p.Stdin = s.PipeReader(p, "stdin", t.In)
	p.Stdout = s.SinkFile(p, "stdout", t.Out)
	p.Stderr = s.SinkFile(p, "stderr", t.Err)
	w.Tics = append(w.Tics, t)
	s.StartProc(p, func() { rt.RunInits(); zmain.Main() })
	return t
}

// Wait waits for a process; a hang is a failure of the run.
func (w *W) Wait(t *TP) bool {
	if w.S.WaitProc(t.P) {
		return true
	}
	t.Hung = true
	return false
}

// MustEnd waits and reports a hang under the given key.
func (w *W) MustEnd(t *TP, key string) bool {
	if w.Wait(t) {
		return true
	}
	if w.S.Livelock {
		w.Fail(key, "%q never ends: it is still running after %d steps", t.Args, w.S.MaxSteps)
	} else {
		w.Fail(key, "%q hangs for ever: %s", t.Args, w.S.BlockedReport())
	}
	return false
}

// Quiet waits for what dead processes have left behind (mv, scripts).
func (w *W) Quiet() {
	for again := true; again; {
		again = false
		for _, p := range w.S.All {
			if !p.Dead && p != w.S.Harness && p.PPid > 1 && w.S.Procs[p.PPid] == nil {
				if !w.S.WaitProc(p) {
					return
				}
				again = true
			}
		}
	}
}

// Run runs ticat to its end, without faults.
func (w *W) Run(args ...string) *TP {
	t := w.Start(Opt{}, args...)
	w.MustEnd(t, "hang")
	return t
}

// FRun runs ticat to its end with faults allowed to strike it.
func (w *W) FRun(args ...string) *TP {
	t := w.Start(Opt{Faulty: true}, args...)
	w.MustEnd(t, "hang")
	return t
}

// Setup runs ticat as part of the preparation: it must succeed.
func (w *W) Setup(args ...string) *TP {
	t := w.Run(args...)
	if !t.OK() {
		w.Fail("setup", "preparing %q failed with code %d: %s", args, t.P.Code, clip(t.All.String(), 600))
	}
	return t
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + " ... " + s[len(s)-n/2:]
}

// ---- scripts ------------------------------------------------------------------

// Script writes a command backed by a script. meta is the content of the meta
// file besides the help line.
func (w *W) Script(name, body string, meta ...string) {
	w.ScriptAt(modsDir, name, body, meta...)
}

func (w *W) ScriptAt(dir, name, body string, meta ...string) {
	f := dir + "/" + strings.ReplaceAll(name, ".", "/") + ".bash"
	w.S.FS.Put(f, "#!sim\n"+body)
	w.S.FS.Put(f+".ticat", "help = script "+name+"\n"+strings.Join(meta, "\n")+"\n")
}

// FlowFile writes a flow command.
func (w *W) FlowFile(dir, name, flow string, meta ...string) {
	f := dir + "/" + strings.ReplaceAll(name, ".", "/") + ".tiflow"
	w.S.FS.Put(f, "help = flow "+name+"\n"+strings.Join(meta, "\n")+"\nflow = "+flow+"\n")
}

func parseKV(s string) map[string]string {
	out := map[string]string{}
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, "="); i >= 0 {
			out[l[:i]] = l[i+1:]
		}
	}
	return out
}

func (w *W) topOf(p *rt.Proc) int {
	for {
		found := false
		for _, q := range w.S.All {
			if q.Pid == p.PPid {
				p, found = q, true
				break
			}
		}
		if !found {
			return p.Pid
		}
	}
}

func (w *W) seq() int64 { return w.S.NextSeq() }

// bash interprets the harness's script language.
func (w *W) bash(c *rt.ExecCtx) int {
	args := c.Args
	if len(args) > 0 && args[0] == "-c" {
		body := ""
		if len(args) > 1 {
			body = args[1]
		}
		e := &Ev{Prog: "bash", Name: "-c", File: body, Args: args[1:], Pid: c.P.Pid, PPid: c.P.PPid}
		return w.script(c, e, body)
	}
	if len(args) == 0 {
		return 0
	}
	file := args[0]
	e := &Ev{Prog: "bash", File: file, Args: args[1:], Pid: c.P.Pid, PPid: c.P.PPid}
	base := path.Base(file)
	e.Name = strings.TrimSuffix(base, path.Ext(base))
	f, err := rt.OpenFile(file, rt.O_RDONLY, 0)
	if err != nil {
		c.ErrOut("bash: " + file + ": " + err.Error() + "\n")
		return 127
	}
	f.Close()
	body, _ := w.S.FS.Get(file)
	if len(args) > 1 {
		e.Session = args[1]
	}
	return w.script(c, e, string(body))
}

func (w *W) script(c *rt.ExecCtx, e *Ev, body string) (code int) {
	s := w.S
	e.N = len(w.Hist) + 1
	e.P = c.P
	e.Start, e.StartT = w.seq(), s.Now()
	e.Top = w.topOf(c.P)
	if e.Session != "" {
		b, ok := s.FS.Get(e.Session + "/env")
		if !ok {
			e.EnvErr = "no env file"
		}
		e.Env = parseKV(string(b))
	}
	w.Hist = append(w.Hist, e)
	s.Event("SCRIPT start %s %q", e.Name, e.Args)
	if w.onRun != nil {
		w.onRun(e)
	}
	defer func() {
		e.End, e.EndT, e.Code = w.seq(), s.Now(), code
		s.Event("SCRIPT end %s %d", e.Name, code)
	}()
	vars := func(t string) string {
		return varRe.ReplaceAllStringFunc(t, func(m string) string {
			if n, err := strconv.Atoi(m[1:]); err == nil {
				if n < len(e.Args)+1 && n >= 1 {
					return e.Args[n-1]
				}
				return ""
			}
			return e.Env[m[2:len(m)-1]]
		})
	}
	var jobs []*rt.Child
	for _, line := range strings.Split(body, "\n") {
		s.Step()
		line = strings.TrimSpace(line)
		if line == "" || line[0] == '#' {
			continue
		}
		op, rest := line, ""
		if i := strings.IndexByte(line, ' '); i >= 0 {
			op, rest = line[:i], line[i+1:]
		}
		rest = vars(rest)
		switch op {
		case "out":
			e.Out += rest + "\n"
			e.Outs = append(e.Outs, rest+"\n")
			c.Out(rest + "\n")
		case "outn":
			e.Out += rest
			e.Outs = append(e.Outs, rest)
			c.Out(rest)
		case "err":
			e.Out += rest + "\n"
			e.Errs = append(e.Errs, rest+"\n")
			c.ErrOut(rest + "\n")
		case "outval", "errval": // any bytes; %N% is the number of the run
			t := strings.ReplaceAll(w.setVals[rest], "%N%", strconv.Itoa(e.N))
			e.Out += t
			if op == "outval" {
				e.Outs = append(e.Outs, t)
				c.Out(t)
			} else {
				e.Errs = append(e.Errs, t)
				c.ErrOut(t)
			}
		case "big":
			n, _ := strconv.Atoi(rest)
			for i := 0; i < n; i++ {
				l := fmt.Sprintf("%s-%d-line-%04d %s\n", e.Name, e.Pid, i, strings.Repeat("x", 40))
				e.Out += l
				e.Outs = append(e.Outs, l)
				c.Out(l)
			}
		case "sleep":
			d, _ := strconv.ParseFloat(rest, 64)
			s.Sleep(int64(d * 1e9))
		case "setval":
			f, err := rt.OpenFile(e.Session+"/env", rt.O_WRONLY|rt.O_APPEND|rt.O_CREATE, 0644)
			if err == nil {
				_, err = f.Write([]byte(w.setVals[rest] + "\n"))
				f.Close()
			}
			if err != nil {
				c.ErrOut("bash: cannot write env: " + err.Error() + "\n")
				return 74
			}
		case "set", "raw", "trunc":
			kv := strings.SplitN(rest, " ", 2)
			l := rest
			if op == "set" {
				l = kv[0] + "="
				if len(kv) > 1 {
					l += kv[1]
				}
			}
			fl := rt.O_WRONLY | rt.O_APPEND | rt.O_CREATE
			if op == "trunc" {
				fl = rt.O_WRONLY | rt.O_TRUNC | rt.O_CREATE
				l = ""
			}
			if e.Session == "" {
				continue
			}
			f, err := rt.OpenFile(e.Session+"/env", fl, 0644)
			if err == nil && l != "" {
				_, err = f.Write([]byte(l + "\n"))
			}
			if f != nil {
				f.Close()
			}
			if err != nil {
				c.ErrOut("bash: cannot write env: " + err.Error() + "\n")
				return 74
			}
		case "del": // del KEY: rewrite the session env without it
			b, ok := s.FS.Get(e.Session + "/env")
			var keep []string
			for _, l := range strings.SplitAfter(string(b), "\n") {
				if !strings.HasPrefix(l, rest+"=") {
					keep = append(keep, l)
				}
			}
			f, err := rt.OpenFile(e.Session+"/env", rt.O_WRONLY|rt.O_TRUNC, 0644)
			if err == nil && ok {
				_, err = f.Write([]byte(strings.Join(keep, "")))
				f.Close()
			}
			if err != nil {
				c.ErrOut("sed: cannot write env: " + err.Error() + "\n")
				return 74
			}
		case "put": // put FILE TEXT
			kv := strings.SplitN(rest, " ", 2)
			f, err := rt.OpenFile(kv[0], rt.O_WRONLY|rt.O_CREATE|rt.O_TRUNC, 0644)
			if err == nil {
				if len(kv) > 1 {
					f.Write([]byte(kv[1] + "\n"))
				}
				f.Close()
			}
		case "failif": // failif FILE: exit 9 while FILE exists
			if s.FS.Exists(rest) {
				return 9
			}
		case "ticat":
			ch, err := s.StartExec(rt.ExecSpec{Name: "ticat", Args: append([]string{"ticat"}, splitArgs(rest)...), Dir: c.Dir,
				Stdin: rdr(c.Stdin), Stdout: wtr(c.Stdout), Stderr: wtr(c.Stderr), Unwrap: unwrapFile})
			if err != nil {
				c.ErrOut("bash: ticat: " + err.Error() + "\n")
				return 126
			}
			n, _, _ := ch.Wait(s)
			e.Nested = append(e.Nested, n)
			if n != 0 {
				return 5
			}
		case "ticat?": // the script ignores the result
			ch, err := s.StartExec(rt.ExecSpec{Name: "ticat", Args: append([]string{"ticat"}, splitArgs(rest)...), Dir: c.Dir,
				Stdin: rdr(c.Stdin), Stdout: wtr(c.Stdout), Stderr: wtr(c.Stderr), Unwrap: unwrapFile})
			if err == nil {
				n, _, _ := ch.Wait(s)
				e.Nested = append(e.Nested, n)
			}
		case "ticat&": // in the background of the script
			ch, err := s.StartExec(rt.ExecSpec{Name: "ticat", Args: append([]string{"ticat"}, splitArgs(rest)...), Dir: c.Dir,
				Stdin: rdr(c.Stdin), Stdout: wtr(c.Stdout), Stderr: wtr(c.Stderr), Unwrap: unwrapFile})
			if err == nil {
				jobs = append(jobs, ch)
			}
		case "wait": // for all of them
			for _, ch := range jobs {
				n, _, _ := ch.Wait(s)
				e.Nested = append(e.Nested, n)
			}
			jobs = nil
		case "reload": // read the session env again
			b, _ := s.FS.Get(e.Session + "/env")
			e.Env = parseKV(string(b))
		case "exit":
			n, _ := strconv.Atoi(rest)
			return n
		case "kill":
			c.P.Crashed = true
			e.Killed = true
			e.End, e.EndT, e.Code = w.seq(), s.Now(), -9
			s.SignalKill(c.P.Pid)
		case "readline":
			buf := make([]byte, 1)
			for {
				n, err := c.Stdin.Read(buf)
				if err != nil || n == 0 || buf[0] == '\n' {
					break
				}
			}
		default:
			c.ErrOut("bash: " + op + ": command not found\n")
			return 127
		}
	}
	return 0
}

var varRe = regexp.MustCompile(`\$[0-9]|\$\{[^}]*\}|\$\([^)]*\)`)

func splitArgs(s string) []string {
	var out []string
	cur, in, has := "", byte(0), false
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case in != 0:
			if ch == in {
				in = 0
			} else {
				cur += string(ch)
			}
		case ch == '\'' || ch == '"':
			in, has = ch, true
		case ch == ' ':
			if cur != "" || has {
				out = append(out, cur)
			}
			cur, has = "", false
		default:
			cur += string(ch)
		}
	}
	if cur != "" || has {
		out = append(out, cur)
	}
	return out
}

type simRW struct{ f *rt.File }

func (r simRW) Read(b []byte) (int, error)  { return r.f.Read(b) }
func (r simRW) Write(b []byte) (int, error) { return r.f.Write(b) }

func rdr(f *rt.File) simRW { return simRW{f} }
func wtr(f *rt.File) simRW { return simRW{f} }
func unwrapFile(x interface{}) *rt.File {
	if r, ok := x.(simRW); ok {
		return r.f
	}
	return nil
}

// nestedTicat is the ticat program started by a script.
func (w *W) nestedTicat(c *rt.ExecCtx) int {
	c.P.Exe = exePath
	c.P.Kind = "ticat"
	c.P.Env["HOME"] = "/home/user"
	w.Tics = append(w.Tics, &TP{P: c.P, Args: c.Args, Nested: true})
	rt.RunInits()
	zmain.Main()
	return 0
}

// mv moves files like the system program, across devices too.
func (w *W) mv(c *rt.ExecCtx) int {
	var ops []string
	for _, a := range c.Args {
		if !strings.HasPrefix(a, "-") {
			ops = append(ops, a)
		}
	}
	if len(ops) != 2 {
		c.ErrOut("mv: usage\n")
		return 1
	}
	from, to := ops[0], ops[1]
	if st, err := rt.Stat(to); err == nil && st.IsDir() {
		to = to + "/" + path.Base(from)
	}
	err := rt.Rename(from, to)
	if err == nil {
		return 0
	}
	if !strings.Contains(err.Error(), "cross-device") {
		c.ErrOut("mv: " + err.Error() + "\n")
		return 1
	}
	if e := copyFile(from, to); e != nil {
		rt.Remove(to)
		c.ErrOut("mv: " + e.Error() + "\n")
		return 1
	}
	if e := rt.Remove(from); e != nil {
		c.ErrOut("mv: " + e.Error() + "\n")
		return 1
	}
	return 0
}

func copyFile(from, to string) error {
	f, err := rt.OpenFile(from, rt.O_RDONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	var data []byte
	b := make([]byte, 4096)
	for {
		n, err := f.Read(b)
		data = append(data, b[:n]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
	}
	g, err := rt.OpenFile(to, rt.O_WRONLY|rt.O_CREATE|rt.O_TRUNC, 0644)
	if err != nil {
		return err
	}
	_, err = g.Write(data)
	if e := g.Close(); err == nil {
		err = e
	}
	return err
}

func (w *W) cp(c *rt.ExecCtx) int {
	var ops []string
	for _, a := range c.Args {
		if !strings.HasPrefix(a, "-") {
			ops = append(ops, a)
		}
	}
	if len(ops) != 2 {
		return 1
	}
	if err := copyFile(ops[0], ops[1]); err != nil {
		c.ErrOut("cp: " + err.Error() + "\n")
		return 1
	}
	return 0
}

func (w *W) rmProg(c *rt.ExecCtx) int {
	for _, a := range c.Args {
		if strings.HasPrefix(a, "-") {
			continue
		}
		if err := rt.RemoveAll(a); err != nil {
			c.ErrOut("rm: " + err.Error() + "\n")
			return 1
		}
	}
	return 0
}

// ---- helpers over the history ---------------------------------------------------

func (w *W) names(from int) []string {
	var out []string
	for _, e := range w.Hist[from:] {
		out = append(out, e.Name)
	}
	return out
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func diffMap(a, b map[string]string) string {
	var out []string
	for _, k := range sortedKeys(a) {
		if v, ok := b[k]; !ok {
			out = append(out, fmt.Sprintf("-%s=%q", k, a[k]))
		} else if v != a[k] {
			out = append(out, fmt.Sprintf("%s: %q -> %q", k, a[k], v))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("+%s=%q", k, b[k]))
		}
	}
	return strings.Join(out, ", ")
}

// AddMods registers the modules directory with the hub.
func (w *W) AddMods() { w.Setup("hub.add.local", "path="+modsDir) }
