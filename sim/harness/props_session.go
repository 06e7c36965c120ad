package main

import (
	"fmt"
	"regexp"
	"strings"
)

func init() {
	reg(&Prop{ID: "C10", Level: "exploration", Run: runC10, Kinds: anyKinds, Variants: 6, Double: 10, OpP: []float64{0, 0.1},
		Rule:   "Flows with sub-flows, scripts with sub-flows, nested ticat calls, background and failing commands; the session record is parsed after every change of it and compared with the recorded runs of the scripts, and ticat's own session commands are run against it while the session runs, after it ended and after crashes at any step.",
		Probes: []string{"failed", "ok", "crash", "bg", "err-allowed", "running-view", "running-other", "break", "skipped", "odd-value", "odd-message", "hook", "torn", "join", "status", "running-desc", "desc-more", "desc-more-seen"}})
}

// ---- reading the record --------------------------------------------------------

type rcmd struct {
	Name   string
	Result string // "", OK, ERR, skipped
	Err    bool
	Log    string
	Tid    string
	Sub    *rflow
	Ended  bool
}

type rflow struct {
	Flow   string
	Result string
	Cmds   []*rcmd
	Bad    string // structural damage
	Torn   bool
}

var oneLine = regexp.MustCompile(`^( *)<([a-z-]+)>(.*)</([a-z-]+)>$`)

// parseStatus reads a session status file. A torn last line is allowed.
func parseStatus(data string) *rflow {
	top := &rflow{}
	stack := []*rflow{top}
	lines := strings.Split(data, "\n")
	if l := lines[len(lines)-1]; l != "" {
		top.Torn = true
		// only the line feed may be missing
		if m := oneLine.FindStringSubmatch(l); m == nil || m[2] != m[4] {
			lines = lines[:len(lines)-1]
		}
	} else {
		lines = lines[:len(lines)-1]
	}
	indent := func() string { return strings.Repeat("    ", len(stack)-1) }
	var open []*rcmd // the current command of each level
	open = append(open, nil)
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		cur := stack[len(stack)-1]
		cmd := open[len(open)-1]
		bad := func(s string) {
			if top.Bad == "" {
				top.Bad = fmt.Sprintf("line %d: %s: %q", i+1, s, clip(l, 100))
			}
		}
		if !strings.HasPrefix(l, indent()) && !strings.HasPrefix(l, strings.Repeat("    ", max(0, len(stack)-2))) {
			bad("wrong level")
			continue
		}
		t := strings.TrimLeft(l, " ")
		block := func(mark string) (string, bool) {
			j := i + 1
			for j < len(lines) && lines[j] != indent()+"</"+mark+">" {
				j++
			}
			if j == len(lines) {
				top.Torn = true
				i = j
				return "", false
			}
			s := strings.Join(lines[i+1:j], "\n")
			i = j
			return s, true
		}
		if m := oneLine.FindStringSubmatch(l); m != nil && m[2] == m[4] {
			if m[1] != indent() {
				bad("wrong level")
				continue
			}
			switch m[2] {
			case "cmd":
				if cur.Result != "" {
					bad("a command after the result of its flow")
				}
				c := &rcmd{Name: m[3]}
				cur.Cmds = append(cur.Cmds, c)
				open[len(open)-1] = c
			case "cmd-result", "cmd-finish-time", "log", "scheduled":
				if cmd == nil {
					bad("outside of a command")
					continue
				}
				switch m[2] {
				case "cmd-result":
					if cmd.Result != "" {
						bad("second result of " + cmd.Name)
					}
					cmd.Result = m[3]
				case "cmd-finish-time":
					cmd.Ended = true
				case "log":
					cmd.Log = m[3]
				case "scheduled":
					cmd.Tid = m[3]
				}
			case "flow-result":
				if cur.Result != "" {
					bad("second result of a flow")
				}
				cur.Result = m[3]
			case "flow-start-time", "flow-finish-time", "cmd-start-time", "flow":
			default:
				bad("unknown mark")
			}
			continue
		}
		switch t {
		case "<flow>":
			s, _ := block("flow")
			cur.Flow = strings.TrimSpace(s)
		case "<env-start>":
			block("env-start")
		case "<env-finish>":
			block("env-finish")
		case "<error>":
			block("error")
			if cmd != nil {
				cmd.Err = true
			}
		case "<subflow>":
			if cmd == nil {
				bad("sub-flow outside of a command")
				continue
			}
			cmd.Sub = &rflow{}
			stack = append(stack, cmd.Sub)
			open = append(open, nil)
		case "</subflow>":
			if len(stack) < 2 {
				bad("end of a sub-flow which was not started")
				continue
			}
			stack, open = stack[:len(stack)-1], open[:len(open)-1]
		default:
			bad("unexpected line")
		}
	}
	return top
}

type rleaf struct {
	c    *rcmd
	last bool // nothing was recorded after its start
}

// leaves lists the records of script commands in the order of their scripts.
func (f *rflow) leaves(isScript func(string) bool) []*rcmd {
	var out []*rcmd
	for _, c := range f.Cmds {
		if c.Tid != "" {
			continue
		}
		if c.Sub != nil {
			out = append(out, c.Sub.leaves(isScript)...)
		}
		if isScript(c.Name) {
			out = append(out, c)
		}
	}
	return out
}

func (f *rflow) String() string {
	var out []string
	for _, c := range f.Cmds {
		s := c.Name
		if c.Tid != "" {
			s += "@bg"
		}
		if c.Sub != nil {
			s += "{" + c.Sub.String() + "}"
		}
		out = append(out, s+"="+c.Result)
	}
	return strings.Join(out, " ") + " => " + f.Result
}

// sessionOf returns the session dir of a ticat process.
func (w *W) sessionOf(t *TP) string {
	suf := fmt.Sprintf(".%d", t.P.Pid)
	for _, n := range w.S.FS.List(sessDir) {
		n = n[strings.LastIndexByte(n, '/')+1:]
		if strings.HasSuffix(n, suf) {
			return sessDir + "/" + n
		}
	}
	return ""
}

// sesSpec says what the commands of a session are.
type sesSpec struct {
	script  map[string]bool // commands with a script, by full name
	allowed map[string]bool // commands whose failure may be allowed somewhere
	nostart map[string]bool
	inner   map[string]bool
	pid     int
	writeEr bool // writing the record itself failed
	norun   bool // scripts may be unable to start (env values which can't be passed)
	broke   bool // the user skipped commands at break points
}

func specOf(p *program) *sesSpec {
	s := &sesSpec{script: map[string]bool{}, allowed: map[string]bool{}, nostart: map[string]bool{}, inner: map[string]bool{}}
	for _, c := range p.cmds {
		if c.depth < 0 { // run by join.run, which is one command
			s.inner[c.name] = true
			continue
		}
		switch c.kind {
		case ckScript, ckFileFlow, ckNested:
			s.script[c.name] = true
		}
		if c.quiet {
			s.allowed[c.name] = true
		}
		if c.fail == "nostart" {
			s.nostart[c.name] = true
		}
	}
	var walk func(os []*occ)
	walk = func(os []*occ) {
		for _, o := range os {
			if o.errOK {
				s.allowed[o.c.name] = true
				for _, seg := range strings.Split(o.c.text, " : ") {
					s.allowed[strings.Fields(seg)[0]] = true
				}
			}
			walk(o.c.sub)
			for _, n := range o.c.nest {
				walk(n)
			}
		}
	}
	walk(p.top)
	return s
}

// recordLost says whether a part of the record could not be written.
func (w *W) recordLost() bool {
	for _, f := range w.S.Fired {
		if !strings.HasPrefix(f.Kind, "crash") && strings.HasSuffix(f.Path, "/status") {
			return true
		}
	}
	return false
}

// checkRecord compares the record in dir with the scripts that ran in it. It
// may be called at any moment.
func (w *W) checkRecord(dir string, sp *sesSpec, when string) *rflow {
	data, ok := w.S.FS.Get(dir + "/status")
	if !ok {
		return nil
	}
	r := parseStatus(string(data))
	if w.recordLost() {
		return r
	}
	if r.Torn {
		w.Probe("torn")
		if !w.FaultKind("crash-torn") && !w.FaultKind("short") {
			w.Fail("record-torn", "%s the record of %s ends in the middle: %q (faults %v)", when, dir, lastOf(string(data), 300), w.S.Fired)
		}
	}
	if r.Bad != "" && !w.FaultKind("short") {
		w.Fail("record-broken", "%s the record is broken: %s; faults %v; the record: %s", when, r.Bad, w.S.Fired, lastOf(string(data), 600))
		return r
	}
	var evs []*Ev
	for _, e := range w.Hist {
		if e.Session == dir && e.PPid == sp.pid && !sp.inner[e.Name] {
			evs = append(evs, e)
		}
	}
	leaves := r.leaves(func(n string) bool { return sp.script[n] })
	ioErr := sp.writeEr || len(w.S.Fired) > 0
	fits := func(c *rcmd, e *Ev, last bool) bool {
		if base(c.Name) != e.Name {
			return false
		}
		ended := e.End != 0 || e.P.Dead
		switch c.Result {
		case "OK":
			return ended && e.Code == 0 && !e.Killed && !(e.End == 0)
		case "ERR":
			return ended && (e.Code != 0 || e.Killed || e.End == 0 || ioErr)
		case "":
			return !ended || last || ioErr || c.Ended
		}
		return false // a skipped one was not run
	}
	var match func(i, j int) bool
	match = func(i, j int) bool {
		if i == len(leaves) {
			return j == len(evs)
		}
		c := leaves[i]
		last := true // nothing but the commands around it comes after it
		for _, x := range leaves[i+1:] {
			last = last && x.Result == "" && x.Sub != nil
		}
		if j < len(evs) && fits(c, evs[j], last) && match(i+1, j+1) {
			return true
		}
		switch c.Result {
		case "OK":
			if !sp.broke || c.Sub == nil {
				return false
			}
		case "ERR":
			if !ioErr && !sp.norun && !sp.nostart[c.Name] && c.Sub == nil {
				return false // it failed without having run
			}
		case "":
			if !last && !ioErr && c.Sub == nil {
				return false
			}
		}
		return match(i+1, j)
	}
	if !match(0, 0) {
		var h []string
		for _, e := range evs {
			s := fmt.Sprintf("%s(%d)", e.Name, e.Code)
			if e.End == 0 {
				s = e.Name + "(running)"
			}
			h = append(h, s)
		}
		w.Fail("record-lies", "%s the record says [%s] but what ran is %v (faults %v)", when, r, h, w.S.Fired)
	}
	var walk func(f *rflow)
	walk = func(f *rflow) {
		for _, c := range f.Cmds {
			if c.Sub != nil {
				walk(c.Sub)
				if c.Result == "OK" && c.Sub.Result != "OK" && c.Sub.Result != "skipped" && !ioErr {
					w.Fail("record-lies", "%s %s is recorded as OK but its sub-flow as %q: [%s]", when, c.Name, c.Sub.Result, r)
				}
			}
		}
		if f.Result == "OK" && !ioErr {
			for _, c := range f.Cmds {
				if c.Result != "OK" && c.Result != "skipped" && c.Tid == "" && !(sp.allowed[c.Name] && c.Result == "ERR") {
					w.Fail("record-lies", "%s a flow is recorded as OK but its command %s as %q: [%s]", when, c.Name, c.Result, r)
				}
			}
		}
	}
	walk(r)
	return r
}

func lastOf(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return "..." + s[len(s)-n:]
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*[a-zA-Z]")
var statusLine = regexp.MustCompile(`(?s)^\[([^\]]+)\].*\n    status:\n        (\S+)`)
var descLine = regexp.MustCompile(`^\s*\[([^\]]+)\]\S* +(?:\(schedule to bg in [^)]*\) +)?\d\d-\d\d:\d\d:\d\d +(\S+)`)

// descOf returns what ticat says about the commands of a session.
func descOf(out string) [][2]string {
	var r [][2]string
	for _, l := range strings.Split(ansi.ReplaceAllString(out, ""), "\n") {
		l = strings.TrimLeft(l, "│| ")
		if m := descLine.FindStringSubmatch(l); m != nil {
			r = append(r, [2]string{m[1], m[2]})
		}
	}
	return r
}

func runC10(w *W) {
	ch := w.Ch
	o := stdGen
	o.maxTop = 3
	o.join = true
	p := w.genProgram(o)
	var pre []string
	odd := ""
	nbg := 0
	if ch.P(3) { // background commands
		nbg = 1 + ch.N(2)
		for i := 0; i < nbg; i++ {
			nm := fmt.Sprintf("kbg%d", i)
			body := "sleep " + pick(ch, "0", "1", "2") + "\nout bg\n"
			if ch.P(3) {
				body += "exit 4\n"
			}
			w.Script(nm, body)
			pre = append(pre, nm, "%delay="+pick(ch, "0", "1", "2s"), ":")
			w.Probe("bg")
		}
	}
	if ch.P(3) { // unusual values in the env, arguments and the flow
		odd = pick(ch, "a b", "x=y", "<cmd-result>OK</cmd-result>", "</env-start>", "a\nb", "a\n<cmd>k9</cmd>", "<subflow>", "it's", "\"q\"", " lead", "中", longVal)
		switch ch.N(3) {
		case 0:
			pre = append(pre, "env.set", "key=vq.odd", "value="+odd, ":")
		case 1:
			w.Script("kset", "setval v\nout x\n")
			odd = strings.ReplaceAll(odd, "\n", " ")
			w.setVals["v"] = "vq.odd=" + odd
			pre = append(pre, "kset", ":")
		case 2:
			w.Script("karg", "out x\n", "[args]", "a = ''")
			pre = append(pre, "karg", "a="+odd, ":")
		}
		w.Probe("odd-value")
	}
	errLines := ch.P(10)
	if errLines { // a message looking like a part of the record
		v := pick(ch, "x\n</error>\n<cmd>k9</cmd>", "</error>", "\n</error>\n</subflow>", "\n<error>\n")
		if ch.P(3) {
			v = "\n    </error>\n"
		}
		pre = append(pre, "env.assert.equal", "key=vq.none", "value="+v, "%err=ok", ":")
		w.Probe("odd-message")
	}
	errFile := ch.P(8)
	if errFile {
		w.Script("kerr", "err line1\nerr <cmd>x</cmd>\nexit 7\n")
	}
	p.install()
	hook := false
	if ch.P(6) { // commands run at the end of the session have no part in its record
		w.Script("khook", "out hook\n"+pick(ch, "", "sleep 1\n"))
		hook = true
		w.FlowFile(modsDir, "khookf", "khook : noop")
		w.S.FS.Put(envFile, "sys.event.hook."+pick(ch, "exit", "error", "done")+"="+pick(ch, "khook", "khook : khook", "khookf", "noop")+"\n")
		w.Probe("hook")
	}
	w.noStartRunner()
	w.AddMods()
	if len(w.Fails) > 0 {
		return
	}
	args := append(pre, argsOf(p.top)...)
	stdin := ""
	if len(p.top) > 0 && ch.P(4) { // the user skips commands at a break point
		args = append([]string{"break.at", "break-points=" + pick(ch, p.cmds...).name, ":"}, args...)
		stdin = pick(ch, "s", "s", "d", "c", "q", "zz\ns") + "\n" + pick(ch, "", "s\n", "d\n") + strings.Repeat("c\n", 60)
		if strings.Contains(stdin, "s") {
			w.Probe("break")
		}
	}
	if errFile {
		args = append(args, ":", "kerr")
	}
	w.Sample = clip(strings.Join(args, " "), 400)
	ref, refOK := refExec(p.top, 0, 0, nil)
	_ = ref
	sp := specOf(p)
	for _, n := range []string{"kset", "karg", "kerr"} {
		sp.script[n] = true
	}
	sp.inner["khook"] = true
	bgs := func(dir string) []string {
		var out []string
		for _, n := range w.S.FS.List(dir) {
			n = n[strings.LastIndexByte(n, '/')+1:]
			if strings.Trim(n, "0123456789") == "" && w.S.FS.Exists(dir+"/"+n+"/status") {
				out = append(out, dir+"/"+n)
			}
		}
		return out
	}
	var dir string
	t := w.Start(Opt{Faulty: true, Stdin: stdin}, args...)
	sp.pid = t.P.Pid
	sp.broke = stdin != ""
	sp.norun = strings.Contains(odd, "\n")
	if errLines {
		sp.allowed["env.assert.equal"] = true
	}
	bsp := &sesSpec{script: map[string]bool{"kbg0": true, "kbg1": true}, pid: t.P.Pid, nostart: map[string]bool{}, allowed: map[string]bool{}}
	w.S.FS.Watch = func(op, f string) {
		if !strings.HasSuffix(f, "/status") || !strings.HasPrefix(f, sessDir) || len(w.Fails) > 0 {
			return
		}
		d := strings.TrimSuffix(f, "/status")
		if dir == "" {
			dir = w.sessionOf(t)
		}
		if d == dir {
			w.checkRecord(d, sp, "after "+op)
		} else if strings.HasPrefix(d, dir+"/") {
			w.checkRecord(d, bsp, "after "+op)
		}
	}
	if ch.P(4) {
		// somebody looks while it runs
		w.S.After(int64(50+ch.N(1500))*1e6, func() {})
		w.S.Sleep(int64(20+ch.N(1500)) * 1e6)
		if !t.P.Dead {
			d := w.sessionOf(t)
			if d != "" {
				id := d[len(sessDir)+1:]
				before := parseStatus(str(w.S.FS.Get(d + "/status")))
				if ch.P(3) { // it is none of these yet
					other := pick(ch, "sessions.error", "sessions.done")
					v := w.Run(other)
					if !t.P.Dead {
						w.Probe("running-other")
						w.Check(!strings.Contains(v.All.String(), "["+id+"]"), "running-shown-ended", "the session %s is running but %s shows it: %s (faults %v)", id, other, clip(v.All.String(), 400), w.S.Fired)
					}
				}
				v := w.Run("sessions.running")
				alive := !t.P.Dead
				if hook && w.checkRecordQuiet(d).Result != "" {
					alive = false // all but the hooks is over
				}
				if alive && before.Flow != "" {
					w.Probe("running-view")
					w.Check(v.OK() && strings.Contains(v.All.String(), "["+id+"]"), "running-not-shown", "the session %s is running but sessions.running doesn't show it (code %d): %s (faults %v, record %q)", id, v.Code(), clip(v.All.String(), 400), w.S.Fired, lastOf(str(w.S.FS.Get(d+"/status")), 300))
				}
				if alive && len(before.Cmds) > 0 && ch.Bool() {
					cmd := pick(ch, "sessions.running.desc", "sessions.running.desc.more", "sessions.running.desc.full", "sessions.running.desc.monitor", "sessions.last.desc", "sessions.last")
					v := w.Run(cmd)
					after := parseStatus(str(w.S.FS.Get(d + "/status")))
					oks := map[string]bool{}
					errs := map[string]bool{}
					var walk func(f *rflow)
					walk = func(f *rflow) {
						for _, c := range f.Cmds {
							oks[c.Name] = oks[c.Name] || c.Result == "OK" || c.Tid != ""
							errs[c.Name] = errs[c.Name] || c.Result == "ERR" || c.Tid != ""
							if c.Sub != nil {
								walk(c.Sub)
							}
						}
					}
					walk(after)
					if !t.P.Dead {
						w.Probe("running-desc")
						w.Check(v.OK(), "desc-fails", "%s fails with code %d while a session runs: %s", cmd, v.Code(), clip(v.All.String(), 600))
						for _, x := range descOf(v.All.String()) {
							if !sp.script[x[0]] {
								continue
							}
							w.Check((x[1] != "OK" || oks[x[0]]) && (x[1] != "ERR" && x[1] != "failed" || errs[x[0]]), "desc-wrong", "%s shows %s as %q while the session runs; recorded is [%s] (faults %v)", cmd, x[0], x[1], after, w.S.Fired)
						}
					}
				}
			}
		}
	}
	if !w.MustEnd(t, "hang") {
		return
	}
	w.Quiet()
	w.S.FS.Watch = nil
	if t.P.Crashed {
		w.Probe("crash")
	} else if t.OK() {
		w.Probe("ok")
		if anyErrOK(p.top) {
			w.Probe("err-allowed")
		}
	} else {
		w.Probe("failed")
	}
	dir = w.sessionOf(t)
	if dir == "" || len(w.Fails) > 0 {
		return
	}
	r := w.checkRecord(dir, sp, "at the end")
	if r == nil || len(w.Fails) > 0 {
		return
	}
	if w.recordLost() { // nothing more can be said about it, but showing it must end
		w.Run("sessions")
		return
	}
	for _, d := range bgs(dir) {
		w.checkRecord(d, bsp, "at the end")
	}
	id := dir[len(sessDir)+1:]
	faulted := len(w.S.Fired) > 0
	// the outcome
	if t.OK() {
		w.Check(r.Result == "OK", "record-result", "ticat succeeded but its session is recorded as %q: [%s] (faults %v)", r.Result, r, w.S.Fired)
	} else if !t.P.Crashed && !(hook && t.Code() == 254) {
		w.Check(r.Result != "OK", "record-result", "ticat ended with %d but its session is recorded as OK: [%s] (faults %v)", t.Code(), r, w.S.Fired)
	} else if r.Result == "OK" && !sp.broke {
		w.Check(refOK, "record-result", "the session is recorded as OK but the flow fails: [%s] (faults %v)", r, w.S.Fired)
	}
	if r.Flow == "" {
		return // nothing was recorded yet
	}
	// what ticat itself says
	show := func(cmd string, want bool) {
		v := w.Run(cmd)
		has := strings.Contains(v.All.String(), "["+id+"]")
		w.Check(v.OK() && has == want, "session-list", "%s (code %d) shows the session: %v, it must be %v; the record is [%s], process code %d crashed %v, faults %v: %s; status %q", cmd, v.Code(), has, want, r, t.Code(), t.P.Crashed, w.S.Fired, clip(v.All.String(), 500), lastOf(str(w.S.FS.Get(dir+"/status")), 400))
	}
	switch ch.N(3) {
	case 0:
		show("sessions.done", r.Result == "OK")
	case 1:
		show("sessions.error", r.Result != "OK")
	case 2:
		show("sessions.running", false)
	}
	if faulted && w.FaultKind("short") {
		return
	}
	v := w.Run("sessions.desc", "session-id="+id)
	if !w.Check(v.OK(), "desc-fails", "sessions.desc of [%s] fails with code %d: %s; record %q (faults %v)", r, v.Code(), clip(v.All.String(), 500), lastOf(str(w.S.FS.Get(dir+"/status")), 500), w.S.Fired) {
		return
	}
	// other ways to look at it tell the same
	kind := "error"
	if r.Result == "OK" {
		kind = "done"
	}
	var more *TP
	moreCmd := "none"
	if len(r.Cmds) > 0 {
		switch ch.N(3) {
		case 0:
			moreCmd = pick(ch, "sessions.desc.more", "sessions.desc.full", "sessions.desc.monitor") + " session-id=" + id
		case 1:
			moreCmd = pick(ch, "sessions.last.desc", "sessions.last.desc.more", "sessions.last.desc.full", "sessions."+kind+".desc", "sessions."+kind+".desc.more", "sessions."+kind+".desc.full")
		case 2:
			st := pick(ch, "sessions.status session-id="+id, "sessions.last")
			v := w.Run(strings.Fields(st)...)
			m := statusLine.FindStringSubmatch(ansi.ReplaceAllString(v.All.String(), ""))
			word := map[string]string{"OK": "OK", "ERR": "ERR", "": "failed"}[r.Result]
			w.Check(v.OK() && m != nil && m[1] == id && m[2] == word, "status-wrong", "%s (code %d) shows %v; recorded is [%s] in %s (faults %v): %s", st, v.Code(), m, r, id, w.S.Fired, clip(v.All.String(), 800))
			w.Probe("status")
			more = nil
		}
		if strings.Contains(moreCmd, "desc") {
			more = w.Run(strings.Fields(moreCmd)...)
			if !w.Check(more.OK(), "desc-fails", "%s of [%s] fails with code %d: %s; record %q (faults %v)", moreCmd, r, more.Code(), clip(more.All.String(), 500), lastOf(str(w.S.FS.Get(dir+"/status")), 500), w.S.Fired) {
				return
			}
			w.Probe("desc-more")
		}
	}
	// every shown result of a script command must be what is recorded
	want := map[string][]string{}
	var walk func(f *rflow)
	walk = func(f *rflow) {
		for _, c := range f.Cmds {
			x := c.Result
			if x == "" {
				x = "failed"
			}
			if c.Tid != "" {
				if b := w.checkRecordQuiet(dir + "/" + c.Tid); b != nil && len(b.Cmds) == 1 {
					x = b.Cmds[0].Result
					if x == "" {
						x = "failed"
					}
				} else {
					x = "failed"
				}
			}
			want[c.Name] = append(want[c.Name], x)
			if x == "skipped" {
				w.Probe("skipped")
			}
			if c.Sub != nil {
				walk(c.Sub)
			}
		}
	}
	walk(r)
	if more != nil {
		for _, d := range descOf(more.All.String()) {
			if d[1] == "unrun" || !sp.script[d[0]] && !bsp.script[d[0]] {
				continue
			}
			ok := false
			for _, x := range want[d[0]] {
				ok = ok || x == d[1]
			}
			w.Check(ok, "desc-wrong", "%s shows %s as %q, recorded is %v: [%s] (faults %v)", moreCmd, d[0], d[1], want[d[0]], r, w.S.Fired)
			w.Probe("desc-more-seen")
		}
	}
	seen := map[string]int{}
	for _, d := range descOf(v.All.String()) {
		if d[1] == "unrun" || !sp.script[d[0]] && !bsp.script[d[0]] {
			continue
		}
		k := seen[d[0]]
		seen[d[0]]++
		ok := false
		for _, x := range want[d[0]] {
			ok = ok || x == d[1]
		}
		_ = k
		w.Check(ok, "desc-wrong", "sessions.desc shows %s as %q, recorded is %v: [%s] (faults %v)", d[0], d[1], want[d[0]], r, w.S.Fired)
	}
	for _, n := range sortedKeys(want) {
		if sp.script[n] && seen[n] == 0 && !faulted && !strings.Contains(w.Sample, "repeat ") {
			w.Fail("desc-missing", "sessions.desc doesn't show %s, which is recorded as %v: %s", n, want[n], clip(v.All.String(), 1500))
			break
		}
	}
}

func (w *W) checkRecordQuiet(dir string) *rflow {
	data, ok := w.S.FS.Get(dir + "/status")
	if !ok {
		return nil
	}
	return parseStatus(string(data))
}

func str(b []byte, ok bool) string { return string(b) }
