package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/innerr/ticat/zsim/rt"
)

func init() {
	reg(&Prop{ID: "C21", Level: "exploration", Run: runC21, Kinds: logKinds, Variants: 4, Double: 15, OpP: []float64{0.02, 0.1, 0.3}, StepP: []float64{0, 0.0005},
		Rule:   "Generated flows of scripts which write odd, partial, silent and long output to stdout and stderr, repeatedly, in fore- and background, in nested ticat calls (parallel ones too), failing, killed, or without a log on purpose; faults are aimed at the log files. Every byte is followed from the script to its own log and to the screen, and from the session record to the log.",
		Probes: []string{"bg", "parallel", "nested", "big", "silent", "odd", "no-log", "same-second", "log-fault", "log-crash", "partial", "err-ok-log"}})
}

var logFileRe = regexp.MustCompile(`^\d{8}-\d{6}_(\S+)_\d+$`)

func isLog(p string) bool { return logFileRe.MatchString(p[strings.LastIndexByte(p, '/')+1:]) }

// logKinds aims the faults of writing at the logs.
func logKinds(s rt.Site) []string {
	switch s.Op {
	case "write", "open-w", "close-w":
		if !isLog(s.Path) {
			return nil
		}
	}
	return defaultKinds[s.Op]
}

// mixOf says whether s is a mix of the bytes of a and b, each in its order;
// full: all of them.
func mixOf(s, a, b string, full bool) bool {
	if len(s) > len(a)+len(b) || (full && len(s) != len(a)+len(b)) {
		return false
	}
	if b == "" {
		return strings.HasPrefix(a, s)
	}
	cur, next := []int{0}, []int(nil) // how much of a was used, ascending
	for k := 0; k < len(s); k++ {
		next = next[:0]
		add := func(i int) {
			if len(next) == 0 || next[len(next)-1] < i {
				next = append(next, i)
			}
		}
		for _, i := range cur {
			j := k - i
			if j < len(b) && b[j] == s[k] {
				add(i)
			}
			if i < len(a) && a[i] == s[k] {
				add(i + 1)
			}
		}
		if len(next) == 0 {
			return false
		}
		cur, next = next, cur
	}
	return true
}

// inOrder says whether the pieces are found in s one after the other.
func inOrder(s string, pieces []string) (string, bool) {
	at := 0
	for _, p := range pieces {
		i := strings.Index(s[at:], p)
		if i < 0 {
			return p, false
		}
		at += i + len(p)
	}
	return "", true
}

func runC21(w *W) {
	ch := w.Ch
	n := 0
	odd := []string{"tab\there", "\r", "\x1b[31mred\x1b[0m", "\x00", "\xff\xfe", "中文", "%s%d", "$HOME", strings.Repeat("y", 5000), " ", "\n", "\n\n", "<log>x</log>", "\\n"}
	body := func(first bool) (out []string) {
		if ch.P(8) {
			w.Probe("silent")
			return
		}
		for i, m := 0, 1+ch.N(5); i < m; i++ {
			if i > 0 && ch.P(8) {
				out = append(out, "big "+pick(ch, "3", "40", "300"))
				w.Probe("big")
				continue
			}
			n++
			k := fmt.Sprintf("p%d", n)
			v := fmt.Sprintf("[%%N%%.%d]", n)
			if ch.P(4) {
				v += pick(ch, odd...)
				w.Probe("odd")
			}
			if !ch.P(4) {
				v += "\n"
			}
			w.setVals[k] = v
			op := pick(ch, "outval ", "outval ", "errval ")
			if i == 0 {
				op = "outval " // by this piece the log is known
			}
			out = append(out, op+k)
			if ch.P(8) {
				out = append(out, "sleep "+pick(ch, "0", "0.01", "1"))
			}
		}
		return
	}
	o := stdGen
	o.quiet = false
	o.fails = 9
	o.show = true
	o.body = func(w *W, c *gcmd) {
		c.body = append(body(true), c.body...)
	}
	p := w.genProgram(o)
	p.install()
	errOK := map[string]bool{}
	anyErrOK := false
	var scan func(os []*occ)
	scan = func(os []*occ) {
		for _, x := range os {
			if x.errOK {
				errOK[base(x.c.name)], anyErrOK = true, true
			}
		}
	}
	nostart := map[string]bool{}
	scan(p.top)
	for _, c := range p.cmds {
		scan(c.sub)
		for _, l := range c.nest {
			scan(l)
			w.Probe("nested")
		}
		if c.fail == "nostart" {
			nostart[base(c.name)] = true
		}
	}
	w.noStartRunner()
	nolog := map[string]bool{"kno": true, "kns": true}
	hasBg := false
	segs := [][]string{}
	for _, x := range p.top {
		segs = append(segs, strings.Fields(x.String()))
	}
	add := func(s ...string) {
		at := ch.N(len(segs) + 1)
		segs = append(segs[:at], append([][]string{s}, segs[at:]...)...)
	}
	var bgNames []string
	for i, m := 0, ch.W(3, 2, 2, 1); i < m; i++ {
		hasBg = true
		w.Probe("bg")
		nm := fmt.Sprintf("kbg%d", i)
		if i > 0 && ch.P(2) {
			nm = "kbg0"
		} else {
			b := body(true)
			if ch.P(6) {
				b = append(b, "exit 4")
			}
			var more []string
			if ch.P(4) {
				more = append(more, pick(ch, "quiet = true", "trivial = 1", "pack-subflow = true", "hide-in-last = true", "nolog = false"))
			}
			w.Script(nm, strings.Join(b, "\n")+"\n", more...)
			bgNames = append(bgNames, nm)
			if ch.P(3) {
				w.Script(nm+"x", strings.Join(body(true), "\n")+"\n")
				bgNames = append(bgNames, nm+"x")
				w.FlowFile(modsDir, "gbg"+nm, nm+" : "+nm+"x : "+nm)
				nm = "gbg" + nm
			}
		}
		add(nm, "%delay="+pick(ch, "0", "0", "1", "2s"))
		if ch.P(4) {
			add(pick(ch, "background.wait", "background.wait.last"))
		}
	}
	if ch.P(4) {
		w.Probe("no-log")
		w.Script("kno", strings.Join(body(true), "\n")+"\n", pick(ch, "nolog = true", "interactive = true"))
		w.Script("kns", strings.Join(body(true), "\n")+"\n", "no-session = true")
		add("kno")
		if ch.P(2) {
			segs = append(segs, []string{"kns"}) // in front it would mean a flow without a session
		}
	}
	parallel := false
	if ch.P(4) {
		parallel = true
		w.Probe("parallel")
		w.Script("kpa", strings.Join(body(true), "\n")+"\n")
		w.Script("kpb", strings.Join(body(true), "\n")+"\nsleep 1\n")
		w.Script("kpar", strings.Join(body(true), "\n")+"\nticat& {session=$1} : kpa : kpa\nticat& {session=$1} : "+pick(ch, "kpa", "kpb : kpa")+"\nwait\n")
		add("kpar")
	}
	if ch.P(3) { // the same one again at once
		c := pick(ch, p.cmds...)
		if c.kind == ckScript {
			add(c.name)
			add(c.name)
		}
	}
	w.AddMods()
	if len(w.Fails) > 0 {
		return
	}
	var args []string
	for i, s := range segs {
		if i > 0 {
			args = append(args, ":")
		}
		args = append(args, s...)
	}
	w.Hist = nil
	w.Sample = clip(strings.Join(args, " "), 500)
	was := w.S.FS.Tree(sessDir)
	t := w.Start(Opt{Faulty: true}, args...)
	if !w.MustEnd(t, "hang") {
		return
	}
	w.Quiet()
	dir := w.sessionOf(t)

	type logFile struct {
		path, dir, name, data string
		used                  int // N of the script
	}
	var logs []*logFile
	for _, f := range sortedKeys(w.S.FS.Tree(sessDir)) {
		if _, ok := was[f]; ok || !isLog(f) {
			continue
		}
		b := f[strings.LastIndexByte(f, '/')+1:]
		data, _ := w.S.FS.Get(f)
		logs = append(logs, &logFile{path: f, dir: f[:strings.LastIndexByte(f, '/')], name: base(logFileRe.FindStringSubmatch(b)[1]), data: string(data)})
	}
	badLog := map[string]string{} // log -> fault
	execFault := false
	for _, f := range w.S.Fired {
		if isLog(f.Path) && f.Op != "close-w" {
			badLog[f.Path] = f.Kind
			if strings.HasPrefix(f.Kind, "crash") {
				w.Probe("log-crash")
			} else {
				w.Probe("log-fault")
			}
		}
		if f.Op == "exec" || strings.HasPrefix(f.Path, modsDir) && !strings.HasSuffix(f.Path, ".ticat") && !strings.HasSuffix(f.Path, ".tiflow") { // bash could not read the script
			execFault = true
		}
	}
	procs := map[int]*rt.Proc{}
	for _, q := range w.S.All {
		procs[q.Pid] = q
	}
	crashed, broken := false, len(badLog) > 0
	for _, q := range w.S.All {
		crashed = crashed || (q.Crashed && q.Kind == "ticat")
		broken = broken || (q.Crashed && len(w.S.Fired) > 0)
	}
	logOf := map[*Ev]*logFile{}
	for i, e := range w.Hist {
		if e.Session == "" || nolog[e.Name] {
			continue
		}
		own := procs[e.PPid]
		bg := strings.HasPrefix(e.Name, "kbg")
		// is it certain that ticat had read everything from the script?
		sure := e.P.Dead && own != nil && !own.Crashed && (!bg || t.Code() == 0)
		if !sure && e.End != 0 {
			for _, x := range w.Hist[i+1:] {
				if x.PPid == e.PPid && x.Start > e.End && !bg && !strings.HasPrefix(x.Name, "kbg") {
					sure = true // it has gone on
				}
			}
		}
		if e.PPid != t.P.Pid && broken {
			sure = false // the screen of a nested call is a pipe, which may have broken
		}
		outs, errs := strings.Join(e.Outs, ""), strings.Join(e.Errs, "")
		inner := len(e.Nested) > 0 || strings.HasPrefix(e.Name, "n") || e.Name == "kpar"
		var marks []string // one of them tells that it is the log of e
		if inner {
			marks = append(append([]string{}, e.Outs...), e.Errs...)
			for _, x := range w.Hist {
				if q := procs[x.PPid]; q != nil && q.PPid == e.Pid {
					marks = append(append(marks, x.Outs...), x.Errs...)
				}
			}
		}
		var best, spare *logFile
		for _, l := range logs {
			if l.used == 0 && l.dir == e.Session && l.name == e.Name {
				if inner && l.data != "" && len(marks) > 0 {
					has := false
					for _, m := range marks {
						has = has || strings.Contains(l.data, m) || strings.HasPrefix(m, l.data)
					}
					if !has {
						if len(w.S.Fired) > 0 && spare == nil { // only the frame around it was written
							spare = l
						}
						continue
					}
				}
				if !inner && !mixOf(l.data, outs, errs, false) {
					continue
				}
				if best == nil || len(l.data) > len(best.data) {
					best = l
				}
			}
		}
		if best == nil {
			best = spare
		}
		if best == nil {
			var l []string
			for _, x := range logs {
				l = append(l, fmt.Sprintf("%s (%d bytes)", x.path, len(x.data)))
			}
			w.Fail("log-missing", "%s was run and wrote %q, but has no log of its own in %s; logs: %v (faults %v)", e.Name, clip(outs, 200), e.Session, l, w.S.Fired)
			return
		}
		best.used = e.N
		logOf[e] = best
		full := sure && badLog[best.path] == ""
		if inner {
			if full && !(e.P.Crashed && !e.Killed) {
				if x, ok := inOrder(best.data, e.Outs); !ok {
					w.Fail("log-lost", "%s (pid %d) wrote %q, which is not in its log: %q (faults %v)", e.Name, e.Pid, clip(x, 200), clip(best.data, 600), w.S.Fired)
				}
				if x, ok := inOrder(best.data, e.Errs); !ok {
					w.Fail("log-lost", "%s (pid %d) wrote %q to stderr, which is not in its log: %q (faults %v)", e.Name, e.Pid, clip(x, 200), clip(best.data, 600), w.S.Fired)
				}
				// and what was printed by the calls it made
				for _, x := range w.Hist {
					if q := procs[x.PPid]; q != nil && q.PPid == e.Pid && !q.Crashed && len(w.S.Fired) == 0 && x.P.Dead {
						if y, ok := inOrder(best.data, x.Outs); !ok {
							w.Fail("log-lost", "%s, called by %s, wrote %q, which is not in the log of %s: %q", x.Name, e.Name, clip(y, 200), e.Name, clip(best.data, 600))
						}
					}
				}
			}
			continue
		}
		if full && e.P.Crashed && !e.Killed { // perhaps while it wrote the last piece
			n := 0
			for _, l := range [][]string{e.Outs, e.Errs} {
				if len(l) > 0 {
					n = max(n, len(l[len(l)-1]))
				}
			}
			full = false
			w.Check(len(best.data) >= len(outs)+len(errs)-n, "log-lost", "%s wrote %q and to stderr %q, its log is %q (faults %v)", e.Name, clip(outs, 300), clip(errs, 300), clip(best.data, 300), w.S.Fired)
		}
		if !mixOf(best.data, outs, errs, full) {
			w.Fail("log-wrong", "%s wrote %q and to stderr %q, its log (complete: %v) is %q (faults %v)", e.Name, clip(outs, 300), clip(errs, 300), full, clip(best.data, 300), w.S.Fired)
		}
		if !full && len(best.data) < len(outs)+len(errs) {
			w.Probe("partial")
		}
	}
	secs := map[string]int{}
	for _, l := range logs {
		if l.used == 0 && !(nostart[l.name] || execFault || badLog[l.path] != "" || strings.HasPrefix(badLog[l.path], "crash")) {
			w.Check((crashed || t.Code() != 0 && strings.HasPrefix(l.name, "kbg")) && l.data == "", "log-extra", "the log %s belongs to no run: %q (faults %v)", l.path, clip(l.data, 200), w.S.Fired)
		}
		if l.used == 0 && l.data != "" && !(execFault && strings.HasPrefix(l.data, "bash: ")) {
			w.Fail("log-extra", "the log %s belongs to no run but has %q (faults %v)", l.path, clip(l.data, 200), w.S.Fired)
		}
		b := l.path[strings.LastIndexByte(l.path, '/')+1:]
		secs[l.dir+b[:strings.LastIndexByte(b, '_')]]++
		if secs[l.dir+b[:strings.LastIndexByte(b, '_')]] == 2 {
			w.Probe("same-second")
		}
	}

	// the screen
	if !crashed && len(badLog) == 0 {
		so, se := t.Out.String(), t.Err.String()
		simple := !hasBg && !parallel
		for _, e := range w.Hist {
			bg := strings.HasPrefix(e.Name, "kbg")
			if bg && t.Code() != 0 || e.P.Crashed && !e.Killed {
				continue
			}
			x, ok := inOrder(so, e.Outs)
			y := ""
			if ok {
				s := se
				if bg { // both go to stdout
					s = so
				}
				y, ok = inOrder(s, e.Errs)
			}
			if ok && simple && len(e.Nested) == 0 && !strings.Contains(w.Sample, "kpar") {
				if !strings.Contains(so, strings.Join(e.Outs, "")) {
					x, ok = strings.Join(e.Outs, ""), false
				} else if !strings.Contains(se, strings.Join(e.Errs, "")) {
					y, ok = strings.Join(e.Errs, ""), false
				}
			}
			w.Check(ok, "screen", "%s wrote %q %q, which is not on the screen: %q (faults %v)", e.Name, clip(x, 200), clip(y, 200), lastOf(t.All.String(), 800), w.S.Fired)
		}
	}

	// the record
	if dir == "" {
		return
	}
	dirs := []string{dir}
	for _, f := range sortedKeys(w.S.FS.Tree(dir)) {
		if strings.HasSuffix(f, "/status") && f != dir+"/status" {
			dirs = append(dirs, strings.TrimSuffix(f, "/status"))
		}
	}
	refs := map[string]*rcmd{}
	var walk func(f *rflow)
	walk = func(f *rflow) {
		for _, c := range f.Cmds {
			if c.Sub != nil {
				walk(c.Sub)
			}
			if c.Log == "" {
				continue
			}
			w.Check(refs[c.Log] == nil, "log-shared", "the record gives the same log %s to two commands: %s and %s", c.Log, c.Name, base(fmt.Sprint(refs[c.Log])))
			refs[c.Log] = c
			if c.Result == "OK" && !w.S.FS.Exists(c.Log) {
				w.Fail("record-log", "the record says the log of %s is %s, which doesn't exist (faults %v)", c.Name, c.Log, w.S.Fired)
			}
		}
	}
	for _, d := range dirs {
		if r := w.checkRecordQuiet(d); r != nil {
			walk(r)
		}
	}
	if !w.recordLost() {
		for _, e := range w.Hist {
			l := logOf[e]
			if l == nil || e.PPid != t.P.Pid {
				continue
			}
			c := refs[l.path]
			if c == nil && l.data == "" { // the log of another silent run of it
				n := 0
				for _, x := range w.Hist {
					if x.Name == e.Name && x.PPid == e.PPid && logOf[x] != nil {
						n++
					}
				}
				for f, x := range refs {
					if base(x.Name) == e.Name && strings.HasPrefix(f, dir) {
						n--
					}
				}
				w.Check(n <= 0, "record-log", "the record of the session doesn't point to the log of %s (faults %v)", e.Name, w.S.Fired)
				continue
			}
			if c == nil {
				w.Fail("record-log", "the record of the session doesn't point to the log of %s, %s (faults %v)", e.Name, l.path, w.S.Fired)
				continue
			}
			w.Check(base(c.Name) == e.Name, "record-log", "the record gives the log of %s to %s", e.Name, c.Name)
		}
	}
	for f, kind := range badLog {
		if strings.HasPrefix(kind, "crash") {
			continue
		}
		c := refs[f]
		nm := base(logFileRe.FindStringSubmatch(f[strings.LastIndexByte(f, '/')+1:])[1])
		if c != nil && !w.recordLost() && !crashed {
			if errOK[nm] {
				w.Probe("err-ok-log")
			}
			bg := strings.HasPrefix(nm, "kbg")
			w.Check(c.Result == "ERR" || (bg && t.Code() != 0), "log-ignored", "the log of %s could not be written (%s), but it is recorded as %q (faults %v)", c.Name, kind, c.Result, w.S.Fired)
		}
		if !anyErrOK && !crashed && !strings.HasPrefix(nm, "kbg") && nm != "kpa" && nm != "kpb" {
			w.Check(t.Code() != 0, "log-ignored", "the log %s could not be written (%s), but the exit code is 0 (faults %v)", f, kind, w.S.Fired)
			w.Check(hasErrText(t.All.String()), "log-ignored", "the log %s could not be written (%s), but ticat doesn't tell: %q (faults %v)", f, kind, lastOf(t.All.String(), 500), w.S.Fired)
		}
		if strings.HasPrefix(nm, "kbg") && t.Code() == 0 {
			w.Check(hasErrText(t.All.String()), "log-ignored", "the log %s could not be written (%s), but ticat doesn't tell: %q (faults %v)", f, kind, lastOf(t.All.String(), 500), w.S.Fired)
		}
	}
}
