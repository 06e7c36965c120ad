package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

func init() {
	reg(&Prop{ID: "C13", Level: "exploration", Run: runC13, Kinds: anyKinds, Variants: 3, Double: 15, StepP: []float64{0, 0.001, 0.01}, OpP: []float64{0.05, 0.2, 0.5},
		Rule:   "Each of 2-4 generated programs first runs alone; then all run at the same time, started at random moments and switched at any statement or file operation, beside processes which save env, flows, snapshots and hub entries, list and remove sessions and may be struck by faults. What ran, with which arguments and env, the exit status, the screen output, the record and the logs of every program must be what they were alone. In the other half the data dir is empty and all start for the first time together.",
		Probes: []string{"empty", "noise", "overlap", "same-second", "failing", "bg", "nested", "noise-crashed", "listed"}})
}

var (
	sesNameRe = regexp.MustCompile(`\d{8}-\d{6}\.\d+`)
	durRe     = regexp.MustCompile(`\d+(\.\d+)?(h\d+m\d+s|m\d+s|ns|µs|ms|us|s|m|h)\b`)
	timeRe    = regexp.MustCompile(`\d\d\d\d-\d\d-\d\d \d\d:\d\d:\d\d|\d\d-\d\d[ :]\d\d:\d\d:\d\d|\d\d:\d\d:\d\d`)
	logRe     = regexp.MustCompile(`\d{8}-\d{6}_(\S+)_\d+`)
	blankRe   = regexp.MustCompile(`[ ─━│┌┐└┘├┤┴┬-]+`)
)

// plain takes everything out of a text that differs from run to run by nature.
func plain(s string) string {
	s = ansi.ReplaceAllString(s, "")
	s = logRe.ReplaceAllString(s, "LOG_$1")
	s = sesNameRe.ReplaceAllString(s, "SESSION")
	s = timeRe.ReplaceAllString(s, "TIME")
	s = durRe.ReplaceAllString(s, "DUR")
	s = blankRe.ReplaceAllString(s, "")
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l != "" && !strings.HasPrefix(l, "vz") && !strings.HasPrefix(l, "vq.t") { // frames, and what the others save on purpose
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// seen is what can be observed of one ticat process.
type seen struct {
	code int
	fg   []string // scripts with arguments and env
	bg   []string
	logs []string
	out  string
	rec  string
	dir  bool
}

func (w *W) seenOf(t *TP, flags map[string]bool) *seen {
	o := &seen{code: t.Code(), out: plain(t.All.String())}
	norm := func(s string) string { return sesNameRe.ReplaceAllString(s, "SESSION") }
	dir := w.sessionOf(t)
	o.dir = dir != ""
	var want []string
	inner := map[string]bool{} // scripts whose log has the output of nested calls too
	for _, e := range w.Hist {
		if e.Top != t.P.Pid {
			continue
		}
		d := e.Name + "("
		for i, a := range e.Args {
			if i > 0 {
				d += norm(a) + ","
			}
		}
		d += ")"
		var kv []string
		for _, k := range sortedKeys(e.Env) {
			if strings.HasPrefix(k, "vz") || strings.HasPrefix(k, "sys.session") || k == "session" || strings.HasPrefix(k, "vq.t") || strings.HasPrefix(k, "sys.event") {
				continue
			}
			kv = append(kv, k+"="+norm(e.Env[k]))
		}
		d += "[" + strings.Join(kv, " ") + "]"
		if e.EnvErr != "" {
			d += "!" + e.EnvErr
		}
		bg := strings.HasPrefix(e.Name, "kbg")
		d += fmt.Sprint("=", e.Code)
		if bg {
			o.bg = append(o.bg, d)
		} else {
			o.fg = append(o.fg, d)
		}
		if len(e.Nested) > 0 {
			inner[e.Name] = true
		}
		want = append(want, e.Name+":"+e.Out)
	}
	sort.Strings(o.bg)
	if dir != "" && !flags["gone"] {
		for f, data := range w.S.FS.Tree(dir) {
			n := f[strings.LastIndexByte(f, '/')+1:]
			if m := logRe.FindStringSubmatch(n); m != nil {
				o.logs = append(o.logs, base(m[1])+":"+string(data))
			}
		}
		bare := func(l []string) (out []string) {
			for _, x := range l {
				if n := x[:strings.IndexByte(x, ':')]; inner[n] {
					out = append(out, n)
				} else if !strings.HasSuffix(x, ":") { // else it printed nothing or couldn't start
					out = append(out, x)
				}
			}
			sort.Strings(out)
			return
		}
		o.logs, want = bare(o.logs), bare(want)
		if fmt.Sprint(o.logs) != fmt.Sprint(want) {
			w.Fail("logs", "the logs of %q hold %q, its scripts printed %q", t.Args, o.logs, want)
		}
		if r := w.checkRecordQuiet(dir); r != nil {
			if r.Bad != "" || r.Torn {
				w.Fail("record", "the record of %q is broken: %s torn %v", t.Args, r.Bad, r.Torn)
			}
			bgOf := regexp.MustCompile(`@bg`)
			o.rec = bgOf.ReplaceAllString(r.String(), "@bg")
		} else {
			w.Fail("record", "the record of %q is missing", t.Args)
		}
	}
	return o
}

func (a *seen) diff(b *seen) string {
	if a.code != b.code {
		return fmt.Sprintf("exit code %d, alone %d", b.code, a.code)
	}
	list := func(what string, x, y []string) string {
		for i := range x {
			if i >= len(y) {
				return fmt.Sprintf("%s: %d instead of %d: missing %s", what, len(y), len(x), clip(x[i], 300))
			}
			if x[i] != y[i] {
				m, n := parseKV(strings.ReplaceAll(x[i], " ", "\n")), parseKV(strings.ReplaceAll(y[i], " ", "\n"))
				return fmt.Sprintf("%s #%d differs: %s; %s instead of %s", what, i, diffMap(m, n), clip(y[i], 200), clip(x[i], 200))
			}
		}
		if len(y) > len(x) {
			return fmt.Sprintf("%s: %d instead of %d: %s is new", what, len(y), len(x), clip(y[len(x)], 300))
		}
		return ""
	}
	if d := list("scripts", a.fg, b.fg); d != "" {
		return d
	}
	if d := list("background scripts", a.bg, b.bg); d != "" {
		return d
	}
	if a.rec != b.rec && a.rec != "" && b.rec != "" {
		return fmt.Sprintf("recorded [%s], alone [%s]", b.rec, a.rec)
	}
	if a.out != b.out && len(a.bg) == 0 {
		x, y := strings.Split(a.out, "\n"), strings.Split(b.out, "\n")
		for i := range x {
			if i >= len(y) || x[i] != y[i] {
				z := ""
				if i < len(y) {
					z = y[i]
				}
				return fmt.Sprintf("the screen differs at line %d: %q, alone %q", i+1, z, x[i])
			}
		}
		return "the screen shows more than alone: " + lastOf(b.out, 300)
	}
	return ""
}

func runC13(w *W) {
	if w.Ch.P(4) {
		w.firstStarts()
		return
	}
	ch := w.Ch
	n := 2 + ch.N(3)
	var args [][]string
	for i := 0; i < n; i++ {
		tag := string(rune('a' + i))
		o := stdGen
		o.maxTop, o.maxLen, o.maxCmds, o.tag = 3, 2, 6, tag
		o.body = func(w *W, c *gcmd) {
			for k := ch.N(3); k > 0; k-- {
				c.body = append(c.body, pick(ch, "set vk1 "+tag+c.name, "set vk2 "+tag, "out "+c.name, "sleep 0.0005", "sleep 0.002", "sleep 1", "raw vk1=--"))
			}
		}
		p := w.genProgram(o)
		p.install()
		var pre []string
		_, fine := refExec(p.top, 0, 0, nil)
		if ch.P(3) && fine { // a failing main flow cuts background commands off
			w.Script("kbg"+tag, "sleep "+pick(ch, "0", "0.001", "1")+"\nout bg"+tag+"\nset vk2 bg\n")
			pre = append(pre, "kbg"+tag, "%delay="+pick(ch, "0", "1"), ":")
			w.Probe("bg")
		}
		if ch.P(3) {
			pre = append([]string{"{vk1=" + tag + "}"}, pre...)
			if len(pre) == 1 {
				pre = append(pre, ":")
			}
		}
		for _, c := range p.cmds {
			if c.kind == ckNested {
				w.Probe("nested")
			}
		}
		args = append(args, append(pre, argsOf(p.top)...))
	}
	w.noStartRunner()
	w.AddMods()
	if len(w.Fails) > 0 {
		return
	}
	for _, a := range args {
		w.Sample += clip(strings.Join(a, " "), 200) + " || "
	}
	var solo []*seen
	var soloDirs []string
	for _, a := range args {
		t := w.Run(a...)
		if len(w.Fails) > 0 {
			return
		}
		solo = append(solo, w.seenOf(t, nil))
		if d := w.sessionOf(t); d != "" {
			soloDirs = append(soloDirs, d)
		}
		if t.Code() != 0 {
			w.Probe("failing")
		}
	}
	if len(w.Fails) > 0 {
		return
	}

	// now together
	type job struct {
		args []string
		at   int64
		of   int // -1: noise
		t    *TP
	}
	var jobs []*job
	when := func() int64 { return int64(pick(ch, 0, 0, 0, 50, 300, 1000, 2500, 1000000)) * 1000 }
	for i, a := range args {
		jobs = append(jobs, &job{args: a, at: when(), of: i})
	}
	var noise []string
	gone := false
	for i := ch.N(4); i > 0; i-- {
		var a []string
		k := ch.N(9)
		switch k {
		case 0:
			a = []string{"env.set", "key=vz." + fmt.Sprint(i), "value=x", ":", "env.save"}
		case 1:
			a = []string{"noop", ":", "noop", ":", "flow.save", fmt.Sprintf("vzflow%d", i)}
		case 2:
			a = []string{"sessions.remove.all"}
			gone = true
		case 3:
			w.S.FS.MkAll(fmt.Sprintf("/home/user/mods-z%d", i))
			a = []string{"hub.add.local", fmt.Sprintf("path=/home/user/mods-z%d", i)}
		case 4:
			a = []string{"env.set", "key=vz.s", "value=x", ":", "env.snapshot.save", "vzsnap"}
		case 5:
			a = []string{pick(ch, "sessions", "sessions", "sessions", "sessions.running", "sessions.error.desc", "sessions.last", "sessions.running.desc.more", "sessions.desc")}
		case 6:
			a = []string{"env.reset-and-save"}
			if true { // ends this noise process at once, whatever it is
				a = []string{"env.set", "key=vz.r", "value=y", ":", "env.save", ":", "env.remove-and-save", "key=vz.r"}
			}
		case 7:
			a = []string{"echo", "message=hi", ":", "sleep", "duration=1s", ":", "noop"}
		case 8:
			a = []string{"hub.disable", "mods-z", ":", "hub.list"}
		}
		noise = append(noise, a[0])
		jobs = append(jobs, &job{args: a, at: when(), of: -1})
		w.Probe("noise")
	}
	if gone {
		w.Probe("noise-remove")
	} else if ch.P(2) { // some who look at the sessions meanwhile
		for i := 1 + ch.N(3); i > 0; i-- {
			jobs = append(jobs, &job{args: []string{"sessions"}, at: int64(pick(ch, 200, 500, 800, 1200, 2000, 5000)) * 1000, of: -2})
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].at < jobs[j].at })
	w.S.FS.Watch = nil
	w.Stalls = true
	t0 := w.S.Now()
	for _, j := range jobs {
		if d := t0 + j.at - w.S.Now(); d > 0 {
			w.S.Sleep(d)
		}
		j.t = w.Start(Opt{Faulty: j.of == -1}, j.args...)
	}
	for _, j := range jobs {
		if !w.MustEnd(j.t, "hang") {
			return
		}
	}
	w.Quiet()
	for _, j := range jobs {
		if j.of != -2 {
			continue
		}
		w.Probe("listed")
		for _, d := range soloDirs {
			w.Check(j.t.OK() && strings.Contains(j.t.All.String(), d[strings.LastIndexByte(d, 0x2f)+1:]), "not-listed", "the session %s had ended before, but 'sessions' beside %d others does not list it (code %d): %s", d[strings.LastIndexByte(d, 0x2f)+1:], len(jobs)-1, j.t.Code(), clip(j.t.All.String(), 1500))
		}
	}
	for i, a := range jobs {
		for _, b := range jobs[:i] {
			if a.of >= 0 && b.of >= 0 && a.t.P.StartAt < b.t.P.EndAt {
				w.Probe("overlap")
				if a.t.P.StartAt/1e9 == b.t.P.StartAt/1e9 {
					w.Probe("same-second")
				}
			}
		}
		if a.of < 0 && a.t.P.Crashed {
			w.Probe("noise-crashed")
		}
	}
	for _, j := range jobs {
		if j.of < 0 {
			continue
		}
		dir := w.sessionOf(j.t)
		if dir == "" && !gone && solo[j.of].dir {
			w.Fail("no-session", "%q has no session directory", j.args)
			return
		}
		flags := map[string]bool{"gone": dir == "" || gone}
		s := w.seenOf(j.t, flags)
		if d := solo[j.of].diff(s); d != "" {
			w.Fail("differs", "%q beside %d others (%v, faults %v): %s", j.args, len(jobs)-1, noise, w.S.Fired, d)
			return
		}
	}
}

// firstStarts: several processes start on an empty data dir.
func (w *W) firstStarts() {
	ch := w.Ch
	w.Probe("empty")
	w.S.FS.RemoveTree(dataDir)
	addr := "https://github.com/ticat-mods/marsh"
	w.Git.Remotes[addr] = map[string]string{"README.md": "# marsh\n", "kmarsh.bash": "#!sim\nout marsh\n", "kmarsh.bash.ticat": "help = m\n"}
	if ch.P(3) {
		w.Git.Remotes[addr]["README.md"] = "[ticat.hub]\n* [ticat-mods/sub](https://github.com/ticat-mods/sub): sub\n"
		w.Git.Remotes["https://github.com/ticat-mods/sub"] = map[string]string{"ksub.bash": "#!sim\nout sub\n", "ksub.bash.ticat": "help = s\n"}
	}
	n := 2 + ch.N(3)
	w.Stalls = true
	var ts []*TP
	for i := 0; i < n; i++ {
		a := pick(ch, []string{"noop"}, []string{"echo", "message=hi"}, []string{"env.set", "key=vk1", "value=" + fmt.Sprint(i), ":", "env.assert.equal", "key=vk1", "value=" + fmt.Sprint(i)},
			[]string{"env.set", "key=vz.1", "value=x", ":", "env.save"}, []string{"noop", ":", "noop", ":", "flow.save", fmt.Sprintf("vzflow%d", i)}, []string{"sessions"}, []string{"hub.add.local", "path=" + modsDir},
			[]string{"bash", "command=out hi"}, []string{"hub.init"})
		w.Sample += strings.Join(a, " ") + " || "
		if d := pick(ch, 0, 0, 0, 100, 400, 20000, 60000, 200000); d > 0 {
			w.S.Sleep(int64(d) * 1000)
		}
		ts = append(ts, w.Start(Opt{}, a...))
	}
	for _, t := range ts {
		if !w.MustEnd(t, "hang") {
			return
		}
		w.Check(t.OK(), "first-start", "%q, starting on an empty data dir together with others, fails with code %d: %s", t.Args, t.Code(), clip(t.All.String(), 700))
		w.Check(!strings.HasPrefix(t.Args[0], "echo") || strings.Contains(t.All.String(), "hi\n"), "first-start", "%q prints %q", t.Args, t.All.String())
		if t.Args[0] != "sessions" && len(w.Fails) == 0 {
			if d := w.sessionOf(t); d != "" {
				r := w.checkRecordQuiet(d)
				w.Check(r != nil && r.Bad == "" && r.Result == "OK", "first-record", "%q: the record says %v", t.Args, r)
			}
		}
	}
	// and everything is in place afterwards
	for _, t := range ts {
		if t.Args[0] == "hub.add.local" {
			return // of two changes of the hub list at the very same time one may win
		}
	}
	t := w.Run("kmarsh")
	w.Check(t.OK(), "first-after", "the default repo can't be used after the first starts: %s", clip(t.All.String(), 500))
}
