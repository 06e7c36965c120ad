package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/innerr/ticat/zsim/rt"
)

func init() {
	reg(&Prop{ID: "C22", Level: "exploration", MaxSteps: 20000000, Run: runC22, Kinds: modKinds, Variants: 4, Double: 15, StepP: []float64{0}, OpP: []float64{0},
		Rule:   "A set of commands (scripts with arguments and env keys, sub-commands, directory modules, flows, combined flow files, flows with automatically mapped arguments) is called and described twice; then one or several broken files are put beside them - malformed, torn, binary, empty, unreadable, oddly named, conflicting in names, abbreviations, arguments and env keys - or reading the files fails. Every command that has no part in it must be there, be described and behave as before, and what is broken must be reported.",
		Probes: []string{"auto", "combined", "dir", "dircmd", "env-key-abbr", "conflict", "conflicts", "builtin-conflict", "abbr-conflict", "dir-over", "bad-flow", "bad-help", "unreadable", "gone-dir", "torn", "odd-name", "several", "read-fault"}})
}

const mods2 = "/home/user/mods2"

// modKinds aims faults at reading module, flow and help files.
func modKinds(s rt.Site) []string {
	if !isModPath(s.Path) {
		return nil
	}
	switch s.Op {
	case "open-r", "read", "readdir":
		var out []string
		for _, k := range defaultKinds[s.Op] {
			if !strings.HasPrefix(k, "crash") {
				out = append(out, k)
			}
		}
		return out
	}
	return nil
}

func isModPath(p string) bool {
	return !strings.HasSuffix(p, ".bash") && (strings.HasPrefix(p, modsDir) || strings.HasPrefix(p, mods2) || strings.HasPrefix(p, flowsDir))
}

type mgood struct {
	name  string
	files []string
	deps  []*mgood
	calls [][]string // command lines
	auto  bool
	runs  int // how many commands it comes to
}

func (g *mgood) touched(path string, seen map[*mgood]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	for _, f := range g.files {
		if f == path || strings.HasPrefix(f, path+"/") {
			return true
		}
	}
	for _, d := range g.deps {
		if d.touched(path, seen) {
			return true
		}
	}
	return false
}

// did is what can be observed of a call.
type did struct {
	code int
	ran  []string
	out  []string
	all  string
}

func (w *W) didOf(t *TP) *did {
	d := &did{code: t.Code(), all: t.All.String()}
	for _, e := range w.Hist {
		if e.Top != t.P.Pid {
			continue
		}
		x := e.Name + "("
		for i, a := range e.Args {
			if i > 0 {
				x += sesNameRe.ReplaceAllString(a, "SESSION") + ","
			}
		}
		x += ")["
		for _, k := range sortedKeys(e.Env) {
			if k != "session" && !strings.HasPrefix(k, "sys.session") && !strings.HasPrefix(k, "sys.event") {
				x += k + "=" + sesNameRe.ReplaceAllString(e.Env[k], "SESSION") + " "
			}
		}
		x += "]" + e.EnvErr
		d.ran = append(d.ran, x+fmt.Sprint(e.Code))
	}
	d.out = strings.Split(plain(d.all), "\n")
	return d
}

// lines says which line of a is not in b, in order.
func missingLine(a, b []string) (string, bool) {
	i := 0
	for _, l := range a {
		for i < len(b) && b[i] != l {
			i++
		}
		if i == len(b) {
			return l, true
		}
		i++
	}
	return "", false
}

func (a *did) diff(b *did, more bool) string {
	if a.code != b.code {
		return fmt.Sprintf("the exit status is %d instead of %d", b.code, a.code)
	}
	if !eqStrs(a.ran, b.ran) {
		i := 0
		for i < len(a.ran) && i < len(b.ran) && a.ran[i] == b.ran[i] {
			i++
		}
		x, y := "nothing", "nothing"
		if i < len(a.ran) {
			x = a.ran[i]
		}
		if i < len(b.ran) {
			y = b.ran[i]
		}
		return fmt.Sprintf("it ran %s instead of %s", clip(y, 500), clip(x, 500))
	}
	if l, miss := missingLine(a.out, b.out); miss {
		return fmt.Sprintf("the screen has no line %q in its place", l)
	}
	if !more && len(a.out) != len(b.out) {
		return fmt.Sprintf("the screen has %d lines instead of %d", len(b.out), len(a.out))
	}
	return ""
}

type mbad struct {
	what    string
	reports []string // one of these must be on the screen; none: not claimed
	all     []string // all of these must be
	put     func()
	files   map[string]bool // made by it
	hits    []string // files of good commands that are changed by it on purpose
}

func runC22(w *W) {
	ch := w.Ch
	var gs []*mgood
	n := 4 + ch.N(5)
	argNo := 0
	body := func(name string) string {
		s := "out " + name + "<$1><$2>"
		for i := 1; i <= 4; i++ {
			s += fmt.Sprintf("<${vk%d}>", i)
		}
		return s
	}
	meta := func(g *mgood) (m []string) {
		if ch.Pct(60) {
			m = append(m, "abbrs = "+g.name+"x|"+g.name+"y")
			g.calls = append(g.calls, []string{g.name + "x"})
		}
		if ch.Pct(30) {
			m = append(m, "tags = t1 "+g.name+"-t")
		}
		if ch.Pct(70) {
			argNo++
			a := fmt.Sprintf("a%d", argNo)
			k := fmt.Sprintf("vk%d", 1+ch.N(4))
			if ch.Pct(40) {
				a = pick(ch, "aa", "ab", "ac")
			}
			m = append(m, "[args]", a+"|"+a+"z = "+pick(ch, "1", "def", ""))
			if ch.Pct(40) {
				m = append(m, fmt.Sprintf("b%d = 2", argNo))
			}
			g.calls = append(g.calls, []string{g.name, a + "=v" + a}, []string{g.name, a + "z=w"})
			switch ch.N(3) {
			case 0:
				m = append(m, "[arg2env]", k+" = "+a)
			case 1:
				m = append(m, "[env]", k+"|"+k+"x = may-read")
			}
		} else if ch.Pct(30) {
			m = append(m, "[val2env]", fmt.Sprintf("vk%d = from-%s", 1+ch.N(4), g.name))
		}
		return
	}
	flowOf := func(g *mgood) string {
		var s []string
		for i, m := 0, 1+ch.N(3); i < m && len(gs) > 0; i++ {
			d := gs[ch.N(len(gs))]
			if g.runs += d.runs + 1; g.runs > 8 && i > 0 {
				break
			}
			g.deps = append(g.deps, d)
			s = append(s, d.name)
		}
		if len(s) == 0 {
			s = []string{"echo hi"}
		}
		return strings.Join(s, " : ")
	}
	auto := func(g *mgood) string {
		if len(g.deps) == 0 || !ch.Pct(60) {
			return ""
		}
		g.auto = true
		w.Probe("auto")
		return "args.auto = " + pick(ch, "*", "*", "**", "aa,*", "ac,ab,*", "zq=5,*")
	}
	for i := 0; i < n; i++ {
		g := &mgood{name: fmt.Sprintf("g%d", i+1)}
		dir := pick(ch, modsDir, modsDir, mods2)
		file := func(f string) { g.files = append(g.files, f) }
		switch k := ch.W(40, 12, 10, 30, 8); k {
		case 0:
			m := meta(g)
			w.ScriptAt(dir, g.name, body(g.name), m...)
			file(dir + "/" + g.name + ".bash.ticat")
		case 1: // a sub command
			w.Probe("dir")
			m := meta(g)
			base := g.name
			g.name = "gd." + base
			for _, c := range g.calls {
				c[0] = "gd." + c[0]
			}
			for j := range m {
				m[j] = strings.Replace(m[j], "abbrs = gd.", "abbrs = ", 1)
			}
			w.ScriptAt(dir, g.name, body(base), m...)
			file(dir + "/gd/" + base + ".bash.ticat")
			if ch.Pct(50) {
				w.S.FS.Put(dir+"/gd.ticat", "help = all of gd\n")
			}
			if w.S.FS.Exists(dir + "/gd.ticat") {
				file(dir + "/gd.ticat")
			}
		case 2: // a dir with a command
			w.Probe("dircmd")
			m := meta(g)
			w.S.FS.Put(dir+"/"+g.name+"/run.bash", "#!sim\n"+body("run"))
			w.S.FS.Put(dir+"/"+g.name+".ticat", "help = dir "+g.name+"\ncmd = run.bash\n"+strings.Join(m, "\n")+"\n")
			file(dir + "/" + g.name + ".ticat")
		case 3:
			d := pick(ch, flowsDir, flowsDir, modsDir, mods2)
			fl := flowOf(g)
			w.FlowFile(d, g.name, fl, auto(g))
			file(d + "/" + g.name + ".tiflow")
		case 4:
			w.Probe("combined")
			d := pick(ch, flowsDir, modsDir)
			g2 := &mgood{name: g.name + "b"}
			s := ""
			f := d + "/" + g.name + "all.tiflow"
			for _, x := range []*mgood{g, g2} {
				fl := flowOf(x)
				s += "### file : " + x.name + ".tiflow\n\nhelp = part " + x.name + "\n" + auto(x) + "\nflow = " + fl + "\n\n"
				x.files = []string{f}
			}
			w.S.FS.Put(f, s)
			g2.calls = append(g2.calls, []string{g2.name})
			gs = append(gs, g2)
		}
		g.calls = append(g.calls, []string{g.name})
		gs = append(gs, g)
	}
	// flows with mapped arguments, one on top of the other
	if ch.Pct(50) {
		for i, m := 0, 1+ch.N(3); i < m; i++ {
			g := &mgood{name: fmt.Sprintf("gm%d", ch.N(50)+10*i)}
			dup := false
			for _, x := range gs {
				dup = dup || x.name == g.name
			}
			if dup {
				continue
			}
			fl := flowOf(g)
			if len(gs) > n && ch.Pct(60) {
				d := gs[len(gs)-1]
				g.runs += d.runs + 1
				g.deps, fl = append(g.deps, d), pick(ch, fl+" : "+d.name, d.name+" : "+fl)
			}
			w.FlowFile(pick(ch, flowsDir, modsDir), g.name, fl, auto(g))
			for _, d := range []string{flowsDir, modsDir} {
				if f := d + "/" + g.name + ".tiflow"; w.S.FS.Exists(f) {
					g.files = append(g.files, f)
				}
			}
			g.calls = append(g.calls, []string{g.name})
			gs = append(gs, g)
		}
	}
	for _, g := range gs {
		if g.auto && ch.Pct(50) {
			for _, d := range g.deps {
				for _, c := range d.calls {
					if len(c) == 2 {
						g.calls = append(g.calls, []string{g.name, c[1]})
					}
				}
			}
		}
	}
	w.S.FS.Put(modsDir+"/h.tihelp", "the help title\nthe help text\n")
	w.S.FS.MkAll(mods2)
	w.AddMods()
	w.Setup("hub.add.local", "path="+mods2)
	key := false
	if ch.Pct(50) {
		key = true
		w.Setup("{vk9=saved}", "env.save")
		w.Setup("{vk.deep=saved}", "env.save")
	}

	type call struct {
		g    *mgood
		args []string
		d    *did
	}
	var calls []*call
	for _, g := range gs {
		cs := g.calls
		if len(cs) > 2 {
			i := ch.N(len(cs))
			cs = [][]string{cs[i], cs[(i+1+ch.N(len(cs)-1))%len(cs)]}
		}
		for _, c := range cs {
			calls = append(calls, &call{g: g, args: c})
		}
		calls = append(calls, &call{g: g, args: []string{"cmd.full", g.name}})
	}
	if len(calls) > 14 {
		p := ch.Perm(len(calls))[:14]
		sort.Ints(p)
		var cs []*call
		for _, i := range p {
			cs = append(cs, calls[i])
		}
		calls = cs
	}
	run := func(o Opt, args []string) *did {
		t := w.Start(o, args...)
		if !w.MustEnd(t, "hang") {
			return nil
		}
		w.Quiet()
		return w.didOf(t)
	}
	list := &call{args: []string{"cmds"}}
	list.d = run(Opt{}, list.args)
	help := &call{args: []string{"help"}}
	help.d = run(Opt{}, help.args)
	for _, c := range calls {
		c.d = run(Opt{}, c.args)
		if c.d == nil {
			return
		}
		if c.d.code != 0 {
			w.Probe("call-fails") // e.g. a wrong argument for a flow without mapped arguments
		}
	}
	w.Sample = fmt.Sprintf("%d good commands, %d calls", len(gs), len(calls))
	if c := calls[ch.N(len(calls))]; c.d != nil {
		again := run(Opt{}, c.args)
		if again == nil {
			return
		}
		if df := c.d.diff(again, false); df != "" {
			w.Fail("chance", "%q done twice with the same files: %s\n%s\n----\n%s", c.args, df, clip(c.d.all, 1500), clip(again.all, 1500))
			return
		}
	}

	// what gets broken
	var bad []*mbad
	bads := w.breakMods(gs, key)
	nb := 1
	if ch.Pct(30) {
		nb += 1 + ch.N(3)
		w.Probe("several")
	}
	tree := func() map[string]string {
		out := map[string]string{}
		for _, d := range []string{modsDir, mods2, flowsDir} {
			for f, data := range w.S.FS.Tree(d) {
				out[f] = string(data)
			}
		}
		return out
	}
	for i := 0; i < nb; i++ {
		b := bads(i)
		before := tree()
		b.put()
		for _, x := range bad { // what was put before may be overwritten, or be in nobody's way any more
			for f, data := range tree() {
				if old, ok := before[f]; ok && old != data && x.files[f] {
					x.reports, x.all = nil, nil
				}
			}
		}
		b.files = map[string]bool{}
		for f, data := range tree() {
			if old, ok := before[f]; !ok || old != data {
				b.files[f] = true
			}
		}
		bad = append(bad, b)
		w.Sample += "; " + b.what
	}
	hit := func(g *mgood) bool {
		for _, b := range bad {
			for _, f := range b.hits {
				if g.touched(f, map[*mgood]bool{}) {
					return true
				}
			}
		}
		return false
	}
	after := run(Opt{}, list.args)
	if after == nil {
		return
	}
	w.Check(after.code == 0, "start", "with %s %q ends with status %d:\n%s", w.Sample, list.args, after.code, clip(after.all, 1500))
	torn := false
	for _, b := range bad {
		torn = torn || len(b.hits) > 0
	}
	for _, b := range bad {
		if torn && (strings.Contains(b.what, "command") || strings.Contains(b.what, "abbreviation")) { // the one it conflicts with may be gone
			continue
		}
		for _, r := range b.all {
			w.Check(strings.Contains(after.all, r), "report", "%s: not all is reported (%q is not on the screen):\n%s", b.what, r, clip(after.all, 2500))
		}
		if len(b.reports) == 0 {
			continue
		}
		ok := false
		for _, r := range b.reports {
			ok = ok || strings.Contains(after.all, r)
		}
		w.Check(ok, "report", "%s is not reported (%q is not on the screen):\n%s", b.what, b.reports, clip(after.all, 1500))
	}
	// the list of commands
	blocks := func(text string) map[string]string {
		out := map[string]string{}
		name := ""
		for _, l := range strings.Split(text, "\n") {
			if strings.HasPrefix(l, "[") {
				name = l
				out[name] = l
			} else if name != "" && (strings.HasPrefix(l, " ") || l == "") {
				out[name] += "\n" + l
			} else {
				name = ""
			}
		}
		return out
	}
	want, got := blocks(list.d.all), blocks(after.all)
	for _, k := range sortedKeys(want) {
		name := strings.SplitN(strings.TrimPrefix(k, "["), "]", 2)[0]
		var g *mgood
		for _, x := range gs {
			if x.name == name {
				g = x
			}
		}
		if name == "gd" || g != nil && hit(g) {
			continue
		}
		b, ok := got[k]
		if !w.Check(ok, "gone", "with %s the command %s is not listed any more:\n%s", w.Sample, name, clip(after.all, 1500)) {
			break
		}
		w.Check(b == want[k], "listed", "with %s the command %s is listed as %q instead of %q", w.Sample, name, b, want[k])
	}
	cmp := func(c *call, d *did, where string) {
		if df := c.d.diff(d, true); df != "" {
			w.Fail("other", "%s the command %q does not behave as before: %s\nbefore:\n%s\nthen:\n%s", where, c.args, df, clip(c.d.all, 1500), clip(d.all, 2500))
		}
	}
	if len(w.Fails) > 0 {
		return
	}
	for _, c := range calls {
		if hit(c.g) {
			continue
		}
		d := run(Opt{}, c.args)
		if d == nil {
			return
		}
		cmp(c, d, "with "+w.Sample)
	}
	if d := run(Opt{}, help.args); d != nil {
		cmp(help, d, "with "+w.Sample)
	}
	if len(w.Fails) > 0 {
		return
	}
	// reading the files fails
	for i, m := 0, 1+ch.N(4); i < m; i++ {
		c := calls[ch.N(len(calls))]
		if hit(c.g) {
			continue
		}
		fired := len(w.S.Fired)
		t := w.Start(Opt{Faulty: true}, c.args...)
		if !w.MustEnd(t, "hang") {
			return
		}
		w.Quiet()
		d := w.didOf(t)
		touched, other := false, false
		for _, f := range w.S.Fired[fired:] {
			other = other || !isModPath(f.Path) // something else than planned
		}
		if other {
			continue
		}
		for _, f := range w.S.Fired[fired:] {
			w.Probe("read-fault")
			touched = touched || c.g.touched(f.Path, map[*mgood]bool{})
			w.Check(strings.Contains(d.all, f.Path[strings.LastIndexByte(f.Path, '\n')+1:]), "report", "%s of %s failed (%s), but %q does not report it:\n%s", f.Op, f.Path, f.Kind, c.args, clip(d.all, 1500))
		}
		if !touched {
			cmp(c, d, fmt.Sprintf("with %s and %v failing", w.Sample, w.S.Fired[fired:]))
		}
	}
}

// breakMods makes what is put beside the good commands.
func (w *W) breakMods(gs []*mgood, key bool) func(i int) *mbad {
	ch, fs := w.Ch, w.S.FS
	return func(i int) *mbad {
		name := fmt.Sprintf("z%d", i+1)
		dir := pick(ch, mods2, mods2, modsDir)
		script := func(dir string, lines ...string) string {
			f := dir + "/" + name + ".bash"
			fs.Put(f, "#!sim\nout bad\n")
			fs.Put(f+".ticat", strings.Join(lines, "\n")+"\n")
			return f + ".ticat"
		}
		flowDir := func() string { return pick(ch, flowsDir, modsDir, mods2) }
		someGood := func() *mgood {
			for k := 0; k < 20; k++ {
				if g := gs[ch.N(len(gs))]; !strings.Contains(g.name, ".") {
					return g
				}
			}
			return nil
		}
		b := &mbad{}
		// the bad lines may come before, between or after good ones
		lines := func(bad ...string) []string {
			pre := []string{"help = bad", "tags = t1", "abbrs = " + name + "x"}
			k := ch.N(len(pre) + 1)
			return append(append(append([]string{}, pre[:k]...), bad...), pre[k:]...)
		}
		switch k := ch.N(19); k {
		case 17: // several modules of one dir are in the way of others
			w.Probe("conflicts")
			names := []string{}
			var puts []func()
			over := func(nm string, builtin bool) {
				for _, x := range names {
					if x == nm {
						return
					}
				}
				names = append(names, nm)
				f := mods2 + "/" + nm + ".zz"
				if ch.Pct(30) && builtin {
					f = mods2 + "/" + nm + ".tiflow"
					puts = append(puts, func() { fs.Put(f, "help = bad\nflow = echo bad\n") })
					return
				}
				puts = append(puts, func() {
					fs.Put(f, "#!sim\nout bad\n")
					fs.Put(f+".ticat", "help = bad\nquiet-error = true\n[args]\nbadarg = 1\n")
				})
			}
			for j, m := 0, 2+ch.N(3); j < m; j++ {
				if ch.Pct(50) {
					if g := someGood(); g != nil {
						over(g.name, false)
					}
				} else {
					over(pick(ch, "echo", "noop", "hub", "env", "cmds", "version", "sleep", "desc"), true)
				}
			}
			b.what = fmt.Sprintf("commands of one dir named as others, %q", names)
			b.put = func() {
				if i > 0 {
					b.what = "nothing" // others could make the conflicts too many to be listed
					return
				}
				for _, put := range puts {
					put()
				}
				for _, nm := range names {
					b.all = append(b.all, "- "+nm+" ")
				}
			}
		case 0, 1:
			bad := pick(ch, "garbage", "no-session = 7x", "quiet-error = maybe", "quiet = !", "nolog = off?", "trivial = many", "pack-subflow = 2", "hide-in-last = x", "unbreak-fnf = ?", "cmd = not/there.sh", "key: value", "[args", "[args/]")
			if bad == "[args" || bad == "[args/]" { // an unclosed section takes what follows
				b.what = "a module with the unclosed section " + bad
				b.put = func() { script(dir, append(lines(), bad, "help = x")...) }
				if bad == "[args" {
					b.reports = []string{dir + "/" + name}
				}
				break
			}
			b.what = fmt.Sprintf("a module with the line %q", bad)
			b.put = func() { b.reports = []string{script(dir, lines(bad)...)} }
		case 2:
			sec := pick(ch, "[env]\nk1 = readwrite", "[args]\nx = 1\nx2|x = 2", "[args]\n = \n = ", "[env]\nzq1|zq2 = r\nzq3|zq2 = r", "[arg2env]\nvk1 = no-such-arg", "[val2env]\nnothing")
			b.what = fmt.Sprintf("a module with the section %q", sec)
			b.put = func() {
				f := script(dir, append(lines(), strings.Split(sec, "\n")...)...)
				if !strings.Contains(sec, " = \n") && !strings.Contains(sec, "no-such") {
					b.reports = []string{f}
				}
			}
		case 3: // an env abbreviation of something in use
			ab := pick(ch, "strs", "display", "sys", "strs.list-sep")
			if key && ch.Pct(70) {
				ab = pick(ch, "vk9", "vk")
			}
			w.Probe("env-key-abbr")
			sec := "[env]\n" + name + "k|" + ab + " = " + pick(ch, "read", "may-read", "write")
			if ab == "strs.list-sep" {
				sec = "[env]\nstrs." + name + "k|list-sep = may-write"
			} else if ch.Pct(30) {
				sec = "[arg2env]\n" + name + "k|" + ab + " = x\n[args]\nx = 1"
			}
			b.what = fmt.Sprintf("a module with %q", sec)
			b.put = func() {
				f := script(dir, append(lines(), strings.Split(sec, "\n")...)...)
				b.reports = []string{f, "conflict"}
			}
		case 4: // a name that is taken
			g := someGood()
			if g == nil {
				g = gs[0]
			}
			w.Probe("conflict")
			b.what = "a second command named " + g.name
			b.put = func() {
				f := mods2 + "/zz/" + g.name + ".bash"
				if w.Ch.Pct(50) {
					f = mods2 + "/zz/" + g.name + ".tiflow"
					fs.Put(f, "help = bad\nflow = echo bad\nabbrs = "+name+"x\nquiet-error = true\n[args]\nbadarg = 1\n")
					b.reports = []string{f, mods2}
				} else {
					// the same path is needed: a directory of its own in the hub would be another source
					f = mods2 + "/" + g.name + ".zz"
					fs.Put(f, "#!sim\nout bad\n")
					fs.Put(f+".ticat", "help = bad\nquiet-error = true\n[args]\nbadarg = 1\n")
					b.reports = []string{f, mods2}
				}
			}
		case 5:
			w.Probe("builtin-conflict")
			nm := pick(ch, "echo", "noop", "hub", "env", "cmds", "version", "h", "e", "sleep", "desc")
			b.what = "a command named as the builtin " + nm
			b.put = func() {
				f := dir + "/" + nm
				if w.Ch.Pct(50) {
					f += ".bash"
					fs.Put(f, "#!sim\nout bad\n")
					fs.Put(f+".ticat", "help = bad\nquiet-error = true\n[args]\nbadarg = 1\n")
				} else {
					f = flowDir() + "/" + nm + ".tiflow"
					fs.Put(f, "help = bad\nflow = echo bad\n")
				}
				b.reports = []string{"conflict"}
			}
		case 6:
			w.Probe("abbr-conflict")
			g := someGood()
			ab := pick(ch, "echo", "e", "h", "dbg", "hub")
			if g != nil && ch.Pct(70) {
				ab = g.name
			}
			b.what = "a module with the abbreviation " + ab
			b.put = func() {
				f := mods2 + "/" + name + ".bash"
				fs.Put(f, "#!sim\nout bad\n")
				fs.Put(f+".ticat", "abbrs = "+name+"x|"+ab+"|"+name+"y\nhelp = bad\n[args]\nx=1\n")
				b.reports = []string{f, "conflict"}
			}
		case 7: // a dir of the same name as a command, with a meta file
			g := someGood()
			if g == nil {
				g = gs[0]
			}
			w.Probe("dir-over")
			ml := pick(ch, "quiet-error = true", "[args]\nbadarg = 1", "[val2env]\nvk1 = bad", "nolog = true", "no-session = true", "[arg2env]\nvk2 = badarg\n[args]\nbadarg = 7", "[deps]\nno-such-cmd = x", "[env]\nvk-never = read")
			b.what = fmt.Sprintf("a dir named %s whose meta file says %q", g.name, ml)
			b.put = func() {
				for _, f := range g.files {
					if strings.HasPrefix(f, mods2+"/") { // the dir must be loaded later
						b.what = "nothing"
						return
					}
				}
				fs.Put(mods2+"/"+g.name+"/other.bash", "#!sim\nout other\n")
				fs.Put(mods2+"/"+g.name+"/other.bash.ticat", "help = other\n")
				fs.Put(mods2+"/"+g.name+".ticat", "help = a dir\n"+ml+"\n")
			}
		case 8, 9: // bad flows
			w.Probe("bad-flow")
			d := flowDir()
			f := d + "/" + name + ".tiflow"
			text := pick(ch, "flow = no-such-cmd : also.not", "flow = "+name, "flow = "+name+" : "+name+"\nargs.auto = *", "flow = echo [[x\n", "flow = echo [[nokey]]\nargs.auto = qq", "flow = no-such-cmd\nargs.auto = *", "flow = echo hi\nargs.auto = *,qq", "flow =", "flow = :::", "flow = {", "flow = echo hi\n[args]\nx=1\ny|x=2", "flow = echo hi\nargs.auto = =5", "bad line\nflow = echo hi", "flow = sleep 1 : "+name+".x", "flow = echo hi\n[env]\nq=readwrite", "flow = {x} {y=1} : echo hi", "flow = echo hi :\\", "flow = %err=ok : echo hi %delay=x\nargs.auto = **", "### file : "+name+"a.tiflow\nflow = echo hi\n### file : \nbad", "### file : "+name+"a.txt\nflow = echo hi")
			b.what = fmt.Sprintf("a flow file with %q", text)
			b.put = func() { fs.Put(f, "help = bad flow\n"+text+"\n") }
			for _, s := range []string{"q=readwrite", "args.auto = qq", "args.auto = *,qq", "bad line", "y|x=2", "args.auto = =5", "a.txt", "\nbad"} {
				if strings.Contains(text, s) {
					b.reports = []string{f}
				}
			}
		case 10:
			w.Probe("bad-help")
			f := dir + "/" + pick(ch, "z.tihelp", "a.tihelp", "zh/z.tihelp")
			text := pick(ch, "", "\x00\xff\xfe", "title only", strings.Repeat("y", 70000), "t\n"+strings.Repeat("z", 70000))
			b.what = fmt.Sprintf("a help file with %q", clip(text, 20))
			b.put = func() { fs.Put(f, text) }
			if text == "" || len(text) > 65536 {
				b.reports = []string{f}
			}
		case 11:
			w.Probe("unreadable")
			d := flowDir()
			f := pick(ch, d+"/"+name+".tiflow", mods2+"/"+name+".bash.ticat", mods2+"/z.tihelp", mods2+"/zd")
			b.what = f + " which cannot be read"
			b.put = func() {
				if strings.HasSuffix(f, "zd") {
					fs.Put(f+"/"+name+".bash.ticat", "help = x\n")
				} else {
					fs.Put(f, "help = x\nflow = echo hi\n")
				}
				fs.SetUnreadable(f, true)
			}
			b.reports = []string{f}
		case 12:
			w.Probe("gone-dir")
			b.what = "a hub entry whose dir is gone"
			b.put = func() {
				d := fmt.Sprintf("/home/u/gone%d", i)
				fs.Put(d+"/zz.bash", "#!sim\nout bad\n")
				fs.Put(d+"/zz.bash.ticat", "help = bad\n")
				w.Setup("hub.add.local", "path="+d)
				fs.RemoveTree(d)
				if w.Ch.Pct(40) {
					fs.Put(d, "now a file")
				}
			}
		case 13: // a torn copy of a good file
			w.Probe("torn")
			g := gs[ch.N(len(gs))]
			f := g.files[0]
			data, _ := fs.Get(f)
			cut := ch.N(len(data) + 1)
			b.what = fmt.Sprintf("%s cut after %d of %d bytes", f, cut, len(data))
			b.hits = []string{f}
			b.put = func() { fs.Put(f, string(data[:cut])) }
		case 14:
			w.Probe("odd-name")
			f := pick(ch, ".ticat", ".tiflow", "a..b.tiflow", "...tiflow", ":.tiflow", "{.tiflow", "}.tiflow", "{x=1}.tiflow", "%err=ok.tiflow", " .tiflow", "=.bash.ticat", "zd/.ticat", "zd/.bash.ticat", "-.tiflow", "a b.tiflow", "@.tiflow", "\n.tiflow", "中.tiflow", "z.z.z.tiflow", ".tihelp", "..tiflow", "\\:.tiflow", "|.tiflow", "[[x]].tiflow", strings.Repeat("n", 200)+".tiflow", "builtin.tiflow", "self.tiflow", "<root>.tiflow", "--.tiflow")
			b.what = fmt.Sprintf("a file named %q", f)
			d := dir
			if strings.HasSuffix(f, ".tiflow") {
				d = flowDir()
			}
			b.put = func() {
				fs.Put(d+"/"+f, "help = odd\n"+pick(w.Ch, "", "abbrs = |\n", "abbrs = zo1|zo2\n")+"flow = echo odd\n")
			}
		case 15:
			text := pick(ch, "", "\x00\x01\x02\xff", "=", "==", "= =\n", "[]", "[/]", "[[]]", "[[x]]\n", "\\", "a = \\", "\r\n", "\xef\xbb\xbfhelp = x", strings.Repeat("x", 100000)+"=", "#", "[x/]\n[/x]\n]", "a = 1 \\\n\n\n\\", "help = "+strings.Repeat("h", 3000))
			f := pick(ch, flowDir()+"/"+name+".tiflow", dir+"/"+name+".bash.ticat", dir+"/"+name+".ticat")
			b.what = fmt.Sprintf("%s with %q", f, clip(text, 30))
			b.put = func() { fs.Put(f, text) }
			if text == "\x00\x01\x02\xff" {
				b.reports = []string{f}
			}
		default:
			f := pick(ch, flowDir()+"/"+name+".tiflow", dir+"/"+name+".bash.ticat", dir+"/"+name+".tihelp")
			to := pick(ch, "nowhere", name+".tiflow", dir, "/dev/null/x")
			b.what = fmt.Sprintf("a link %s to %s", f, to)
			b.put = func() {
				if strings.HasSuffix(f, "/"+to) {
					to = f // to itself
				}
				fs.Symlink(f, to)
			}
			if strings.HasSuffix(f, ".tiflow") || strings.HasSuffix(f, ".bash.ticat") {
				b.reports = []string{f}
			}
		}
		return b
	}
}
