package main

import (
	"fmt"
	"path"
	"strconv"
	"strings"
)

// A generated program: a flow of commands, with the reference model of what
// running it does.

type ckind int

const (
	ckScript   ckind = iota
	ckFlow           // a flow file
	ckFileFlow       // a script with a sub-flow in front
	ckNested         // a script that calls ticat
	ckRepeat         // repeat cmd=... times=...
	ckBuiltin        // a builtin, observable only through its failure
	ckReplace        // from here on one command in place of another
)

type gcmd struct {
	name  string
	kind  ckind
	text  string // how it is called, without system arguments
	fail  string // "", exit, kill, nostart, builtin, cond
	quiet bool   // quiet-error in the meta file
	sub   []*occ
	nest  [][]*occ // nested ticat calls, in order
	times int
	body  []string
	sets  []string // the env values its script writes, as key=value
	depth int
	form  int      // how its files are laid out
	more  []string // meta lines
	src   *gcmd    // of a replacement
	dst   *gcmd
	text2 [][2]string // of a join
}

type occ struct {
	c     *gcmd
	errOK bool
	pre   string // "{k=v} " in front
	post  string
}

func (o *occ) String() string {
	s := o.pre + o.c.text
	if o.errOK {
		s += " %err=ok"
	}
	return s + o.post
}

type genOpt struct {
	maxTop, maxLen, maxDepth int
	maxCmds                  int
	fails                    int // 1/n of the leaves fail; 0 none
	errOK                    int // 1/n of the occurrences allow errors
	builtins, nested         bool
	fileFlows, repeat        bool
	nostart                  bool
	failKinds                []string
	body                     func(w *W, c *gcmd) // fills in bodies
	quiet                    bool
	out                      bool
	noReuse                  bool
	tag                      string // part of all names
	forms                    bool   // commands come in all the file layouts there are
	join                     bool   // join.new and join.run
	show                     bool   // some commands have display flags which change nothing of their output
	hide                     bool   // some commands are shown less (quiet, trivial, pack-subflow)
}

type program struct {
	w    *W
	o    genOpt
	cmds []*gcmd
	top  []*occ
	n    int
	// there is a join already: its arguments stay
	joined bool
	// the command a join runs, and the arguments it is to get
	joinT  string
	combos [][]string
	forest bool
}

func (w *W) genProgram(o genOpt) *program {
	p := &program{w: w, o: o}
	n := 1 + w.Ch.N(o.maxTop)
	for i := 0; i < n; i++ {
		p.top = append(p.top, p.occ(0))
	}
	return p
}

func (p *program) occ(depth int) *occ {
	ch := p.w.Ch
	o := &occ{}
	if len(p.cmds) > 0 && !p.o.noReuse && ch.P(5) {
		c := p.cmds[ch.N(len(p.cmds))]
		if c.depth >= depth {
			o.c = c
		}
	}
	if o.c == nil {
		o.c = p.cmd(depth)
	}
	if p.o.errOK > 0 && ch.P(p.o.errOK) && o.c.text[0] != '{' {
		o.errOK = true
	}
	return o
}

func (p *program) cmd(depth int) *gcmd {
	ch := p.w.Ch
	p.n++
	c := &gcmd{depth: depth}
	wf, wff, wn, wr, wb := 0, 0, 0, 0, 0
	if depth < p.o.maxDepth && p.n < p.o.maxCmds {
		wf = 4
		if p.o.fileFlows {
			wff = 2
		}
		if p.o.nested {
			wn = 2
		}
		if p.o.repeat {
			wr = 1
		}
	}
	if p.o.builtins {
		wb = 2
	}
	c.kind = ckind(ch.W(8, wf, wff, wn, wr, wb))
	pre := [...]string{"k", "g", "h", "n", "r", "b"}[c.kind]
	c.name = fmt.Sprintf("%s%s%d", pre, p.o.tag, p.n)
	if c.kind == ckScript && ch.P(6) {
		c.name = "kd." + c.name
	}
	c.text = c.name
	if p.o.forms && c.kind != ckBuiltin && c.kind != ckRepeat && ch.P(3) {
		c.form = ch.N(9)
		if ch.P(4) {
			ab := fmt.Sprintf("ab%s%d", p.o.tag, p.n)
			c.more = append(c.more, pick(ch, "abbrs", "abbr")+" = "+pick(ch, "%s", "%s|other%s", "other%s|%s"))
			c.more[0] = strings.ReplaceAll(c.more[0], "other%s", "o"+ab)
			c.more[0] = strings.ReplaceAll(c.more[0], "%s", ab)
			if c.kind != ckFlow {
				c.text = strings.TrimSuffix(c.name, base(c.name)) + ab
			}
		}
		if ch.P(4) {
			c.more = append(c.more, "tags = @x @y")
		}
	}
	if p.o.hide && ch.P(4) {
		c.more = append(c.more, pick(ch, "quiet = true", "trivial = 1", "trivial = 2", "pack-subflow = true", "hide-in-last = true", "nolog = true"))
	}
	if p.o.show && ch.P(4) {
		c.more = append(c.more, pick(ch, "quiet = true", "trivial = 1", "trivial = 2", "pack-subflow = true", "hide-in-last = true"))
	} else if ch.P(10) { // saying no is as saying nothing
		c.more = append(c.more, pick(ch, "quiet = false", "trivial = 0", "pack-subflow = 0", "hide-in-last = f", "nolog = false", "no-session = false", "unbreak-fnf = F"))
	}
	leafFail := func() {
		if p.o.fails > 0 && ch.P(p.o.fails) {
			ks := p.o.failKinds
			if ks == nil {
				ks = []string{"exit", "kill"}
				if p.o.nostart {
					ks = append(ks, "nostart")
				}
			}
			c.fail = ks[ch.N(len(ks))]
		}
		if p.o.quiet && ch.P(6) {
			c.quiet = true
		}
	}
	subs := func() []*occ {
		var out []*occ
		n := 1 + ch.N(p.o.maxLen)
		for i := 0; i < n; i++ {
			out = append(out, p.occ(depth+1))
		}
		return out
	}
	switch c.kind {
	case ckScript:
		leafFail()
	case ckFlow:
		c.sub = subs()
	case ckFileFlow:
		c.sub = subs()
		leafFail()
	case ckNested:
		n := 1 + ch.N(2)
		for i := 0; i < n; i++ {
			c.nest = append(c.nest, subs())
		}
		leafFail()
		if c.fail == "nostart" {
			c.fail = "exit"
		}
	case ckRepeat:
		if p.o.join && !p.joined && !p.forest && depth == 0 && ch.P(3) {
			p.join(c)
			c.depth = -1 // its arguments would add up
			break
		}
		c.times = 1 + ch.N(3)
		t := p.occ(depth + 1)
		for t.c.kind == ckRepeat || t.c.kind == ckBuiltin {
			t = &occ{c: &gcmd{kind: ckScript, depth: depth + 1}}
			p.n++
			t.c.name = fmt.Sprintf("k%s%d", p.o.tag, p.n)
			t.c.text = t.c.name
			p.cmds = append(p.cmds, t.c)
		}
		t.errOK = false
		if t.c.kind == ckScript && ch.P(8) {
			c.times = 8 + ch.N(6)
		}
		c.text = fmt.Sprintf("repeat cmd=%s times=%d", t.c.name, c.times)
		for i := 0; i < c.times; i++ {
			c.sub = append(c.sub, &occ{c: t.c})
		}
	case ckBuiltin:
		if p.o.fails > 0 && ch.P(p.o.fails) {
			c.fail = "builtin"
			c.text = pick(ch, "dbg.error", "dbg.panic", "dbg.panic.cmd", "env.assert.equal key=vq.none value=x", "sleep duration=abc")
			if p.o.join && !p.joined && !p.forest && ch.P(3) {
				p.joined = true
				c.text = pick(ch, "join.new key=aa value=[1,3,0]", "join.run cmd=knone", "join.run cmd=dbg.error", "join.new key=aa value=x,y : join.run cmd=dbg.panic", "join.run cmd=env.assert.equal")
			}
		} else {
			if p.o.forms && ch.P(3) { // commands that do nothing
				c.form = 1 + ch.N(3)
				c.name = fmt.Sprintf("mo%s%d", p.o.tag, p.n)
				c.text = c.name
				if c.form == 3 { // only an env setting
					c.text = "{vq.e=" + fmt.Sprint(p.n) + "}"
				}
				break
			}
			c.text = pick(ch, "noop", "dummy", "echo message=hi", "mark-time write-to-key=vq.t", "env.set key=vq.b value=1", "sleep duration=1s")
			if p.o.hide && !p.joined && ch.P(5) {
				p.forest = true
				c.text = "flow.forest-mode"
				p.w.Probe("forest")
			}
		}
	}
	p.cmds = append(p.cmds, c)
	return c
}

// join makes c run a script for all combinations of arguments.
func (p *program) join(c *gcmd) {
	ch := p.w.Ch
	p.w.Probe("join")
	p.joined = true
	p.n++
	t := &gcmd{name: fmt.Sprintf("k%s%d", p.o.tag, p.n), depth: -1, more: []string{"[args]", "aa = ''", "bb = ''"}}
	t.text = t.name
	if p.o.fails > 0 && ch.P(p.o.fails) {
		t.fail = "exit"
	}
	p.cmds = append(p.cmds, t)
	c.times = 1
	combos := [][]string{nil}
	for i, k := range []string{"aa", "bb"}[:1+ch.N(2)] {
		n := 1 + ch.N(3)
		vals := []string{"x1", "y2", "z3"}[:n]
		v := strings.Join(vals, ",")
		if ch.P(2) {
			vals = nil
			switch ch.N(3) {
			case 0:
				v = fmt.Sprintf("[%d,%d]", i, i+n-1)
				for j := 0; j < n; j++ {
					vals = append(vals, fmt.Sprint(i+j))
				}
			case 1:
				// the end needn't be met
				v = fmt.Sprintf("[%d,%d,3]", i-2, i-2+3*(n-1)+ch.N(3))
				for j := 0; j < n; j++ {
					vals = append(vals, fmt.Sprint(i-2+3*j))
				}
			case 2:
				v = fmt.Sprintf("[0.5,%d,0.5]", n)
				n *= 2
				for j := 1; j <= n; j++ {
					vals = append(vals, fmt.Sprintf("%g", float64(j)/2))
				}
			}
		}
		var next [][]string
		for _, old := range combos {
			for _, x := range vals {
				next = append(next, append(append([]string{}, old...), x))
			}
		}
		combos = next
		c.text2 = append(c.text2, [2]string{k, v})
		c.times *= n
	}
	c.text = ""
	for _, kv := range c.text2 {
		c.text += "join.new key=" + kv[0] + " value=" + kv[1] + " : "
	}
	c.text += "join.run cmd=" + t.name
	for i := 0; i < c.times; i++ {
		c.sub = append(c.sub, &occ{c: t})
	}
	p.joinT, p.combos = t.name, combos
}

// checkJoin says whether the combinations were gone through in order.
func (p *program) checkJoin() {
	if p.joinT == "" {
		return
	}
	for i, e := range p.w.evsOf(p.joinT) {
		if i >= len(p.combos) {
			return // the count is checked with the order
		}
		for j, v := range p.combos[i] {
			ok := len(e.Args) > j+1 && (e.Args[j+1] == v || sameNum(e.Args[j+1], v))
			if !p.w.Check(ok, "join-args", "run %d of %s got the arguments %q, expected %q (faults %v)", i+1, p.joinT, e.Args, p.combos[i], p.w.S.Fired) {
				return
			}
		}
	}
}

func sameNum(a, b string) bool {
	x, err1 := strconv.ParseFloat(a, 64)
	y, err2 := strconv.ParseFloat(b, 64)
	return err1 == nil && err2 == nil && x == y
}

func flowStr(os []*occ) string {
	var out []string
	for _, o := range os {
		out = append(out, o.String())
	}
	return strings.Join(out, " : ")
}

// argsOf turns a flow into command-line arguments.
func argsOf(os []*occ) []string {
	var out []string
	for i, o := range os {
		if i > 0 {
			out = append(out, ":")
		}
		out = append(out, strings.Fields(o.String())...)
	}
	return out
}

// install writes the files of all commands.
func (p *program) install() {
	for _, c := range p.cmds {
		p.w.installCmd(c, p.o.body)
	}
}

func (w *W) installCmd(c *gcmd, extra func(w *W, c *gcmd)) {
	f := modsDir + "/" + strings.ReplaceAll(c.name, ".", "/")
	put := func(p string, ls ...string) {
		w.S.FS.Put(p, strings.Join(append(ls, c.more...), "\n")+"\n")
	}
	if c.kind == ckBuiltin && c.form == 3 {
		return
	}
	if c.kind == ckBuiltin && c.form != 0 {
		w.Probe("form")
		put(f+".ticat", "help = nothing to run")
		if c.form == 2 {
			w.S.FS.MkAll(f)
		}
		return
	}
	if c.kind == ckBuiltin || c.kind == ckRepeat || c.kind == ckReplace {
		return
	}
	if c.form != 0 {
		w.Probe("form")
	}
	if c.kind == ckFlow {
		lines := strings.Split(flowStr(c.sub), " : ")
		flow := strings.Join(lines, " : ")
		more := c.more
		c.more = nil
		defer func() { c.more = more }()
		var ls []string
		switch c.form {
		case 1:
			ls = []string{"flow = \\\n  " + strings.Join(lines, " :\\\n  : ")}
		case 2:
			ls = []string{"[flow/]", "# a comment", "  " + strings.Join(lines, " :\n  "), "[/flow]"}
		case 3:
			ls = []string{"[[mm]] = " + lines[0], "flow = " + strings.Join(append([]string{"[[mm]]"}, lines[1:]...), " : ")}
		case 4:
			ls = []string{"[[ a.b ]] = \\", "  " + flow, "flow = [[a.b]]"}
		case 5:
			ls = []string{"[[m1/]", flow, "[/[m1]", "flow = " + flow}
			ls = ls[3:]
		case 6, 7: // a dir whose meta file is a flow
			w.S.FS.MkAll(f)
			put(f+".ticat", append(append([]string{"help = flow " + c.name}, more...), "flow = "+flow)...)
			return
		default:
			ls = []string{"flow = " + flow}
		}
		put(f+".tiflow", append(append([]string{"help = flow " + c.name}, more...), ls...)...)
		return
	}
	var meta []string
	if c.quiet {
		meta = append(meta, "quiet-error = true")
	}
	meta = append(meta, c.more...)
	if c.kind == ckFileFlow {
		meta = append(meta, "flow = "+flowStr(c.sub))
	}
	if extra != nil {
		extra(w, c)
	}
	body := strings.Join(c.body, "\n") + "\n"
	for _, n := range c.nest {
		// quotes keep the words together for ticat, as a shell would
		body += "ticat {session=$1} : " + flowStr(n) + "\n"
	}
	switch c.fail {
	case "exit":
		body += "exit 3\n"
	case "kill":
		body += "kill\n"
	case "cond":
		body += "failif /tmp/broken-" + c.name + "\n"
	}
	if c.fail == "nostart" {
		f += ".zz"
		w.S.FS.Put(f, body)
		w.S.FS.Put(f+".ticat", "help = cannot start\n"+strings.Join(meta, "\n")+"\n")
		return
	}
	body = "#!sim\n" + body
	meta = append([]string{"help = script " + c.name}, meta...)
	text := strings.Join(meta, "\n") + "\n"
	switch c.form {
	case 1, 2, 3, 4, 5: // .run has no runner of its own
		ext := []string{".sh", ".py", ".go", ".run", ".mysh"}[c.form-1]
		w.S.FS.Put(f+ext, body)
		w.S.FS.Put(f+ext+".ticat", text)
	case 6, 7: // a dir with a command
		if c.kind != ckFileFlow {
			b := base(c.name) + ".bash"
			w.S.FS.Put(f+"/impl/"+b, body)
			w.S.FS.Put(f+".ticat", text+"cmd = impl/"+b+"\n")
			return
		}
		fallthrough
	case 8: // a file which points to another one
		b := base(c.name) + ".bash"
		w.S.FS.Put(path.Dir(f)+"/impl/"+b, body)
		w.S.FS.Put(f+".x", "")
		w.S.FS.Put(f+".x.ticat", text+"cmd = impl/"+b+"\n")
	default:
		w.S.FS.Put(f+".bash", body)
		w.S.FS.Put(f+".bash.ticat", text)
	}
}

// addReplace puts replacements into the flows.
func (p *program) addReplace() {
	ch := p.w.Ch
	var srcs []*gcmd
	for _, c := range p.cmds {
		if c.kind <= ckNested && c.depth >= 0 {
			srcs = append(srcs, c)
		}
	}
	if len(srcs) == 0 {
		return
	}
	flows := p.flows()
	for i := ch.N(2); i >= 0; i-- {
		p.n++
		d := &gcmd{name: fmt.Sprintf("k%s%d", p.o.tag, p.n), depth: 9}
		d.text = d.name
		p.cmds = append(p.cmds, d)
		c := &gcmd{kind: ckReplace, src: srcs[ch.N(len(srcs))], dst: d, times: 1, depth: 9}
		all := ""
		if ch.Bool() {
			all, c.times = ".all", 0
		}
		c.text = fmt.Sprintf("flow.replace%s src=%s dest=%s", all, c.src.text, d.name)
		f := flows[0]
		if ch.P(3) {
			f = flows[ch.N(len(flows))]
		}
		at := 0
		if ch.P(3) {
			at = ch.N(len(*f) + 1)
		}
		*f = append((*f)[:at:at], append([]*occ{{c: c}}, (*f)[at:]...)...)
		p.w.Probe("replace")
	}
}

// flows are the flows of one process, the main one first.
func (p *program) flows() []*[]*occ {
	flows := []*[]*occ{&p.top}
	seen := map[*gcmd]bool{}
	var walk func(os []*occ)
	walk = func(os []*occ) {
		for _, o := range os {
			if (o.c.kind == ckFlow || o.c.kind == ckFileFlow) && !seen[o.c] {
				seen[o.c] = true
				flows = append(flows, &o.c.sub)
				walk(o.c.sub)
			}
		}
	}
	walk(p.top)
	return flows
}

// ---- the reference model -------------------------------------------------------

// exec runs the program: the names of the scripts started, in order, and
// whether it succeeded. force says that the force-th occurrence fails:
// mode 1: before anything of it starts; 2: after it ran; 3 and 4: likewise, and
// %err does not help.
type refRun struct {
	starts []refStart
	n      int
	force  int
	mid    bool
	mode   int
	hard   bool
	broken map[string]bool // commands whose cause of failure is still there
	seen   []string
	rules  []*gcmd // replacements, in this process
}

type refStart struct {
	name   string
	parent int // index of the script whose nested call this is, -1
	depth  int
}

// blend does the replacements.
func (r *refRun) blend(os []*occ) (out []*occ) {
next:
	for _, o := range os {
		if o.c.kind == ckReplace {
			r.rules = append(append([]*gcmd{}, r.rules...), o.c)
			continue
		}
		for j, x := range r.rules {
			if x.src == o.c {
				out = append(out, &occ{c: x.dst})
				if x.times == 1 {
					r.rules = append(append([]*gcmd{}, r.rules[:j]...), r.rules[j+1:]...)
				}
				continue next
			}
		}
		out = append(out, o)
	}
	return
}

func (r *refRun) flow(os []*occ, parent int) bool {
	for _, o := range r.blend(os) {
		if !r.one(o, parent) {
			return false
		}
	}
	return true
}

func (r *refRun) one(o *occ, parent int) bool {
	if r.hard {
		return false
	}
	r.n++
	id := r.n
	if id == r.force && r.mode == 7 {
		// ticat itself failed before what allows the command's errors
		return false
	}
	if id == r.force && (r.mode == 1 || r.mode == 3) {
		r.hard = r.mode == 3
		return o.errOK && !r.hard
	}
	r.mid = id == r.force && r.mode >= 5
	ok := r.cmd(o.c, parent)
	if id == r.force && r.mode >= 5 {
		r.mid = false
		r.hard = r.mode == 6
		return o.errOK && !r.hard
	}
	if r.hard {
		// a nested process that cannot go on: its caller fails
		return false
	}
	if id == r.force && r.mode == 8 {
		return false
	}
	if id == r.force {
		r.hard = r.mode == 4
		ok = false
	}
	return ok || (o.errOK && !r.hard)
}

func (r *refRun) cmd(c *gcmd, parent int) bool {
	switch c.kind {
	case ckBuiltin:
		return c.fail == ""
	case ckFlow, ckRepeat:
		return r.flow(c.sub, parent)
	case ckFileFlow:
		mid := r.mid
		r.mid = false
		if !r.flow(c.sub, parent) || mid {
			return false
		}
	}
	if c.fail == "nostart" {
		return false
	}
	r.starts = append(r.starts, refStart{name: base(c.name), parent: parent})
	me := len(r.starts) - 1
	for _, n := range c.nest {
		rules := r.rules
		r.rules = nil
		ok := r.flow(n, me)
		r.rules = rules
		if !ok {
			r.hard = false // the nested process ended; the script fails normally
			return false
		}
	}
	switch c.fail {
	case "exit", "kill":
		return false
	case "cond":
		return !r.broken[c.name]
	}
	return true
}

func base(n string) string { return n[strings.LastIndexByte(n, '.')+1:] }

func (r *refRun) names() []string {
	var out []string
	for _, s := range r.starts {
		out = append(out, s.name)
	}
	return out
}

func refExec(top []*occ, force, mode int, broken map[string]bool) (*refRun, bool) {
	r := &refRun{force: force, mode: mode, broken: broken}
	ok := r.flow(top, -1)
	return r, ok && !r.hard
}

func isPrefix(a, b []string) bool {
	return len(a) <= len(b) && eqStrs(a, b[:len(a)])
}

// explain says whether the observed starts can come from the program with at
// most one extra failure. crash: the process may have died at any point.
func explain(top []*occ, got []string, crash bool, broken map[string]bool) bool {
	r0, _ := refExec(top, 0, 0, broken)
	total := r0.n
	if eqStrs(r0.names(), got) || len(got) == 0 {
		return true
	}
	if crash && isPrefix(got, r0.names()) {
		return true
	}
	for f := 1; f <= total; f++ {
		for m := 1; m <= 8; m++ {
			r, _ := refExec(top, f, m, broken)
			if eqStrs(r.names(), got) {
				return true
			}
			if crash && isPrefix(got, r.names()) {
				return true
			}
		}
	}
	return false
}

// checkOrder checks that the scripts of one session ran one after the other.
func (w *W) checkOrder(evs []*Ev, key string) {
	for i := 1; i < len(evs); i++ {
		a, b := evs[i-1], evs[i]
		// everything that has not ended when b starts must be an ancestor of b
		for _, x := range evs[:i] {
			if (x.End == 0 && !x.P.Dead) || x.End > b.Start {
				if !w.isAncestor(x, b) && !w.orphaned(x, b.Start) && !w.orphaned(b, b.Start) {
					w.Fail(key, "%s starts before %s has finished", b.Name, x.Name)
				}
			}
		}
		_ = a
	}
}

// orphaned tells whether one of the processes above e was already dead then:
// a script that lost its ticat runs on beside whatever comes next.
func (w *W) orphaned(e *Ev, then int64) bool {
	for pid := e.PPid; pid > 1; {
		next := 0
		for _, p := range w.S.All {
			if p.Pid == pid {
				if p.Dead && p.EndSeq < then {
					return true
				}
				next = p.PPid
			}
		}
		pid = next
	}
	return false
}

func (w *W) isAncestor(x, b *Ev) bool {
	pid := b.PPid
	for pid > 1 {
		if pid == x.Pid {
			return true
		}
		next := 0
		for _, p := range w.S.All {
			if p.Pid == pid {
				next = p.PPid
			}
		}
		pid = next
	}
	return false
}
