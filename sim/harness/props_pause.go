package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/innerr/ticat/zsim/rt"
)

func init() {
	reg(&Prop{ID: "C20", Level: "exploration", Run: runC20, Kinds: anyKinds, Variants: 3, Double: 15, StepP: []float64{0, 0.0005}, OpP: []float64{0, 0.05, 0.2},
		Rule:   "Generated flows with break points before, after, at positions and at the end; a simulated user answers each pause, after any time, with any of the offered choices, with commands typed in interactive mode, with nonsense, or by ending the input; the sequence of pauses and started scripts is replayed against a reference debugger. Confirmations of flow.save, flow.rename and flow.save of broken flows likewise: nothing is executed or stored before the answer.",
		Probes: []string{"continue", "step", "skip", "step-in", "quit", "eof", "invalid", "after", "at-end", "here", "inside", "step-out", "skip-last", "nested-pause", "confirm-yes", "confirm-eof", "confirm-parse", "interact", "interact-back", "interact-leave", "interact-eof", "clear", "set-later"}})
}

// ptok is one observation: a script start, or a pause with its answer.
type ptok struct {
	pause bool
	name  string
	ans   string
	seq   int64
}

type pauser struct {
	w       *W
	t       *TP
	trace   []ptok
	open    bool // a pause is waiting for its answer
	same    bool // an invalid answer was given
	seen    int  // bytes of screen output already looked at
	started int
	limit   int
	can     map[string]bool
	pick    func() string
	// in interactive mode; what is typed there, and whether it had an end
	inter   bool
	typed   []string
	back    bool
	ran     int
	ended   bool
	changed int64 // since when vq.i is set
}

// interact types a line in interactive mode: commands that belong to the user,
// not to the flow.
func (p *pauser) interact(last *ptok) {
	w, ch := p.w, p.w.Ch
	got := len(w.evsOf("kint"))
	if p.ended {
		p.ended = false
	} else if len(p.typed) > 0 && !w.Faulted() {
		l := p.typed[len(p.typed)-1]
		w.Check(got-p.ran == strings.Count(l, "kint "), "interact-ran", "%q was typed in interactive mode, kint ran %d times", l, got-p.ran)
	}
	p.ran = got
	p.limit--
	l := ""
	switch k := ch.W(4, 2, 1, 1, 1, 6, 2, 1); {
	case k == 0:
		l = "kint "
	case k == 1:
		l = "kint : kint : noop"
	case k == 2:
		l = "kintbad"
	case k == 3:
		l = pick(ch, "nosuchcmd", "", "dbg.error", "dbg.panic", "break.list", "noop : nosuchcmd", "env.assert.equal key=vq.z value=1")
	case k == 4:
		l = "env.set key=vq.i value=typed"
		p.changed = w.S.NextSeq()
	case k == 7 || p.limit < 0:
		last.ans = "eof"
		w.Probe("interact-eof")
		p.t.In.CloseWrite(w.S)
		return
	case k == 5:
		p.inter, p.same, p.back = false, true, true
		w.Probe("interact-back")
		p.t.In.Feed(w.S, "\x03")
		return
	case k == 6:
		p.inter = false
		last.ans = "l"
		w.Probe("interact-leave")
		p.t.In.Feed(w.S, "dbg.interact.leave\n")
		return
	}
	w.Probe("interact")
	p.typed = append(p.typed, l)
	p.t.In.Feed(w.S, l+"\n")
}

var offerRe = regexp.MustCompile(`(?m)^(?:\x1b\[[0-9;]*m)*([a-z])(?:\x1b\[[0-9;]*m)*: `)

// offered are the choices ticat shows.
func offered(text string) map[string]bool {
	m := map[string]bool{}
	for _, x := range offerRe.FindAllStringSubmatch(text, -1) {
		m[x[1]] = true
	}
	return m
}

func (p *pauser) scripts() {
	for _, e := range p.w.Hist[p.started:] {
		if strings.HasPrefix(e.Name, "kint") {
			continue
		}
		p.trace = append(p.trace, ptok{name: e.Name, seq: e.Start})
	}
	p.started = len(p.w.Hist)
}

// above tells whether pid is one of the processes that wait for another one.
func above(w *W, pid, of int) bool {
	for p := w.S.Procs[of]; p != nil; p = w.S.Procs[p.PPid] {
		if p.Pid == pid {
			return true
		}
	}
	return false
}

// blocked is called when ticat waits for input.
func (p *pauser) blocked() {
	if p.open {
		return
	}
	w := p.w
	p.open = true
	n0 := len(p.trace)
	p.scripts()
	if p.inter && len(p.trace) > n0 {
		w.Fail("interact-goes-on", "%s was started while the user is in interactive mode", p.trace[n0].name)
	}
	if !p.same && !p.inter {
		p.trace = append(p.trace, ptok{pause: true, seq: w.seq()})
		pid := rt.CurTask().Proc.Pid
		for _, e := range w.Hist {
			if _, _, yes := e.ended(); !yes && !above(w, e.Pid, pid) {
				w.Fail("running", "%s is still running while ticat waits for an answer", e.Name)
			}
		}
	}
	same := p.same
	p.same = false
	n := len(w.Hist)
	pid := rt.CurTask().Proc.Pid
	// what a nested ticat shows takes a moment to arrive
	w.S.After(1e6+int64(w.Ch.N(4))*25e8, func() {
		all := p.t.All.String()
		text := all[p.seen:]
		p.seen = len(all)
		for q := w.S.Procs[pid]; q != nil && q != p.t.P; q = w.S.Procs[q.PPid] {
			if up := w.S.Procs[q.PPid]; up == nil || up.Dead {
				// nobody passes on what it shows
				p.open = false
				p.trace[len(p.trace)-1].ans = "eof"
				p.t.In.CloseWrite(w.S)
				return
			}
		}
		if p.inter {
			p.open = false
			p.interact(&p.trace[len(p.trace)-1])
			return
		}
		back := p.back
		p.back = false
		if same && !back && strings.Contains(text, "paused by") {
			w.Fail("invalid-answer", "a new pause came after an answer that is none: %s", clip(text, 400))
		}
		if m := offered(text); len(m) > 0 {
			p.can = m
		}
		ans := p.pick()
		if len(w.Hist) != n {
			w.Fail("not-waiting", "%s was started while ticat waits for an answer", w.Hist[n].Name)
		}
		p.open = false
		last := &p.trace[len(p.trace)-1]
		switch ans {
		case "eof":
			last.ans = "eof"
			p.t.In.CloseWrite(w.S)
			return
		case "i":
			if p.can["i"] {
				p.inter, p.typed, p.ended = true, nil, true
			} else {
				p.same = true
			}
		case "c", "s", "d", "t", "q":
			if p.can[ans] {
				last.ans = ans
			} else {
				p.same = true
			}
			if w.Ch.P(5) {
				ans = " " + strings.ToUpper(ans) + " "
			}
		default:
			p.same = true
		}
		p.t.In.Feed(w.S, ans+"\n")
	})
}

// ---- the reference debugger ------------------------------------------------------

type pref struct {
	w       *W
	trace   []ptok
	i       int
	before  map[string]bool
	after   map[string]bool
	end     bool
	pending bool // the next command must be paused at
	maybe   bool // it may
	sticky  bool // after a skip ticat may pause anywhere until told to continue
	here    bool
	conts   int
	over    string // why nothing more may happen
	bad     string
	failed  bool
	bits    []bool // at points where ticat may pause: take the pause for another point
	nbit    int
	key     string
	why     string
}

func (r *pref) stop() bool { return r.over != "" || r.bad != "" || r.failed }

// pause handles the point before (or after) something. It returns the answer, "" without a pause.
func (r *pref) pause(what string, must, may bool) string {
	if r.stop() {
		return ""
	}
	must = must || r.pending || r.here
	may = may || r.maybe || r.sticky
	if r.i >= len(r.trace) {
		if must {
			r.over = "ended at " + what // checked at the end
		}
		return ""
	}
	k := r.trace[r.i]
	if !k.pause {
		if must {
			r.bad = fmt.Sprintf("passed: ticat does not pause %s, the next thing is the start of %s", what, k.name)
		}
		r.maybe = false
		return ""
	}
	if !must && !may {
		return "" // it may be the one of a command inside
	}
	if !must {
		if r.nbit >= len(r.bits) {
			r.bits = append(r.bits, false)
		}
		r.nbit++
		if r.bits[r.nbit-1] {
			return ""
		}
	}
	r.i++
	r.pending, r.here, r.maybe = false, false, false
	switch k.ans {
	case "c":
		r.conts++
		r.sticky = false
		r.w.Probe("continue")
	case "l": // goes on as it was
		r.conts++
		r.maybe, r.sticky = true, true
	case "q":
		r.over = "quit " + what
		r.w.Probe("quit")
	case "eof":
		r.over = "end of input " + what
		r.w.Probe("eof")
	case "":
		r.over = "no answer " + what
	}
	return k.ans
}

func (r *pref) script(name string) {
	if r.stop() {
		return
	}
	if r.i >= len(r.trace) {
		r.over = "ended before " + name
		return
	}
	k := r.trace[r.i]
	if k.pause {
		r.bad = "paused: ticat pauses where " + name + " should be started"
		return
	}
	if k.name != base(name) {
		r.bad = fmt.Sprintf("wrong: %s is started instead of %s", k.name, base(name))
		return
	}
	r.i++
}

func (r *pref) flow(os []*occ) {
	for i, o := range os {
		if r.stop() {
			return
		}
		r.one(o, i == len(os)-1)
	}
}

func with(m map[string]bool, k string) map[string]bool {
	out := map[string]bool{k: true}
	for x := range m {
		out[x] = true
	}
	return out
}

func (r *pref) one(o *occ, last bool) {
	c := o.c
	w := r.w
	if c.kind == ckBuiltin { // it may be one where ticat never pauses
		p, h := r.pending, r.here
		r.pending, r.here = false, false
		a := r.pause("before "+c.text, false, p || h)
		if a == "" {
			r.pending, r.here = p, h
		}
		if a == "d" || a == "s" {
			r.pending = true
			r.sticky = r.sticky || a == "s"
		}
		if a == "s" || r.stop() {
			return
		}
		switch {
		case c.text == "break":
			r.here = true
		case c.text == "break.clear":
			w.Probe("clear")
			r.before, r.after, r.end = nil, nil, false
		case c.text == "break.at.end":
			r.end = true
		case strings.HasPrefix(c.text, "break.at "):
			w.Probe("set-later")
			r.before = with(r.before, c.name)
		case strings.HasPrefix(c.text, "break.after "):
			r.after = with(r.after, c.name)
		}
		return
	}
	byPrev := r.pending || r.maybe || r.sticky
	if r.here {
		w.Probe("here")
	}
	a := r.pause("before "+c.name, r.before[c.name], false)
	if r.stop() {
		return
	}
	conts := r.conts
	switch a {
	case "s":
		w.Probe("skip")
		if last {
			w.Probe("skip-last")
		}
		if r.after[c.name] {
			r.maybe = true
		}
		r.pending, r.sticky = true, true
		if r.after[c.name] { // the point after a skipped command
			r.pending = false
			if b := r.pause("after the skipped "+c.name, false, true); b == "" || b == "d" {
				r.pending = true
			}
		}
		return
	case "t":
		w.Probe("step-in")
		r.pending = true
	case "d":
		w.Probe("step")
	}
	switch c.kind {
	case ckScript:
		r.script(c.name)
		r.failed = r.failed || c.fail != ""
	case ckNested:
		r.script(c.name)
		// another process, which knows nothing of break points, but the
		// choices so far are in the session env
		bef, aft, end, i := r.before, r.after, r.end, r.i
		r.before, r.after, r.end = nil, nil, false
		for _, n := range c.nest {
			// the part with the session
			r.one(&occ{c: &gcmd{kind: ckBuiltin, text: "{session}"}}, false)
			r.before, r.after, r.end = nil, nil, false
			r.flow(n)
			r.pending, r.here = false, false
			for ; i < r.i; i++ {
				if r.trace[i].pause {
					r.sticky = true
					w.Probe("nested-pause")
				}
			}
		}
		r.before, r.after, r.end = bef, aft, end
		r.failed = r.failed || c.fail != ""
	case ckFlow, ckRepeat:
		r.flow(c.sub)
	case ckFileFlow:
		r.flow(c.sub)
		here := r.here
		r.here = false // is about commands
		if r.stop() {
			return
		}
		if r.pending {
			w.Probe("step-out")
		}
		b := r.pause("between "+c.name+" and its sub-flow", false, byPrev && a != "c" || here)
		if r.stop() {
			return
		}
		r.here = here && b == ""
		if b != "" {
			w.Probe("inside")
		}
		if b == "s" {
			r.pending, r.sticky = true, true
			break
		}
		r.script(c.name)
		r.failed = r.failed || c.fail != ""
		if b == "d" {
			r.pending = true
		}
	}
	if r.stop() {
		return
	}
	if r.after[c.name] {
		w.Probe("after")
		p, h := r.pending, r.here
		r.pending, r.here = false, false
		b := r.pause("after "+c.name, true, true)
		r.pending, r.here = p && b != "c", h
		if b == "d" {
			r.pending = true
		}
		if b == "c" {
			conts = -1
			if a == "d" {
				r.maybe = true
			}
		}
	}
	if a == "d" && !r.stop() {
		if r.conts == conts {
			r.pending = true
		} else {
			r.maybe = true
		}
	}
}

func runC20(w *W) {
	if w.Ch.P(6) {
		runConfirm(w)
		return
	}
	ch := w.Ch
	o := stdGen
	o.builtins, o.nostart, o.errOK, o.quiet = false, false, 0, false
	o.nested = ch.P(2)
	o.repeat = ch.P(3)
	o.maxTop, o.maxCmds = 5, 9
	o.fails = 0
	if ch.P(5) {
		o.fails = 8
	}
	p := w.genProgram(o)
	var fix func(os []*occ, top bool) []*occ
	done := map[*gcmd]bool{}
	fix = func(os []*occ, top bool) (out []*occ) {
		for i, x := range os {
			if !done[x.c] && x.c.kind != ckRepeat {
				done[x.c] = true
				x.c.sub = fix(x.c.sub, false)
				for j, n := range x.c.nest {
					x.c.nest[j] = fix(n, false)
				}
			}
			if ch.P(12) && (top || i > 0) {
				out = append(out, &occ{c: &gcmd{kind: ckBuiltin, name: "break", text: "break"}})
			}
			if ch.P(12) {
				out = append(out, &occ{c: &gcmd{kind: ckBuiltin, text: pick(ch, "noop", "dummy", "env.set key=vq.b value=1", "echo message=hi", "sleep duration=1s", "{vq.c=1}", "display.verbose.default", "break.list", "echo.ln", "noop %delay=0")}})
			}
			if ch.P(15) {
				b := &gcmd{kind: ckBuiltin, text: "break.clear"}
				if c := p.cmds[ch.N(len(p.cmds))]; c.kind != ckRepeat && c.kind != ckBuiltin && ch.P(2) {
					b.name = c.name
					b.text = pick(ch, "break.at", "break.after") + " break-points=" + c.name
				} else if top && ch.P(3) {
					b.text = "break.at.end"
				}
				out = append(out, &occ{c: b})
			}
			out = append(out, x)
		}
		return
	}
	top := fix(p.top, true)
	p.install()
	r := &pref{w: w, before: map[string]bool{}, after: map[string]bool{}}
	var args []string
	var bef, aft []string
	for _, c := range p.cmds {
		n := c.name
		if c.kind == ckRepeat {
			continue
		}
		if ch.P(4) && !r.before[n] {
			r.before[n] = true
			bef = append(bef, n)
		}
		if ch.P(8) && !r.after[n] {
			r.after[n] = true
			aft = append(aft, n)
		}
	}
	if len(bef) > 0 {
		args = append(args, "break.at", "break-points="+strings.Join(bef, ","), ":")
	}
	if len(aft) > 0 {
		args = append(args, "break.after", "break-points="+strings.Join(aft, ","), ":")
	}
	if ch.P(6) {
		r.end = true
		args = append(args, "break.at.end", ":")
	}
	if len(args) == 0 {
		args = append(args, "noop", ":")
	}
	args = append(args, argsOf(top)...)
	w.Script("kint", "out typed\n")
	w.Script("kintbad", "out typed\nexit 7\n")
	w.AddMods()
	w.Sample = clip(strings.Join(args, " "), 500)
	if len(w.Fails) > 0 {
		return
	}
	w.Hist = nil
	in := w.S.NewInput()
	in.Lines = true
	ps := &pauser{w: w, limit: 30}
	in.OnBlock = ps.blocked
	ps.pick = func() string {
		ps.limit--
		if ps.limit < 0 {
			return "q"
		}
		b := func(k string, n int) int {
			if ps.can[k] {
				return n
			}
			return 0
		}
		switch ch.W(6, b("d", 8), b("s", 5), b("t", 3), 1, 1, 2, b("i", 2)) {
		case 7:
			return "i"
		case 0:
			return "c"
		case 1:
			return "d"
		case 2:
			return "s"
		case 3:
			return "t"
		case 4:
			return "q"
		case 5:
			return "eof"
		}
		w.Probe("invalid")
		return pick(ch, "", "x", "continue", "cc", "no", "y", "t", "s", "d")
	}
	t := w.Start(Opt{Faulty: true, In: in}, args...)
	ps.t = t
	if !w.MustEnd(t, "hang") {
		return
	}
	w.Quiet()
	ps.scripts()
	for _, e := range w.Hist {
		if ps.changed > 0 && e.Start > ps.changed && !w.Faulted() {
			w.Check(e.Env["vq.i"] == "typed", "interact-env", "%s does not see the value set in interactive mode: %s", e.Name, kvStr(e.Env))
		}
	}
	try := func(bits []bool) *pref {
		q := &pref{w: w, before: r.before, after: r.after, end: r.end, trace: ps.trace, bits: bits}
		q.flow(top)
		if !q.stop() && (q.end || q.here) {
			w.Probe("at-end")
			q.pending, q.maybe, q.sticky = false, false, false
			q.pause("at the end", true, true)
		}
		q.wrong(t, w)
		return q
	}
	q := try(nil)
	for n, bits := 0, q.bits; n < 300 && q.key != ""; n++ {
		for len(bits) > 0 && bits[len(bits)-1] {
			bits = bits[:len(bits)-1]
		}
		if len(bits) == 0 {
			break
		}
		bits = append(append([]bool{}, bits[:len(bits)-1]...), true)
		q2 := try(bits)
		bits = q2.bits
		if q2.key == "" {
			q = q2
		}
	}
	if q.key != "" {
		w.Fail(q.key, "%s; observed %s (faults %v): %s", q.why, traceStr(ps.trace, q.i), w.S.Fired, lastOf(plain(t.All.String()), 700))
	}
}

// wrong compares how the run ended.
func (r *pref) wrong(t *TP, w *W) {
	no := func(ok bool, key, f string, a ...interface{}) {
		if !ok && r.key == "" {
			r.key, r.why = key, fmt.Sprintf(f, a...)
		}
	}
	if r.bad != "" {
		no(false, strings.SplitN(r.bad, ":", 2)[0], "%s", r.bad)
	}
	no(r.i >= len(r.trace), "goes-on", "after %s (failed: %v) nothing more should happen", r.over, r.failed)
	if strings.HasPrefix(r.over, "end of input") {
		no(t.Code() != 0, "eof-code", "%s: exit status 0", r.over)
	}
	if strings.HasPrefix(r.over, "ended") && !w.Faulted() {
		no(false, "passed-end", "ticat %s, without a pause or an execution", r.over)
	}
	if r.over == "" && !r.failed && !w.Faulted() {
		no(t.Code() == 0, "code", "exit status %d", t.Code())
	}
	if t.OK() && w.Faulted() {
		no(r.over == "" && !r.failed, "code-fault", "exit status 0, but: %s %v", r.over, r.failed)
	}
}

func traceStr(tr []ptok, at int) string {
	var out []string
	for i, k := range tr {
		s := k.name
		if k.pause {
			s = "<" + k.ans + ">"
		}
		if i == at {
			s = "!!" + s
		}
		out = append(out, s)
	}
	return strings.Join(out, " ")
}

// runConfirm: commands that ask before they overwrite something.
func runConfirm(w *W) {
	ch := w.Ch
	for _, n := range []string{"k1", "k2", "kpre", "kpost"} {
		w.Script(n, "out x\n")
	}
	w.FlowFile(flowsDir, "fa", "k1")
	w.FlowFile(flowsDir, "fb", "k2")
	w.FlowFile(flowsDir, "fc", "k1 : k2")
	w.AddMods()
	var args []string
	quick := true // kpost is not run
	changed := "fb"
	switch ch.N(4) {
	case 0, 1:
		args = []string{"kpre", ":", "flow.rename", "src=fa", "dest=fb", ":", "kpost"}
		quick = false
	case 2:
		args = []string{"flow.save", "cmd=fb", ":", "k1", ":", "k1"}
	case 3:
		args = []string{"flow.save", "cmd=fnew", ":", "k1", ":", "nosuchthing"}
		changed = "fnew"
	}
	if len(w.Fails) > 0 {
		return
	}
	w.Hist = nil
	w.Sample = strings.Join(args, " ")
	was := w.S.FS.Tree(flowsDir)
	in := w.S.NewInput()
	in.Lines = true
	open, asked, said := false, 0, ""
	same := func(when string) {
		now := w.S.FS.Tree(flowsDir)
		for _, f := range sortedKeys(was) {
			w.Check(now[f] == was[f], "confirm-early", "%s %s has changed: %q -> %q (faults %v)", when, f, clip(was[f], 80), clip(now[f], 80), w.S.Fired)
		}
		w.Check(len(now) <= len(was), "confirm-early", "%s there are new files: %v", when, sortedKeys(now))
		w.Check(len(w.evsOf("kpost")) == 0, "confirm-early", "%s kpost was run", when)
	}
	var t *TP
	in.OnBlock = func() {
		if open {
			return
		}
		open = true
		asked++
		if said == "y" {
			// without its modules ticat sees a broken flow: a second question
			w.Check(w.Faulted(), "confirm-again", "ticat asks again after the answer y")
			said = ""
		}
		a := pick(ch, "", "n", "no", "x", " y", "ok", "1")
		if ch.P(2) || asked > 6 {
			a = pick(ch, "y", "Y", "yes", "eof")
		}
		w.S.After(1e6+int64(ch.N(3))*3e9, func() {
			same("while ticat waits for the answer")
			open = false
			if a == "eof" {
				said = "eof"
				in.CloseWrite(w.S)
				return
			}
			if a != "" && (a[0] == 'y' || a[0] == 'Y') {
				said = "y"
			}
			in.Feed(w.S, a+"\n")
		})
	}
	t = w.Start(Opt{Faulty: true, In: in}, args...)
	if !w.MustEnd(t, "hang") {
		return
	}
	w.Quiet()
	if changed == "fnew" && asked > 0 {
		w.Probe("confirm-parse")
	}
	if said != "y" {
		same("without the answer y")
		w.Check(t.Code() != 0, "confirm-code", "the exit status is 0 though the answer was %q (asked %d times; faults %v)", said, asked, w.S.Fired)
		if said == "eof" {
			w.Probe("confirm-eof")
		}
		return
	}
	if w.Faulted() {
		return
	}
	w.Probe("confirm-yes")
	w.Check(t.Code() == 0, "confirm-code", "exit status %d after the answer y: %s", t.Code(), lastOf(t.All.String(), 500))
	now := w.S.FS.Tree(flowsDir)
	f := ""
	for k := range now {
		if strings.Contains(k, changed+".tiflow") {
			f = k
		}
	}
	w.Check(f != "" && now[f] != was[f], "confirm-done", "after the answer y the flow %s is not written: %v", changed, sortedKeys(now))
	w.Check(quick || len(w.evsOf("kpost")) == 1, "confirm-done", "kpost did not run after the answer y")
}
