package main

import (
	"fmt"
	"strings"
)

func init() {
	reg(&Prop{ID: "C01", Level: "exploration", Run: runC01, Kinds: anyKinds, Variants: 3, Double: 20, OpP: []float64{0, 0.05},
		Rule:   "Flows of scripts, flow files, file-and-flow commands, nested ticat calls, repeats and builtins, with failing commands and %err; the sequence of script starts is compared with a reference interpreter, with process, file and exec faults injected in the fault variants.",
		Probes: []string{"failed", "err-allowed", "nested", "repeat", "file-n-flow", "form", "rejected", "replace", "forest", "join", "nostart", "shown", "fault-changed-run"}})
	reg(&Prop{ID: "C02", Level: "exploration", Run: runC02, Kinds: anyKinds, Variants: 3, Double: 20, OpP: []float64{0, 0.05},
		Rule:   "As for C01 plus background commands, unknown commands, failing builtins and unusable session directories; the exit status is compared with the reference interpreter and with the recorded history.",
		Probes: []string{"failed", "bg-failed", "bg-flow", "bg-delay", "unknown", "template", "ok", "fault-nonzero"}})
}

func (w *W) probeProgram(p *program) {
	for _, c := range p.cmds {
		switch c.kind {
		case ckNested:
			w.Probe("nested")
		case ckRepeat:
			w.Probe("repeat")
		case ckFileFlow:
			w.Probe("file-n-flow")
		}
		if c.fail == "nostart" {
			w.Probe("nostart")
		}
	}
}

func anyErrOK(os []*occ) bool {
	for _, o := range os {
		if o.errOK || anyErrOK(o.c.sub) {
			return true
		}
		for _, n := range o.c.nest {
			if anyErrOK(n) {
				return true
			}
		}
	}
	return false
}

var stdGen = genOpt{maxTop: 4, maxLen: 3, maxDepth: 2, maxCmds: 10, fails: 7, errOK: 4, builtins: true, nested: true, fileFlows: true, repeat: true, nostart: true, quiet: true, forms: true}

func (w *W) noStartRunner() {
	old := str(w.S.FS.Get(envFile))
	w.S.FS.Put(envFile, old+"sys.ext.exec.zz=no-such-runner\nsys.ext.exec.mysh=mysh -x\n")
}

func runC01(w *W) {
	o := stdGen
	o.hide, o.join = true, true
	p := w.genProgram(o)
	reject := ""
	if w.Ch.P(6) {
		reject = w.rejecter(p)
	} else if w.Ch.P(6) {
		p.addReplace()
	}
	p.install()
	w.noStartRunner()
	w.AddMods()
	w.probeProgram(p)
	w.Sample = strings.Join(argsOf(p.top), " ")
	for _, c := range p.cmds {
		if len(c.sub) > 0 && c.kind != ckRepeat {
			w.Sample += fmt.Sprintf(" ; %s = %s", c.name, flowStr(c.sub))
		}
		for _, n := range c.nest {
			w.Sample += fmt.Sprintf(" ; %s calls %s", c.name, flowStr(n))
		}
		if c.fail != "" {
			w.Sample += " ; " + c.text + " fails (" + c.fail + ")"
		}
	}
	if w.Ch.P(10) {
		w.onlyShown(p, reject)
		return
	}
	ref, ok := refExec(p.top, 0, 0, nil)
	t := w.Start(Opt{Faulty: true}, argsOf(p.top)...)
	if !w.MustEnd(t, "hang") {
		return
	}
	got := w.names(0)
	if reject != "" {
		w.Probe("rejected")
		w.Check(len(got) == 0, "rejected-ran", "the flow has %s, yet %v ran (exit code %d, faults %v)", reject, got, t.Code(), w.S.Fired)
		w.Check(t.Code() != 0, "rejected-ok", "the flow has %s, yet the exit status is 0 (faults %v): %s", reject, w.S.Fired, clip(t.All.String(), 500))
		return
	}
	if !ok {
		w.Probe("failed")
	}
	if ok && anyErrOK(p.top) {
		w.Probe("err-allowed")
	}
	if !w.Faulted() {
		w.Check(eqStrs(got, ref.names()), "order", "ran %v, expected %v; exit code %d; %s", got, ref.names(), t.Code(), clip(t.All.String(), 800))
	} else {
		crash := w.FaultKind("crash")
		if !eqStrs(got, ref.names()) {
			w.Probe("fault-changed-run")
		}
		if len(w.S.Fired) == 1 {
			got = nil
			for _, e := range w.Hist {
				if !w.orphaned(e, e.Start) {
					got = append(got, e.Name)
				}
			}
			// nothing a command prints goes anywhere once its log can't be
			// written: all that is run by it fails then
			lasting := w.S.Fired[0].Op == "write" && isLog(w.S.Fired[0].Path)
			w.Check(lasting || explain(p.top, got, crash, nil), "order-fault", "ran %v, which no single failure explains; without faults %v", got, ref.names())
		}
	}
	w.checkOrder(w.Hist, "overlap")
	p.checkJoin()
}

// onlyShown: a flow that is only asked about is not run.
func (w *W) onlyShown(p *program, reject string) {
	ch := w.Ch
	w.Probe("shown")
	what := pick(ch, "desc", "desc.more", "desc.full", "+", "-", "++", "desc.dep", "desc.env-ops-check", "desc.flow", "desc.flow.more", "desc.flow.full")
	args := append(argsOf(p.top), ":", what)
	if ch.P(3) {
		args = append([]string{what, ":"}, argsOf(p.top)...)
	}
	w.Sample = "[" + what + "] " + w.Sample
	t := w.Start(Opt{Faulty: true}, args...)
	if !w.MustEnd(t, "hang") {
		return
	}
	w.Quiet()
	w.Check(len(w.Hist) == 0, "shown-ran", "the flow was only to be shown by %s, yet %v ran (faults %v)", what, w.names(0), w.S.Fired)
	w.Check(w.Faulted() || reject != "" || t.Code() == 0, "shown-code", "showing the flow by %s ends with status %d: %s", what, t.Code(), lastOf(t.All.String(), 500))
}

// rejecter puts a command which can't be run into the flow or one of its
// sub-flows; ticat sees that before it starts.
func (w *W) rejecter(p *program) string {
	ch := w.Ch
	flows := p.flows()
	f := flows[ch.N(len(flows))]
	at := ch.N(len(*f) + 1)
	c := &gcmd{kind: ckBuiltin, text: "krej"}
	what := ""
	switch ch.N(3) {
	case 0:
		what = "an unknown command"
		c.text = "kno-such-cmd"
	case 1:
		what = "a command that needs a program which isn't there"
		w.Script("krej", "out x\n", "[dep]", "no-such-tool = needed")
	case 2:
		what = "a command that reads an env key nobody wrote"
		w.Script("krej", "out x\n", "[env]", "vq.nobody = "+pick(ch, "read", "read", "read : write"))
	}
	o := &occ{c: c, errOK: ch.P(4)}
	*f = append(append(append([]*occ{}, (*f)[:at]...), o), (*f)[at:]...)
	return what
}

func runC02(w *W) {
	o := stdGen
	o.maxTop = 3
	o.hide, o.join = true, true
	p := w.genProgram(o)
	p.install()
	w.noStartRunner()
	w.AddMods()
	ref, ok := refExec(p.top, 0, 0, nil)
	args := argsOf(p.top)
	ch := w.Ch
	kind := ch.W(12, 6, 2, 2, 2, 1)
	bgFail, reach := false, ok
	pre := []string{}
	switch kind {
	case 1: // background commands
		n := 1 + ch.N(2)
		for i := 0; i < n; i++ {
			fail := ch.P(3)
			errOK := fail && ch.P(3)
			nm := fmt.Sprintf("kbg%d", i)
			body := "sleep " + pick(ch, "0", "1", "3") + "\n"
			if fail {
				body += pick(ch, "exit 4\n", "kill\n")
			}
			w.Script(nm, body)
			if ch.P(4) { // a flow with it
				w.Probe("bg-flow")
				flow := pick(ch, "noop : "+nm, nm+" : noop", "noop : noop : "+nm)
				if ch.P(4) { // delaying is not possible in the background
					flow = nm + " %delay=" + pick(ch, "0", "1") + " : noop"
					fail = true
					w.Probe("bg-delay")
				}
				nm = fmt.Sprintf("kbgf%d", i)
				w.FlowFile(modsDir, nm, flow)
			}
			pre = append(pre, nm, "%delay="+pick(ch, "0", "1", "2s"))
			if errOK {
				pre = append(pre, "%err=ok")
			}
			pre = append(pre, ":")
			if fail && !errOK {
				bgFail = true
			}
		}
		if bgFail {
			w.Probe("bg-failed")
		}
		// the scheduling commands come first, so they are always reached
	case 2: // an unknown command
		at := ch.N(2)
		if at == 0 {
			pre = append(pre, "kno-such-cmd", ":")
		} else {
			args = append(args, ":", "kno-such-cmd")
		}
		reach = false
		w.Probe("unknown")
	case 3: // the sessions directory cannot be used
		w.S.FS.Put(sessDir, "a file")
		w.Script("kses", "out x\n")
		pre = append(pre, "kses", ":")
		reach = false
	case 4: // a command that needs a tool that is not there
		w.Script("kdep", "out x\n", "[dep]", "no-such-tool = needed")
		pre = append(pre, "kdep", ":")
		reach = false
	case 5: // a value that has its own key in it can't be rendered
		w.Script("ktpl", "outn 1\n", "[args]", "a = ''")
		w.FlowFile(modsDir, "tplflow", "ktpl a=[[vt.a]]")
		vals := pick(ch, "{vt.a=[[vt.a]]}", "{vt.a=[[vt.b]]} {vt.b=[[vt.a]]}", "{vt.a=x[[vt.b]]} {vt.b=[[vt.c]]} {vt.c=[[vt.b]]}")
		reach = false
		if ch.P(3) {
			vals = pick(ch, "{vt.a=[[vt.b]][[vt.b]]} {vt.b=5}", "{vt.a=[[vt.b]]x[[vt.c]]} {vt.b=[[vt.c]]} {vt.c=6}")
			reach = ok
		}
		pre = append(pre, strings.Fields(vals)...)
		pre = append(pre, "tplflow", ":")
		w.Probe("template")
	}
	all := append(pre, args...)
	w.Sample = strings.Join(all, " ")
	quiet := false // quiet-error commands fail without a message
	for _, c := range p.cmds {
		quiet = quiet || c.quiet || strings.Contains(c.text, "dbg.error")
	}
	t := w.Start(Opt{Faulty: true}, all...)
	if !w.MustEnd(t, "hang") {
		return
	}
	want := reach && !bgFail
	if t.P.Crashed {
		return
	}
	if !w.Faulted() {
		if want {
			w.Probe("ok")
			w.Check(t.Code() == 0, "exit-ok", "everything succeeded but the exit status is %d: %s", t.Code(), clip(t.All.String(), 800))
		} else {
			w.Probe("failed")
			w.Check(t.Code() != 0, "exit-fail", "something failed but the exit status is 0: %s", clip(t.All.String(), 800))
			w.Check(quiet || hasErrText(t.All.String()), "no-message", "exit status %d without an error message: %q", t.Code(), clip(t.All.String(), 600))
		}
		return
	}
	if t.Code() != 0 {
		w.Probe("fault-nonzero")
		w.Check(quiet || hasErrText(t.All.String()), "no-message", "exit status %d without an error message after %v: %q", t.Code(), w.S.Fired, clip(t.All.String(), 600))
		return
	}
	// status 0: everything must have happened
	var got []string
	for _, e := range w.Hist {
		if !strings.HasPrefix(e.Name, "kbg") && e.Name != "ktpl" {
			got = append(got, e.Name)
		}
	}
	w.Check(want, "exit-fail", "something failed but the exit status is 0 (faults %v)", w.S.Fired)
	if !anyErrOK(p.top) && want {
		w.Check(eqStrs(got, ref.names()), "exit-missing", "exit status 0 but ran %v instead of %v (faults %v)", got, ref.names(), w.S.Fired)
	}
	for _, e := range w.Hist {
		if w.topEv(e, t) && !t.hasErrOK() && !w.Prop.nestedErr(p) {
			w.Check(e.End != 0 && e.Code == 0, "exit-script", "exit status 0 but %s ended with %d (faults %v)", e.Name, e.Code, w.S.Fired)
		}
	}
}

func (w *W) topEv(e *Ev, t *TP) bool { return e.Top == t.P.Pid }
func (t *TP) hasErrOK() bool {
	for _, a := range t.Args {
		if a == "%err=ok" {
			return true
		}
	}
	return false
}
func (p *Prop) nestedErr(pr *program) bool { return anyErrOK(pr.top) }

var errWords = []string{"err", "fail", "panic", "not ", "can't", "cannot", "unable", "invalid", "denied", "no such", "no space", "broken", "unknow", "\u26d4", "missed", "killed"}

func hasErrText(s string) bool {
	l := strings.ToLower(s)
	for _, x := range errWords {
		if strings.Contains(l, x) {
			return true
		}
	}
	return false
}
