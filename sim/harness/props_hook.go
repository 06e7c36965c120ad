package main

import (
	"fmt"
	"strings"
)

func init() {
	reg(&Prop{ID: "C18", Level: "exploration", Run: runC18, Kinds: anyKinds, Variants: 4, Double: 15, StepP: []float64{0, 0.0005}, OpP: []float64{0, 0.02, 0.1},
		Rule:   "Sessions with any combination of done, error and exit hooks (scripts, flows, failing ones; set in the session or saved) over generated flows with nested ticat calls, background commands, and ends of all kinds: success, failing, killed, unstartable and panicking commands, quitting at a break point, end of input. The hooks which ran, their order, whether everything else had ended before, and the exit status are compared with the outcome.",
		Probes: []string{"done", "error", "hook-failed", "nested", "bg", "bg-failed", "bg-panic", "quit", "panic", "saved", "all-hooks", "flow-hook", "fault-error", "crash"}})
}

type hook struct {
	kind  string
	cmds  []string // scripts, in order
	fail  int      // index of the one that fails, -1: none
	how   string
	saved bool
}

// starts lists the hook scripts that are started when the hook runs.
func (h *hook) starts() (out []string, ok bool) {
	if h == nil {
		return nil, true
	}
	for i, c := range h.cmds {
		if i == h.fail && h.how == "nostart" {
			return out, false
		}
		out = append(out, c)
		if i == h.fail {
			return out, false
		}
	}
	return out, true
}

func runC18(w *W) {
	ch := w.Ch
	o := stdGen
	o.maxTop, o.maxCmds = 3, 7
	if ch.P(2) {
		o.fails = 0
	}
	p := w.genProgram(o)
	p.install()
	w.noStartRunner()
	env := "sys.ext.exec.zz=no-such-runner\nsys.ext.exec.mysh=mysh -x\n"
	var pre []string
	hooks := map[string]*hook{}
	for _, kind := range []string{"done", "error", "exit"} {
		if ch.P(4) {
			continue
		}
		h := &hook{kind: kind, fail: -1, saved: ch.P(3)}
		hooks[kind] = h
		n := 1 + ch.N(3)/2
		if ch.P(5) {
			h.fail = ch.N(n)
			h.how = pick(ch, "exit", "kill", "nostart")
			w.Probe("hook-failed")
		}
		var names []string
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("kh%s%d", kind, i)
			body := "out " + nm + "\n"
			if ch.P(4) {
				body += "sleep 1\n"
			}
			if i == h.fail && h.how != "nostart" {
				body += map[string]string{"exit": "exit 6\n", "kill": "kill\n"}[h.how]
			}
			if i == h.fail && h.how == "nostart" {
				w.S.FS.Put(modsDir+"/"+nm+".zz", body)
				w.S.FS.Put(modsDir+"/"+nm+".zz.ticat", "help = x\n")
			} else {
				w.Script(nm, body)
			}
			h.cmds = append(h.cmds, nm)
			names = append(names, nm)
			if ch.P(4) {
				names = append(names, "noop")
			}
		}
		flow := strings.Join(names, " : ")
		if len(names) > 1 && (!h.saved || ch.Bool()) {
			w.FlowFile(modsDir, "fh"+kind, flow)
			flow = "fh" + kind
			w.Probe("flow-hook")
		}
		if h.saved {
			env += "sys.event.hook." + kind + "=" + flow + "\n"
			w.Probe("saved")
		} else if ch.Bool() {
			pre = append(pre, "hook."+kind, "flow="+flow, ":")
		} else {
			pre = append(pre, "env.set", "key=sys.event.hook."+kind, "value="+flow, ":")
		}
	}
	w.S.FS.Put(envFile, env)
	if len(hooks) == 3 {
		w.Probe("all-hooks")
	}
	w.Script("kfirst", "out first\n")
	pre = append(pre, "kfirst", ":")
	ref, ok := refExec(p.top, 0, 0, nil)
	wantNames := append([]string{"kfirst"}, ref.names()...)
	bgFail, bg := false, map[string]bool{}
	for i := ch.N(6) - 3; i > 0; i-- {
		if ch.P(6) {
			bgFail = true
			pre = append(pre, pick(ch, "dbg.panic", "dbg.error", "dbg.panic.cmd"), "%delay="+pick(ch, "0", "1s"), ":")
			w.Probe("bg-panic")
			continue
		}
		nm := fmt.Sprintf("kbg%d", i)
		body := "sleep " + pick(ch, "0", "1", "3") + "\nout bg\n"
		if ch.P(3) {
			body += pick(ch, "exit 4\n", "kill\n")
			bgFail = true
			w.Probe("bg-failed")
		}
		w.Script(nm, body)
		bg[nm] = true
		pre = append(pre, nm, "%delay="+pick(ch, "0", "1", "2s"), ":")
		w.Probe("bg")
	}
	args := append(pre, argsOf(p.top)...)
	stdin := ""
	if ch.P(3) {
		switch ch.N(4) {
		case 0:
			args = append(args, ":", pick(ch, "dbg.panic", "dbg.panic.cmd", "dbg.error"))
			ok = false
			w.Probe("panic")
		case 1:
			w.Script("kguard", "out guard\n")
			args = append(append([]string{"break.at", "break-points=kguard", ":"}, args...), ":", "kguard")
			stdin = pick(ch, "q\n", "x\nq\n", "zz\n")
			ok = false
			w.Probe("quit")
		case 2:
			args = append(args, ":", "env.assert.equal", "key=vq.none", "value=x")
			ok = false
		case 3:
			args = append(args, ":", "ksure", ":", "noop")
			w.Script("ksure", "out sure\n")
			if ok {
				wantNames = append(wantNames, "ksure")
			}
		}
	}
	for _, c := range p.cmds {
		if c.kind == ckNested {
			w.Probe("nested")
		}
	}
	w.AddMods()
	if len(w.Fails) > 0 {
		return
	}
	w.Hist = nil
	w.Sample = clip(strings.Join(args, " "), 400)
	t := w.Start(Opt{Faulty: true, Stdin: stdin}, args...)
	if !w.MustEnd(t, "hang") {
		return
	}
	w.Quiet()

	var main, hooked []string
	var hookStart int64
	bgStarted := map[string]int{}
	hookEnded := true
	for _, e := range w.Hist {
		switch {
		case strings.HasPrefix(e.Name, "kh"):
			if hookStart == 0 {
				hookStart = e.Start
			}
			hooked = append(hooked, e.Name)
			if e.End == 0 || e.Code != 0 {
				hookEnded = false
			}
			if e.PPid != t.P.Pid {
				w.Fail("nested-hook", "the hook %s was run by a nested ticat call (pid %d)", e.Name, e.PPid)
			}
		case bg[e.Name]:
			bgStarted[e.Name]++
		default:
			main = append(main, e.Name)
		}
	}
	for _, e := range w.Hist {
		if strings.HasPrefix(e.Name, "kh") || hookStart == 0 {
			continue
		}
		seq, _, yes := e.ended()
		if bg[e.Name] && (!ok || w.Faulted()) {
			continue // background commands are cut off by a failing main flow
		}
		if w.orphaned(e, hookStart) {
			continue
		}
		if e.Start > hookStart {
			w.Fail("early", "%s starts after the hook %s: %v", e.Name, hooked[0], w.names(0))
		} else if !yes || seq > hookStart {
			w.Fail("early", "%s had not ended when the hook %s started", e.Name, hooked[0])
		}
	}
	expect := func(good bool) (out []string, hookOK bool) {
		k := "error"
		if good {
			k = "done"
		}
		a, x := hooks[k].starts()
		b, y := hooks["exit"].starts()
		return append(append([]string{}, a...), b...), x && y
	}
	// never both, and never twice
	count := map[string]int{}
	for _, h := range hooked {
		count[h]++
		w.Check(count[h] == 1, "twice", "the hook %s ran %d times", h, count[h])
	}
	if hooks["done"] != nil && hooks["error"] != nil {
		w.Check(count["khdone0"] == 0 || count["kherror0"] == 0, "both", "the done hook and the error hook both ran: %v", hooked)
	}
	if len(w.Fails) > 0 {
		return
	}
	if !w.Faulted() {
		good := ok && !bgFail
		if good {
			w.Probe("done")
		} else {
			w.Probe("error")
		}
		if !w.Check(eqStrs(main, wantNames) || !ok && isPrefix(main, wantNames), "setup", "ran %v, expected %v: %s", main, wantNames, clip(t.All.String(), 600)) {
			return
		}
		want, hookOK := expect(good)
		w.Check(eqStrs(hooked, want), "hooks", "the flow succeeded: %v; the hooks %v ran, they should be %v; exit code %d: %s", good, hooked, want, t.Code(), lastOf(t.All.String(), 900))
		w.Check((t.Code() == 0) == (good && hookOK), "status", "the flow succeeded: %v, its hooks succeeded: %v, the exit status is %d", good, hookOK, t.Code())
		return
	}
	w.Check(!t.P.Panicked, "uncaught", "ticat died of a panic it did not catch: %s (faults %v)", t.P.ExitMsg, w.S.Fired)
	if t.P.Crashed || w.FaultKind("crash") && len(w.S.Fired) > 1 {
		w.Probe("crash")
		a, _ := expect(true)
		b, _ := expect(false)
		if len(w.S.Fired) == 1 {
			w.Check(isPrefix(hooked, a) || isPrefix(hooked, b), "hooks-crash", "before the crash the hooks %v ran, which are neither the beginning of %v nor of %v", hooked, a, b)
			if !ok || bgFail {
				w.Check(isPrefix(hooked, b), "hooks-crash", "the flow can't have succeeded, but the hooks %v ran before the crash", hooked)
			}
		}
		return
	}
	if len(main) == 0 || len(w.S.Fired) > 1 {
		return // maybe it had no hooks yet, maybe it was no session yet
	}
	code := t.Code()
	if code == 0 {
		want, hookOK := expect(true)
		w.Check(eqStrs(hooked, want) && hookOK && hookEnded, "hooks-fault", "the exit status is 0 but the hooks %v ran (all succeeded: %v), they should be %v; after %v", hooked, hookEnded, want, w.S.Fired)
		w.Check(ok && !bgFail, "status-fault", "the flow failed but the exit status is 0, after %v", w.S.Fired)
		return
	}
	if code == 1 || code == 255 {
		want, hookOK := expect(false)
		w.Probe("fault-error")
		if hookOK {
			w.Check(eqStrs(hooked, want), "hooks-fault", "the exit status is %d but the hooks %v ran, they should be %v; after %v: %s", code, hooked, want, w.S.Fired, lastOf(t.All.String(), 600))
		}
	}
}
