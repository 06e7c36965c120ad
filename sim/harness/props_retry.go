package main

import (
	"fmt"
	"strings"
)

func init() {
	reg(&Prop{ID: "C11", Level: "exploration", Run: runC11, Kinds: anyKinds, Variants: 4, Double: 10, OpP: []float64{0, 0.1},
		Rule:   "Flows (nested, scripts with sub-flows, repeats, nested ticat calls, background commands) fail or are killed at any step, then are retried several times, by id or as the last one, while causes of failures go away; what each retry runs and the env each script sees is compared with a reference run over an independent reading of the session record.",
		Probes: []string{"failed", "crash", "retry-ok", "retry-failed", "retry-of-retry", "partial-subflow", "env-checked", "nothing-left", "bg-retried", "bg-skipped", "local-value", "break", "skipped-before", "odd", "template-value"}})
}

// ---- the reference model of a retry ----------------------------------------------

type retryRef struct {
	broken map[string]bool
	env    map[string]string // the user's env values of the session
	starts []string
	envs   []map[string]string
	locals []map[string]string
	again  map[string]bool // commands run again after having been run
}

// merge of the values given for this command only
func (r *retryRef) view() map[string]string {
	m := cpMap(r.env)
	for _, l := range r.locals {
		for k, v := range l {
			m[k] = v
		}
	}
	return m
}

func (r *retryRef) apply(c *gcmd) {
	for _, s := range c.sets {
		i := strings.Index(s, "=")
		if s[i+1:] == "--" {
			delete(r.env, s[:i])
		} else {
			r.env[s[:i]] = s[i+1:]
		}
	}
}

// flow runs the commands that are not recorded as succeeded in rec.
func (r *retryRef) flow(os []*occ, rec []*rcmd) bool {
	i := 0
	for _, o := range os {
		if o.c.kind == ckBuiltin && o.c.form != 0 {
			continue // nothing to execute, so nothing is recorded
		}
		var m *rcmd
		if i < len(rec) {
			m = rec[i]
		}
		i++
		var loc map[string]string
		if o.pre != "" {
			loc = parseKV(strings.TrimSuffix(strings.TrimPrefix(o.pre, "{"), "} "))
			r.locals = append(r.locals, loc)
		}
		ok := r.one(o, m)
		if loc != nil {
			r.locals = r.locals[:len(r.locals)-1]
		}
		if !ok && !o.errOK {
			return false
		}
	}
	return true
}

func (r *retryRef) one(o *occ, m *rcmd) bool {
	c := o.c
	var sub []*rcmd
	if m != nil && m.Sub != nil {
		sub = m.Sub.Cmds
	}
	done := m != nil && m.Result == "OK"
	if done && m.Sub == nil {
		r.apply(c)
		if c.kind == ckNested {
			r.nested(c, true)
		}
		return true
	}
	switch c.kind {
	case ckBuiltin:
		return c.fail == ""
	case ckFlow, ckRepeat:
		return r.flow(c.sub, sub)
	case ckFileFlow:
		if !r.flow(c.sub, sub) {
			return false
		}
		if done {
			r.apply(c)
			return true
		}
	}
	r.starts = append(r.starts, base(c.name))
	r.envs = append(r.envs, r.view())
	bad := r.broken[c.name] && c.fail == "cond"
	save := cpMap(r.env)
	r.apply(c)
	if c.kind == ckNested && !r.nested(c, false) {
		bad = true
	}
	if bad && !o.errOK {
		r.env = save
	}
	return !bad
}

// nested: skip only applies what the scripts changed.
func (r *retryRef) nested(c *gcmd, skip bool) bool {
	loc := r.locals
	// the values given for this command only are ordinary ones in the ticat it calls
	defer func() { r.locals = loc }()
	b := r.broken
	if skip {
		st, ev := r.starts, r.envs
		r.broken = nil
		defer func() { r.starts, r.envs, r.broken = st, ev, b }()
	}
	for _, n := range c.nest {
		if !r.flow(n, nil) {
			return false
		}
	}
	return true
}

// masksOf resolves the record of a session to what a retry of it goes by: the
// record of the flow itself, if it is a retry.
func (w *W) masksOf(dir string, depth int) (rec []*rcmd, ok bool) {
	data, has := w.S.FS.Get(dir + "/status")
	if !has || depth > 8 {
		return nil, false
	}
	r := parseStatus(string(data))
	if r.Flow == "" || r.Bad != "" {
		return nil, false
	}
	cmds, target := r.Cmds, w.retried[dir]
	if len(cmds) == 0 && target != "" {
		return w.masksOf(target, depth+1)
	}
	for len(cmds) > 0 && strings.HasPrefix(cmds[0].Name, "sessions.") {
		if cmds[0].Sub == nil || len(cmds[0].Sub.Cmds) == 0 {
			return w.masksOf(target, depth+1)
		}
		cmds, target = cmds[0].Sub.Cmds, w.retried[target]
	}
	return w.bgMasks(dir, cmds), true
}

// bgMasks replaces background commands by their own records.
func (w *W) bgMasks(dir string, in []*rcmd) []*rcmd {
	var out []*rcmd
	for _, c := range in {
		if c.Tid != "" {
			b := w.checkRecordQuiet(dir + "/" + c.Tid)
			if b != nil && len(b.Cmds) == 1 {
				c = b.Cmds[0]
			} else {
				c = &rcmd{Name: c.Name}
			}
		}
		out = append(out, c)
	}
	return out
}

func runC11(w *W) {
	ch := w.Ch
	w.retried = map[string]string{}
	o := stdGen
	o.maxTop, o.errOK, o.quiet, o.nostart = 3, 0, false, false
	o.fails = pick(ch, 3, 5)
	o.failKinds = []string{"cond"}
	if ch.P(4) {
		o.errOK = 8
	}
	nset := 0
	odd := ch.P(4)
	o.body = func(w *W, c *gcmd) {
		for ch.P(2) && len(c.sets) < 3 {
			nset++
			k := vkn(ch.N(5))
			v := pick(ch, fmt.Sprintf("v%d", nset), fmt.Sprintf("v%d", nset), fmt.Sprintf("v%d x=y", nset), "--")
			if odd && ch.P(3) {
				v = pick(ch, "<cmd>k1</cmd>", "</env-start>", "    </flow>", "<cmd-result>OK</cmd-result>", "a\\b", "\\n")
				if ch.Bool() {
					v = oddVals[ch.N(len(oddVals))]
				}
				w.Probe("odd")
				id := fmt.Sprintf("s%d", nset)
				w.setVals[id] = k + "=" + v
				c.sets = append(c.sets, k+"="+v)
				c.body = append(c.body, "setval "+id)
				continue
			}
			c.sets = append(c.sets, k+"="+v)
			c.body = append(c.body, "raw "+k+"="+v)
		}
	}
	p := w.genProgram(o)
	// builtins must not fail for good
	broken := map[string]bool{}
	for _, c := range p.cmds {
		if c.kind == ckBuiltin && c.fail != "" {
			c.fail, c.text = "", "noop"
		}
		if c.fail == "cond" {
			broken[c.name] = true
			w.S.FS.Put("/tmp/broken-"+c.name, "")
		}
	}
	// values for one command only
	for i, x := range p.top {
		if i > 0 && ch.P(5) && x.c.kind != ckBuiltin {
			x.pre = fmt.Sprintf("{vk.l%d=%s} ", i, pick(ch, "only", "only", "only", "[[vk0]]", "[[vk.no]]", "#x", "a[[", "[[*vk0*]]"))
			if strings.Contains(x.pre, "[[") {
				w.Probe("template-value")
			}
			w.Probe("local-value")
		}
	}
	// the user skips commands at break points
	stdin := ""
	var named []string
	for _, c := range p.cmds {
		if c.kind != ckBuiltin && c.kind != ckRepeat {
			named = append(named, c.name)
		}
	}
	if ch.P(4) && len(named) > 0 {
		at := pick(ch, named...)
		if ch.P(3) {
			at += "," + pick(ch, named...)
		}
		b := &gcmd{kind: ckBuiltin, name: "break.at", text: "break.at break-points=" + at}
		p.top = append([]*occ{{c: b}}, p.top...)
		for i := 1 + ch.N(4); i > 0; i-- {
			stdin += pick(ch, "s", "s", "s", "d", "c", "t", "q") + "\n"
		}
		stdin += strings.Repeat("c\n", 60)
		w.Probe("break")
	}
	var bgs []*gcmd
	var pre []string
	if ch.P(4) {
		for i := 0; i <= ch.N(2); i++ {
			c := &gcmd{name: fmt.Sprintf("kbg%d", i)}
			if ch.P(2) {
				c.fail = "cond"
				broken[c.name] = true
				w.S.FS.Put("/tmp/broken-"+c.name, "")
			}
			if ch.P(2) { // a flow in the background
				in := &gcmd{name: c.name + "x", fail: c.fail}
				in2 := &gcmd{name: c.name + "y"}
				if c.fail != "" {
					broken[in.name] = true
					w.S.FS.Put("/tmp/broken-"+in.name, "")
				}
				c.fail = ""
				in2.kind, in.kind = ckScript, ckScript
				c.kind = ckFlow
				c.sub = []*occ{{c: in2}, {c: in}}
				for _, x := range []*gcmd{in, in2} {
					x.text = x.name
					w.installCmd(x, nil)
				}
			}
			c.text = c.name
			w.installCmd(c, nil)
			bgs = append(bgs, c)
			pre = append(pre, c.name, "%delay=0", ":")
		}
	}
	p.install()
	saved := map[string]string{}
	if ch.P(3) {
		saved["vk0"], saved["vk4"] = "s0", "s4"
	}
	w.AddMods()
	for _, k := range sortedKeys(saved) {
		w.Setup("env.set", "key="+k, "value="+saved[k], ":", "env.save")
	}
	if len(w.Fails) > 0 {
		return
	}
	args := append(pre, argsOf(p.top)...)
	w.Sample = clip(strings.Join(args, " "), 300)
	env0 := cpMap(saved)
	t := w.Start(Opt{Faulty: true, Stdin: stdin}, args...)
	if !w.MustEnd(t, "hang") {
		return
	}
	w.Quiet()
	if t.P.Crashed {
		w.Probe("crash")
	} else if !t.OK() {
		w.Probe("failed")
	}
	dir := w.sessionOf(t)
	if dir == "" || w.recordLost() {
		return
	}
	w.S.FaultWin = false
	// with the record of the env a command began with torn off, it begins with
	// the env of now; what a command the user had skipped changes when a retry
	// runs it is lost for the commands recorded after it
	envFaulted := len(w.S.Fired) > 0 && !t.P.Crashed || w.FaultKind("crash-torn")
	skipped := strings.Contains(stdin, "s")
	if len(saved) > 0 && len(bgs) == 0 && ch.P(4) { // the saved env is changed in the meantime
		w.Setup("env.set", "key=vk4", "value=later", ":", "env.save")
		saved["vk4"] = "later"
	}
	cur := dir
	first := true
	lastDir := dir
	for round := 0; round < 5; round++ {
		target := cur
		if round > 0 && ch.P(3) {
			target = dir
		}
		repair := round >= 3 || ch.P(3)
		for _, n := range sortedKeys(broken) {
			if repair || ch.P(2) {
				delete(broken, n)
				w.S.FS.RemoveTree("/tmp/broken-" + n)
			}
		}
		rec, ok := w.masksOf(target, 0)
		if !ok {
			return // nothing was recorded: there is nothing to retry
		}
		if target != dir {
			w.Probe("retry-of-retry")
		}
		kind := ch.N(3)
		cmd := []string{"sessions.retry", "session-id=" + target[len(sessDir)+1:]}
		st := parseStatus(str(w.S.FS.Get(target + "/status")))
		if target == lastDir && kind == 1 && !first {
			cmd = []string{"sessions.last.retry"}
		} else if target == lastDir && kind == 2 && st.Result != "OK" && len(rec) > 0 {
			cmd = []string{"sessions.error.retry"}
		}
		for _, c := range rec {
			if c.Sub != nil && c.Result != "OK" {
				w.Probe("partial-subflow")
			}
		}
		ref := &retryRef{broken: broken, env: cpMap(env0), again: map[string]bool{}}
		if len(rec) == 0 { // it begins only now
			env0 = cpMap(saved)
			ref.env = cpMap(saved)
		}
		// background commands come first
		var wantBg []string
		bgOK := true
		bgRec := rec
		if len(bgRec) > len(bgs) {
			bgRec = bgRec[:len(bgs)]
		}
		for i, b := range bgs {
			r2 := &retryRef{broken: broken, env: map[string]string{}, again: map[string]bool{}}
			var m []*rcmd
			if i < len(bgRec) {
				m = bgRec[i : i+1]
			}
			if !r2.flow([]*occ{{c: b}}, m) {
				bgOK = false
			}
			if len(r2.starts) > 0 {
				w.Probe("bg-retried")
			} else if i < len(bgRec) {
				w.Probe("bg-skipped")
			}
			wantBg = append(wantBg, r2.starts...)
		}
		var fg []*rcmd
		if len(rec) > len(bgs) {
			fg = rec[len(bgs):]
		}
		wantOK := ref.flow(p.top, fg)
		w.S.Sleep(1e9)
		n0 := len(w.Hist)
		for _, c := range rec {
			if c.Result == "skipped" {
				w.Probe("skipped-before")
			}
		}
		v := w.Start(Opt{Stdin: strings.Repeat("c\n", 200)}, cmd...)
		if !w.MustEnd(v, "retry-hang") {
			return
		}
		w.Quiet()
		var got, gotBg []string
		var envs []*Ev
		for _, e := range w.Hist[n0:] {
			if strings.HasPrefix(e.Name, "kbg") {
				gotBg = append(gotBg, e.Name)
				continue
			}
			got = append(got, e.Name)
			envs = append(envs, e)
		}
		desc := fmt.Sprintf("%v of the session recorded as [%s], with %v still broken (faults %v)", cmd, recStr(rec), sortedKeys(broken), w.S.Fired)
		if !w.Check(eqStrs(got, ref.starts), "retry-runs", "%s ran %v, must run %v (exit %d): %s", desc, got, ref.starts, v.Code(), clip(lastOf(v.All.String(), 600), 600)) {
			return
		}
		if len(bgs) > 0 {
			// the ones in the background are in no order with each other; what the main flow does not reach is not scheduled, but they come first
			if !w.Check(sameSet(gotBg, wantBg) || !v.OK() && subSet(gotBg, wantBg), "retry-bg", "%s ran %v in the background, must run %v", desc, gotBg, wantBg) {
				return
			}
		}
		w.Check(v.OK() == (wantOK && bgOK), "retry-exit", "%s ended with %d, must succeed: %v: %s", desc, v.Code(), wantOK && bgOK, clip(lastOf(v.All.String(), 600), 600))
		if len(w.Fails) > 0 {
			return
		}
		if len(got) == 0 && wantOK {
			w.Probe("nothing-left")
		}
		if v.OK() {
			w.Probe("retry-ok")
		} else {
			w.Probe("retry-failed")
		}
		if o.errOK == 0 && !envFaulted && !skipped {
			for i, e := range envs {
				want := ref.envs[i]
				if e.Env == nil {
					continue
				}
				have := vkOf(e.Env)
				w.Probe("env-checked")
				if !w.Check(eqMap(have, want), "retry-env", "in %s, %s sees %s; without the failure it would see %s (%s)", desc, e.Name, kvStr(have), kvStr(want), diffMap(want, have)) {
					return
				}
			}
		}
		d := w.sessionOf(v)
		if !w.Check(d != "", "retry-no-session", "%s left no session", desc) {
			return
		}
		w.retried[d] = target
		cur, lastDir = d, d
		first = false
		if v.OK() && round >= 1 {
			return
		}
	}
}

// a failing main flow ends the process while others may still be running
func subSet(a, b []string) bool {
	m := map[string]int{}
	for _, x := range b {
		m[x]++
	}
	for _, x := range a {
		m[x]--
		if m[x] < 0 {
			return false
		}
	}
	return true
}

func sameSet(a, b []string) bool {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

func recStr(rec []*rcmd) string {
	f := &rflow{Cmds: rec}
	return f.String()
}
