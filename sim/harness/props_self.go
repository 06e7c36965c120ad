package main

import (
	"fmt"
	"strings"
)

func init() {
	reg(&Prop{ID: "C24", Level: "exploration", Run: runC24, Kinds: anyKinds, Variants: 4, Double: 15, StepP: []float64{0, 0.0005}, OpP: []float64{0.02, 0.1, 0.3},
		Rule:   "A few commands of all sorts carry a tag (scripts, flows, scripts with sub-flows, nested calls and nested forests among them, all changing the same few env keys), others do not or come from another source; selftest runs them one after the other or all at once, with failing ones and faults; which ran, what env each script was handed (reference model), the command behind the selftest, the exit status and a retry are judged.",
		Probes: []string{"parallel", "sequential", "failing", "failing-parallel", "after", "other-tag", "source", "forest", "no-tests", "cut-short", "below-a-test"}})
}

// selfTest is a command selftest has to run.
type selfTest struct {
	c    *hcmd
	seen []hseen
	fail bool
}

// matchSelf says whether got can be the run of tests one after the other, in
// some order, stopping at the first that fails; with part, anything cut short.
func matchSelf(tests []*selfTest, used []bool, got []*Ev, part bool, why *string) bool {
	if len(got) == 0 {
		if part {
			return true
		}
		for i, t := range tests {
			if !used[i] && len(t.seen) > 0 {
				*why = fmt.Sprintf("%s did not run", t.c.name)
				return false
			}
		}
		return true
	}
	for i, t := range tests {
		if used[i] || len(t.seen) == 0 {
			continue
		}
		n, ok := 0, true
		for n < len(got) && n < len(t.seen) {
			if d := sameSeen(got[n], t.seen[n]); d != "" {
				ok = false
				if n > 0 || *why == "" {
					*why = d
				}
				break
			}
			n++
		}
		if !ok {
			continue
		}
		if n < len(t.seen) {
			if part {
				return true
			}
			*why = fmt.Sprintf("%s was not run to its end", t.c.name)
			continue
		}
		if t.fail {
			if n == len(got) {
				return true
			}
			*why = fmt.Sprintf("%s ran behind the failed %s", got[n].Name, t.c.name)
			continue
		}
		used[i] = true
		if matchSelf(tests, used, got[n:], part, why) {
			return true
		}
		used[i] = false
	}
	if *why == "" {
		*why = got[0].Name + " is none of them"
	}
	return false
}

func sameSeen(e *Ev, s hseen) string {
	if e.Name != s.name {
		return fmt.Sprintf("%s ran in place of %s", e.Name, s.name)
	}
	if e.EnvErr != "" {
		return fmt.Sprintf("%s could not read the session env: %v", e.Name, e.EnvErr)
	}
	if g := handKeys(e.Env); !eqMap(g, s.env) {
		return fmt.Sprintf("%s is handed %s, expected %s: %s", e.Name, kvStr(g), kvStr(s.env), diffMap(s.env, g))
	}
	return ""
}

func hnames(evs []*Ev) string {
	var out []string
	for _, e := range evs {
		out = append(out, e.Name)
	}
	return strings.Join(out, " ")
}

func runC24(w *W) {
	ch := w.Ch
	p := &hprog{w: w}
	p.plain = ch.Bool()
	p.fails = ch.P(4)
	tag := "selftest"
	if ch.P(4) {
		tag = "@mine"
		w.Probe("other-tag")
	}
	parallel := ch.P(3)
	failing := ch.P(3)
	faulty := !p.fails
	source := ch.P(4)
	if source {
		w.Probe("source")
	}
	var tests []*selfTest
	for n := ch.N(4); n >= 0; n-- {
		c := p.cmd(0)
		if c.kind > 2 || c.tags != "" {
			continue
		}
		if c.kind == 0 && c.fail == "" && failing && ch.P(2) {
			p.n++
			c.fail = "failif /tmp/broken"
		}
		if c.kind <= 2 && c.pre == "" && len(tests) > 0 && ch.P(3) {
			if d := tests[ch.N(len(tests))].c; d.pre == "" {
				c.name = d.name + "." + c.name
				w.Probe("below-a-test")
			}
		}
		c.tags = tag
		switch ch.N(3) {
		case 1:
			c.tags = "x1 " + tag
		case 2:
			c.tags = tag + " selftester"
		}
		if c.fail == "failif /tmp/broken" || c.fail == "in" || c.fail == "exit 3" {
			if !failing {
				// one whose failure somebody else allows
				c.tags = ""
				continue
			}
		}
		tests = append(tests, &selfTest{c: c, fail: c.fail != ""})
	}
	// others, which are not to run on their own
	for _, c := range p.cmds {
		if c.tags == "" && ch.P(3) {
			c.tags = pick(ch, "selftestx", "self", "@ready selftest-not")
			if tag != "selftest" {
				c.tags = pick(ch, "selftest", "mine", "@min")
			}
		}
		if source && ch.P(2) && c.kind <= 2 {
			c.dir2 = true
		}
	}
	// a command and those below it come from one source
	for i := range p.cmds {
		for _, d := range p.cmds {
			if strings.HasPrefix(p.cmds[i].name, d.name+".") {
				p.cmds[i].dir2 = d.dir2
			}
		}
	}
	p.n++
	after := &hcmd{name: fmt.Sprintf("k%d", p.n), depth: 9, forest: off19}
	p.cmds = append(p.cmds, after)
	args := []string{"noop", ":"}
	env0, saved := map[string]string{}, map[string]string{}
	env := ""
	for i := 1; i <= 4; i++ {
		switch ch.W(2, 1, 1) {
		case 1:
			k, v := fmt.Sprintf("vk%d", i), fmt.Sprintf("saved%d", i)
			env += k + "=" + v + "\n"
			env0[k] = v
			saved[k] = v
		case 2:
			k, v := fmt.Sprintf("vk%d", i), fmt.Sprintf("set%d", i)
			args = append(args, "env.set", "key="+k, "value="+v, ":")
			env0[k] = v
		}
	}
	w.S.FS.Put(envFile, env)
	p.install()
	args = append(args, "selftest")
	if tag != "selftest" {
		args = append(args, "tag="+tag)
	}
	if parallel {
		args = append(args, "parallel=true")
		w.Probe("parallel")
	} else {
		w.Probe("sequential")
	}
	if source {
		var left []*selfTest
		in2 := ch.Bool()
		switch {
		case in2 && ch.Bool():
			args = append(args, "match-source=mods2")
		case in2:
			args = append(args, "match-source="+mods2)
		default:
			args = append(args, "filter-source="+pick(ch, "mods2", mods2))
		}
		for _, t := range tests {
			if t.c.dir2 == in2 {
				left = append(left, t)
			}
		}
		tests = left
	}
	if len(tests) == 0 {
		w.Probe("no-tests")
	}
	hasAfter := ch.P(2)
	if len(tests) == 1 && !parallel {
		hasAfter = false // a single one is run without a forest
	}
	if hasAfter {
		w.Probe("after")
		args = append(args, ":", after.name)
	}
	anyFail := false
	for _, t := range tests {
		r := &href{sess: cpMap(env0), base: cpMap(saved), saved: saved, seen: &t.seen, w: w}
		r.one(&hocc{c: t.c})
		anyFail = anyFail || t.fail
	}
	if len(w.Fails) > 0 {
		return
	}
	w.S.FS.Put("/tmp/broken", "x")
	w.Sample = clip(strings.Join(args, " "), 300)
	w.AddMods()
	if source {
		w.S.FS.MkAll(mods2)
		w.Setup("hub.add.local", "path="+mods2)
	}
	w.Hist = nil
	t := w.Start(Opt{Faulty: faulty}, args...)
	if !w.MustEnd(t, "hang") {
		return
	}
	w.Quiet()
	if anyFail {
		if parallel {
			w.Probe("failing-parallel")
		} else {
			w.Probe("failing")
		}
	}
	if w.Faulted() && strings.Contains(t.All.String(), "loading failed") {
		return // tests are missing, which it says
	}
	var evs []*Ev
	ranAfter := false
	var afterEv *Ev
	for _, e := range w.Hist {
		if w.Faulted() && (w.orphaned(e, e.Start) || t.P.Dead && t.P.EndSeq < e.Start) {
			continue
		}
		if e.Name == after.name {
			ranAfter, afterEv = true, e
			d := sameSeen(e, hseen{after.name, env0})
			w.Check(d == "", "after-env", "%s behind the selftest: %s", after.name, d)
			continue
		}
		evs = append(evs, e)
	}
	desc := fmt.Sprintf("[%s] ran [%s] (exit %d, faults %v)", w.Sample, hnames(evs), t.Code(), w.S.Fired)
	if afterEv != nil {
		for _, e := range evs {
			w.Check(e.End != 0 && e.End < afterEv.Start || w.orphaned(e, afterEv.Start) || w.Faulted() && e.End == 0, "after-early", "%s; %s began before %s ended", desc, after.name, e.Name)
		}
	}
	part := w.Faulted()
	if part && len(evs) > 0 {
		w.Probe("cut-short")
	}
	if parallel {
		// every one has a session of its own
		by := map[string][]*Ev{}
		for _, e := range evs {
			by[e.Session] = append(by[e.Session], e)
		}
		groups := sortedKeys(by)
		if !w.Check(matchGroups(tests, make([]bool, len(tests)), by, groups, part), "parallel", "%s, in the sessions %v; expected once each: %s", desc, groupStr(by), testStr(tests)) {
			return
		}
		if !part {
			w.Check(ranAfter == hasAfter, "after", "%s; the command behind it ran: %v", desc, ranAfter)
			if anyFail {
				w.Check(hasErrText(t.All.String()), "silent", "%s, a test failed and no error is shown", desc)
			} else {
				w.Check(t.OK(), "exit", "%s, no test fails: %s", desc, clip(lastOf(t.All.String(), 500), 500))
			}
		}
		return
	}
	w.checkOrder(evs, "overlap")
	why := ""
	if !w.Check(matchSelf(tests, make([]bool, len(tests)), evs, part, &why), "sequential", "%s: %s; expected, each with the env as it was before: %s", desc, why, testStr(tests)) {
		return
	}
	if !part {
		w.Check(t.OK() == !anyFail, "exit", "%s, a test fails: %v: %s", desc, anyFail, clip(lastOf(t.All.String(), 500), 500))
		w.Check(ranAfter == (hasAfter && !anyFail), "after", "%s; the command behind it ran: %v", desc, ranAfter)
	} else {
		w.Check(!ranAfter || !anyFail, "after", "%s; the command behind it ran", desc)
	}
}

func testStr(tests []*selfTest) string {
	var out []string
	for _, t := range tests {
		var s []string
		for _, e := range t.seen {
			s = append(s, e.name+"("+kvStr(e.env)+")")
		}
		x := t.c.name + " [" + strings.Join(s, " ") + "]"
		if t.fail {
			x += " fails"
		}
		out = append(out, x)
	}
	return strings.Join(out, "; ")
}

func groupStr(by map[string][]*Ev) string {
	var out []string
	for _, g := range sortedKeys(by) {
		var s []string
		for _, e := range by[g] {
			s = append(s, e.Name+"("+kvStr(handKeys(e.Env))+")")
		}
		out = append(out, "["+strings.Join(s, " ")+"]")
	}
	return strings.Join(out, "; ")
}

func matchGroups(tests []*selfTest, used []bool, by map[string][]*Ev, groups []string, part bool) bool {
	if len(groups) == 0 {
		if part {
			return true
		}
		for i, t := range tests {
			if !used[i] && len(t.seen) > 0 {
				return false
			}
		}
		return true
	}
	evs := by[groups[0]]
	for i, t := range tests {
		if used[i] || len(evs) > len(t.seen) || len(evs) < len(t.seen) && !part {
			continue
		}
		ok := true
		for j, e := range evs {
			if sameSeen(e, t.seen[j]) != "" {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		used[i] = true
		if matchGroups(tests, used, by, groups[1:], part) {
			return true
		}
		used[i] = false
	}
	return false
}
