package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

func init() {
	op := []float64{0.02, 0.1, 0.3}
	st := []float64{0, 0.0005}
	reg(&Prop{ID: "C14", Level: "exploration", Run: runC14, Kinds: anyKinds, Variants: 2, Double: 15, OpP: op, StepP: st,
		Rule:   "Flows that schedule scripts, flow files, file-and-flow commands, nested ticat calls and repeats with %delay, at the top, in sub-flows and in nested ticat calls, mixed with foreground scripts, waits and failing commands; starts are counted and compared in simulated time with the moment of scheduling, the delay and the end of ticat.",
		Probes: []string{"bg-failed", "main-failed", "alone", "sub-scheduled", "nested-scheduled", "auto-off", "same-name"}})
	reg(&Prop{ID: "C15", Level: "exploration", Run: runC15, Kinds: anyKinds, Variants: 2, Double: 15, OpP: op, StepP: st,
		Rule:   "Foreground and background commands read and write the same few env keys (script writes, env.set, values for one command, mapped arguments) in random interleavings; what every script sees is compared with a model in which each background command has its own copy.",
		Probes: []string{"local", "arg", "apply", "nested", "bg-set", "main-set", "main-rm"}})
	reg(&Prop{ID: "C16", Level: "exploration", Run: runC16, Kinds: anyKinds, Variants: 2, Double: 15, OpP: op, StepP: st,
		Rule:   "Background commands of all kinds print numbered lines in pieces while the main flow prints its own and waits in every way; the bytes on ticat's stdout are compared with what each script wrote.",
		Probes: []string{"bg-failed", "live", "manual-wait", "big", "stderr"}})
	reg(&Prop{ID: "C17", Level: "exploration", Run: runC17, Kinds: anyKinds, Variants: 2, Double: 15, OpP: op, StepP: st,
		Rule:   "Sequences of scheduling (the same command several times too) and waiting for all, for the last one or by name, for finished, awaited and unknown commands, with failing ones; the simulated times of the commands after each wait are compared with the ends of the awaited ones.",
		Probes: []string{"twice", "same-name", "not-earliest", "finished", "unknown", "bg-failed"}})
}

type bgLeaf struct {
	name  string
	local map[string]string
	sets  map[string]string
	fail  string
	body  []string
	meta  []string
	built string // a builtin instead of a script
	bset  [2]string
	want  map[string]string // C15: what it must see
	args  []string
}

type bgItem struct {
	kind  string // main, bg, all, last, name, set, nsched
	cmd   string // the command that is called
	text  string // the whole segment
	delay int64
	leafs []*bgLeaf
	errOK bool
	apply bool
	arg   string
	where string // "", sub, nested
	glob  map[string]string
	id    string
	pre   string
}

type bgProg struct {
	w     *W
	items []*bgItem
	n     int
	args  []string
	after bool // the main flow fails at the end
	off   bool
}

type bgOpt struct {
	reuse, fails, mainFail, sets, waits, echo, sub, nested, off bool
	maxItems                                                    int
	big, errs                                                   bool
}

var bgDelays = []struct {
	t string
	d int64
}{{"0", 0}, {"1", 1e9}, {"300ms", 3e8}, {"2s", 2e9}, {"1.5", 15e8}, {"4", 4e9}, {"0s", 0}}

func (p *bgProg) leaf(pre string, o bgOpt, bg bool) *bgLeaf {
	ch := p.w.Ch
	p.n++
	l := &bgLeaf{name: fmt.Sprintf("%s%d", pre, p.n), sets: map[string]string{}, local: map[string]string{}}
	n := ch.N(3) + 1
	if o.big && ch.P(5) {
		n += 60
		p.w.Probe("big")
	}
	for i := 0; i < n; i++ {
		if bg && ch.P(3) {
			l.body = append(l.body, "sleep "+pick(ch, "0.1", "0.5", "1", "2", "7"))
		}
		if ch.P(3) {
			l.body = append(l.body, fmt.Sprintf("outn <%s.%d>part-", l.name, i), "sleep "+pick(ch, "0", "0.1", "1"), "out end")
		} else {
			l.body = append(l.body, fmt.Sprintf("out <%s.%d>line", l.name, i))
		}
		if bg && o.errs && i < 4 && ch.P(4) {
			l.body = append(l.body, fmt.Sprintf("err <E%s.%d>problem", l.name, i))
			p.w.Probe("stderr")
		}
	}
	if !bg {
		l.body = append(l.body, "sleep "+pick(ch, "0", "0", "0.2", "1", "3"))
	}
	if o.sets && ch.P(2) {
		k, v := fmt.Sprintf("vk%d", 1+ch.N(4)), fmt.Sprintf("s%d", p.n)
		l.sets[k] = v
		if ch.P(4) {
			l.sets[k] = ""
			l.body = append(l.body, "del "+k)
		} else {
			l.body = append(l.body, "set "+k+" "+v)
		}
		if bg {
			p.w.Probe("bg-set")
		} else {
			p.w.Probe("main-set")
		}
		if bg && ch.P(3) {
			l.body = append(l.body, "sleep 1")
		}
	}
	if o.sets && ch.P(4) {
		k, v := fmt.Sprintf("vk%d", 1+ch.N(4)), fmt.Sprintf("l%d", p.n)
		l.local[k] = v
		p.w.Probe("local")
	}
	if bg && o.fails && ch.P(5) {
		l.fail = pick(ch, "exit 3", "kill")
		l.body = append(l.body, l.fail)
		p.w.Probe("bg-failed")
	}
	return l
}

func (l *bgLeaf) call() string {
	if l.built != "" {
		return l.built
	}
	s := l.name
	for _, k := range sortedKeys(l.local) {
		s = "{" + k + "=" + l.local[k] + "} " + s
	}
	return s
}

func (p *bgProg) put(l *bgLeaf) {
	if l.built == "" {
		p.w.Script(l.name, strings.Join(l.body, "\n")+"\n", l.meta...)
	}
}

// one makes a command to be run in the background.
func (p *bgProg) one(o bgOpt) *bgItem {
	w, ch := p.w, p.w.Ch
	it := &bgItem{kind: "bg"}
	d := bgDelays[ch.N(len(bgDelays))]
	it.delay = d.d
	p.n++
	id := p.n
	kind := ch.W(5, 2, 2, 1, 1)
	if kind == 3 && !o.nested {
		kind = 0
	}
	add := func(l *bgLeaf) *bgLeaf { it.leafs = append(it.leafs, l); return l }
	mid := func() string { // something between two scripts of a flow
		if o.echo && ch.P(2) {
			return " : echo message=e" + fmt.Sprint(id)
		}
		if o.sets && ch.P(3) {
			l := add(&bgLeaf{bset: [2]string{fmt.Sprintf("vk%d", 1+ch.N(4)), fmt.Sprintf("b%d", id)}})
			l.built = "env.set key=" + l.bset[0] + " value=" + l.bset[1]
			if ch.P(4) {
				l.bset[1] = ""
				l.built = "env.remove key=" + l.bset[0]
			}
			return " : " + l.built
		}
		return ""
	}
	switch kind {
	case 0:
		l := add(p.leaf("d", o, true))
		it.cmd = l.name
		if o.sets {
			for _, k := range sortedKeys(l.local) {
				it.pre += "{" + k + "=" + l.local[k] + "} "
			}
			it.glob = l.local
			l.local = map[string]string{}
			if ch.P(3) {
				p.w.Probe("arg")
				it.arg = fmt.Sprintf("a%d", id)
				l.meta = append(l.meta, "[args]", "aa = ''", "[arg2env]", "vk4 = aa")
				l.args = []string{it.arg}
				if ch.P(2) {
					it.apply = true
					p.w.Probe("apply")
				}
			}
		}
		if ch.P(6) {
			l.name = "kd." + l.name
			it.cmd = l.name
		}
		p.put(l)
	case 1:
		it.cmd = fmt.Sprintf("g%d", id)
		a := add(p.leaf("d", o, true))
		a.local = map[string]string{} // for the whole flow otherwise
		fl := a.call()
		p.put(a)
		if a.fail == "" || true {
			fl += mid()
			b := add(p.leaf("d", o, true))
			fl += " : " + b.call()
			p.put(b)
		}
		w.FlowFile(modsDir, it.cmd, fl)
	case 2:
		a := add(p.leaf("d", o, true))
		a.local = map[string]string{}
		b := p.leaf("d", o, true)
		b.local = map[string]string{}
		p.put(a)
		b.meta = []string{"flow = " + a.call() + mid()}
		add(b)
		it.cmd = b.name
		p.put(b)
	case 3:
		w.Probe("nested")
		p.n++
		outer := add(&bgLeaf{name: fmt.Sprintf("d%d", p.n), sets: map[string]string{}, local: map[string]string{}})
		a := add(p.leaf("d", o, true))
		a.local = map[string]string{}
		p.put(a)
		outer.body = []string{fmt.Sprintf("out <%s.0>line", outer.name), "ticat {session=$1} : " + a.call()}
		it.cmd = outer.name
		p.put(outer)
	case 4:
		a := add(p.leaf("d", o, true))
		a.local = map[string]string{}
		p.put(a)
		it.leafs = append(it.leafs, a)
		it.cmd = "repeat"
		it.text = "repeat cmd=" + a.name + " times=2"
		if a.fail != "" {
			it.leafs = it.leafs[:1]
		}
	}
	if it.text == "" {
		it.text = it.cmd
	}
	if it.arg != "" {
		it.text += " aa=" + it.arg
	}
	it.text = it.pre + it.text + " %delay=" + d.t
	if it.apply {
		it.text += " %env=apply"
	}
	if it.fails() >= 0 && o.reuse && ch.P(4) {
		it.errOK = true
		it.text += " %err=ok"
	}
	return it
}

// fails tells which leaf fails first; -1: none.
func (it *bgItem) fails() int {
	for i, l := range it.leafs {
		if l.fail != "" {
			return i
		}
	}
	return -1
}

// runs are the leaves that are started.
func (it *bgItem) runs() []*bgLeaf {
	if i := it.fails(); i >= 0 {
		return it.leafs[:i+1]
	}
	return it.leafs
}

func (w *W) genBg(o bgOpt) *bgProg {
	ch := w.Ch
	p := &bgProg{w: w}
	n := 2 + ch.N(o.maxItems-1)
	var bgs []*bgItem
	for i := 0; i < n; i++ {
		wt, ss := 0, 0
		if o.waits {
			wt = 4
		}
		if o.sets {
			ss = 2
		}
		switch ch.W(4, 6, wt, ss) {
		case 0:
			it := &bgItem{kind: "main", leafs: []*bgLeaf{p.leaf("m", o, false)}}
			p.put(it.leafs[0])
			it.text = it.leafs[0].call()
			p.items = append(p.items, it)
		case 1:
			var it *bgItem
			if o.reuse && len(bgs) > 0 && ch.P(3) {
				f := bgs[ch.N(len(bgs))]
				c := *f
				d := bgDelays[ch.N(len(bgDelays))]
				c.delay = d.d
				c.text = strings.SplitN(f.text, " %delay", 2)[0] + " %delay=" + d.t
				if c.errOK {
					c.text += " %err=ok"
				}
				it = &c
				w.Probe("same-name")
			} else {
				it = p.one(o)
			}
			bgs = append(bgs, it)
			p.items = append(p.items, it)
		case 2:
			it := &bgItem{}
			switch ch.W(2, 2, 3) {
			case 0:
				it.kind, it.text = "all", "background.wait"
			case 1:
				it.kind, it.text = "last", "background.wait.last"
			case 2:
				it.kind, it.cmd = "name", "kno"
				if len(bgs) > 0 && !ch.P(8) {
					it.cmd = bgs[ch.N(len(bgs))].cmd
				}
				if it.cmd == "kno" {
					p.n++
					it.cmd = fmt.Sprintf("m%d", p.n) // a command that is never in the background
					w.Script(it.cmd, "out x\n")
					w.Probe("unknown")
				}
				it.text = "background.wait.command command=" + it.cmd
			}
			p.items = append(p.items, it)
		case 3:
			k, v := fmt.Sprintf("vk%d", 1+ch.N(4)), fmt.Sprintf("e%d", i)
			if ch.P(3) {
				p.items = append(p.items, &bgItem{kind: "set", text: "env.remove key=" + k, glob: map[string]string{k: ""}})
				w.Probe("main-rm")
				break
			}
			p.items = append(p.items, &bgItem{kind: "set", text: "env.set key=" + k + " value=" + v, glob: map[string]string{k: v}})
			w.Probe("main-set")
		}
	}
	if o.mainFail && ch.P(6) {
		l := p.leaf("m", o, false)
		l.body = append(l.body, "exit 5")
		p.put(l)
		p.items = append(p.items, &bgItem{kind: "main", text: l.call(), leafs: []*bgLeaf{l}})
		p.after = true
		w.Probe("main-failed")
	} else if o.off && ch.P(10) {
		p.off = true
		w.Probe("auto-off")
	}
	return p
}

// install writes the flow: parts of it may be moved to a sub-flow or a nested
// call. It returns the arguments.
func (p *bgProg) install(o bgOpt) []string {
	w, ch := p.w, p.w.Ch
	from, to := -1, -1
	nest := false
	if (o.sub || o.nested) && len(p.items) > 1 && ch.P(3) {
		from = ch.N(len(p.items))
		to = from + 1 + ch.N(len(p.items)-from)
		nest = o.nested && ch.P(2) && !(p.after && to == len(p.items))
	}
	if nest && o.sets {
		// a nested call hands on its env with its scripts
		l := p.leaf("m", bgOpt{}, false)
		p.put(l)
		its := append([]*bgItem{}, p.items[:to]...)
		its = append(its, &bgItem{kind: "main", text: l.name, leafs: []*bgLeaf{l}})
		p.items = append(its, p.items[to:]...)
		to++
	}
	var segs, in []string
	for i, it := range p.items {
		if i >= from && i < to {
			it.where = "sub"
			if nest {
				it.where = "nested"
			}
			in = append(in, it.text)
			if i == to-1 {
				if nest {
					w.Probe("nested-scheduled")
					call := "ticat"
					if o.fails {
						call = "ticat?"
					}
					w.Script("nn", call+" {session=$1} : "+strings.Join(in, " : ")+"\n")
					segs = append(segs, "nn")
				} else {
					w.Probe("sub-scheduled")
					// values for the first command would be for the whole flow
					w.FlowFile(modsDir, "ss", "noop : "+strings.Join(in, " : "))
					segs = append(segs, "ss")
				}
			}
			continue
		}
		segs = append(segs, it.text)
	}
	if p.off {
		segs = append([]string{"background.wait.after-main.off"}, segs...)
	}
	// values for the first command would be for the whole flow
	segs = append([]string{"noop"}, segs...)
	w.Sample = strings.Join(segs, " : ")
	if in != nil {
		w.Sample += " ; inner: " + strings.Join(in, " : ")
	}
	return strings.Fields(strings.Join(segs, " : "))
}

func (w *W) evsOf(name string) []*Ev {
	var out []*Ev
	for _, e := range w.Hist {
		if e.Name == base(name) {
			out = append(out, e)
		}
	}
	return out
}

// ended tells when a script ended; a killed one ended with its process.
func (e *Ev) ended() (seq, at int64, yes bool) {
	if e.End != 0 {
		return e.End, e.EndT, true
	}
	return e.P.EndSeq, e.P.EndAt, e.P.Dead
}

func ms(t int64) string { return fmt.Sprintf("%.3fs", float64(t)/1e9) }

const slack = int64(1e8)

func runC14(w *W) {
	if w.Ch.P(25) {
		runC14alone(w)
		return
	}
	o := bgOpt{reuse: true, fails: true, mainFail: true, waits: true, sub: true, nested: true, off: true, maxItems: 7}
	p := w.genBg(o)
	args := p.install(o)
	w.AddMods()
	t := w.Start(Opt{Faulty: true}, args...)
	if !w.MustEnd(t, "hang") {
		return
	}
	endSeq, endAt := t.P.EndSeq, t.P.EndAt
	cut := p.after || p.off || w.Faulted()
	w.Quiet()

	want := map[string]int{}
	lower := map[string][]int64{}
	since := t.P.StartAt
	prev, prevEnd := "", int64(-1) // the main script just before, with no wait in between
	for _, it := range p.items {
		switch it.kind {
		case "main":
			evs := w.evsOf(it.leafs[0].name)
			if !w.Check(len(evs) <= 1, "main-twice", "%s ran %d times", it.leafs[0].name, len(evs)) {
				return
			}
			if len(evs) == 0 {
				if !w.Faulted() {
					w.Fail("main-missing", "%s of the main flow never ran: %s", it.leafs[0].name, clip(t.All.String(), 600))
				}
				continue
			}
			if prevEnd >= 0 && !w.Faulted() {
				w.Check(evs[0].StartT-prevEnd <= slack, "main-waits", "%s starts %s after the end of %s though only background commands are scheduled in between", it.leafs[0].name, ms(evs[0].StartT-prevEnd), prev)
			}
			prev, prevEnd = it.leafs[0].name, evs[0].EndT
			if evs[0].End == 0 {
				prevEnd = -1
			}
			_, since, _ = evs[0].ended()
			if it.where == "nested" && w.Faulted() {
				since = evs[0].StartT // it may have lost its ticat
			}
		case "bg":
			for _, l := range it.runs() {
				want[l.name]++
				lower[l.name] = append(lower[l.name], since+it.delay)
			}
		default:
			prevEnd = -1
		}
		if it.where == "nested" {
			prevEnd = -1
		}
	}
	for _, n := range sortedKeys(want) {
		evs := w.evsOf(n)
		w.Check(len(evs) <= want[n], "twice", "%s was scheduled %d times but started %d times", n, want[n], len(evs))
		if !cut {
			w.Check(len(evs) >= want[n], "missing", "%s was scheduled %d times but started only %d times before ticat ended (code %d): %s", n, want[n], len(evs), t.Code(), clip(t.All.String(), 800))
		}
		var st []int64
		for _, e := range evs {
			st = append(st, e.StartT)
			if !cut {
				sq, _, yes := e.ended()
				w.Check(yes && sq < endSeq, "not-awaited", "ticat ended at %s, before %s did (%s)", ms(endAt), n, ms(e.EndT))
			} else if !p.after && !p.off && t.OK() && w.Faulted() {
				sq, _, yes := e.ended()
				w.Check(yes && sq < endSeq || w.orphaned(e, endSeq-1), "not-awaited-fault", "ticat ended with code 0 before %s did (faults %v)", n, w.S.Fired)
			}
		}
		lo := lower[n]
		sort.Slice(lo, func(i, j int) bool { return lo[i] < lo[j] })
		sort.Slice(st, func(i, j int) bool { return st[i] < st[j] })
		for i := range st {
			if i < len(lo) {
				w.Check(st[i] >= lo[i], "early", "%s starts at %s, but must not before %s", n, ms(st[i]), ms(lo[i]))
			}
		}
	}
	if !w.Faulted() && !p.after {
		failed := false
		for _, it := range p.items {
			failed = failed || it.kind == "bg" && it.fails() >= 0
		}
		if !failed {
			w.Check(t.Code() == 0, "code", "everything succeeded but the exit status is %d: %s", t.Code(), clip(t.All.String(), 600))
		}
	}
}

// setOrDel: no value stands for removed.
func setOrDel(m map[string]string, k, v string) {
	if v == "" {
		delete(m, k)
		return
	}
	m[k] = v
}

func runC15(w *W) {
	o := bgOpt{sets: true, nested: true, sub: true, maxItems: 7}
	o.waits = w.Ch.P(2)
	p := w.genBg(o)
	args := p.install(o)
	w.AddMods()
	m := map[string]string{}
	if w.Ch.P(2) {
		setup := []string{}
		for _, k := range []string{"vk1", "vk2", "vk3", "vk4"} {
			if k == "vk2" || w.Ch.P(3) {
				m[k] = "saved"
				setup = append(setup, "env.set", "key="+k, "value=saved", ":")
			}
		}
		w.Setup(append(setup, "env.save")...)
	}
	// the model
	see := func(l *bgLeaf, env map[string]string) {
		v := cpMap(env)
		for k, x := range l.local {
			v[k] = x
		}
		l.want = v
	}
	for _, it := range p.items {
		switch it.kind {
		case "set":
			for k, v := range it.glob {
				setOrDel(m, k, v)
			}
		case "main":
			see(it.leafs[0], m)
			for k, v := range it.leafs[0].sets {
				setOrDel(m, k, v)
			}
		case "bg":
			own := cpMap(m)
			for k, v := range it.glob {
				own[k] = v
			}
			if it.arg != "" && own["vk4"] == "" {
				// a value that is already there wins over a mapped argument only
				// when the argument is not given
			}
			if it.arg != "" {
				if _, ok := it.glob["vk4"]; !ok {
					own["vk4"] = it.arg
				}
				if it.apply {
					m["vk4"] = it.arg
				}
			}
			for _, l := range it.leafs {
				if l.built != "" {
					setOrDel(own, l.bset[0], l.bset[1])
					continue
				}
				if l.want == nil {
					see(l, own)
				}
				for k, v := range l.sets {
					setOrDel(own, k, v)
				}
			}
		}
	}
	t := w.Start(Opt{Faulty: true}, args...)
	if !w.MustEnd(t, "hang") {
		return
	}
	w.Quiet()
	if !w.Faulted() {
		w.Check(t.Code() == 0, "code", "exit status %d: %s", t.Code(), clip(t.All.String(), 800))
	}
	dirs := map[string]string{}
	mainDir := w.sessionOf(t)
	for i, it := range p.items {
		if it.kind != "main" && it.kind != "bg" {
			continue
		}
		who := fmt.Sprintf("%d %s", i, it.text)
		for j, l := range it.leafs {
			if l.built != "" {
				continue
			}
			if j > 0 && it.leafs[j-1] == l {
				continue
			}
			for q, e := range w.evsOf(l.name) {
				if q > 0 {
					// the second round of a repeat sees what the first set
					for k, v := range l.sets {
						setOrDel(l.want, k, v)
					}
				}
				got := vkOf(e.Env)
				w.Check(eqMap(got, l.want), "env", "%s (%s) sees %s, expected %s: %s", l.name, it.text, kvStr(got), kvStr(l.want), diffMap(l.want, got))
				if l.args != nil {
					w.Check(len(e.Args) == 2 && e.Args[1] == l.args[0], "args", "%s got the arguments %q, expected %q", l.name, e.Args, l.args)
				}
				if it.kind == "main" {
					w.Check(mainDir == "" || e.Session == mainDir, "session", "%s of the main flow uses the session %s, not %s", l.name, e.Session, mainDir)
					continue
				}
				w.Check(e.Session != mainDir, "session", "%s runs in the background with the session of the main flow", l.name)
				if o, ok := dirs[e.Session]; ok && o != who {
					w.Fail("session-shared", "%s and %s use the same session directory %s", o, who, e.Session)
				}
				dirs[e.Session] = who
			}
		}
	}
}

var anyTokRe = regexp.MustCompile(`<E?([a-z]+\d+)\.(\d+)>`)
var errLineRe = regexp.MustCompile(`<E[a-z]+\d+\.\d+>problem\n`)
var tokRe = regexp.MustCompile(`<([a-z]+\d+)\.(\d+)>`)

func runC16(w *W) {
	o := bgOpt{fails: true, echo: true, sub: true, nested: true, waits: true, big: true, errs: true, maxItems: 6}
	p := w.genBg(o)
	// background.wait.last only where it is clear which one it means
	var fresh bool
	var its []*bgItem
	for _, it := range p.items {
		switch it.kind {
		case "bg":
			fresh = true
		case "all", "name":
			fresh = false
		case "last":
			if !fresh {
				continue
			}
			fresh = false
		}
		its = append(its, it)
	}
	p.items = its
	args := p.install(o)
	w.AddMods()
	t := w.Start(Opt{Faulty: true}, args...)
	if !w.MustEnd(t, "hang") {
		return
	}
	w.Quiet()
	both := t.All.String()
	out := errLineRe.ReplaceAllString(t.Out.String(), "")
	type tok struct{ name, n string }
	owner := map[string]int{}
	for i, it := range p.items {
		for _, l := range it.leafs {
			owner[base(l.name)] = i
		}
	}
	var toks []tok
	for _, m := range anyTokRe.FindAllStringSubmatch(both, -1) {
		toks = append(toks, tok{m[1], m[2]})
	}
	// contiguous
	first, last := map[int]int{}, map[int]int{}
	for i, k := range toks {
		if _, known := owner[k.name]; !known {
			continue
		}
		o := owner[k.name]
		if _, ok := first[o]; !ok {
			first[o] = i
		}
		last[o] = i
	}
	for i, it := range p.items {
		f, ok := first[i]
		if !ok || it.kind != "bg" {
			continue
		}
		for j := f; j <= last[i]; j++ {
			if ow, known := owner[toks[j].name]; known && ow != i {
				w.Fail("mixed", "output of %s and of %s is mixed: %s", it.text, p.items[ow].text, clip(out, 1500))
				return
			}
		}
	}
	// every script's own output
	said := func(e *Ev) string { return errLineRe.ReplaceAllString(e.Out, "") }
	for _, e := range w.Hist {
		if _, ok := owner[e.Name]; !ok || said(e) == "" {
			continue
		}
		it := p.items[owner[e.Name]]
		same := 0
		for _, x := range w.Hist {
			if said(x) == said(e) {
				same++
			}
		}
		n := strings.Count(out, said(e))
		if n != same && !w.Faulted() {
			w.Fail("lost", "%s printed %q %d times, on ticat's output it is there %d times: %s", e.Name, clip(said(e), 200), same, n, clip(out, 1500))
		}
		if w.Faulted() {
			w.Check(n <= same, "doubled", "%s printed %q %d times, on ticat's output it is there %d times", e.Name, clip(said(e), 200), same, n)
			if t.OK() && e.End != 0 && it.kind == "bg" && !hasErrText(out) && len(w.S.Fired) == 1 && !w.FaultKind("crash") {
				w.Check(n == same, "lost-fault", "%s printed %q, on ticat's output it is there %d times (%d expected) though ticat ended well, after %v", e.Name, clip(said(e), 200), n, same, w.S.Fired)
			}
		}
	}
	// what they printed to stderr
	nerr, nlines, ordered := map[string]int{}, map[string]int{}, true
	lastErr := map[string]string{}
	for _, e := range w.Hist {
		for _, l := range errLineRe.FindAllString(strings.Join(e.Errs, ""), -1) {
			nerr[l]++
		}
	}
	for _, m := range errLineRe.FindAllString(both, -1) {
		nlines[m]++
	}
	for _, m := range anyTokRe.FindAllStringSubmatch(both, -1) {
		if !strings.HasPrefix(m[0], "<E") {
			continue
		}
		if it := p.items[owner[m[1]]]; it.cmd != "repeat" {
			ordered = ordered && lastErr[m[1]] < m[2]
			lastErr[m[1]] = m[2]
		}
	}
	w.Check(ordered, "err-order", "what a background command printed to stderr is out of order: %s", clip(both, 1500))
	for _, l := range sortedKeys(nerr) {
		if !w.Faulted() {
			w.Check(nlines[l] == nerr[l], "lost-err", "%q was printed %d times to stderr in the background, on ticat's output it is there %d times: %s", l, nerr[l], nlines[l], clip(both, 1500))
		} else {
			w.Check(nlines[l] <= nerr[l], "doubled-err", "%q was printed %d times to stderr in the background, on ticat's output it is there %d times", l, nerr[l], nlines[l])
		}
	}
	if w.Faulted() {
		return
	}
	// the turn of each background command
	waited := map[int]bool{}
	var open []int // scheduled and not awaited
	pos := func(i int) (int, bool) { f, ok := first[i]; return f, ok }
	for i, it := range p.items {
		var now []int
		switch it.kind {
		case "bg":
			open = append(open, i)
		case "all":
			now = open
		case "last":
			if len(open) > 0 {
				now = open[len(open)-1:]
			}
		case "name":
			for _, j := range open {
				if p.items[j].cmd == it.cmd {
					now = append(now, j)
				}
			}
		}
		if it.where == "nested" {
			// its own process: waits for its own ones, at its end at the latest
			return
		}
		for _, j := range now {
			waited[j] = true
			w.Probe("manual-wait")
			f, ok := pos(j)
			if !ok {
				continue
			}
			for q, x := range p.items {
				g, ok := pos(q)
				if x.kind != "main" || !ok {
					continue
				}
				if q < i {
					w.Check(g < f && last[q] < f, "turn", "output of %s appears before that of %s, which runs before it is waited for", p.items[j].text, x.text)
				} else {
					w.Check(g > last[j], "turn", "output of %s appears after that of %s, which runs after it was waited for", p.items[j].text, x.text)
				}
			}
		}
		if len(now) > 0 {
			var rest []int
			for _, j := range open {
				if !waited[j] {
					rest = append(rest, j)
				}
			}
			open = rest
		}
	}
	for _, j := range open {
		f, ok := pos(j)
		if !ok {
			continue
		}
		for q, x := range p.items {
			if _, ok := pos(q); x.kind == "main" && ok {
				w.Check(last[q] < f, "turn", "output of %s, which nobody waited for before the end, appears before that of %s in the main flow", p.items[j].text, x.text)
			}
		}
	}
	for _, e := range w.Hist {
		if it, ok := owner[e.Name]; ok && p.items[it].kind == "bg" && e.EndT-e.StartT > 1e9 {
			w.Probe("live")
		}
	}
}

func runC17(w *W) {
	o := bgOpt{reuse: true, fails: true, waits: true, sub: true, maxItems: 9}
	p := w.genBg(o)
	// a script after every wait shows when it returned
	var its []*bgItem
	for i, it := range p.items {
		if it.kind == "bg" { // tells the runs of the same command apart
			it.id = fmt.Sprint("o", i)
			it.text = "{vo=" + it.id + "} " + it.text
		}
		its = append(its, it)
		if it.kind == "all" || it.kind == "last" || it.kind == "name" {
			l := p.leaf("m", bgOpt{}, false)
			l.body = []string{"out x"}
			p.put(l)
			its = append(its, &bgItem{kind: "main", text: l.name, leafs: []*bgLeaf{l}})
		}
	}
	p.items = its
	args := p.install(o)
	w.AddMods()
	t := w.Start(Opt{Faulty: true}, args...)
	if !w.MustEnd(t, "hang") {
		return
	}
	w.Quiet()
	var open, all []*bgItem
	at := t.P.StartAt // the end of the last main script
	var targets []*bgItem
	lenient := []*bgItem{}
	wait := ""
	endOf := func(it *bgItem, now int64) (int64, *Ev, bool) {
		// the end of all its scripts
		last, n := int64(0), 0
		var le *Ev
		done := map[string]bool{}
		for _, l := range it.runs() {
			if done[l.name] {
				continue
			}
			done[l.name] = true
			for _, e := range w.evsOf(l.name) {
				if e.StartT > now || e.Env["vo"] != it.id {
					continue
				}
				n++
				_, et, yes := e.ended()
				if !yes {
					return 1 << 60, e, false
				}
				if et >= last {
					last, le = et, e
				}
			}
		}
		return last, le, n >= len(it.runs())
	}
	for _, it := range p.items {
		switch it.kind {
		case "bg":
			open = append(open, it)
			all = append(all, it)
		case "all", "last", "name":
			targets, lenient = nil, nil
			wait = it.text
			switch it.kind {
			case "all":
				targets = append(targets, open...)
				open = nil
			case "last":
				if len(all) > 0 {
					x := all[len(all)-1]
					targets = append(targets, x)
				}
				if len(open) > 0 {
					x := open[len(open)-1]
					lenient = append(lenient, x)
					if len(all) > 0 && x != all[len(all)-1] {
						w.Probe("twice")
					}
					if len(open) > 1 {
						w.Probe("not-earliest")
					}
					open = open[:len(open)-1]
				}
			case "name":
				var rest []*bgItem
				for i, x := range open {
					if x.cmd == it.cmd {
						if i > 0 {
							w.Probe("not-earliest")
						}
					} else {
						rest = append(rest, x)
					}
				}
				was := len(rest) == len(open)
				open = rest
				for _, x := range all {
					if x.cmd == it.cmd {
						targets = append(targets, x)
						if was {
							w.Probe("twice")
						}
					}
				}
			}
		case "main":
			evs := w.evsOf(it.leafs[0].name)
			if len(evs) != 1 {
				if w.Faulted() && len(evs) == 0 {
					return
				}
				w.Fail("main-missing", "%s ran %d times instead of once, after %q (exit status %d): %s", it.leafs[0].name, len(evs), wait, t.Code(), clip(t.All.String(), 1200))
				return
			}
			e := evs[0]
			if wait != "" {
				bound := at
				for _, x := range targets {
					end, ev, complete := endOf(x, e.StartT)
					if !w.Faulted() {
						w.Check(complete, "too-early", "%q returned at %s before %s has run as often as it was scheduled", wait, ms(e.StartT), x.cmd)
					}
					if ev != nil {
						sq, _, yes := ev.ended()
						w.Check(yes && sq < e.Start || w.orphaned(ev, e.Start), "too-early", "%q returned before %s had finished (%s runs, %s)", wait, ev.Name, it.leafs[0].name, ms(e.StartT))
					}
					if end > bound {
						bound = end
					} else {
						w.Probe("finished")
					}
				}
				for _, x := range lenient {
					if end, _, _ := endOf(x, e.StartT); end > bound {
						bound = end
					}
				}
				if !w.Faulted() {
					w.Check(e.StartT <= bound+slack, "too-late", "%q returned only at %s, though what it waits for ended at %s: %s", wait, ms(e.StartT), ms(bound), w.Sample)
				}
			}
			wait = ""
			_, at, _ = e.ended()
		}
	}
	if w.Faulted() {
		return
	}
	// the others go on and are awaited at the end
	for _, x := range all {
		_, ev, complete := endOf(x, 1<<60)
		w.Check(complete && ev != nil && ev.End != 0 && ev.End < t.P.EndSeq, "others", "%s did not run to its end as often as it was scheduled before ticat ended: %s", x.cmd, clip(t.All.String(), 1000))
	}
}

// runC14alone: one delayed command and nothing else; a builtin has no session.
func runC14alone(w *W) {
	ch := w.Ch
	w.Probe("alone")
	w.Script("ks", "sleep 2\nout hello\n")
	w.AddMods()
	d := bgDelays[ch.N(len(bgDelays))]
	cmd, dur, fails := "noop", int64(0), false
	switch ch.N(5) {
	case 1:
		cmd = "echo message=hello"
	case 2:
		cmd, dur = "sleep duration=2s", 2e9
	case 3:
		cmd, fails = "dbg.error", true
	case 4:
		cmd, dur = "ks", 2e9
	}
	args := append(strings.Fields(cmd), "%delay="+d.t)
	w.Hist = nil
	w.Sample = strings.Join(args, " ")
	was := w.S.FS.Tree("/home/user")
	t := w.Start(Opt{Faulty: true}, args...)
	if !w.MustEnd(t, "hang") {
		return
	}
	at := t.P.EndAt
	w.Quiet()
	for f := range w.S.FS.Tree("/home/user") {
		_, old := was[f]
		w.Check(old || strings.HasPrefix(f, dataDir), "litter", "%q leaves %s behind", args, f)
	}
	w.Check(!t.P.Panicked, "alone", "%q died of a panic: %s (faults %v)", args, t.P.ExitMsg, w.S.Fired)
	if w.Faulted() {
		return
	}
	w.Check((t.Code() == 0) == !fails, "alone", "%q ends with %d: %s", args, t.Code(), lastOf(t.All.String(), 400))
	w.Check(at-t.P.StartAt >= d.d+dur, "exit-early", "%q ends after %s", args, ms(at-t.P.StartAt))
	w.Check(at-t.P.StartAt <= d.d+dur+2*slack, "late", "%q ends after %s", args, ms(at-t.P.StartAt))
	if cmd == "ks" {
		w.Check(len(w.evsOf("ks")) == 1, "count", "ks ran %d times", len(w.evsOf("ks")))
	}
	if cmd == "ks" || strings.HasPrefix(cmd, "echo") {
		w.Check(strings.Count(t.All.String(), "hello\n") == 1, "output", "the output of %q: %q", args, lastOf(t.All.String(), 500))
	}
}
