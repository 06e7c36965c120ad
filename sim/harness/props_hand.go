package main

import (
	"fmt"
	"strings"
)

func init() {
	reg(&Prop{ID: "C19", Level: "exploration", Run: runC19, Kinds: anyKinds, Variants: 4, Double: 15, StepP: []float64{0, 0.0005}, OpP: []float64{0.02, 0.1, 0.3},
		Rule:   "Flows of scripts, flow files, scripts with sub-flows, nested ticat calls and repeats in which every script reads, sets, changes and deletes env values (appending, rewriting, deletion marks, odd values), with saved values, values for one command, values in a flow's own scope, mapped arguments and allowed failures; the env each script is handed is compared with a layered reference model, with faults too: a script is handed exactly that env or not run.",
		Probes: []string{"delete", "del-line", "saved-deleted", "local", "local-changed", "scope", "scope-changed", "nested", "nested-between", "arg", "val2env", "odd", "multi-line", "err-ok", "err-ok-flow", "forest", "forest-failed", "mid-path", "builtin-map", "builtin-add", "builtin-update", "builtin-rm", "builtin-prefix", "builtin-reset", "builtin-absent"}})
}

// hcmd is a command of a C19 program.
type hcmd struct {
	name  string
	kind  int // script, flow, fileflow, repeat, set
	ops   []nop
	sub   []*hocc
	scope map[string]string // values in front of the flow file
	k, v  string            // set
	op    string            // what a builtin does: "" (set), map, add, update, rm, prefix, reset, absent
	times int
	arg   bool // takes an argument mapped to va1
	dflt  string
	val   string // val2env va2
	fail  string
	depth int
	pre   string
	// from this one of sub on, in forest mode
	forest int
	tags   string
	dir2   bool // in the second directory
}

type nop struct {
	op   string // set, mark, del, nest
	k, v string
	n    []*hocc
	f    int
}

type hocc struct {
	c     *hcmd
	local map[string]string
	mid   string
	arg   *string
	errOK bool
}

type hprog struct {
	w     *W
	n     int
	cmds  []*hcmd
	fails bool
	plain bool
	multi bool // a value no file can hold comes first
}

func (p *hprog) val() string {
	p.n++
	if p.w.Ch.P(5) && !p.plain {
		p.w.Probe("odd")
		return oddVals[p.w.Ch.N(len(oddVals))]
	}
	return fmt.Sprintf("x%d", p.n)
}

func (p *hprog) key() string { return fmt.Sprintf("vk%d", 1+p.w.Ch.N(4)) }

func (p *hprog) occ(depth int) *hocc {
	ch := p.w.Ch
	o := &hocc{}
	if len(p.cmds) > 0 && ch.P(5) {
		if c := p.cmds[ch.N(len(p.cmds))]; c.depth >= depth {
			o.c = c
		}
	}
	if o.c == nil {
		o.c = p.cmd(depth)
	}
	if o.c.kind != 4 && o.c.kind != 3 && ch.P(3) {
		o.local = map[string]string{}
		for i := ch.N(2); i >= 0; i-- {
			p.n++
			o.local[p.key()] = fmt.Sprintf("l%d", p.n)
		}
		p.w.Probe("local")
	}
	if o.c.pre != "" && ch.P(2) {
		p.n++
		o.mid = fmt.Sprintf("m%d", p.n)
		p.w.Probe("mid-path")
	}
	if o.c.arg && ch.P(2) {
		p.n++
		a := fmt.Sprintf("a%d", p.n)
		o.arg = &a
	}
	if o.c.fail != "" {
		o.errOK = true
	}
	return o
}

const off19 = 99

// forestAt says from where on a flow is in forest mode. Whether the runs of a
// repeat see each other's changes there is not specified.
func (p *hprog) forestAt(os []*hocc) int {
	if !p.w.Ch.P(5) {
		return off19
	}
	n := len(os)
	for _, o := range os {
		if o.c.kind == 3 {
			return off19
		}
	}
	p.w.Probe("forest")
	return p.w.Ch.N(n)
}

func (p *hprog) seq(depth int) (out []*hocc) {
	for i := p.w.Ch.N(3); i >= 0; i-- {
		out = append(out, p.occ(depth))
	}
	return
}

func (p *hprog) cmd(depth int) *hcmd {
	w, ch := p.w, p.w.Ch
	p.n++
	c := &hcmd{depth: depth, forest: off19}
	f := 0
	if depth < 3 && len(p.cmds) < 8 {
		f = 1
	}
	c.kind = ch.W(8, 4*f, 3*f, f, 2)
	c.name = fmt.Sprintf("%s%d", [...]string{"k", "g", "h", "r", "e"}[c.kind], p.n)
	switch c.kind {
	case 1:
		c.sub = p.seq(depth + 1)
		c.forest = p.forestAt(c.sub)
		if p.fails && ch.P(4) {
			// the whole flow fails at its end, its caller allows that
			p.n++
			e := &hcmd{name: fmt.Sprintf("k%d", p.n), depth: 9, fail: "exit 4"}
			p.cmds = append(p.cmds, e)
			c.sub = append(c.sub, &hocc{c: e})
			c.fail = "in"
			w.Probe("err-ok-flow")
			if c.forest != off19 {
				w.Probe("forest-failed")
			}
		}
		if ch.P(3) {
			w.Probe("scope")
			p.n++
			c.scope = map[string]string{p.key(): fmt.Sprintf("c%d", p.n)}
		}
	case 2:
		c.sub = p.seq(depth + 1)
		c.forest = p.forestAt(c.sub)
	case 3:
		c.times = 1 + ch.N(3)
		o := &hocc{c: &hcmd{depth: depth + 1}}
		for o.c.name == "" || o.c.kind > 2 || o.c.pre != "" || o.c.fail != "" {
			p.n++
			o.c = p.cmd(depth + 1)
		}
		c.sub = []*hocc{o}
	case 4:
		c.k, c.v = pick(ch, "vk5", "vk6"), fmt.Sprintf("e%d", p.n) // keys no scope has
		c.op = pick(ch, "", "", "map", "add", "update", "rm", "prefix", "reset", "absent")
		if p.multi && (c.op == "prefix" || c.op == "reset") {
			c.op = "" // it would remove that value
		}
		switch c.op {
		case "map":
			c.v = pick(ch, "vk5", "vk6", "va1", "va2")
		case "rm":
			c.k = fmt.Sprintf("vk%d", 1+ch.N(6))
		case "prefix":
			c.k = pick(ch, "vk", "vk3", "va", "vk.deep")
		case "absent":
			c.k = pick(ch, "vk5", "vk6", "va1", "vk1")
		case "reset":
			c.k, c.v = "", ""
			if ch.Bool() {
				c.k = pick(ch, "vk5", "vk6", "va1")
			}
		}
		if c.op == "add" || c.op == "update" || c.op == "absent" {
			c.fail = "may"
		}
		w.Probe("builtin-" + c.op)
	}
	if c.kind == 0 || c.kind == 2 {
		if c.kind == 0 && ch.P(6) {
			c.pre = "kd."
			c.name = "kd." + c.name
		}
		if ch.P(6) {
			c.arg = true
			w.Probe("arg")
			if ch.Bool() {
				p.n++
				c.dflt = fmt.Sprintf("d%d", p.n)
			}
		}
		if ch.P(8) {
			p.n++
			c.val = fmt.Sprintf("v%d", p.n)
			w.Probe("val2env")
		}
		for i := ch.N(4); i > 0; i-- {
			h := nop{k: p.key()}
			if ch.P(8) {
				h.k = pick(ch, "vk5", "vk6", "va1", "va2", "vk.deep.key", "vkÜ ber", "vk-x")
			}
			switch ch.W(6, 2, 2, 2*f) {
			case 0:
				h.op, h.v = "set", p.val()
			case 1:
				h.op = "mark"
				w.Probe("delete")
			case 2:
				h.op = "del"
				w.Probe("del-line")
			case 3:
				h.op = "nest"
				w.Probe("nested")
				h.n = p.seq(depth + 1)
				h.f = p.forestAt(h.n)
				// what builtins change at the end of a nested call stays there
				p.n++
				e := &hcmd{name: fmt.Sprintf("k%d", p.n), depth: 9}
				p.cmds = append(p.cmds, e)
				h.n = append(h.n, &hocc{c: e})
				if i > 1 {
					w.Probe("nested-between")
				}
			}
			c.ops = append(c.ops, h)
		}
		if p.fails && c.kind == 0 && ch.P(6) {
			c.fail = "exit 3"
			w.Probe("err-ok")
		}
	}
	p.cmds = append(p.cmds, c)
	return c
}

func (o *hocc) String() string {
	c := o.c
	loc := ""
	if len(o.local) > 0 {
		var kv []string
		for _, k := range sortedKeys(o.local) {
			kv = append(kv, k+"="+o.local[k])
		}
		loc = "{" + strings.Join(kv, " ") + "}"
	}
	s := c.name
	switch c.kind {
	case 3:
		s = fmt.Sprintf("repeat cmd=%s times=%d", c.sub[0].c.name, c.times)
	case 4:
		switch c.op {
		case "map":
			s = "env.map src-key=" + c.v + " dest-key=" + c.k
		case "rm":
			s = "env.rm key=" + c.k
		case "prefix":
			s = "env.rm.prefix prefix=" + c.k
		case "reset":
			s = "env.reset"
			if c.k != "" {
				s += " exclude-keys=" + c.k
			}
		case "absent":
			s = "env.assert.not-exists key=" + c.k
		case "":
			s = "env.set key=" + c.k + " value=" + c.v
		default:
			s = "env." + c.op + " key=" + c.k + " value=" + c.v
		}
	}
	if o.mid != "" {
		s = "kd{vk1=" + o.mid + "}." + strings.TrimPrefix(s, "kd.")
	}
	if loc != "" {
		s = loc + " " + s
	}
	if o.arg != nil {
		s += " aa=" + *o.arg
	}
	if o.errOK {
		s += " %err=ok"
	}
	return s
}

func hseq(os []*hocc, forest int) string {
	var out []string
	for i, o := range os {
		if i == forest {
			out = append(out, "flow.forest-mode")
		}
		out = append(out, o.String())
	}
	return strings.Join(out, " : ")
}

func (p *hprog) install() {
	w := p.w
	for _, c := range p.cmds {
		dir := modsDir
		if c.dir2 {
			dir = mods2
		}
		var meta []string
		if c.tags != "" {
			meta = append(meta, "tags = "+c.tags)
		}
		switch c.kind {
		case 1:
			fl := "noop : "
			for k, v := range c.scope {
				fl = "{" + k + "=" + v + "} : "
				if w.Ch.Bool() {
					fl = "{" + k + "=" + v + "} noop : "
				}
			}
			w.FlowFile(dir, c.name, fl+hseq(c.sub, c.forest), meta...)
		case 0, 2:
			if c.kind == 2 {
				meta = append(meta, "flow = noop : "+hseq(c.sub, c.forest))
			}
			if c.arg {
				d := c.dflt
				if d == "" {
					d = "''"
				}
				meta = append(meta, "[args]", "aa = "+d, "[arg2env]", "va1 = aa")
			}
			if c.val != "" {
				meta = append(meta, "[val2env]", "va2 = "+c.val)
			}
			body := ""
			for _, h := range c.ops {
				switch h.op {
				case "set":
					p.n++
					id := fmt.Sprintf("s%d", p.n)
					w.setVals[id] = h.k + "=" + h.v
					body += "setval " + id + "\n"
				case "mark":
					p.n++
					id := fmt.Sprintf("s%d", p.n)
					w.setVals[id] = h.k + "=--"
					body += "setval " + id + "\n"
				case "del":
					body += "del " + h.k + "\n"
				case "nest":
					body += "ticat {session=$1} : " + hseq(h.n, h.f) + "\n"
				}
			}
			w.ScriptAt(dir, c.name, body+c.fail+"\n", meta...)
		}
	}
}

// ---- the reference -------------------------------------------------------------

type hseen struct {
	name string
	env  map[string]string
}

type href struct {
	sess map[string]string
	base map[string]string // the saved values not deleted since
	// as saved
	saved map[string]string
	locs  []map[string]string
	sc    []bool
	seen  *[]hseen
	w     *W
}

func (r *href) view() map[string]string {
	m := cpMap(r.sess)
	for _, l := range r.locs {
		for k, v := range l {
			m[k] = v
		}
	}
	return m
}

// change sets or deletes a value for the session, whatever scopes say.
func (r *href) change(k, v string, del bool) {
	for i, l := range r.locs {
		if _, ok := l[k]; ok {
			if r.sc[i] {
				r.w.Probe("scope-changed")
			} else {
				r.w.Probe("local-changed")
			}
			delete(l, k)
		}
	}
	if del {
		delete(r.sess, k)
		delete(r.base, k)
	} else {
		r.sess[k] = v
	}
}

func (r *href) push(m map[string]string, scope bool) func() {
	r.locs = append(r.locs, cpMap(m))
	r.sc = append(r.sc, scope)
	return func() { r.locs, r.sc = r.locs[:len(r.locs)-1], r.sc[:len(r.sc)-1] }
}

// flow runs a flow; in forest mode what one of its commands changes is gone
// when the next one starts.
func (r *href) flow(os []*hocc, forest int) {
	for i, o := range os {
		if i < forest {
			r.one(o)
			continue
		}
		sess, was := cpMap(r.sess), cpMap(r.base)
		var keep []map[string]string
		for _, l := range r.locs {
			keep = append(keep, cpMap(l))
		}
		r.one(o)
		r.sess, r.base = sess, was
		copy(r.locs, keep)
	}
}

func (r *href) one(o *hocc) {
	c := o.c
	loc := cpMap(o.local)
	if o.mid != "" {
		loc["kd.vk1"] = o.mid
	}
	defer r.push(loc, false)()
	if c.kind == 0 || c.kind == 2 {
		if c.val != "" {
			r.sess["va2"] = c.val
		}
		if o.arg != nil {
			r.sess["va1"] = *o.arg
		} else if c.arg && c.dflt != "" {
			if _, ok := r.sess["va1"]; !ok {
				r.sess["va1"] = c.dflt
			}
		}
	}
	switch c.kind {
	case 1:
		if len(c.scope) > 0 {
			defer r.push(c.scope, true)()
		}
		r.flow(c.sub, c.forest)
		return
	case 2:
		r.flow(c.sub, c.forest)
	case 3:
		for i := 0; i < c.times; i++ {
			r.flow(c.sub, off19)
		}
		return
	case 4:
		r.builtin(c)
		return
	}
	r.script(c)
}

func (r *href) builtin(c *hcmd) {
	_, has := r.sess[c.k]
	switch c.op {
	case "map":
		r.change(c.k, r.sess[c.v], false)
	case "add":
		if !has {
			r.change(c.k, c.v, false)
		}
	case "update":
		if has {
			r.change(c.k, c.v, false)
		}
	case "rm":
		r.change(c.k, "", true)
	case "prefix":
		for k := range r.view() {
			if strings.HasPrefix(k, c.k) {
				r.change(k, "", true)
			}
		}
	case "reset":
		keep, ok := r.sess[c.k]
		r.sess = cpMap(r.base)
		if ok {
			r.sess[c.k] = keep
		}
	case "":
		r.change(c.k, c.v, false)
	}
}

func (r *href) script(c *hcmd) {
	start := r.view()
	*r.seen = append(*r.seen, hseen{base(c.name), start})
	file := cpMap(start)
	marks := map[string]bool{} // a mark also hides the saved value
	for _, h := range c.ops {
		switch h.op {
		case "set":
			if h.v == "--" {
				delete(file, h.k)
				marks[h.k] = true
			} else {
				file[h.k] = h.v
			}
		case "mark", "del":
			delete(file, h.k)
			if h.op == "mark" {
				marks[h.k] = true
			}
		case "nest":
			base := map[string]string{}
			for k, v := range r.saved {
				if _, ok := file[k]; ok && !marks[k] {
					base[k] = v
				}
			}
			in := &href{sess: file, base: base, saved: r.saved, seen: r.seen, w: r.w}
			in.flow(h.n, h.f)
			file, marks = in.sess, map[string]bool{}
		}
	}
	for k := range marks {
		delete(r.base, k)
	}
	for k := range start {
		if _, ok := file[k]; !ok {
			r.change(k, "", true)
		}
	}
	for k, v := range file {
		if old, ok := start[k]; !ok || old != v {
			r.change(k, v, false)
		}
	}
}

func handKeys(m map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		if strings.HasPrefix(k, "vk") || strings.HasPrefix(k, "va") || strings.HasPrefix(k, "kd.vk") {
			out[k] = v
		}
	}
	return out
}

func runC19(w *W) {
	ch := w.Ch
	p := &hprog{w: w}
	p.plain = ch.Bool()
	p.fails = ch.P(3)
	p.multi = ch.P(12)
	var top []*hocc
	for i := ch.N(4); i >= 0; i-- {
		top = append(top, p.occ(0))
	}
	p.n++
	last := &hcmd{name: fmt.Sprintf("k%d", p.n), depth: 9}
	p.cmds = append(p.cmds, last)
	top = append(top, &hocc{c: last})
	forest := p.forestAt(top)
	p.install()
	r := &href{sess: map[string]string{}, seen: &[]hseen{}, w: w}
	env := ""
	for i := 1; i <= 6; i++ {
		if ch.P(3) {
			k, v := fmt.Sprintf("vk%d", i), fmt.Sprintf("saved%d", i)
			env += k + "=" + v + "\n"
			r.sess[k] = v
		}
	}
	saved := cpMap(r.sess)
	r.base, r.saved = cpMap(saved), saved
	w.S.FS.Put(envFile, env)
	var args []string
	multi := p.multi
	if !multi && ch.P(3) {
		p.n++
		k, v := p.key(), fmt.Sprintf("t%d", p.n)
		args = append(args, "{"+k+"="+v+"}", ":")
		r.sess[k] = v
	} else {
		args = append(args, "noop", ":")
	}
	args = append(args, strings.Fields(hseq(top, forest))...)
	w.Sample = clip(strings.Join(args, " "), 500)
	stop := false
	if multi {
		// a value no file can hold
		w.Probe("multi-line")
		w.Script("kpre", "out x\n")
		args = append([]string{"kpre", ":", "env.set", "key=vk9", "value=one\ntwo", ":"}, args...)
		*r.seen = append(*r.seen, hseen{"kpre", cpMap(saved)})
		stop = true
		if ch.Bool() {
			args = append(args[:6], append([]string{"env.set", "key=vk9", "value=fine", ":"}, args[6:]...)...)
			r.sess["vk9"] = "fine"
			stop = false
		}
	}
	w.AddMods()
	if !stop {
		r.flow(top, forest)
		for k := range saved {
			if _, ok := r.sess[k]; !ok {
				w.Probe("saved-deleted")
			}
		}
	}
	if len(w.Fails) > 0 {
		return
	}
	w.Hist = nil
	t := w.Start(Opt{Faulty: !p.fails}, args...)
	if !w.MustEnd(t, "hang") {
		return
	}
	w.Quiet()
	want := *r.seen
	for i, e := range w.Hist {
		if i > 0 && w.Faulted() && w.orphaned(e, e.Start) {
			return // a script that lost its ticat goes on beside
		}
		if i >= len(want) || e.Name != want[i].name {
			if w.Faulted() {
				w.Fail("not-stopped", "%s ran as the %dth script after a fault, which is not what the flow does: %v", e.Name, i+1, w.S.Fired)
			} else {
				w.Fail("setup", "script %d is %s: %s", i+1, e.Name, lastOf(t.All.String(), 600))
			}
			return
		}
		got := e.Env
		if !w.Check(e.EnvErr == "", "no-env", "%s could not read the session env: %v (faults %v)", e.Name, e.EnvErr, w.S.Fired) {
			return
		}
		g := handKeys(got)
		if !w.Check(eqMap(g, want[i].env), "env", "%s (script %d) is handed %s, expected %s: %s (faults %v)", e.Name, i+1, kvStr(g), kvStr(want[i].env), diffMap(want[i].env, g), w.S.Fired) {
			return
		}
	}
	if len(w.Hist) < len(want) && !w.Faulted() {
		w.Fail("setup", "only %d of %d scripts ran: %s", len(w.Hist), len(want), lastOf(t.All.String(), 800))
	}
	if stop && !w.Faulted() {
		w.Check(t.Code() != 0, "stop-code", "the env could not be handed to the scripts but the exit status is 0: %s", lastOf(t.All.String(), 500))
	}
	if t.OK() && !stop {
		w.Check(len(w.Hist) >= len(want), "lost", "the exit status is 0 but only %d of %d scripts ran (faults %v)", len(w.Hist), len(want), w.S.Fired)
	}
}
