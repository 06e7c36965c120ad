package main

import (
	"fmt"
	"strings"

	"github.com/innerr/ticat/zsim/rt"
)

func init() {
	reg(&Prop{ID: "C03", Level: "exploration", Run: runC03, Kinds: anyKinds, Variants: 5, Double: 15, OpP: []float64{0.05, 0.2, 0.5},
		Rule:   "One to three ticat processes change env keys and save them concurrently with crash, disk-full, I/O and open faults; the content of the saved file is judged after every single file operation against the states some process could have composed.",
		Probes: []string{"crash", "concurrent", "save-failed", "absent", "long"}})
	reg(&Prop{ID: "C04", Level: "exploration", Run: runC04, Kinds: anyKinds, Variants: 3, Double: 10, OpP: []float64{0},
		Rule:   "Histories of ticat processes that set, change, remove, clear, save or do not save env values (including very long and odd ones written by scripts); the saved file and the values later processes see are compared with a reference map, with read, open and crash faults.",
		Probes: []string{"save", "nosave", "clear", "remove", "odd-value", "read-fault", "long"}})
	reg(&Prop{ID: "C05", Level: "exploration", Run: runC05, Kinds: anyKinds, Variants: 4, Double: 10, OpP: []float64{0, 0.1, 0.4},
		Rule:   "Histories and concurrent batches of snapshot saves (with and without overwrite), loads, non-exist loads and removals; every snapshot file is judged after every file operation, loaded values are compared with a reference map, with crash and disk faults.",
		Probes: []string{"crash", "refused", "loaded", "non-exist", "removed", "race"}})
}

// ---- the env model --------------------------------------------------------------

// userKV is the user's part of a saved env file: the keys with the prefix vk.
// bad is set if the file has lines that are no key-values.
func userKV(s string) (kv map[string]string, bad string) {
	kv = map[string]string{}
	if s == "" {
		return
	}
	if !strings.HasSuffix(s, "\n") {
		bad = "the last line has no end"
	}
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		i := strings.Index(l, "=")
		if i < 0 {
			bad = fmt.Sprintf("bad line %q", clip(l, 60))
			continue
		}
		if _, ok := kv[l[:i]]; ok {
			bad = fmt.Sprintf("key %q twice", l[:i])
		}
		if userKey(l[:i]) {
			kv[l[:i]] = l[i+1:]
		}
	}
	return
}

// userKey: the keys the workloads use; some only look like ticat's own.
func userKey(k string) bool {
	return strings.HasPrefix(k, "vk") || strings.Contains(k, "-vk")
}

// vkn is the name of the user's key number i.
func vkn(i int) string {
	if i == 3 {
		return "session-vk3"
	}
	return fmt.Sprintf("vk%d", i)
}

func vkOf(m map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		if userKey(k) {
			out[k] = v
		}
	}
	return out
}

func kvStr(m map[string]string) string {
	var out []string
	for _, k := range sortedKeys(m) {
		out = append(out, k+"="+clip(m[k], 50))
	}
	return "{" + strings.Join(out, ", ") + "}"
}

func eqMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func cpMap(a map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range a {
		out[k] = v
	}
	return out
}

type envOp struct {
	op   string // set, rm, rmpre, script, save, clear, reset
	k, v string
}

// applyEnv applies the changes of a session to its key-values.
func applyEnv(m map[string]string, ops []envOp) map[string]string {
	m = cpMap(m)
	for _, o := range ops {
		switch o.op {
		case "set", "script", "map":
			m[o.k] = o.v
		case "rm", "scriptrm":
			delete(m, o.k)
		case "rmpre":
			for k := range m {
				if strings.HasPrefix(k, o.k) {
					delete(m, k)
				}
			}
		}
	}
	return m
}

// ---- C03 -------------------------------------------------------------------------

type envState struct {
	kv     map[string]string
	absent bool
}

type envProc struct {
	t     *TP
	ops   []envOp
	done  map[int]bool // which saves were seen on disk
	start int64
}

var longVal = strings.Repeat("long-value-", 9000)

func runC03(w *W) {
	ch := w.Ch
	var pre []string
	v0 := map[string]string{}
	for i := 0; i < ch.N(4); i++ {
		k, v := vkn(i), fmt.Sprintf("old%d", i)
		v0[k] = v
		pre = append(pre, "env.set", "key="+k, "value="+v, ":")
	}
	if len(v0) > 0 {
		if ch.P(6) {
			v0["vklong"] = longVal
			pre = append(pre, "env.set", "key=vklong", "value="+longVal, ":")
			w.Probe("long")
		}
		w.Setup(append(pre, "env.save")...)
	}
	seen := []envState{{kv: v0, absent: len(v0) == 0}}
	n := 1 + ch.W(3, 3, 2)
	var ps []*envProc
	for i := 0; i < n; i++ {
		p := &envProc{done: map[int]bool{}}
		m := 1 + ch.N(4)
		for j := 0; j < m; j++ {
			k := vkn(ch.N(5))
			switch ch.W(5, 2, 2, 1) {
			case 0:
				p.ops = append(p.ops, envOp{op: "set", k: k, v: fmt.Sprintf("p%d.%d", i, j)})
			case 1:
				p.ops = append(p.ops, envOp{op: "rm", k: k})
			case 2:
				p.ops = append(p.ops, envOp{op: "save"})
			case 3:
				p.ops = append(p.ops, envOp{op: "clear"})
			}
		}
		if ch.P(12) {
			p.ops = append(p.ops, envOp{op: "set", k: "vklong", v: longVal})
			w.Probe("long")
		}
		if !ch.P(8) || !hasOp(p.ops, "clear") {
			p.ops = append(p.ops, envOp{op: "save"})
		}
		ps = append(ps, p)
	}
	if n > 1 {
		w.Probe("concurrent")
		w.Stalls = true
	}
	// how the content of the file may be explained
	judge := func(st envState) {
		hit := false
		for _, p := range ps {
			for j, o := range p.ops {
				if o.op == "clear" && st.absent {
					p.done[j] = true
					hit = true
				}
				if o.op == "save" && !st.absent {
					for _, b := range seen {
						if eqMap(applyEnv(b.kv, p.ops[:j]), st.kv) {
							p.done[j] = true
							hit = true
							break
						}
					}
				}
			}
		}
		for _, b := range seen {
			if b.absent == st.absent && eqMap(b.kv, st.kv) {
				hit = true
			}
		}
		if !hit {
			what := kvStr(st.kv)
			if st.absent {
				what = "nothing"
			}
			w.Fail("env-content", "the saved env is %s, which no process ever composed (faults %v)", what, w.S.Fired)
		}
		seen = append(seen, st)
	}
	look := func() {
		b, ok := w.S.FS.Get(envFile)
		if !ok {
			w.Probe("absent")
			judge(envState{kv: map[string]string{}, absent: true})
			return
		}
		kv, bad := userKV(string(b))
		if bad != "" {
			w.Fail("env-torn", "the saved env is not complete: %s (faults %v)", bad, w.S.Fired)
		}
		judge(envState{kv: kv})
	}
	w.S.FS.Watch = func(op, p string) {
		if p == envFile || strings.Contains(p, " -> "+envFile) || p == dataDir {
			look()
		}
	}
	for i, p := range ps {
		var args []string
		for j, o := range p.ops {
			if j > 0 {
				args = append(args, ":")
			}
			switch o.op {
			case "set":
				args = append(args, "env.set", "key="+o.k, "value="+o.v)
			case "rm":
				args = append(args, "env.remove", "key="+o.k)
			case "save":
				args = append(args, "env.save")
			case "clear":
				args = append(args, "env.clear-and-save")
			}
		}
		if i == 0 {
			w.Sample = clip(strings.Join(args, " "), 300)
		}
		if i > 0 && ch.P(2) {
			w.S.Sleep(int64(ch.N(20)) * 1e5)
		}
		p.t = w.Start(Opt{Faulty: true}, args...)
	}
	for _, p := range ps {
		if !w.MustEnd(p.t, "hang") {
			return
		}
	}
	look()
	for _, p := range ps {
		if p.t.P.Crashed {
			w.Probe("crash")
			continue
		}
		if p.t.Code() != 0 {
			w.Probe("save-failed")
			w.Check(w.Faulted(), "save-fails", "saving the env fails without a fault: %s", clip(p.t.All.String(), 600))
			continue
		}
		for j, o := range p.ops {
			if o.op == "save" {
				w.Check(p.done[j], "save-lost", "%v reported success, but what its command %d had to save never was on disk; now %s (faults %v)",
					p.t.Args, j+1, kvStr(seen[len(seen)-1].kv), w.S.Fired)
			}
			if o.op == "clear" {
				absent := false
				for _, s := range seen {
					absent = absent || s.absent
				}
				w.Check(absent, "clear-lost", "%v reported success, but the saved env never was removed (faults %v)", p.t.Args, w.S.Fired)
			}
		}
		if len(ps) == 1 {
			last := seen[len(seen)-1]
			lastSave := -1
			for j, o := range p.ops {
				if o.op == "save" || o.op == "clear" {
					lastSave = j
				}
			}
			if lastSave >= 0 && p.ops[lastSave].op == "clear" {
				w.Check(last.absent, "save-lost", "success, but the saved env is %s instead of removed", kvStr(last.kv))
			} else if lastSave >= 0 {
				want := applyEnv(v0, p.ops[:lastSave])
				w.Check(eqMap(want, last.kv), "save-lost", "success, but the saved env is %s instead of %s (faults %v)", kvStr(last.kv), kvStr(want), w.S.Fired)
			}
		}
	}
	// whatever happened, the next process starts with what is on disk
	w.S.FS.Watch = nil
	w.Script("kshow", "out hi\n")
	w.AddMods()
	t := w.Run("kshow")
	w.Check(t.OK(), "env-unusable", "the next ticat fails: %s", clip(t.All.String(), 500))
	if len(w.Hist) == 1 {
		last := seen[len(seen)-1]
		w.Check(eqMap(vkOf(w.Hist[0].Env), last.kv), "env-next", "the next process has %s, on disk is %s", kvStr(vkOf(w.Hist[0].Env)), kvStr(last.kv))
	}
	w.Check(eqMap(seen[len(seen)-1].kv, func() map[string]string { b, _ := w.S.FS.Get(envFile); m, _ := userKV(string(b)); return m }()), "env-changed", "a session that did not save changed the saved env")
}

func hasOp(ops []envOp, op string) bool {
	for _, o := range ops {
		if o.op == op {
			return true
		}
	}
	return false
}

// ---- C04 -------------------------------------------------------------------------

var oddVals = []string{"a  b ", " lead", "x=y=z", "it's", "q\"uote", "#no comment", "\ttab", "日本語 ✓", "[a]", "{b}", "a:b", "%sys", "$HOME", "\\n", "--x", "-", "a,b;c", "=", "true", "0", "[[x]]", "\r", "sys.", "", "--  ", " --", "\"\"", "''", "...", "*", "k=v", ""}

func runC04(w *W) {
	ch := w.Ch
	cur := map[string]string{} // what is saved
	absent := true
	nproc := 2 + ch.N(4)
	w.AddMods()
	ns := 0
	for i := 0; i < nproc && len(w.Fails) == 0; i++ {
		var ops []envOp
		var args []string
		add := func(a ...string) {
			if len(args) > 0 {
				args = append(args, ":")
			}
			args = append(args, a...)
		}
		type want struct {
			name string
			n    int
		}
		var shows []want
		show := func() {
			ns++
			nm := fmt.Sprintf("kshow%d", ns)
			w.Script(nm, "out hi\n")
			add(nm)
			shows = append(shows, want{nm, len(ops)})
		}
		if ch.P(3) {
			show()
		}
		n := ch.N(5)
		for j := 0; j < n; j++ {
			k := pick(ch, "vk0", "vk1", "vk2", "vk.a.b", "vk.a.c", "vk-long", "session-vk3", "sessions-vk", "sys-vk", "display-vk")
			v := fmt.Sprintf("v%d.%d", i, j)
			switch ch.W(4, 3, 2, 1, 1, 1) {
			case 0:
				ops = append(ops, envOp{op: "set", k: k, v: v})
				if len(args) == 0 && ch.P(2) {
					add("{" + k + "=" + v + "}")
				} else {
					add("env.set", "key="+k, "value="+v)
				}
			case 1: // a script sets an odd value
				v = oddVals[ch.N(len(oddVals))]
				if ch.P(8) {
					v = longVal
					w.Probe("long")
				}
				w.Probe("odd-value")
				ns++
				nm := fmt.Sprintf("kset%d", ns)
				w.rawSet(nm, k, v)
				ops = append(ops, envOp{op: "script", k: k, v: v})
				add(nm)
			case 2:
				w.Probe("remove")
				ops = append(ops, envOp{op: "rm", k: k})
				add("env.remove", "key="+k)
			case 3:
				w.Probe("remove")
				ops = append(ops, envOp{op: "rmpre", k: "vk.a"})
				add("env.remove.prefix", "prefix=vk.a")
			case 4:
				ops = append(ops, envOp{op: "clear"})
				add("env.clear-and-save")
				w.Probe("clear")
			case 5:
				if ch.Bool() {
					ops = append(ops, envOp{op: "save"})
					add("env.save")
				} else {
					show()
				}
			}
		}
		if ch.P(3) {
			show()
		}
		if ch.W(1, 2) == 1 {
			ops = append(ops, envOp{op: "save"})
			add("env.save")
			if ch.P(4) { // changes after the save are not saved
				add("env.set", "key=vk0", "value=later")
				ops = append(ops, envOp{op: "set", k: "vk0", v: "later"})
			}
		}
		if len(args) == 0 {
			add("noop")
		}
		saves := hasOp(ops, "save") || hasOp(ops, "clear")
		if saves {
			w.Probe("save")
		} else {
			w.Probe("nosave")
		}
		w.Sample += clip(strings.Join(args, " "), 200) + " | "
		before, beforeOK := w.S.FS.Get(envFile)
		h0 := len(w.Hist)
		nf := len(w.S.Fired)
		t := w.Start(Opt{Faulty: true}, args...)
		if !w.MustEnd(t, "hang") {
			return
		}
		after, afterOK := w.S.FS.Get(envFile)
		kv, bad := userKV(string(after))
		w.Check(bad == "", "env-torn", "the saved env file is broken: %s", bad)
		faulted := len(w.S.Fired) > nf
		if !saves {
			w.Check(beforeOK == afterOK && string(before) == string(after), "nosave-changed", "%v does not save but the saved env changed: %s (faults %v)", t.Args, diffMap(cur, kv), w.S.Fired)
		}
		// the states the file may be in
		type st struct {
			kv     map[string]string
			absent bool
		}
		states := []st{{cur, absent}}
		for j, o := range ops {
			if o.op == "save" {
				states = append(states, st{applyEnv(cur, ops[:j]), false})
			}
			if o.op == "clear" {
				states = append(states, st{map[string]string{}, true})
			}
		}
		now := st{kv, !afterOK}
		final := states[len(states)-1]
		ok := false
		for _, s := range states {
			ok = ok || (s.absent == now.absent && eqMap(s.kv, now.kv))
		}
		w.Check(ok, "env-value", "%v: the saved env is %s, expected %s; difference: %s (faults %v)", clipArgs(t.Args), kvStr(now.kv), kvStr(final.kv), diffMap(final.kv, now.kv), w.S.Fired)
		if t.OK() {
			w.Check(final.absent == now.absent && eqMap(final.kv, now.kv), "env-value", "%v succeeded but the saved env is %s, expected %s; difference: %s (faults %v)", clipArgs(t.Args), kvStr(now.kv), kvStr(final.kv), diffMap(final.kv, now.kv), w.S.Fired)
		} else if !faulted {
			w.Fail("env-fails", "%v fails without a fault: %s", clipArgs(t.Args), clip(t.All.String(), 600))
		} else if !t.P.Crashed {
			w.Check(hasErrText(t.All.String()), "no-message", "failed without a message")
			for _, f := range w.S.Fired[nf:] {
				if f.Path == envFile && (strings.HasPrefix(f.Op, "open-r") || f.Op == "read") {
					w.Probe("read-fault")
					w.Check(beforeOK == afterOK && string(before) == string(after), "partial-saved", "the saved env could not be read completely, but then it was changed from %s to %s", kvStr(cur), kvStr(kv))
					w.Check(len(w.Hist) == h0, "partial-used", "the saved env could not be read completely, but commands were run")
				}
			}
		}
		if t.OK() {
			for _, f := range w.S.Fired[nf:] {
				if f.Path == envFile && (strings.HasPrefix(f.Op, "open-r") || f.Op == "read") && !strings.HasPrefix(f.Kind, "crash") {
					w.Fail("read-ignored", "the saved env could not be read (%s) but ticat carried on and reported success", f.Kind)
				}
			}
		}
		// what the commands saw
		for _, e := range w.Hist[h0:] {
			for _, s := range shows {
				if s.name == e.Name {
					exp := applyEnv(cur, ops[:s.n])
					w.Check(eqMap(vkOf(e.Env), exp), "env-seen", "%v: %s sees %s, expected %s; difference: %s (faults %v)", clipArgs(t.Args), e.Name, kvStr(vkOf(e.Env)), kvStr(exp), diffMap(exp, vkOf(e.Env)), w.S.Fired)
				}
			}
		}
		cur, absent = kv, !afterOK
	}
}

// rawSet makes a script that writes exactly this value.
func (w *W) rawSet(name, k, v string) {
	w.setVals[name] = k + "=" + v
	w.Script(name, "setval "+name+"\n")
}

func clipArgs(a []string) []string {
	var out []string
	for _, x := range a {
		out = append(out, clip(x, 60))
	}
	return out
}

// ---- C05 -------------------------------------------------------------------------

const snapDir = dataDir + "/env"

func snapFile(n string) string { return snapDir + "/" + n + ".env" }

func init() { _ = rt.O_RDONLY }

// runC05: a history of snapshot operations, then a batch of concurrent ones.
func runC05(w *W) {
	ch := w.Ch
	w.AddMods()
	names := pick(ch, []string{"a", "b", "a-b"}, []string{"a", "a.b", "a.c"}, []string{"rel.1", "rel.2", "rel"}, []string{"a", "A", "aa"}, []string{"x.env", "x", "x.env.env"}, []string{"1", "-1x", "1_"}, []string{"a b", "a", "b"})
	snaps := map[string]map[string]string{} // what each snapshot holds; no key: it does not exist
	type cand struct {
		name   string
		kv     map[string]string
		absent bool
		by     *TP
		seen   bool
	}
	var cands []*cand
	noOver := map[string]bool{} // nobody may change this snapshot now
	content := func(n string) (map[string]string, bool) {
		b, ok := w.S.FS.Get(snapFile(n))
		if !ok {
			return nil, false
		}
		kv, bad := userKV(string(b))
		if bad != "" {
			w.Fail("snap-torn", "snapshot %s is not complete: %s (faults %v)", n, bad, w.S.Fired)
		}
		return kv, true
	}
	look := func(n string) {
		kv, ok := content(n)
		old, had := snaps[n]
		if ok == had && eqMap(old, kv) {
			for _, c := range cands { // the same again
				if c.name == n && c.absent == !ok && (c.absent || eqMap(c.kv, kv)) {
					c.seen = true
				}
			}
			return
		}
		hit := false
		for _, c := range cands {
			if c.name == n && c.absent == !ok && (c.absent || eqMap(c.kv, kv)) {
				c.seen, hit = true, true
			}
		}
		if had && noOver[n] {
			w.Fail("snap-overwritten", "snapshot %s held %s and was told not to be overwritten, now %s", n, kvStr(old), kvStr(kv))
		}
		if !hit {
			w.Fail("snap-content", "snapshot %s changed from %s(%v) to %s(%v), which nobody asked for (faults %v)", n, kvStr(old), had, kvStr(kv), ok, w.S.Fired)
		}
		if ok {
			snaps[n] = kv
		} else {
			delete(snaps, n)
		}
	}
	w.S.FS.Watch = func(op, p string) {
		for _, n := range names {
			look(n)
		}
	}
	nsc := 0
	genKV := func(args *[]string, m map[string]string, tag string) {
		for j := 0; j < 1+ch.N(3); j++ {
			k := pick(ch, "vk0", "vk1", "vk.x", "vk2", "session-vk3")
			v := tag + "." + fmt.Sprint(j)
			if ch.P(3) {
				v = oddVals[ch.N(len(oddVals))]
				nsc++
				nm := fmt.Sprintf("kset%d", nsc)
				w.rawSet(nm, k, v)
				*args = append(*args, nm, ":")
			} else {
				*args = append(*args, "env.set", "key="+k, "value="+v, ":")
			}
			m[k] = v
		}
	}
	steps := 2 + ch.N(4)
	for i := 0; i < steps && len(w.Fails) == 0; i++ {
		var args []string
		m := map[string]string{}
		n := names[ch.N(len(names))]
		cands = nil
		w.Stalls = false
		noOver = map[string]bool{}
		switch ch.W(4, 4, 1, 2) {
		case 0: // save
			genKV(&args, m, fmt.Sprintf("s%d", i))
			_, had := snaps[n]
			over := ch.N(3)
			args = append(args, "env.snapshot.save", "name="+n)
			if over == 1 {
				args = append(args, "overwrite=false")
			} else if over == 2 {
				args = append(args, "overwrite=true")
			}
			c := &cand{name: n, kv: m}
			refused := had && over == 1
			if refused {
				noOver[n] = true
				w.Probe("refused")
			} else {
				cands = []*cand{c}
			}
			if had && over == 1 && eqMap(snaps[n], m) {
				refused = false // cannot be told apart
			}
			nf := len(w.S.Fired)
			t := w.FRun(args...)
			w.Sample += strings.Join(clipArgs(args), " ") + " | "
			if t.P.Crashed {
				w.Probe("crash")
			}
			if t.OK() {
				w.Check(!refused, "snap-refuse", "saving snapshot %s succeeds though it exists and overwrite=false", n)
				w.Check(refused || c.seen || noOver[n], "snap-lost", "%v succeeded but snapshot %s is %s instead of %s (faults %v)", clipArgs(args), n, kvStr(snaps[n]), kvStr(m), w.S.Fired)
			} else if len(w.S.Fired) == nf {
				w.Check(had && over == 1, "snap-fails", "%v fails: %s", clipArgs(args), clip(t.All.String(), 500))
			}
		case 1: // load
			genKV(&args, m, fmt.Sprintf("l%d", i))
			kv, had := snaps[n]
			nonex := ch.P(3)
			if nonex {
				args = append(args, "env.snapshot.load.non-exist", "name="+n)
				w.Probe("non-exist")
				for k, v := range kv {
					if _, ok := m[k]; !ok {
						m[k] = v
					}
				}
			} else {
				args = append(args, "env.snapshot.load", "name="+n)
				for k, v := range kv {
					m[k] = v
				}
			}
			nsc++
			nm := fmt.Sprintf("kshow%d", nsc)
			w.Script(nm, "out x\n")
			args = append(args, ":", nm)
			nf := len(w.S.Fired)
			t := w.FRun(args...)
			w.Sample += strings.Join(clipArgs(args), " ") + " | "
			if had && t.OK() {
				w.Probe("loaded")
			}
			for _, e := range w.Hist {
				if e.Name == nm {
					got := vkOf(e.Env)
					w.Check(eqMap(got, m), "snap-loaded", "%v with snapshot %s: the session has %s, expected %s; difference %s (faults %v)", clipArgs(args), kvStr(kv), kvStr(got), kvStr(m), diffMap(m, got), w.S.Fired)
				}
			}
			if !t.OK() && len(w.S.Fired) == nf {
				w.Check(!had, "snap-load-fails", "loading snapshot %s fails: %s", n, clip(t.All.String(), 500))
			}
		case 2: // remove
			cands = []*cand{{name: n, absent: true}}
			t := w.FRun("env.snapshot.remove", "name="+n)
			w.Sample += "remove " + n + " | "
			w.Probe("removed")
			if t.OK() {
				w.Check(!w.S.FS.Exists(snapFile(n)), "snap-remove", "snapshot %s is still there after it was removed (faults %v)", n, w.S.Fired)
			} else {
				w.Check(w.Faulted(), "snap-remove-fails", "removing a snapshot fails: %s", clip(t.All.String(), 400))
			}
		case 3: // several at once
			w.Probe("race")
			w.Stalls = true
			allNo := true
			var ts []*TP
			k := 2 + ch.N(2)
			_, had := snaps[n]
			var mine []*cand
			for j := 0; j < k; j++ {
				var args []string
				m := map[string]string{}
				args = append(args, "env.set", "key=vkwho", fmt.Sprintf("value=p%d.%d", i, j), ":")
				m["vkwho"] = fmt.Sprintf("p%d.%d", i, j)
				no := ch.P(2)
				args = append(args, "env.snapshot.save", "name="+n)
				if no {
					args = append(args, "overwrite=false")
				} else {
					allNo = false
				}
				c := &cand{name: n, kv: m}
				mine = append(mine, c)
				cands = append(cands, c)
				w.Sample += strings.Join(clipArgs(args), " ") + " & "
				t := w.Start(Opt{Faulty: true}, args...)
				c.by = t
				ts = append(ts, t)
			}
			if allNo {
				noOver[n] = true
			}
			wins := 0
			for j, t := range ts {
				if !w.MustEnd(t, "hang") {
					return
				}
				if t.OK() {
					wins++
					w.Check(mine[j].seen, "snap-lost", "%v succeeded but snapshot %s never held that (faults %v)", clipArgs(t.Args), n, w.S.Fired)
				}
			}
			if allNo {
				lim := 1
				if had {
					lim = 0
				}
				w.Check(wins <= lim, "snap-overwritten", "%d processes saved snapshot %s with overwrite=false", wins, n)
			}
		}
	}
	for _, n := range names {
		kv, ok := content(n)
		old, had := snaps[n]
		w.Check(ok == had && eqMap(kv, old), "snap-content", "snapshot %s is %s, expected %s", n, kvStr(kv), kvStr(old))
	}
}
