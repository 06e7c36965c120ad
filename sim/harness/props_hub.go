package main

import (
	"fmt"
	"path"
	"sort"
	"strings"
)

func init() {
	reg(&Prop{ID: "C08", Level: "exploration", Run: runC08, Kinds: anyKinds, Variants: 4, Double: 10, OpP: []float64{0, 0.1, 0.3},
		Rule:   "Histories of hub.add, add.local, add.pwd, enable, disable, purge, update, init and clear, also at the same time, over a simulated git with sub-repos in cycles and diamonds; the list file is parsed after every change of it and compared with a list model, and local dirs and repo dirs are watched.",
		Probes: []string{"crash", "add", "re-add", "enable", "disable", "exact", "purge", "purge-none", "update", "clear", "sub-repo", "op-failed", "concurrent", "shared-path", "branch", "branch-prefix", "list"}})
	reg(&Prop{ID: "C09", Level: "exploration", Run: runC09, Kinds: anyKinds, Variants: 6, Double: 15, OpP: []float64{0, 0.1},
		Rule:   "hub.add, hub.init and hub.update over a simulated git whose network, checkout and process fail, and which is killed together with or without ticat; afterwards the faults stop and the same command is run again.",
		Probes: []string{"crash", "failed", "killed-git", "retried", "update", "add", "init", "first-run", "sub-repo", "network", "branch", "branch-prefix"}})
}

type hent struct{ Addr, Reason, Path, Help, OnOff string }

func (e hent) key() string {
	if e.Addr != "" {
		return e.Addr
	}
	return e.Path
}

// readHub parses the list file; ok is false if it is not well-formed.
func (w *W) readHub() (es []hent, err string) {
	b, ok := w.S.FS.Get(hubFile)
	if !ok || len(b) == 0 {
		return nil, ""
	}
	s := string(b)
	if !strings.HasSuffix(s, "\n") {
		return nil, fmt.Sprintf("the last line of the list is cut: %q", clip(s, 200))
	}
	seen := map[string]bool{}
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		f := strings.Split(l, "\t")
		if len(f) != 5 {
			return nil, fmt.Sprintf("bad line %q", l)
		}
		e := hent{f[0], f[1], f[2], f[3], f[4]}
		if strings.HasPrefix(e.Path, "<hub>:") {
			e.Path = hubDir + e.Path[6:]
		}
		if e.OnOff != "on" && e.OnOff != "disabled" {
			return nil, fmt.Sprintf("bad flag in line %q", l)
		}
		if seen[e.key()] {
			return nil, fmt.Sprintf("%s is listed twice: %q", e.key(), clip(s, 400))
		}
		seen[e.key()] = true
		es = append(es, e)
	}
	return es, ""
}

func hubSig(m map[string]string) string {
	var out []string
	for _, k := range sortedKeys(m) {
		out = append(out, k+"="+m[k])
	}
	return strings.Join(out, " ")
}

func hubMap(es []hent) map[string]string {
	m := map[string]string{}
	for _, e := range es {
		m[e.key()] = e.OnOff
	}
	return m
}

// remote creates a repo on the simulated server.
func (w *W) remote(addr, cmd, help string, subs []string) {
	f := map[string]string{
		cmd + ".bash":       "#!sim\nout " + cmd + "\n",
		cmd + ".bash.ticat": "help = from " + addr + "\n",
	}
	if help != "" || len(subs) > 0 {
		s := "help = " + help + "\n[repos]\n"
		for _, x := range subs {
			s += x + " = sub repo\n"
		}
		f["hub.ticat"] = s
	}
	w.Git.Remotes[addr] = f
}

type hubWorld struct {
	w     *W
	subs  map[string][]string // address with branch -> sub repos
	cmd   map[string]string
	addrs []string
	init  string
}

const initRepo = "https://github.com/ticat-mods/marsh"

func (w *W) newHub(n int) *hubWorld {
	ch := w.Ch
	h := &hubWorld{w: w, subs: map[string][]string{}, cmd: map[string]string{}, init: initRepo}
	all := []string{"https://git.test/u/r0", "https://git.test/u/r1", "https://git.test/u/r1x", "https://git.test/v/r2", "git@git.test:v/r3.git", "https://git.test/u/r"}
	for i := range all { // some are branches, maybe of a repo that is there already
		if ch.P(4) {
			b := pick(ch, "dev", "dev", "v1.2", "feature/x")
			a := all[i]
			if j := ch.N(n); ch.Bool() && !strings.Contains(all[j], "#") {
				a = all[j]
			}
			a += "#" + b
			if strings.Contains(strings.Join(all, " ")+" ", a+" ") {
				continue
			}
			all[i] = a
			if i < n {
				w.Probe("branch")
			}
		}
	}
	if n > 1 && ch.P(6) { // branches with a common prefix
		i := ch.N(n - 1)
		r := strings.Split(all[i], "#")[0]
		a, b := r+"#feature/x", r+"#feature/y"
		if !strings.Contains(strings.Join(all, " ")+" ", r+"#feature/") {
			all[i], all[i+1] = a, b
			w.Probe("branch-prefix")
		}
	}
	h.addrs = append([]string{}, all[:n]...)
	for i, a := range h.addrs {
		for j := range h.addrs {
			if i != j && ch.P(4) {
				h.subs[a] = append(h.subs[a], h.addrs[j])
				w.Probe("sub-repo")
			}
		}
		if ch.P(8) {
			h.subs[a] = append(h.subs[a], a)
		}
		h.cmd[a] = fmt.Sprintf("rc%d", i)
		help := pick(ch, "", "a repo", "a repo", "tab\there", "two \\\nlines", "it's = \"x\" # y")
		w.remote(a, h.cmd[a], help, h.subs[a])
	}
	h.cmd[initRepo] = "marsh"
	if ch.P(4) {
		h.subs[initRepo] = []string{h.addrs[0]}
	}
	w.remote(initRepo, "marsh", "basic", h.subs[initRepo])
	return h
}

// visit adds to m what fetching addr adds.
func (h *hubWorld) visit(m map[string]string, addr string, done map[string]bool) {
	if done[addr] || m[addr] == "disabled" {
		return
	}
	done[addr] = true
	for _, s := range h.subs[addr] {
		if m[s] == "" {
			m[s] = "on"
		}
		h.visit(m, s, done)
	}
}

func (h *hubWorld) add(m map[string]string, addr string) map[string]string {
	m = cpMap(m)
	off := map[string]bool{}
	for k, v := range m {
		if v == "disabled" && k != addr {
			off[k] = true
		}
	}
	m[addr] = "on"
	h.visit(m, addr, map[string]bool{})
	return m
}

func runC08(w *W) {
	ch := w.Ch
	h := w.newHub(2 + ch.N(4))
	shared := ""
	if ch.P(4) && strings.HasPrefix(h.addrs[0], "https") {
		shared = strings.Replace(h.addrs[0], "https", "http", 1)
		h.cmd[shared] = "rc0"
		w.Git.Remotes[shared] = w.Git.Remotes[h.addrs[0]]
		h.subs[shared] = h.subs[h.addrs[0]]
		h.addrs = append(h.addrs, shared)
	}
	locals := []string{"/home/user/l0", "/home/user/l0/sub", "/home/user/l1 x", hubDir + "-mine"}
	for i, l := range locals {
		w.ScriptAt(l, fmt.Sprintf("lc%d", i), "out l\n")
		w.S.FS.Put(l+"/precious", "keep")
		if ch.P(3) {
			w.S.FS.Put(l+"/hub.ticat", "help = "+pick(ch, "my dir", "tab\there", "two \\\nlines")+"\n")
		}
	}
	var allowed []map[string]string
	cur := "start"
	loose, half := false, false
	watchDir := map[string]bool{}
	w.S.FS.Watch = func(op, p string) {
		if strings.Contains(p, hubFile) {
			es, e := w.readHub()
			if e != "" {
				w.Fail("hub-torn", "during %s the hub list is not well-formed: %s (faults %v)", cur, e, w.S.Fired)
				return
			}
			if strings.HasSuffix(p, ".tmp") && !strings.Contains(p, " -> ") {
				return
			}
			if !loose {
				m := hubMap(es)
				for _, a := range allowed {
					if eqMap(a, m) {
						return
					}
				}
				w.Fail("hub-list", "during %s the hub list became [%s]; expected one of %s (faults %v)", cur, hubSig(m), sigs(allowed), w.S.Fired)
			}
		}
	}
	look := func() {
		for _, l := range locals {
			if !w.S.FS.Exists(l + "/precious") {
				w.Fail("local-deleted", "%s deleted the user's dir %s (faults %v)", cur, l, w.S.Fired)
			}
		}
		for d := range watchDir {
			if !w.S.FS.Exists(d) {
				w.Fail("repo-deleted", "%s deleted %s of a repo that is still listed (faults %v)", cur, d, w.S.Fired)
				delete(watchDir, d)
			}
		}
	}
	// the hub may have some repos and dirs in any state to begin with
	if ch.P(2) {
		lines := ""
		for i, a := range h.addrs {
			if ch.P(3) {
				continue
			}
			d := hubDir + "/" + strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(a, "https://"), "http://"), "git@")
			branch := "default"
			if j := strings.LastIndex(d, "#"); j > 0 {
				d, branch = d[:j], d[j+1:]
			}
			d = strings.Replace(d, ":", "/", 1) + "/" + branch + ".branch"
			for n, c := range w.Git.Remotes[a] {
				w.S.FS.Put(d+"/"+n, c)
			}
			ref := "master"
			if branch != "default" {
				ref = branch
			}
			w.S.FS.Put(d+"/.git/config", "[remote \"origin\"]\n\turl = "+strings.TrimSuffix(a, "#"+branch)+"\n")
			w.S.FS.Put(d+"/.git/HEAD", "ref: refs/heads/"+ref+"\n")
			lines += a + "\t" + pick(ch, a, h.addrs[0]) + "\t<hub>:" + d[len(hubDir):] + "\t" + pick(ch, "", "a repo", "r1 help") + "\t" + pick(ch, "on", "disabled") + "\n"
			if i < len(locals) && ch.Bool() {
				lines += "\t<local>\t" + locals[i] + "\tmy dir\t" + pick(ch, "on", "disabled") + "\n"
			}
		}
		w.S.FS.Put(hubFile, lines)
	}
	steps := 2 + ch.N(5)
	hist := []string{}
	for i := 0; i < steps && len(w.Fails) == 0; i++ {
		es, e := w.readHub()
		if e != "" {
			w.Fail("hub-torn", "after %s: %s", cur, e)
			return
		}
		before := hubMap(es)
		loose = false
		// may a second command run at the same time?
		conc := i > 0 && ch.P(6)
		var ts []*TP
		k := 1
		if conc {
			k = 2
			loose = true
			w.Probe("concurrent")
			w.Stalls = true
		}
		var op hop
		removing := false
		for j := 0; j < k; j++ {
			op = h.genOp(es, locals, shared)
			allowed = op.allowed
			removing = removing || op.kind == "purge" || op.kind == "clear"
			cur = strings.Join(op.args, " ")
			hist = append(hist, cur)
			w.Sample = clip(strings.Join(hist, " | "), 500)
			watchDir = map[string]bool{}
			for _, x := range es {
				if x.Addr != "" && !op.drops(x, es) && !conc {
					for d := range w.S.FS.Tree(x.Path) {
						if strings.HasSuffix(d, ".bash") {
							watchDir[d] = true
						}
					}
				}
			}
			o := Opt{Faulty: true, Cwd: op.cwd}
			ts = append(ts, w.Start(o, op.args...))
		}
		w.Stalls = false
		nf := len(w.S.Fired)
		for _, t := range ts {
			if !w.MustEnd(t, "hang") {
				return
			}
			if t.P.Crashed {
				w.Probe("crash")
			}
		}
		w.Quiet()
		if removing && len(w.S.Fired) > nf || removing && conc {
			half = true // half removed repos may be there until they are removed again
		}
		look()
		es2, e := w.readHub()
		if e != "" {
			w.Fail("hub-torn", "after %s: %s (faults %v)", cur, e, w.S.Fired)
			return
		}
		got := hubMap(es2)
		if conc {
			continue
		}
		t := ts[0]
		w.Probe(op.kind)
		if shared != "" && got[shared] != "" && got[h.addrs[0]] != "" {
			w.Probe("shared-path")
		}
		final := op.allowed[len(op.allowed)-1]
		faulted := len(w.S.Fired) > nf
		switch {
		case t.OK():
			w.Check(eqMap(got, final), "hub-result", "%s succeeded, but the hub list changed from [%s] to [%s] instead of [%s] (faults %v)", cur, hubSig(before), hubSig(got), hubSig(final), w.S.Fired)
			w.Check(!op.mustFail, "hub-success", "%s has nothing to work on but reports success", cur)
		case t.P.Crashed:
		case faulted || op.mayFail || half && (op.kind == "add" || op.kind == "re-add" || op.kind == "update"):
			w.Probe("op-failed")
			w.Check(hasErrText(t.All.String()), "no-message", "%s failed without a message", cur)
		default:
			w.Fail("hub-op-fails", "%s fails: %s", cur, clip(t.All.String(), 500))
		}
		ok := false
		for _, a := range op.allowed {
			ok = ok || eqMap(a, got)
		}
		w.Check(ok, "hub-list", "after %s the hub list is [%s]; expected one of %s (faults %v)", cur, hubSig(got), sigs(op.allowed), w.S.Fired)
		// the other fields of the entries that stay
		old := map[string]hent{}
		for _, x := range es {
			old[x.key()] = x
		}
		for _, x := range es2 {
			if y, had := old[x.key()]; had {
				x.OnOff, y.OnOff = "", ""
				w.Check(x == y, "hub-entry", "%s changed the entry %v to %v", cur, y, x)
			}
		}
	}
	// what is listed and enabled can be used, what is not cannot
	w.S.FS.Watch = nil
	es, e := w.readHub()
	if e != "" || len(w.Fails) > 0 || half {
		return
	}
	on := map[string]bool{}
	cmds := map[string]bool{}
	for i, l := range locals {
		cmds[fmt.Sprintf("lc%d", i)] = true
		_ = l
	}
	for _, c := range h.cmd {
		cmds[c] = true
	}
	for _, x := range es {
		if x.OnOff != "on" {
			continue
		}
		for p := range w.S.FS.Tree(x.Path) {
			if strings.HasSuffix(p, ".bash") && w.S.FS.Exists(p+".ticat") && !strings.Contains(p[len(x.Path):], "/.git/") {
				rel := strings.TrimPrefix(p[len(x.Path):], "/")
				on[strings.TrimSuffix(strings.ReplaceAll(rel, "/", "."), ".bash")] = true
			}
		}
	}
	var names []string
	for c := range cmds {
		names = append(names, c)
	}
	sort.Strings(names)
	for i := 0; i < 2; i++ {
		c := names[ch.N(len(names))]
		h0 := len(w.Hist)
		t := w.Run(c)
		ran := len(w.Hist) > h0
		w.Check(ran == on[c] && t.OK() == on[c], "hub-usable", "the hub list is %v; the command %s must be usable: %v, but running it gives code %d: %s", es, c, on[c], t.Code(), clip(t.All.String(), 400))
	}
}

func sigs(ms []map[string]string) string {
	var out []string
	for _, m := range ms {
		out = append(out, "["+hubSig(m)+"]")
	}
	return strings.Join(out, " or ")
}

type hop struct {
	kind     string
	args     []string
	cwd      string
	allowed  []map[string]string
	mayFail  bool
	mustFail bool
	drops    func(x hent, es []hent) bool
}

func (h *hubWorld) genOp(es []hent, locals []string, shared string) hop {
	w := h.w
	ch := w.Ch
	before := hubMap(es)
	o := hop{drops: func(hent, []hent) bool { return false }}
	var target string
	if len(es) > 0 && ch.P(2) {
		target = es[ch.N(len(es))].key()
	} else if ch.P(3) {
		target = locals[ch.N(len(locals))]
	} else {
		target = h.addrs[ch.N(len(h.addrs))]
	}
	find := target
	if ch.P(3) {
		find = pick(ch, "git.test", "/u/", "r1", "l0", "/home/user", "nothing-like-this", "r", "git.test/u/r1")
	}
	match := func(x hent, purge bool) bool {
		if x.Addr != "" && x.Addr == find && (!purge || x.OnOff != "on") || !purge && x.Addr == "" && x.Path == find {
			return true
		}
		for _, y := range es { // an exact match leaves out the others
			if y.Addr != "" && y.Addr == find && (!purge || y.OnOff != "on") || !purge && y.Addr == "" && y.Path == find {
				return false
			}
		}
		if !purge {
			return strings.Contains(x.key(), find)
		}
		if x.OnOff == "on" {
			return false
		}
		rs := x.Reason
		if rs == x.Addr {
			rs = "<manually-added>"
		}
		for _, s := range []string{x.Addr, x.Path, rs, x.Help, x.OnOff} {
			if strings.Contains(s, find) {
				return true
			}
		}
		return x.Addr == "" && strings.Contains("local", find)
	}
	switch ch.W(6, 3, 3, 3, 3, 5, 2, 1, 1, 2, 2) {
	case 0:
		a := h.addrs[ch.N(len(h.addrs))]
		o.kind = "add"
		if before[a] != "" {
			o.kind = "re-add"
		}
		o.args = addArgs(a)
		m1 := h.add(before, a)
		o.allowed = []map[string]string{before, m1, h.add(m1, h.init)}
	case 1:
		l := locals[ch.N(len(locals))]
		o.kind = "add"
		o.args = []string{"hub.add.local", "path=" + l}
		if ch.P(4) {
			o.args[1] += "/"
		}
		m := cpMap(before)
		m[l] = "on"
		o.allowed = []map[string]string{before, m}
		if strings.Contains(l, " ") && ch.Bool() {
			o.args = []string{"hub.add.pwd"}
			o.cwd = l
		}
	case 2:
		l := locals[ch.N(len(locals))]
		o.kind = "add"
		o.args = []string{"hub.add.pwd"}
		o.cwd = l
		m := cpMap(before)
		m[l] = "on"
		o.allowed = []map[string]string{before, m}
	case 3, 4:
		flag := "on"
		o.kind = "enable"
		if ch.W(1, 2) == 1 {
			flag, o.kind = "disabled", "disable"
		}
		o.args = []string{"hub." + o.kind, "find-str=" + find}
		m := cpMap(before)
		n := 0
		for _, x := range es {
			if match(x, false) {
				m[x.key()] = flag
				n++
			}
		}
		o.mayFail = n == 0
		o.mustFail = n == 0
		if n == 1 && find == target {
			w.Probe("exact")
		}
		o.allowed = []map[string]string{before, m}
	case 5:
		o.kind = "purge"
		o.args = []string{"hub.purge", "find-str=" + find}
		m := cpMap(before)
		n := 0
		for _, x := range es {
			if match(x, true) {
				delete(m, x.key())
				n++
			}
		}
		if n == 0 {
			o.kind = "purge-none"
		}
		o.mayFail = n == 0
		o.mustFail = n == 0
		o.allowed = []map[string]string{before, m}
		o.drops = func(x hent, es []hent) bool { return m[x.key()] == "" && !stays(x.Path, es, m) }
	case 6:
		o.kind = "purge"
		o.args = []string{"hub.purge.purge-all-inactive"}
		m := cpMap(before)
		n := 0
		for _, x := range es {
			if x.OnOff != "on" {
				delete(m, x.key())
				n++
			}
		}
		if n == 0 {
			o.kind = "purge-none"
		}
		o.mayFail = n == 0
		o.allowed = []map[string]string{before, m}
		o.drops = func(x hent, es []hent) bool { return m[x.key()] == "" && !stays(x.Path, es, m) }
	case 7:
		o.kind = "clear"
		o.args = []string{"hub.clear"}
		o.allowed = []map[string]string{before, {}}
		o.drops = func(hent, []hent) bool { return true }
	case 8:
		o.kind = "add"
		o.args = []string{"hub.init"}
		o.allowed = []map[string]string{before, h.add(before, h.init)}
	case 9:
		o.kind = "update"
		o.args = []string{"hub.update"}
		m := cpMap(before)
		done := map[string]bool{}
		for _, x := range es {
			if x.Addr != "" && x.OnOff == "on" {
				h.visit(m, x.Addr, done)
			}
		}
		o.allowed = []map[string]string{before, m}
	case 10: // these only look
		o.kind = "list"
		o.args = []string{pick(ch, "hub", "hub.git-status")}
		if ch.P(2) {
			o.args = append(o.args, "find-str="+find)
		}
		o.allowed = []map[string]string{before, before}
	}
	for i, a := range o.args {
		if !strings.Contains(a, "://") {
			o.args[i] = strings.Replace(a, "test:", `test\:`, 1)
		}
	}
	return o
}

// stays says whether another entry that is kept uses the same path.
func stays(p string, es []hent, m map[string]string) bool {
	for _, x := range es {
		if x.Path == p && m[x.key()] != "" {
			return true
		}
	}
	return false
}

func init() { _ = path.Base }

// runC09: fetches that fail or are killed can be retried.
func runC09(w *W) {
	ch := w.Ch
	s := w.S
	h := w.newHub(2 + ch.N(4))
	first := ch.P(5)
	m := map[string]string{}
	switch {
	case first:
		w.Probe("first-run")
		s.FS.RemoveTree(hubDir)
	case ch.P(3):
	default:
		// some repos are there already, maybe their servers have changed since then
		for i := 0; i < 1+ch.N(2); i++ {
			a := h.addrs[ch.N(len(h.addrs))]
			w.Setup(addArgs(a)...)
			m = h.add(h.add(m, a), h.init)
			if ch.P(4) {
				w.Setup("hub.disable", "find-str="+escAddr(a))
				es, _ := w.readHub()
				m = hubMap(es)
			}
		}
		if ch.P(3) {
			w.ScriptAt("/home/user/l0", "lc0", "out l\n")
			w.Setup("hub.add.local", "path=/home/user/l0")
			m["/home/user/l0"] = "on"
			h.cmd["/home/user/l0"] = "lc0"
		}
	}
	if len(w.Fails) > 0 {
		return
	}
	usable := map[string]bool{} // commands which must go on working
	for a, v := range m {
		if v == "on" {
			usable[h.cmd[a]] = true
		}
	}
	changed := map[string]bool{}
	if len(m) > 0 && ch.P(2) {
		// a server has new contents, maybe new sub repos
		a := h.addrs[ch.N(len(h.addrs))]
		x := "https://git.test/new/n0"
		h.subs[x] = nil
		if ch.P(3) {
			h.subs[x] = []string{h.addrs[0]}
		}
		h.cmd[x] = "nn0"
		w.remote(x, "nn0", "new", h.subs[x])
		h.subs[a] = append(h.subs[a], x)
		w.remote(a, h.cmd[a], "newer", h.subs[a])
		w.Git.Remotes[a]["more.bash"] = "#!sim\nout more\n"
		changed[h.cmd[a]] = true
	}
	before := cpMap(m)
	var args []string
	goal := cpMap(m)
	must := []string{} // what was asked for
	switch k := ch.W(5, 2, 4); {
	case k == 0:
		a := h.addrs[ch.N(len(h.addrs))]
		args = addArgs(a)
		goal = h.add(goal, a)
		goal = h.add(goal, h.init)
		must = append(must, a)
		w.Probe("add")
	case k == 1 || len(m) == 0:
		args = []string{"hub.init"}
		goal = h.add(goal, h.init)
		must = append(must, h.init)
		w.Probe("init")
	default:
		args = []string{"hub.update"}
		done := map[string]bool{}
		for _, a := range sortedKeys(m) {
			if m[a] == "on" && h.cmd[a] != "" && !strings.HasPrefix(a, "/") {
				h.visit(goal, a, done)
				must = append(must, a)
			}
		}
		w.Probe("update")
	}
	if first {
		goal = h.add(goal, h.init)
	}
	w.Sample = fmt.Sprintf("hub [%s], %s, changed %v, first-run %v", hubSig(before), strings.Join(args, " "), sortedKeys(changed), first)
	isGit := func(pid int) bool {
		for _, p := range s.All {
			if p.Pid == pid {
				return p.Kind != "ticat"
			}
		}
		return false
	}
	try := func(faulty bool, kill int64) *TP {
		nf := len(s.Fired)
		nc := len(w.Git.Calls)
		t := w.Start(Opt{Faulty: faulty}, args...)
		killed := false
		if kill > 0 {
			// the machine or the terminal goes away: ticat and git die together
			s.After(kill, func() {
				for _, p := range s.All {
					if !p.Dead && p != s.Harness && (p == t.P || p.PPid == t.P.Pid) {
						killed = true
						s.Kill(p)
					}
				}
			})
		}
		if !w.MustEnd(t, "hang") {
			return t
		}
		if t.P.Crashed {
			w.Probe("crash")
		}
		if killed {
			w.Probe("killed-both")
		}
		if len(w.Git.Calls) > nc && (t.P.Crashed || ch.P(2)) {
			w.Quiet()
		} else if !t.P.Crashed {
			w.Quiet()
		}
		bad := false
		for _, c := range w.Git.Calls[nc:] {
			if c.Code != 0 {
				bad = true
			}
		}
		for _, f := range s.Fired[nf:] {
			if f.Op == "git-net" {
				w.Probe("network")
			}
			if f.Kind == "crash" && isGit(f.Pid) {
				w.Probe("killed-git")
				bad = true
				for _, c := range w.Git.Calls[nc:] {
					_ = c
				}
			}
		}
		if !t.OK() && !t.P.Crashed {
			w.Probe("failed")
			w.Check(hasErrText(t.All.String()), "no-message", "%v failed without a message: %q (faults %v)", args, clip(t.All.String(), 300), s.Fired)
			w.Check(faulty || kill > 0 || w.Git.FailN >= 0 && bad, "fetch-fails", "%v fails without any fault: %s", args, clip(t.All.String(), 600))
		}
		if t.OK() {
			w.Check(!bad, "fetch-success", "%v reports success though git failed or was killed (faults %v)", args, s.Fired)
		}
		return t
	}
	look := func(when string, goal map[string]string, cmds map[string]bool) {
		es, e := w.readHub()
		if e != "" {
			w.Fail("hub-torn", "%s: %s (faults %v)", when, e, s.Fired)
			return
		}
		got := hubMap(es)
		for _, a := range sortedKeys(goal) {
			w.Check(got[a] == goal[a], "repo-listed", "%s %s must be %q in the hub list but is %q; the list is [%s] (faults %v)", when, a, goal[a], got[a], hubSig(got), s.Fired)
		}
		for _, c := range sortedKeys(cmds) {
			h0 := len(w.Hist)
			t := w.Run(c)
			w.Check(t.OK() && len(w.Hist) == h0+1, "repo-usable", "%s the command %s of a repo that is listed and enabled can't be run: %s (faults %v)", when, c, clip(t.All.String(), 400), s.Fired)
		}
	}
	n := 1 + ch.W(3, 2, 1)
	ok := false
	for i := 0; i < n && len(w.Fails) == 0; i++ {
		var kill int64
		if w.inject && ch.P(4) {
			kill = int64(1+ch.N(400)) * 1e6
		}
		if w.inject && ch.P(4) {
			w.Git.FailN = 1 + ch.N(2)
			if ch.P(2) {
				w.Git.FailN = 1
			}
			w.Probe("network")
		}
		t := try(true, kill)
		w.Git.FailN = 0
		if t.Hung {
			return
		}
		torn := false
		for _, f := range s.Fired {
			torn = torn || isGit(f.Pid)
		}
		_ = torn
		// nothing that was usable is lost
		g := map[string]string{}
		for a, v := range before {
			g[a] = v
			if v == "disabled" && goal[a] != v { // this one is being enabled
				delete(g, a)
			}
		}
		cs := map[string]bool{}
		for c := range usable {
			if !changed[c] {
				cs[c] = true
			}
		}
		w.Quiet()
		look(fmt.Sprintf("after %v (code %d, crashed %v)", args, t.Code(), t.P.Crashed), g, cs)
		if t.OK() {
			ok = true
			break
		}
	}
	if len(w.Fails) > 0 {
		return
	}
	if !ok {
		w.Probe("retried")
		t := try(false, 0)
		if t.Hung {
			return
		}
		if !t.OK() {
			w.Fail("retry-fails", "%v was struck by %v; running it again without any fault fails: %s", args, s.Fired, clip(t.All.String(), 800))
			return
		}
	}
	cmds := map[string]bool{}
	g := map[string]string{}
	for _, a := range sortedKeys(goal) {
		if first && a == h.init && !ok && args[0] != "hub.init" && args[0] != "hub.add" {
			continue
		}
		g[a] = goal[a]
		if goal[a] == "on" {
			cmds[h.cmd[a]] = true
		}
	}
	look(fmt.Sprintf("after %v succeeded", args), g, cmds)
}

// addArgs is the command line that adds a repo, given as address or address#branch.
func addArgs(a string) []string {
	branch := ""
	if i := strings.LastIndex(a, "#"); i > 0 {
		a, branch = a[:i], a[i+1:]
	}
	args := []string{"hub.add", "addr=" + escAddr(a)}
	if branch != "" {
		args = append(args, "git-branch="+branch)
	}
	return args
}

func escAddr(a string) string {
	if strings.Contains(a, "://") {
		return a
	}
	return strings.Replace(a, "test:", `test\:`, 1)
}
