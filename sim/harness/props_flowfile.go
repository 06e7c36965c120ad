package main

import (
	"fmt"
	"path"
	"regexp"
	"strings"

	"github.com/innerr/ticat/zsim/rt"
)

func init() {
	reg(&Prop{ID: "C06", Level: "exploration", Run: runC06, Kinds: anyKinds, Variants: 6, Double: 10, OpP: []float64{0, 0.1},
		Rule:   "flow.save (new names, consented overwrites, other directories) and flow.set-help-str with crash, torn-write, disk-full and I/O faults; every flow file is judged after every file operation against its old and its new version, and stored flows are run by a later process and compared with the direct run.",
		Probes: []string{"crash", "save-failed", "overwrite", "help", "new", "executed", "to-dir", "rich"}})
	reg(&Prop{ID: "C07", Level: "exploration", Run: runC07, Kinds: anyKinds, Variants: 4, Double: 10, OpP: []float64{0, 0.1},
		Rule:   "Histories of flow.save, rename, remove, clear and moves (same and other device, existing targets, answers yes, no and end of input) with crash and disk faults; after every file operation each flow that the user did not give up must still be stored whole.",
		Probes: []string{"crash", "rename-onto", "move-onto", "save-onto", "consent", "no-consent", "cross-device", "removed", "clear", "move-by-search", "save-to-dir", "save-onto-dir"}})
}

// flowFiles lists the flow files below a directory.
func (w *W) flowFiles(dirs ...string) map[string]string {
	out := map[string]string{}
	for _, d := range dirs {
		for p, c := range w.S.FS.Tree(d) {
			if strings.HasSuffix(p, ".tiflow") {
				out[p] = c
			}
		}
	}
	return out
}

var flowArgVals = []string{"a", "b1", "x y", "k=v", "it's", "a,b", "/p/q", "日本", "x#y", "-x", "100%", "a\"b", "[q]", "x'y z", "tail\\", "a;b", "x&y", "p|q", "<r>", "(s)", "`t`", "a:b", "x y: z", "q\"r's t:u", "c\\d", "\"", "$1", "*"}

func runC06(w *W) {
	ch := w.Ch
	for i := 0; i < 4; i++ {
		w.Script(fmt.Sprintf("k%d", i), "out $2\n", "[args]", "a = def", "b = ''")
	}
	w.AddMods()
	// flows that are there already
	old := map[string]string{}
	for i := 0; i < ch.N(3); i++ {
		n := fmt.Sprintf("f%d", i)
		w.Setup("flow.save", "cmd="+n, ":", "k0", fmt.Sprintf("a=old%d", i))
		b, _ := w.S.FS.Get(flowsDir + "/" + n + ".tiflow")
		old[n] = string(b)
	}
	// one that was written by hand
	call := []string{"f0"}
	rich := len(old) > 0 && ch.P(2)
	if rich {
		w.Probe("rich")
		c, k := richFlow(ch)
		call = k
		old["f0"] = c
		w.S.FS.Put(flowsDir+"/f0.tiflow", c)
	}
	callSig := ""
	runCall := func() (string, *TP) {
		h0 := len(w.Hist)
		t := w.Run(call...)
		return evSig(w.Hist[h0:]), t
	}
	// the flow to save
	var fl []string
	n := 1 + ch.N(3)
	odd := false
	for i := 0; i < n; i++ {
		if i > 0 {
			fl = append(fl, ":")
		}
		fl = append(fl, fmt.Sprintf("k%d", ch.N(4)))
		if ch.Bool() {
			v := flowArgVals[ch.N(len(flowArgVals))]
			odd = odd || v != "a" && v != "b1"
			fl = append(fl, "a="+v)
		}
		if ch.P(4) {
			fl = append(fl, "b="+flowArgVals[ch.N(2)])
		}
		if ch.P(5) {
			fl = append(fl, "%err=ok")
		}
	}
	tail := ch.P(3)
	dir := flowsDir
	name := pick(ch, "fnew", "f0", "f1", "fd.sub")
	help := pick(ch, "", "", "some help", "it's \"help\"", "a=b # c", strings.Repeat("long help ", 900))
	setHelp := ch.P(4) && len(old) > 0
	var args []string
	wantOld := map[string]string{}
	for n, c := range old {
		wantOld[flowsDir+"/"+n+".tiflow"] = c
	}
	var newC string
	if setHelp {
		w.Probe("help")
		name = "f0"
		if help == "" {
			help = "other help"
		}
		var t *TP
		callSig, t = runCall()
		w.Check(t.OK(), "setup", "%v cannot be run: %s", call, clip(t.All.String(), 800))
		// what it has to become: the same done to a copy
		ref := old["f0"]
		if rich { // no two flows with the same abbr
			ref = regexp.MustCompile(`(?m)^abbrs? = .*$`).ReplaceAllString(ref, "abbrs = fxref")
			w.S.FS.RemoveTree(flowsDir + "/f0.tiflow")
		}
		w.S.FS.Put(flowsDir+"/fref.tiflow", ref)
		w.Setup("flow.set-help-str", "cmd-path=fref", "help-str="+help)
		args = []string{"flow.set-help-str", "cmd-path=f0", "help-str=" + help}
	} else {
		args = []string{"flow.save", "cmd=" + name}
		ref := []string{"flow.save", "cmd=fref"}
		if help != "" {
			args, ref = append(args, "help="+help), append(ref, "help="+help)
		}
		if ch.P(5) {
			dir = "/home/user/other-flows"
			w.S.FS.MkAll(dir)
			name = pick(ch, "fnew", "fd.sub") // a command's name can't be used for a flow in another place
			args[1] = "cmd=" + name
			args = append(args, "to-dir="+dir)
			w.Probe("to-dir")
		}
		if ch.P(2) {
			args = append(args, "quiet-overwrite=true")
		}
		if tail {
			args = append(append(append([]string{}, fl...), ":"), args...)
			ref = append(append(append([]string{}, fl...), ":"), ref...)
		} else {
			args = append(append(args, ":"), fl...)
			ref = append(append(ref, ":"), fl...)
		}
		w.Setup(ref...)
		if len(w.Fails) > 0 {
			w.Fails = nil // this flow cannot be parsed or saved at all
			return
		}
	}
	b, _ := w.S.FS.Get(flowsDir + "/fref.tiflow")
	newC = string(b)
	w.S.FS.RemoveTree(flowsDir + "/fref.tiflow")
	if rich && setHelp {
		for _, l := range strings.Split(old["f0"], "\n") {
			if strings.HasPrefix(l, "abbr") {
				newC = regexp.MustCompile(`(?m)^abbrs? = .*$`).ReplaceAllString(newC, l)
			}
		}
		w.S.FS.Put(flowsDir+"/f0.tiflow", old["f0"])
	}
	if setHelp {
		was, is := metaKV(old["f0"]), metaKV(newC)
		is["|help"], was["|help"] = "", ""
		if !rich {
			delete(is, "|args.auto") // its default may be written out
			delete(was, "|args.auto")
		}
		w.Check(eqMap(was, is), "flow-rest", "set-help-str changes more than the help of the flow: %s (before and after: %q, %q)", diffMap(was, is), clip(old["f0"], 600), clip(newC, 600))
	}
	target := dir + "/" + name + ".tiflow"
	_, exists := wantOld[target]
	if dir == flowsDir && exists && !setHelp {
		w.Probe("overwrite")
	} else if !setHelp {
		w.Probe("new")
	}
	w.Sample = clip(strings.Join(args, " "), 300)
	var t *TP
	look := func() {
		got := w.flowFiles(flowsDir, "/home/user/other-flows")
		for _, p := range sortedKeys(got) {
			c := got[p]
			o, had := wantOld[p]
			switch {
			case had && c == o:
			case p == target && c == newC:
			case p == target && t != nil && forced(t): // the user agreed to save a flow that cannot be parsed
				newC = c
			case p == target:
				w.Fail("flow-torn", "flow file %s holds %q, which is neither the old %q nor the new %q (faults %v)", p, clip(c, 200), clip(o, 100), clip(newC, 200), w.S.Fired)
			default:
				w.Fail("flow-other", "flow file %s is changed: %q, was %q (%v) (faults %v)", p, clip(c, 200), clip(o, 200), had, w.S.Fired)
			}
		}
		for _, p := range sortedKeys(wantOld) {
			if _, ok := got[p]; !ok {
				w.Fail("flow-gone", "flow file %s is gone (faults %v)", p, w.S.Fired)
			}
		}
	}
	w.S.FS.Watch = func(op, p string) {
		if strings.Contains(p, ".tiflow") || p == flowsDir {
			look()
		}
	}
	stdin := "y\n"
	t = w.Start(Opt{Faulty: true, Stdin: stdin}, args...)
	if !w.MustEnd(t, "hang") {
		return
	}
	look()
	if t.P.Crashed {
		w.Probe("crash")
	}
	c, ok := w.S.FS.Get(target)
	stored := ok && string(c) == newC
	if t.OK() {
		w.Check(stored, "flow-lost", "%v reported success but the flow is not stored: %q instead of %q (faults %v)", args, clip(string(c), 200), clip(newC, 200), w.S.Fired)
	} else if !t.P.Crashed {
		w.Probe("save-failed")
		w.Check(w.Faulted(), "flow-save-fails", "%v fails: %s", args, clip(t.All.String(), 500))
		w.Check(hasErrText(t.All.String()), "no-message", "failed without a message")
	}
	w.S.FS.Watch = nil
	// later processes
	for _, i := range sortedKeys(old) {
		if i == name && dir == flowsDir {
			continue
		}
		h0 := len(w.Hist)
		if i == "f0" {
			i = call[0]
		}
		t := w.Run(i)
		w.Check(t.OK() && len(w.Hist) > h0, "flow-unusable", "after %v (faults %v) the untouched flow %s cannot be run: %s", args, w.S.Fired, i, clip(t.All.String(), 500))
		break
	}
	if stored && dir == flowsDir && !setHelp && !forced(t) {
		h0 := len(w.Hist)
		t1 := w.Run(fl...)
		h1 := len(w.Hist)
		t2 := w.Run(name)
		h2 := len(w.Hist)
		w.Probe("executed")
		d, s := evSig(w.Hist[h0:h1]), evSig(w.Hist[h1:h2])
		w.Check(t1.OK() == t2.OK() && d == s, "flow-differs", "the flow %v was saved as %q; running it directly does %s (code %d), running the saved one does %s (code %d): %s", fl, newC, d, t1.Code(), s, t2.Code(), clip(t2.All.String(), 400))
	}
	if stored && setHelp {
		sig, t := runCall()
		w.Check(t.OK() && sig == callSig, "flow-differs", "after set-help-str %v does %s instead of %s: %s", call, sig, callSig, clip(t.All.String(), 600))
	}
	_ = odd
}

// richFlow makes a flow file with everything a user could have put there, and
// a call of it.
func richFlow(ch *Choice) (content string, call []string) {
	call = []string{"f0"}
	line := func(f string, a ...any) { content += fmt.Sprintf(f, a...) + "\n" }
	if ch.P(2) {
		line("help = %s", pick(ch, "by hand", "'quoted help'", "a = b # c"))
	}
	if ch.P(2) {
		line("%s = fx|f-x", pick(ch, "abbrs", "abbr"))
		call = []string{pick(ch, "fx", "f-x", "f0")}
	}
	if ch.P(4) {
		line("args.auto = %s", pick(ch, "*", ""))
	}
	if ch.P(3) {
		line("trivial = 1")
	}
	if ch.P(4) {
		line("%s = true", pick(ch, "pack-subflow", "pack-sub"))
	}
	args, env := ch.P(2), ch.P(3)
	a := "old0"
	if args {
		a = "[[x]]"
		if ch.P(2) {
			call = append(call, "x="+pick(ch, "given", "1"))
		}
	}
	switch ch.N(4) {
	case 0:
		line("flow = k0 a=%s", a)
	case 1:
		line("flow = k0 a=%s : k1", a)
	case 2:
		line("flow = k0 a=%s : \\\n\tk1 b=2 : \\\n  k2", a)
	case 3:
		line("[flow/]\nk0 a=%s : \\\n\n# remark\n    k1\n[/flow]", a)
	}
	if ch.P(4) {
		line("quiet-error = true")
	}
	if ch.P(4) {
		line("tags = ta tb")
	}
	if args {
		line("\n[args]\nx = %s\ny|z = ''", pick(ch, "dx", "'dx'", "d.x"))
	}
	if args && ch.P(2) {
		line("[arg2env]\nvk1 = x")
	}
	if env {
		line("\n[val2env]\nvk2 = from-file")
	}
	return
}

// metaKV reads what a meta file says: "section|key" to the value.
func metaKV(c string) map[string]string {
	out := map[string]string{}
	sec, key, multi, block := "", "", false, false
	for _, l := range strings.Split(c, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case block && l == "[/"+key+"]":
			block = false
			out["|"+key] = strings.TrimRight(out["|"+key], "\n")
		case block:
			out["|"+key] += l + "\n"
		case multi:
			multi = strings.HasSuffix(l, "\\")
			out[sec+"|"+key] += "\n" + strings.TrimSpace(strings.TrimSuffix(l, "\\"))
		case l == "" || l[0] == '#':
		case strings.HasPrefix(l, "[") && strings.HasSuffix(l, "/]"):
			key, block = strings.Trim(l, "[/]"), true
		case strings.HasPrefix(l, "[") && strings.HasSuffix(l, "]"):
			sec = strings.Trim(l, "[]")
		default:
			k, v, _ := strings.Cut(l, "=")
			key, v = strings.TrimSpace(k), strings.TrimSpace(v)
			multi = strings.HasSuffix(v, "\\")
			out[sec+"|"+key] = strings.TrimSpace(strings.TrimSuffix(v, "\\"))
		}
	}
	return out
}

func forced(t *TP) bool { return strings.Contains(t.All.String(), "flow has parse error") }

func evSig(evs []*Ev) string {
	var out []string
	for _, e := range evs {
		a := e.Args
		if len(a) > 0 {
			a = a[1:] // without the session
		}
		out = append(out, fmt.Sprintf("%s%q%s", e.Name, a, kvStr(vkOf(e.Env))))
	}
	return "[" + strings.Join(out, " ") + "]"
}

// ---- C07 -------------------------------------------------------------------------

func init() { _ = rt.O_RDONLY; _ = path.Base }

func runC07(w *W) {
	ch := w.Ch
	w.Script("k0", "out $2\n", "[args]", "a = def")
	w.AddMods()
	sameDir, mntDir := "/home/user/moved", "/mnt/disk/moved"
	dirs := []string{flowsDir, sameDir, mntDir}
	w.S.FS.MkAll(sameDir)
	w.S.FS.MkAll(mntDir)
	ntok := 0
	live := map[string]string{} // token -> what became of it last
	given := map[string]bool{}  // tokens the user agrees to lose now
	hasTok := func(c, tok string) bool { return strings.Contains(c, "a="+tok+"\n") }
	lookAll := func(during string) map[string][]string {
		at := map[string][]string{}
		all := w.flowFiles(dirs...)
		for _, p := range sortedKeys(all) {
			c := all[p]
			for tok := range live {
				if hasTok(c, tok) {
					at[tok] = append(at[tok], p)
				}
			}
		}
		for _, tok := range sortedKeys(live) {
			if len(at[tok]) == 0 && !given[tok] {
				w.Fail("flow-lost", "during %s the content of flow %s (%s) disappeared (faults %v)", during, tok, live[tok], w.S.Fired)
				delete(live, tok)
			}
		}
		return at
	}
	cur := "start"
	w.S.FS.Watch = func(op, p string) {
		if strings.Contains(p, ".tiflow") {
			lookAll(cur)
		}
	}
	tokAt := func(p string) string {
		c, ok := w.S.FS.Get(p)
		if !ok {
			return ""
		}
		for tok := range live {
			if hasTok(string(c), tok) {
				return tok
			}
		}
		return "?"
	}
	names := []string{"fa", "fb", "fc.x", "fd"}
	// something is saved to begin with, also in the directories flows may be moved to
	save0 := func(dir, n string) {
		ntok++
		tok := fmt.Sprintf("tok%d", ntok)
		w.S.FS.Put(dir+"/"+n+".tiflow", "help = saved earlier\nargs.auto = *\nflow = k0 a="+tok+"\n")
		live[tok] = dir + "/" + n
	}
	for i := 0; i < 1+ch.N(3); i++ {
		save0(flowsDir, names[i])
	}
	if ch.P(2) {
		save0(sameDir, "fa")
	}
	if ch.P(4) {
		save0(mntDir, pick(ch, "fa", "fb"))
	}
	file := func(n string) string { return flowsDir + "/" + n + ".tiflow" }
	inHub := ch.P(3) // the directories can be found by a part of their name
	if inHub {
		for _, d := range []string{sameDir, mntDir} {
			w.Setup("hub.add.local", "path="+d)
			w.Setup("hub.disable", "find-str="+d)
		}
		if len(w.Fails) > 0 {
			return
		}
	}
	steps := 1 + ch.N(4)
	for i := 0; i < steps && len(w.Fails) == 0; i++ {
		given = map[string]bool{}
		ans := pick(ch, "n", "y", "", "off", "n-then-y")
		stdin := map[string]string{"n": "n\n", "y": "y\n", "": "", "off": "", "n-then-y": "no\ny\n"}[ans]
		yes := ans == "y" || ans == "n-then-y"
		pre := []string{}
		if ans == "off" {
			pre = []string{"{sys.confirm.ask=false}", ":"}
		}
		src, dst := names[ch.N(len(names))], names[ch.N(len(names))]
		srcTok, dstTok := tokAt(file(src)), tokAt(file(dst))
		var args []string
		newTok := ""
		op := ch.W(4, 4, 2, 1, 4)
		quiet := false
		saveTo := file(dst)
		var moveTo string
		switch op {
		case 0:
			ntok++
			newTok = fmt.Sprintf("tok%d", ntok)
			toDir := []string{}
			if ch.P(4) {
				d := pick(ch, sameDir, mntDir)
				toDir = append(toDir, "to-dir="+d)
				saveTo = d + "/" + dst + ".tiflow"
				dstTok = tokAt(saveTo)
				w.Probe("save-to-dir")
				if dstTok != "" {
					w.Probe("save-onto-dir")
				}
			}
			args = append(append(pre, "flow.save", "cmd="+dst), toDir...)
			if ch.P(4) {
				args = append(args, "quiet-overwrite=true")
				quiet = true
			}
			args = append(args, ":", "k0", "a="+newTok)
			if len(pre) > 0 { // flow.save wants to be in front
				args = append(append([]string{"flow.save", "cmd=" + dst}, toDir...), ":", "k0", "a="+newTok)
				stdin, yes, quiet = "n\n", false, false
			}
			if dstTok != "" {
				w.Probe("save-onto")
				if yes || quiet {
					w.Probe("consent")
					given[dstTok] = true
				} else {
					w.Probe("no-consent")
				}
			}
		case 1:
			args = append(pre, "flow.rename", "src="+src, "dest="+dst)
			if srcTok != "" && dstTok != "" && src != dst {
				w.Probe("rename-onto")
				if yes {
					given[dstTok] = true
				}
			}
		case 2:
			args = append(pre, "flow.remove", "cmd-path="+src)
			if srcTok != "" {
				given[srcTok] = true
				w.Probe("removed")
			}
		case 3:
			args = append(pre, "flow.clear")
			for p := range w.flowFiles(flowsDir) {
				given[tokAt(p)] = true
			}
			w.Probe("clear")
		case 4:
			moveTo = pick(ch, sameDir, mntDir, flowsDir)
			args = append(pre, "flow.move-flows-to-dir.all", "path="+moveTo)
			if ch.P(4) {
				args = append(pre, "flow.move-flows-to-dir.all.here")
			} else if inHub && ch.Bool() {
				find := "er/mov"
				switch ch.N(4) {
				case 0:
					moveTo = sameDir
				case 1:
					moveTo, find = mntDir, "k/moved"
				default: // more than one or none
					moveTo, find = "", pick(ch, "moved", "nosuch", "")
				}
				args = append(pre, "flow.move-flows-to-dir.all", "path="+find)
				w.Probe("move-by-search")
			}
			if moveTo == mntDir {
				w.Probe("cross-device")
			}
			for p := range w.flowFiles(flowsDir) {
				if moveTo != flowsDir && w.S.FS.Exists(moveTo+"/"+path.Base(p)) {
					w.Probe("move-onto")
				}
			}
		}
		cur = strings.Join(args, " ") + " (answer " + ans + ")"
		w.Sample += cur + " | "
		before := w.flowFiles(dirs...)
		if newTok != "" {
			// not live before it is stored
			defer func() {}()
		}
		nf := len(w.S.Fired)
		o := Opt{Faulty: true, Stdin: stdin}
		if len(args) > 0 && args[len(args)-1] == "flow.move-flows-to-dir.all.here" {
			o.Cwd = moveTo
		}
		if stdin == "" {
			o.In = w.S.NewInput()
			o.In.CloseWrite(w.S)
		}
		t := w.Start(o, args...)
		if !w.MustEnd(t, "hang") {
			return
		}
		if t.P.Crashed {
			w.Probe("crash")
		}
		w.Quiet()
		at := lookAll(cur)
		after := w.flowFiles(dirs...)
		faulted := len(w.S.Fired) > nf
		if !faulted {
			switch op {
			case 0:
				c := after[saveTo]
				if _, ok := before[file(dst)]; ok && saveTo != file(dst) && dstTok == "" {
					// a command of that name, but it is not the one in that directory
					w.Check(!t.OK() && c == "", "save-shadow", "%s: code %d, the file holds %q", cur, t.Code(), clip(c, 100))
				} else if dstTok == "" || yes || quiet {
					w.Check(t.OK() && hasTok(c, newTok), "save-fails", "%s: code %d, the file holds %q", cur, t.Code(), clip(c, 100))
				} else {
					w.Check(!t.OK(), "save-onto", "%s: the flow exists and nobody agreed to overwrite it, but the command reports success", cur)
				}
			case 1:
				if t.OK() && srcTok != "" && src != dst {
					_, ex := after[file(src)]
					w.Check(!ex && hasTok(after[file(dst)], srcTok), "rename", "%s succeeded, but the flow is at %v", cur, at[srcTok])
				}
				if srcTok == "" || (dstTok != "" && !yes && src != dst) {
					w.Check(!t.OK(), "rename-ok", "%s reports success", cur)
				} else if dstTok == "" {
					w.Check(t.OK(), "rename-fails", "%s fails: %s", cur, clip(t.All.String(), 400))
				}
			case 2:
				_, ex := after[file(src)]
				w.Check(!ex, "remove", "%s: it is still there: %s", cur, clip(t.All.String(), 300))
			case 3:
				w.Check(len(w.flowFiles(flowsDir)) == 0 && t.OK(), "clear", "%s: code %d, left %v", cur, t.Code(), w.flowFiles(flowsDir))
			case 4:
				if moveTo == "" {
					w.Check(!t.OK() && eqMap(before, after), "move-nowhere", "%s must not move anything: code %d, the flows are now %v", cur, t.Code(), sortedKeys(after))
				} else if t.OK() && moveTo != flowsDir {
					for _, p := range sortedKeys(before) {
						c := before[p]
						if strings.HasPrefix(p, flowsDir+"/") {
							w.Check(after[moveTo+"/"+path.Base(p)] == c && after[p] == "", "move", "%s succeeded, but %s is not moved", cur, p)
						}
					}
				}
			}
		}
		// the other flows are untouched
		for _, p := range sortedKeys(before) {
			c := before[p]
			touched := false
			switch op {
			case 0:
				touched = p == saveTo
			case 1:
				touched = p == file(src) || p == file(dst)
			case 2:
				touched = p == file(src)
			case 3:
				touched = strings.HasPrefix(p, flowsDir+"/")
			case 4:
				touched = strings.HasPrefix(p, flowsDir+"/")
			}
			if !touched {
				w.Check(after[p] == c, "flow-other", "%s: flow file %s was changed from %q to %q (faults %v)", cur, p, clip(c, 100), clip(after[p], 100), w.S.Fired)
			}
		}
		// each content is at exactly one place if the command was done
		if t.OK() && len(w.S.Fired) == 0 {
			for _, tok := range sortedKeys(at) {
				ps := at[tok]
				w.Check(len(ps) == 1, "flow-twice", "%s succeeded, and flow %s is now at %v", cur, tok, ps)
			}
		} else if !t.P.Crashed && faulted && op == 2 {
			// reported as failed: fine either way
		}
		if newTok != "" && hasTok(after[saveTo], newTok) {
			live[newTok] = saveTo
		}
		for tok := range given {
			if len(at[tok]) == 0 {
				delete(live, tok)
			}
		}
		if t.P.Crashed || faulted {
			// cut copies may be left where a move across devices was interrupted
			for _, p := range sortedKeys(after) {
				c := after[p]
				if before[p] != c && tokOf(c) == "" && !strings.HasPrefix(p, mntDir) {
					w.Fail("flow-torn", "%s: a torn flow file %s is left: %q (faults %v)", cur, p, clip(c, 100), w.S.Fired)
				}
				if strings.HasPrefix(p, mntDir) && before[p] != c && tokOf(c) == "" {
					w.S.FS.RemoveTree(p)
				}
			}
		}
	}
}

func tokOf(c string) string {
	i := strings.LastIndex(c, "a=tok")
	if i < 0 || !strings.HasSuffix(c, "\n") {
		return ""
	}
	return strings.TrimSpace(c[i+2:])
}
