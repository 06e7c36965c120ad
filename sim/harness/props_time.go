package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/innerr/ticat/zsim/rt"
)

func init() {
	reg(&Prop{ID: "C23", Level: "exploration", Run: runC23, Kinds: timeKinds, Variants: 2, Double: 20, StepP: []float64{0, 0.0005}, OpP: []float64{0, 0.1},
		Rule:   "Flows of sleeps, timers, time marks and commands with timer keys of their own (scripts, flows, dir modules, quick, slow and failing ones), nested and in the background, with or without a pause between commands, on a clock which may jump. Probe scripts between them tell when each one really began and ended in simulated time and which values are in the env.",
		Probes: []string{"sleep", "fraction", "long", "mark", "timer", "auto", "auto-flow", "auto-fail", "auto-dir", "wait", "wait-after", "bg", "jump", "nested"}})
}

func timeKinds(s rt.Site) []string {
	switch s.Op {
	case "write", "open-w", "open-r", "read", "exec":
		return defaultKinds[s.Op]
	}
	return nil
}

type tstep struct {
	kind       string // sleep, mark, begin, elapsed, script, flow
	text       string
	d          int64
	key, begin string // key is written; begin is read
	kb, ke, kd string // timer keys of the command
	fail       bool
	script     string // the measured script
	sub        []*tstep
	prev, next string // the probes around it
	first      string // first probe of a sub flow
	last       string
	bg         bool
}

type offSpan struct{ from, off int64 }

type c23 struct {
	*W
	wait, after int64 // pauses around each command
	n           int
	steps       []*tstep
	offs        []offSpan
}

// wall is what the clock said between a and b; ok: no jump in between.
func (c *c23) wall(a, b int64) (lo, hi int64, ok bool) {
	off := int64(0)
	for _, o := range c.offs {
		if o.from <= a {
			off = o.off
		} else if o.from <= b {
			return 0, 0, false
		}
	}
	return rt.Epoch + a + off, rt.Epoch + b + off, true
}

func (c *c23) probe() string {
	c.n++
	name := fmt.Sprintf("p%d", c.n)
	c.Script(name, "out "+name)
	return name
}

func (c *c23) durText() (string, int64) {
	ch := c.Ch
	c.Probe("sleep")
	switch ch.N(6) {
	case 0:
		n := ch.N(4)
		return fmt.Sprint(n), int64(n) * 1e9
	case 1:
		n := 1 + ch.N(5)
		return fmt.Sprintf("%ds", n), int64(n) * 1e9
	case 2:
		n := ch.N(3000)
		c.Probe("fraction")
		return fmt.Sprintf("%dms", n), int64(n) * 1e6
	case 3:
		n := ch.N(40)
		c.Probe("fraction")
		return fmt.Sprintf("%d.%d", n/10, n%10), int64(n) * 1e8
	case 4:
		n := 59 + ch.N(4)
		c.Probe("long")
		return pick(ch, fmt.Sprintf("%ds", n), fmt.Sprintf("0m%ds", n)), int64(n) * 1e9
	}
	c.Probe("long")
	return pick(ch, "1m0.5s", "1m500ms"), 605e8
}

// seq makes commands with probes between them.
func (c *c23) seq(depth int, max int) (out []string, first, last string) {
	ch := c.Ch
	first = c.probe()
	out = append(out, first)
	prev := first
	begun := []string{}
	for i, m := 0, 1+ch.N(max); i < m; i++ {
		s := &tstep{prev: prev}
		key := func() string { return fmt.Sprintf("vk%d", 1+ch.N(5)) }
		switch k := ch.W(25, 15, 12, 15, 25, 12); {
		case k == 0:
			s.kind = "sleep"
			t, d := c.durText()
			s.d = d
			s.text = pick(ch, "sleep "+t, "sleep duration="+t, "slp d="+t)
		case k == 1:
			c.Probe("mark")
			s.kind, s.key = "mark", key()
			s.text = pick(ch, "mark-time "+s.key, "mark-time key="+s.key)
		case k == 2 || k == 3 && len(begun) == 0:
			c.Probe("timer")
			s.kind, s.key = "begin", key()
			begun = append(begun, s.key)
			s.text = pick(ch, "timer.begin "+s.key, "timer.begin begin-key="+s.key)
		case k == 3:
			s.kind, s.begin, s.key = "elapsed", begun[ch.N(len(begun))], key()
			s.text = pick(ch, "timer.elapsed "+s.begin+" "+s.key, "timer.elapsed begin-key="+s.begin+" write-to-key="+s.key, "timer.end begin="+s.begin+" k="+s.key)
			if s.key == s.begin {
				var b []string
				for _, x := range begun {
					if x != s.key {
						b = append(b, x)
					}
				}
				begun = b
			}
		default:
			c.n++
			name := fmt.Sprintf("t%d", c.n)
			meta := []string{}
			km := func(k *string, names ...string) {
				if ch.Pct(70) {
					*k = fmt.Sprintf("vt%d", 1+ch.N(6)+10*depth)
					meta = append(meta, pick(ch, names...)+" = "+*k)
				}
			}
			km(&s.kb, "begin-key", "begin-ts-key")
			km(&s.ke, "end-key", "end-ts-key")
			km(&s.kd, "dur-key", "duration-key")
			if s.kb != "" && s.kb == s.ke {
				s.kb = ""
			}
			if s.kd != "" && (s.kb == s.kd || s.ke == s.kd) {
				s.kb, s.ke = clear(s.kb, s.kd), clear(s.ke, s.kd)
			}
			s.text = name
			if k == 4 || depth >= 2 {
				s.kind, s.script = "script", name
				c.Probe("auto")
				_, s.d = c.durText()
				b := fmt.Sprintf("out %s\nsleep %g\n", name, float64(s.d)/1e9)
				if ch.Pct(25) {
					s.fail = true
					c.Probe("auto-fail")
					b += pick(ch, "exit 3", "kill")
					s.text += " %err=ok"
				}
				if ch.Pct(20) {
					c.Probe("auto-dir")
					s.script = name + "r"
					c.S.FS.Put(modsDir+"/"+name+"/"+s.script+".bash", "#!sim\n"+b)
					c.S.FS.Put(modsDir+"/"+name+".ticat", "help = dir\ncmd = "+s.script+".bash\n"+strings.Join(meta, "\n")+"\n")
				} else {
					c.Script(name, b, meta...)
				}
			} else {
				s.kind = "flow"
				c.Probe("auto-flow")
				var sub []string
				sub, s.first, s.last = c.seq(depth+1, 3)
				c.FlowFile(pick(ch, flowsDir, modsDir), name, strings.Join(sub, " : "), meta...)
				c.Probe("nested")
			}
		}
		s.next = c.probe()
		out = append(out, s.text, s.next)
		prev = s.next
		c.steps = append(c.steps, s)
	}
	return out, first, prev
}

func clear(k, other string) string {
	if k == other {
		return ""
	}
	return k
}

func runC23(w *W) {
	ch := w.Ch
	c := &c23{W: w}
	var args []string
	add := func(cmds ...string) {
		for _, x := range cmds {
			if len(args) > 0 {
				args = append(args, ":")
			}
			args = append(args, strings.Fields(x)...)
		}
	}
	if ch.Pct(30) {
		c.wait = int64(1+ch.N(3)) * 1e9
		add(fmt.Sprintf(pick(ch, "wait-execute %d", "wait-exec s=%d"), c.wait/1e9))
		w.Probe("wait")
	}
	if ch.Pct(20) {
		c.after = int64(1+ch.N(2)) * 1e9
		add(fmt.Sprintf("wait-execute.after %d", c.after/1e9))
		w.Probe("wait-after")
	}
	seq, _, _ := c.seq(0, 5)
	if ch.Pct(40) {
		w.Probe("bg")
		name := "tbg"
		k := len(c.steps)
		sub, _, _ := c.seq(1, 4)
		for _, s := range c.steps[k:] {
			s.bg = true
		}
		c.FlowFile(flowsDir, name, strings.Join(sub, " : "))
		i := ch.N(len(seq) + 1)
		// between a probe and what follows, so probes stay next to what they measure in time
		seq = append(seq[:i:i], append([]string{name + " %delay=" + pick(ch, "0", "1s", "2.5s", "100ms")}, seq[i:]...)...)
	}
	add(seq...)
	w.AddMods()
	if ch.Pct(35) {
		w.Probe("jump")
		for i, m := 0, 1+ch.N(2); i < m; i++ {
			at := int64(ch.N(8000)) * 1e6
			j := []int64{1, 3600, 86400 * 40, -1, -3600, -86400 * 3, 30}[ch.N(7)] * 1e9
			w.S.After(at, func() {
				w.S.Offset += j
				c.offs = append(c.offs, offSpan{w.S.Now(), w.S.Offset})
			})
		}
	}
	w.Sample = strings.Join(args, " ")
	t := w.Start(Opt{Faulty: true}, args...)
	if !w.MustEnd(t, "hang") {
		return
	}
	w.Quiet()
	if !w.Faulted() {
		w.Check(t.OK(), "fails", "%q ends with status %d:\n%s", w.Sample, t.Code(), clip(t.All.String(), 2000))
	}
	ev := func(name string) *Ev {
		es := w.evsOf(name)
		if len(es) == 1 {
			return es[0]
		}
		return nil
	}
	secs := func(lo, hi int64) (int64, int64) { return floorDiv(lo, 1e9), floorDiv(hi, 1e9) }
	chk := func(s *tstep, seen *Ev, key, what string, lo, hi int64) {
		v, ok := seen.Env[key]
		n, err := strconv.ParseInt(v, 10, 64)
		if !w.Check(ok && err == nil, "missing", "after %s the key %s (%s) is %q:\n%s", s.text, key, what, v, w.Sample) {
			return
		}
		a, b := secs(lo, hi)
		w.Check(n >= a && n <= b, "time", "after %s the key %s (%s) is %d, it should be %d..%d (off by %d):\n%s\n%s", s.text, key, what, n, a, b, off(n, a, b), w.Sample, c.around(s))
	}
	for _, s := range c.steps {
		p, n := ev(s.prev), ev(s.next)
		if p == nil || n == nil || p.End == 0 {
			continue
		}
		gap := n.StartT - p.EndT
		switch s.kind {
		case "sleep":
			w.Check(gap >= s.d, "short", "%q paused for %s only, between %s and %s:\n%s", s.text, ms(gap), s.prev, s.next, w.Sample)
		case "script":
			if e := ev(s.script); e != nil && e.End != 0 {
				w.Check(e.StartT-p.EndT >= c.wait+c.after && n.StartT-e.EndT >= c.wait+c.after, "wait", "the pause of %s before and %s after each command was not kept around %s: %s before, %s after it:\n%s", ms(c.wait), ms(c.after), s.text, ms(e.StartT-p.EndT), ms(n.StartT-e.EndT), w.Sample)
			}
		case "flow":
			if f := ev(s.first); f != nil {
				w.Check(f.StartT-p.EndT >= 2*c.wait+c.after, "wait", "the pause of %s before each command was not kept before %s and %s in it: %s:\n%s", ms(c.wait), s.text, s.first, ms(f.StartT-p.EndT), w.Sample)
			}
		}
		if w.Faulted() && n.EnvErr != "" {
			continue
		}
		lo, hi, ok := c.wall(p.EndT, n.StartT)
		switch s.kind {
		case "mark", "begin":
			if ok {
				chk(s, n, s.key, "the time", lo, hi)
			}
		case "elapsed":
			b, err := strconv.ParseInt(p.Env[s.begin], 10, 64)
			if ok && err == nil {
				a, z := secs(lo, hi)
				chk(s, n, s.key, "seconds since "+s.begin, (a-b)*1e9, (z-b)*1e9)
			}
		case "script", "flow":
			var bt, et int64
			if s.kind == "script" {
				e := ev(s.script)
				if e == nil || e.End == 0 {
					continue
				}
				bt, et = e.StartT, e.EndT
			} else {
				f, l := ev(s.first), ev(s.last)
				if f == nil || l == nil || l.End == 0 {
					continue
				}
				bt, et = f.StartT-c.wait, l.EndT+c.after
			}
			if b0, b1, ok := c.wall(bt-slack, bt); ok && s.kb != "" {
				chk(s, n, s.kb, "its begin", b0, b1)
				if e := ev(s.script); e != nil && e.EnvErr == "" {
					chk(s, e, s.kb, "its begin, seen by itself", b0, b1)
				}
			}
			if e0, e1, ok := c.wall(et, et+slack); ok && s.ke != "" {
				chk(s, n, s.ke, "its end", e0, e1)
			}
			if _, _, ok := c.wall(bt-slack, et+slack); ok && s.kd != "" {
				chk(s, n, s.kd, "its seconds", et-bt-1e9+1, et-bt+2*slack)
			}
		}
	}
}

func off(n, a, b int64) int64 {
	if n < a {
		return n - a
	}
	if n > b {
		return n - b
	}
	return 0
}

func floorDiv(a, b int64) int64 { return int64(math.Floor(float64(a) / float64(b))) }

// around tells what ran about a step.
func (c *c23) around(s *tstep) string {
	out := ""
	for _, e := range c.Hist {
		out += fmt.Sprintf("%s %s..%s; ", e.Name, ms(e.StartT), ms(e.EndT))
	}
	return clip(out, 800)
}
