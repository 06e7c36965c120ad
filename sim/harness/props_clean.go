package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/innerr/ticat/zsim/rt"
)

func init() {
	reg(&Prop{ID: "C12", Level: "exploration", Run: runC12, Kinds: anyKinds, Variants: 3, Double: 15, StepP: []float64{0, 0, 0.0005}, OpP: []float64{0.02, 0.1, 0.3},
		Rule:   "Several ticat processes start, run for simulated hours, end, fail or are killed in any order while the wall clock jumps in both directions, the keep duration is changed, and other processes start sessions, list, describe, retry or remove sessions by id, by search and all. Every change below the sessions directory is attributed to the process which makes it: a change of the record of a live session by anybody else, the removal of a session younger than the keep duration by a process that was not asked to remove sessions, the removal of one that does not match the request, and any change of foreign names are violations. After a session was started without faults no expired record of an ended session may be left, and after a removal the matching ended ones are gone.",
		Probes: []string{"expired", "removed-all", "removed-id", "removed-search", "forced", "gc-while-running", "jump-back", "jump-forward", "killed", "foreign", "search-many", "old-start-running", "concurrent", "prefix", "other-user"}})
}

type cleanReq struct {
	kind  string // all, id, search, "" (not asked to remove anything)
	id    string
	strs  []string
	force bool
}

func (r cleanReq) matches(name, flow string) bool {
	switch r.kind {
	case "all":
		return true
	case "id":
		return name == r.id
	case "search":
		for _, s := range r.strs {
			if !strings.Contains(name, s) && !strings.Contains(flow, s) {
				return false
			}
		}
		return true
	}
	return false
}

// sesName splits a name like 20240301-120000.1002.
func sesName(n string) (start int64, pid int, ok bool) {
	f := strings.Split(n, ".")
	if len(f) != 2 {
		return
	}
	t, err := time.ParseInLocation("20060102-150405", f[0], time.UTC)
	if err != nil {
		return
	}
	pid, err = strconv.Atoi(f[1])
	return t.UnixNano(), pid, err == nil
}

type span struct {
	at      int64 // simulated time from which it holds
	val, hi int64 // the value, or the range it is in
}

// rangeOf says which values held between two moments.
func rangeOf(h []span, from, to int64) (lo, hi int64) {
	first := true
	for i, x := range h {
		if x.at > to || i+1 < len(h) && h[i+1].at <= from {
			continue
		}
		if first || x.val < lo {
			lo = x.val
		}
		if first || x.hi > hi {
			hi = x.hi
		}
		first = false
	}
	return
}

type cleanWorld struct {
	w      *W
	req    map[int]cleanReq // by pid of the outermost process
	offs   []span           // clock offset
	keeps  []span           // keep duration
	forced map[string]bool  // sessions whose removal was forced while they ran
	faulty map[int]bool
	flows  map[string]string // session name -> its flow text as recorded
}

func (c *cleanWorld) wall(p *rt.Proc, to int64) (lo, hi int64) {
	a, b := rangeOf(c.offs, p.StartAt, to)
	return rt.Epoch + p.StartAt + a, rt.Epoch + to + b
}

func (c *cleanWorld) names() []string {
	var out []string
	for _, n := range c.w.S.FS.List(sessDir) {
		out = append(out, n[strings.LastIndexByte(n, '/')+1:])
	}
	return out
}

func (c *cleanWorld) flowOf(name string) (string, bool) {
	b, ok := c.w.S.FS.Get(sessDir + "/" + name + "/status")
	if !ok {
		return c.flows[name], false
	}
	f := parseStatus(string(b)).Flow
	if f != "" {
		c.flows[name] = f
	}
	return f, f != ""
}

// watch judges one change below the sessions directory.
func (c *cleanWorld) watch(op, p string) {
	w := c.w
	if !strings.HasPrefix(p, sessDir+"/") {
		return
	}
	rest := strings.TrimPrefix(p, sessDir+"/")
	name := rest
	if i := strings.IndexByte(rest, '/'); i >= 0 {
		name = rest[:i]
	}
	me := rt.CurTask().Proc
	if me == w.S.Harness {
		return
	}
	if strings.HasSuffix(rest, "/status") && op == "write" {
		c.flowOf(name)
	}
	start, pid, ok := sesName(name)
	if !ok {
		w.Fail("foreign", "%s of %s, which is not a session, by pid %d %q", op, p, me.Pid, me.Args)
		return
	}
	for q := me; q != nil; {
		if q.Pid == pid {
			return // its own one, or that of a caller
		}
		up := q.PPid
		q = nil
		for _, x := range w.S.All {
			if x.Pid == up {
				q = x
			}
		}
	}
	top := w.topOf(me)
	var actor *rt.Proc
	for _, q := range w.S.All {
		if q.Pid == top {
			actor = q
		}
	}
	req := c.req[top]
	flow := c.flows[name]
	alive := w.S.Procs[pid] != nil || w.S.Foreign[pid]
	if alive {
		if op == "remove" && req.force && req.matches(name, flow) {
			c.forced[name] = true
			w.Probe("forced")
			return
		}
		w.Fail("running", "%s of %s by pid %d %q while the session's process %d is running", op, p, me.Pid, actor.Args, pid)
		return
	}
	if op != "remove" {
		w.Fail("altered", "%s of %s by pid %d %q, which does not own that session", op, p, me.Pid, actor.Args)
		return
	}
	_, now := c.wall(actor, w.S.Now())
	keep, _ := rangeOf(c.keeps, actor.StartAt, w.S.Now())
	if now-start >= keep-2*int64(time.Second) {
		return // expired
	}
	if req.kind == "" {
		w.Fail("recent", "%s was removed by pid %d %q after %v, the keep duration is %v", p, me.Pid, actor.Args, time.Duration(now-start), time.Duration(keep))
		return
	}
	if !req.matches(name, flow) {
		w.Fail("not-asked", "%s (flow %q) was removed by %q, which does not ask for it", p, flow, actor.Args)
	}
}

func runC12(w *W) {
	ch := w.Ch
	s := w.S
	hour := int64(time.Hour)
	c := &cleanWorld{w: w, req: map[int]cleanReq{}, forced: map[string]bool{}, faulty: map[int]bool{}, flows: map[string]string{},
		offs: []span{{0, 0, 0}}, keeps: []span{{0, 2400 * hour, 2400 * hour}}}
	names := []string{"kaa", "kbb", "kab"}
	w.Script("kaa", "out a\n")
	w.Script("kbb", "out b\nexit 3\n")
	w.Script("kab", "sleep $1\nset vk1 x\nout ab\n", "[args]", "d = 1")
	w.Script("kslow", "sleep $2\nout slow\nsleep $2\n", "[args]", "d = 1")
	w.Script("kslow2", "sleep 1\nticat echo hi : kslow d=3 : noop\nsleep 1\n")
	w.Script("kslow3", "sleep 1\nticat {session=$1} : kslow d=3 : kaa\nsleep 1\n")
	w.AddMods()
	s.FS.Watch = c.watch

	// records which exist already
	var foreign []string
	for i := ch.N(4); i > 0; i-- {
		switch ch.N(4) {
		case 0, 1, 2:
			age := pick(ch, int64(time.Second), 60*int64(time.Second), 71*hour, 73*hour, 2399*hour, 2401*hour, 30000*hour, -5*hour)
			n := fmt.Sprintf("%s.%d", time.Unix(0, rt.Epoch-age).UTC().Format("20060102-150405"), 400000+i)
			if ch.P(4) { // the id of another one with a digit more
				if l := c.names(); len(l) > 0 && len(l[0]) < 24 {
					if _, _, ok := sesName(l[0]); ok {
						n = l[0] + pick(ch, "1", "0")
						w.Probe("prefix")
					}
				}
			}
			f := pick(ch, names...)
			if ch.P(5) { // its process belongs to another user
				_, pid, _ := sesName(n)
				s.Foreign[pid] = true
				w.Probe("other-user")
			}
			s.FS.Put(sessDir+"/"+n+"/status", "<flow>"+f+"</flow>\n<flow-start-time>2024-01-01 00:00:00</flow-start-time>\n<cmd>"+f+"</cmd>\n")
			s.FS.Put(sessDir+"/"+n+"/env", "a=b\n")
			if ch.P(3) {
				s.FS.Put(sessDir+"/"+n+"/logs/x_1", "out\n")
			}
			c.flows[n] = f
		case 3:
			n := pick(ch, "foo", "20200101-000000", "20200101-000000.12.3", "20200101-000000.abc", "2020-01-01.77", "x.999999", ".5", "20200101-000000.", "backup.20200101-000000.4")
			s.FS.Put(sessDir+"/"+n+"/status", "<flow>kaa</flow>\n")
			foreign = append(foreign, n)
			w.Probe("foreign")
		}
	}

	w.Stalls = true
	var procs []*TP
	live := func() []*TP {
		var out []*TP
		for _, t := range procs {
			if !t.P.Dead {
				out = append(out, t)
			}
		}
		return out
	}
	start := func(faulty bool, args ...string) *TP {
		t := w.Start(Opt{Faulty: faulty}, args...)
		procs = append(procs, t)
		c.faulty[t.P.Pid] = faulty
		return t
	}
	nFaulty := ch.N(3) // which of the steps faults may strike
	type must struct {
		t      *TP
		req    cleanReq
		before map[string]bool // sessions which had ended when it was started
	}
	var musts []*must
	watchDone := func(t *TP, req cleanReq) *must {
		m := &must{t: t, req: req, before: map[string]bool{}}
		for _, n := range c.names() {
			if _, pid, ok := sesName(n); ok && s.Procs[pid] == nil && !s.Foreign[pid] {
				m.before[n] = true
			}
		}
		musts = append(musts, m)
		return m
	}
	judged := map[*must]bool{}
	judge := func() {
		for _, m := range musts {
			t := m.t
			if judged[m] || !t.P.Dead {
				continue
			}
			judged[m] = true
			if w.Faulted() || t.P.Crashed {
				continue
			}
			started := false
			for n := range c.flows {
				if strings.HasSuffix(n, fmt.Sprintf(".%d", t.P.Pid)) {
					started = true
				}
			}
			_, keep := rangeOf(c.keeps, t.P.StartAt, t.P.EndAt)
			lo, _ := rangeOf(c.offs, t.P.StartAt, t.P.EndAt)
			nowLo := rt.Epoch + t.P.StartAt + lo
			for _, n := range c.names() {
				if !m.before[n] {
					continue
				}
				st, pid, _ := sesName(n)
				if started && nowLo-st > keep+int64(time.Second) {
					w.Fail("kept", "%s is still there after %q though it is %v old and the keep duration is %v", n, t.Args, time.Duration(nowLo-st), time.Duration(keep))
				}
				flow, readable := c.flowOf(n)
				if m.req.kind != "" && m.req.matches(n, flow) && (readable || m.req.kind == "all") {
					w.Fail("not-removed", "%s (flow %q, process %d has ended) is still there after %q: %s", n, flow, pid, t.Args, clip(t.All.String(), 600))
				}
			}
			if started && nowLo > 0 {
				for n := range m.before {
					if st, _, _ := sesName(n); nowLo-st > keep {
						w.Probe("expired")
						if len(live()) > 0 {
							w.Probe("gc-while-running")
						}
					}
				}
			}
		}
	}

	steps := 4 + ch.N(9)
	for i := 0; i < steps && len(w.Fails) == 0; i++ {
		f := i%3 == nFaulty
		if len(live()) > 5 {
			for _, t := range live() {
				w.MustEnd(t, "hang")
			}
		}
		wait := ch.N(3) > 0
		run := func(req cleanReq, args ...string) {
			t := start(f, args...)
			c.req[t.P.Pid] = req
			m := watchDone(t, req)
			if len(live()) > 1 {
				w.Probe("concurrent")
			}
			if wait {
				w.MustEnd(t, "hang")
				judge()
				if req.kind != "" && !w.Faulted() {
					w.Probe("removed-" + req.kind)
					n := 0
					for x := range m.before {
						if req.matches(x, c.flows[x]) {
							n++
						}
					}
					if req.kind == "search" && n > 1 {
						w.Probe("search-many")
					}
				}
			}
		}
		switch ch.W(4, 5, 3, 3, 3, 2, 2, 2) {
		case 0: // a short session
			run(cleanReq{}, pick(ch, []string{"kaa"}, []string{"kbb"}, []string{"kaa", ":", "kbb"}, []string{"kab", ":", "kaa"}, []string{"noop"}, []string{"kaa", "%delay=1", ":", "noop"})...)
		case 1: // a long one
			wait = false
			d := pick(ch, "1", "5", "3600", "10000000")
			run(cleanReq{}, pick(ch, []string{"kslow", "d=" + d}, []string{"kaa", ":", "kslow", "d=" + d, ":", "kab"}, []string{"kslow2"}, []string{"kslow3"}, []string{"kslow", "d=" + d, "%delay=1", ":", "kaa"})...)
		case 2: // the clock
			j := pick(ch, int64(time.Second), hour, 71*hour, 73*hour, 2399*hour, 2401*hour, -hour, -100*hour, -3000*hour, -2*int64(time.Second))
			if s.Offset+j < -20000*hour {
				j = hour
			}
			if j < 0 {
				w.Probe("jump-back")
			} else {
				w.Probe("jump-forward")
				if j > 2000*hour && len(live()) > 0 {
					w.Probe("old-start-running")
				}
			}
			s.Offset += j
			c.offs = append(c.offs, span{s.Now(), s.Offset, s.Offset})
		case 3: // time passes
			s.Sleep(pick(ch, int64(1e8), int64(1e9), 3*int64(1e9), 100*int64(1e9), 2*hour))
		case 4: // removals
			req := cleanReq{}
			var args []string
			switch ch.N(3) {
			case 0:
				req.kind = "all"
				args = []string{"sessions.remove.all"}
			case 1:
				ns := c.names()
				req.kind, req.id = "id", "20240301-120000.77"
				if len(ns) > 0 {
					n := pick(ch, ns...)
					if _, _, ok := sesName(n); ok {
						req.id = n
						if ch.P(4) { // only the start of an id
							req.id = n[:len(n)-1-ch.N(3)]
						}
					}
				}
				args = []string{"sessions.remove", "session-id=" + req.id}
			case 2:
				req.kind = "search"
				for k := 1 + ch.N(2); k > 0; k-- {
					req.strs = append(req.strs, pick(ch, "kaa", "kbb", "kslow", "ka", "20240301", "400001", "zz", "k"))
				}
				args = append([]string{"sessions.remove.by-search"}, req.strs...)
				if ch.Bool() { // by name, other arguments can follow then
					args = args[:1]
					for k, x := range req.strs {
						args = append(args, []string{"1st-str=", "2nd-str="}[k]+x)
					}
				}
			}
			if req.kind != "all" && strings.Contains(args[1], "=") && ch.P(3) {
				req.force = true
				args = append(args, "remove-running=true")
			}
			if ch.P(4) { // the removal is a part of a session
				args = append([]string{"kaa", ":"}, args...)
			}
			run(req, args...)
		case 5: // look at sessions
			run(cleanReq{}, pick(ch, []string{"sessions"}, []string{"sessions.error"}, []string{"sessions.last"}, []string{"sessions.running"}, []string{"sessions.error.desc.more"}, []string{"sessions.running.desc"}, []string{"sessions.done"})...)
		case 6: // the keep duration
			if len(live()) > 0 && ch.Bool() {
				for _, t := range live() {
					w.MustEnd(t, "hang")
				}
			}
			k := pick(ch, time.Second, 10*time.Second, time.Hour, 72*time.Hour, 3000*time.Hour, 24*time.Hour+30*time.Minute)
			old := c.keeps[len(c.keeps)-1].val
			lo, hi := old, int64(k)
			if lo > hi {
				lo, hi = hi, lo
			}
			// while it runs either may be in force
			c.keeps = append(c.keeps, span{s.Now(), lo, hi})
			t := w.Run("sessions.set-keep-duration", "duration="+k.String(), ":", "env.save")
			c.req[t.P.Pid] = cleanReq{}
			if w.Check(t.OK(), "setup", "setting the keep duration to %v failed: %s", k, clip(t.All.String(), 400)) {
				c.keeps = append(c.keeps, span{s.Now(), int64(k), int64(k)})
			}
		case 7: // kill one
			if l := live(); len(l) > 0 {
				s.Kill(l[ch.N(len(l))].P)
				w.Probe("killed")
			}
		}
		judge()
	}
	for _, t := range live() {
		w.MustEnd(t, "hang")
	}
	w.Quiet()
	judge()
	if len(w.Fails) > 0 {
		return
	}
	for _, t := range procs {
		// a long session has its whole record, unless it was removed by force
		n := ""
		for x := range c.flows {
			if strings.HasSuffix(x, fmt.Sprintf(".%d", t.P.Pid)) {
				n = x
			}
		}
		if n == "" || c.forced[n] || c.faulty[t.P.Pid] || t.P.Crashed || c.req[t.P.Pid].kind != "" {
			continue
		}
		w.Check(!w.S.Livelock, "hang", "the processes never end")
	}
	// the last start removes what has expired
	s.Offset += 3001 * hour
	c.offs = append(c.offs, span{s.Now(), s.Offset, s.Offset})
	t := w.Start(Opt{}, "kaa")
	m := watchDone(t, cleanReq{})
	procs = append(procs, t)
	w.MustEnd(t, "hang")
	_ = m
	fired := s.Fired
	s.Fired = nil // this start was not disturbed
	judge()
	s.Fired = fired
	for _, n := range foreign {
		w.Check(s.FS.Exists(sessDir+"/"+n+"/status"), "foreign", "%s, which is not a session, is gone", n)
	}
	w.Sample = fmt.Sprint(len(procs), " processes")
	w.Shape = fmt.Sprint(s.Hash())
}
