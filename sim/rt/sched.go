// Package rt is the simulator: a cooperative scheduler over simulated
// processes and tasks, a simulated clock, an in-memory file system, pipes and
// a fault plan. Exactly one goroutine that belongs to a simulation runs at any
// time, and only the scheduler decides which.
package rt

import (
	"sort"
	"container/heap"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
)

// ---- choice streams ---------------------------------------------------------

// RNG is splitmix64.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed} }

func (r *RNG) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

func Mix(a ...uint64) uint64 {
	h := uint64(0x51ed270b7a1f3c5d)
	for _, x := range a {
		r := RNG{h ^ x}
		h = r.Next()
	}
	return h
}

// SwitchRec says: at scheduling decision number At choose runnable task number Pick
// (in task-id order) instead of the default.
type SwitchRec struct {
	At   int64 `json:"at"`
	Pick int   `json:"pick"`
}

// Fault says: at fault site number At apply Kind. Param is a kind specific number.
type Fault struct {
	At    int    `json:"at"`
	Kind  string `json:"kind"`
	Op    string `json:"on,omitempty"` // only if this is the operation there
	Param int    `json:"param,omitempty"`
}

type SchedCfg struct {
	Seed     uint64  // drives random scheduling in record mode
	SwitchP  float64 // probability to switch at an operation
	StepP    float64 // probability to switch at a plain statement
	Replay   bool
	Switches []SwitchRec
}

// ---- tasks and processes ----------------------------------------------------

type taskState int

const (
	tsRunnable taskState = iota
	tsBlocked
	tsSleeping
	tsDone
)

type Task struct {
	ID     int // global, creation order
	GoID   int // per process, 1 is the main goroutine
	Proc   *Proc
	wake   chan struct{}
	state  taskState
	why    string
	timer  *timerEv
	val    interface{}
	prio   uint64
	enlisted bool // on a wait list but still running
	pend   bool // woken meanwhile
}

type Proc struct {
	Pid      int
	PPid     int
	Name     string
	Args     []string
	Env      map[string]string
	Cwd      string
	Exe      string
	Stdin    *File
	Stdout   *File
	Stderr   *File
	nextGoID int
	tasks    map[*Task]bool
	files    map[*File]bool
	Dead     bool
	Crashed  bool // killed by a fault or signal
	Code     int
	ExitMsg  string
	EndSeq   int64
	Panicked bool // died of an uncaught panic
	StartAt  int64
	EndAt    int64
	waiters  []*Task
	pv       map[string]interface{} // package variables of the process
	rnd      interface{}            // math/rand state
	Faulty   bool                   // fault sites of this process are counted
	Kind     string                 // "ticat", "script", "git", ...
	OpCount  int
	MutCount int   // changing operations so far
	StallMut int   // it stalls before this changing operation
	StallFor int64 // for so long
	sim      *Sim
	ExecIdx  int
	Tag      interface{}
}

type timerEv struct {
	at   int64
	seq  int64
	idx  int
	fire func()
	dead bool
}

type timerHeap []*timerEv

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x interface{}) { e := x.(*timerEv); e.idx = len(*h); *h = append(*h, e) }
func (h *timerHeap) Pop() interface{} {
	o := *h
	e := o[len(o)-1]
	*h = o[:len(o)-1]
	return e
}

// Site is one place where a fault could have struck in this run.
type Site struct {
	Op   string
	Path string
	Pid  int
	N    int // bytes of a write
}

type Sim struct {
	now     int64 // simulated nanoseconds since the epoch below
	Offset  int64 // wall clock offset (clock jumps)
	seq     int64
	timers  timerHeap
	tasks   map[int]*Task
	run     []*Task // runnable, in id order
	cur     *Task
	nextTID int
	nextPid int
	Procs   map[int]*Proc
	Foreign map[int]bool // live processes of other users
	All     []*Proc
	driver  chan struct{}
	finished bool

	Sched    SchedCfg
	rng      *RNG
	nDec     int64
	swIdx    int
	Recorded []SwitchRec
	stepGap  int64
	opGap    int64

	steps    int64
	MaxSteps int64
	Livelock bool

	FS *FS

	Faults   []Fault
	faultIdx map[int]Fault
	nSite    int
	Sites    []Site
	Fired    []FiredFault
	FaultWin bool // fault window open

	MapSeed uint64
	mapN    uint64

	hash    uint64
	Events  int64
	Log     []string
	KeepLog bool

	Execs    map[string]ExecFunc
	Harness  *Proc
	hungWait *Task
	Hung     bool

	Counts map[string]int64
	chans  map[uintptr]*chanState
	keep   []interface{} // keeps channels alive so that their addresses stay unique

	Unsupported string
	ShortReads  bool
	TimerEvents int64
	Switches    int64
	TraceHash   uint64 // hash of the order of (pid, op class) - the interleaving
	OnOp        func(p *Proc, op, path string)
}

type FiredFault struct {
	Fault
	Op   string `json:"op"`
	Path string `json:"path"`
	Pid  int    `json:"pid"`
	T    int64  `json:"t"`
}

// S is the simulation that is running in this OS process (one at a time).
var S *Sim

// Epoch of simulated time: 2024-03-01 12:00:00 UTC.
const Epoch = int64(1709294400) * 1e9

func NewSim(cfg SchedCfg, faults []Fault, mapSeed uint64) *Sim {
	s := &Sim{
		tasks:    map[int]*Task{},
		Procs:    map[int]*Proc{},
		Foreign:  map[int]bool{},
		driver:   make(chan struct{}, 1),
		Sched:    cfg,
		rng:      NewRNG(cfg.Seed),
		MaxSteps: 30000000,
		Faults:   faults,
		faultIdx: map[int]Fault{},
		MapSeed:  mapSeed,
		Execs:    map[string]ExecFunc{},
		Counts:   map[string]int64{},
		chans:    map[uintptr]*chanState{},
		nextPid:  1000,
		hash:     14695981039346656037,
	}
	for _, f := range faults {
		s.faultIdx[f.At] = f
	}
	s.FS = newFS(s)
	s.drawGaps()
	S = s
	return s
}

func (s *Sim) geom(p float64) int64 {
	if p <= 0 {
		return 1 << 60
	}
	// number of failures before the first success, by inversion on a 53 bit draw
	n := int64(0)
	for {
		u := float64(s.rng.Next()>>11) / float64(1<<53)
		if u < p {
			return n
		}
		n++
		if n > 1<<16 {
			return n
		}
	}
}

func (s *Sim) drawGaps() {
	if s.Sched.Replay {
		s.stepGap, s.opGap = 1<<60, 1<<60
		return
	}
	s.stepGap = s.geomFast(s.Sched.StepP)
	s.opGap = s.geomFast(s.Sched.SwitchP)
}

func (s *Sim) geomFast(p float64) int64 {
	if p <= 0 {
		return 1 << 60
	}
	if p < 0.02 { // uniform in [0, 2/p): same mean, one draw
		return int64(s.rng.Next() % uint64(2/p))
	}
	return s.geom(p)
}

// ---- event log --------------------------------------------------------------

func (s *Sim) Event(format string, a ...interface{}) {
	s.Events++
	str := fmt.Sprintf(format, a...)
	h := fnv.New64a()
	h.Write([]byte(str))
	s.hash = (s.hash ^ h.Sum64()) * 1099511628211
	s.hash = (s.hash ^ uint64(s.now)) * 1099511628211
	if s.KeepLog {
		who := "-"
		if s.cur != nil {
			who = fmt.Sprintf("%d/%d", s.cur.Proc.Pid, s.cur.GoID)
		}
		s.Log = append(s.Log, fmt.Sprintf("%12.6f %-7s %s", float64(s.now)/1e9, who, str))
	}
}

func (s *Sim) Hash() uint64 { return s.hash }
func (s *Sim) Now() int64   { return s.now }
func (s *Sim) Steps() int64 { return s.steps }
func (s *Sim) NSites() int  { return s.nSite }

// ---- scheduling -------------------------------------------------------------

func (s *Sim) addRun(t *Task) {
	t.state = tsRunnable
	i := len(s.run)
	for i > 0 && s.run[i-1].ID > t.ID {
		i--
	}
	s.run = append(s.run, nil)
	copy(s.run[i+1:], s.run[i:])
	s.run[i] = t
}

func (s *Sim) delRun(t *Task) {
	for i, x := range s.run {
		if x == t {
			s.run = append(s.run[:i], s.run[i+1:]...)
			return
		}
	}
}

// pick chooses the next task to run; cur (may be nil) is runnable and preferred
// by default.
func (s *Sim) pick(cur *Task, force bool) *Task {
	at := s.nDec
	s.nDec++
	def := 0
	if cur != nil {
		for i, t := range s.run {
			if t == cur {
				def = i
			}
		}
	}
	pick := def
	if s.Sched.Replay {
		for s.swIdx < len(s.Sched.Switches) && s.Sched.Switches[s.swIdx].At < at {
			s.swIdx++
		}
		if s.swIdx < len(s.Sched.Switches) && s.Sched.Switches[s.swIdx].At == at {
			pick = s.Sched.Switches[s.swIdx].Pick
			if pick >= len(s.run) {
				pick = def
			}
			s.swIdx++
		}
	} else if force && len(s.run) > 1 {
		pick = s.rng.Intn(len(s.run))
	}
	if pick != def {
		s.Recorded = append(s.Recorded, SwitchRec{at, pick})
	}
	return s.run[pick]
}

// switchTo hands the CPU to t and parks the calling task until it is chosen
// again. me may be a dead task: then it parks forever.
func (s *Sim) switchTo(me, t *Task) {
	if t == me {
		return
	}
	s.Switches++
	s.cur = t
	s.TraceHash = (s.TraceHash ^ uint64(t.ID)) * 1099511628211
	t.wake <- struct{}{}
	s.park(me)
}

func (s *Sim) park(me *Task) {
	<-me.wake
	s.cur = me
}

// Y is inserted before statements of the code under test.
func Y() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.steps++
	if s.steps > s.MaxSteps {
		s.livelock()
	}
	if len(s.run) < 2 {
		return
	}
	if s.Sched.Replay {
		s.decide(false)
		return
	}
	s.stepGap--
	if s.stepGap < 0 {
		s.stepGap = s.geomFast(s.Sched.StepP)
		s.decide(true)
		return
	}
	s.nDec++
}

// opPoint is called at every simulated operation.
func (s *Sim) opPoint() {
	s.steps += 5
	if s.steps > s.MaxSteps {
		s.livelock()
	}
	if len(s.run) < 2 {
		return
	}
	if s.Sched.Replay {
		s.decide(false)
		return
	}
	s.opGap--
	if s.opGap < 0 {
		s.opGap = s.geomFast(s.Sched.SwitchP)
		s.decide(true)
		return
	}
	s.nDec++
}

func (s *Sim) decide(force bool) {
	me := s.cur
	t := s.pick(me, force)
	if t != me {
		s.switchTo(me, t)
	}
}

// yieldAway lets some other runnable task run (Gosched).
func (s *Sim) Gosched() {
	me := s.cur
	if len(s.run) > 1 {
		s.switchTo(me, s.pick(nil, true))
	}
}

// block parks the current task until ready(t) is called.
func (s *Sim) block(why string) {
	me := s.cur
	me.state = tsBlocked
	me.why = why
	s.delRun(me)
	s.dispatch(me)
}

func (s *Sim) ready(t *Task) {
	if t.enlisted {
		t.pend = true
		return
	}
	if t.state == tsBlocked || t.state == tsSleeping {
		if t.Proc.Dead {
			return
		}
		if t.timer != nil {
			t.timer.dead = true
			t.timer = nil
		}
		t.why = ""
		s.addRun(t)
	}
}

// dispatch runs some other task; me is not runnable (blocked or dead).
func (s *Sim) dispatch(me *Task) {
	for len(s.run) == 0 {
		if !s.fireTimer() {
			s.idle()
			if len(s.run) == 0 {
				// nothing can ever run again: hand back to the driver
				s.finish()
				select {}
			}
		}
	}
	t := s.pick(nil, true)
	if t == me {
		s.cur = me
		return
	}
	s.switchTo(me, t)
}

func (s *Sim) fireTimer() bool {
	for s.timers.Len() > 0 {
		e := heap.Pop(&s.timers).(*timerEv)
		if e.dead {
			continue
		}
		if e.at > s.now {
			s.now = e.at
		}
		s.TimerEvents++
		e.fire()
		return true
	}
	return false
}

// runDueTimers fires the timers whose time has come while tasks are running.
func (s *Sim) runDueTimers() {
	for s.timers.Len() > 0 && (s.timers[0].dead || s.timers[0].at <= s.now) {
		e := heap.Pop(&s.timers).(*timerEv)
		if e.dead {
			continue
		}
		s.TimerEvents++
		e.fire()
	}
}

func (s *Sim) addTimer(at int64, fire func()) *timerEv {
	s.seq++
	e := &timerEv{at: at, seq: s.seq, fire: fire}
	heap.Push(&s.timers, e)
	return e
}

func (s *Sim) idle() {
	// No task can run and no timer is pending. If the scenario is waiting, tell it.
	if s.hungWait != nil {
		t := s.hungWait
		s.hungWait = nil
		s.Hung = true
		s.Event("hang: nothing can run: %s", s.BlockedReport())
		s.ready(t)
	}
}

func (s *Sim) livelock() {
	// Called by a task that exceeded the step budget: freeze every task but the
	// scenario's.
	if s.Livelock {
		return
	}
	s.Livelock = true
	me := s.cur
	s.Event("livelock: step budget exceeded in pid %d", me.Proc.Pid)
	if me.Proc == s.Harness {
		return // the scenario itself is slow: the caller will see the flag
	}
	for _, p := range s.All {
		if p != s.Harness && !p.Dead {
			s.killProc(p, -99, "livelock")
		}
	}
	if s.hungWait != nil {
		t := s.hungWait
		s.hungWait = nil
		s.Hung = true
		s.ready(t)
	}
	s.die(me)
}

func (s *Sim) BlockedReport() string {
	var out []string
	for _, p := range s.All {
		if p.Dead || p == s.Harness {
			continue
		}
		for t := range p.tasks {
			out = append(out, fmt.Sprintf("pid %d (%s) task %d: %s", p.Pid, p.Name, t.GoID, t.why))
		}
	}
	sortStrings(out)
	return strings.Join(out, "; ")
}

func (s *Sim) finish() {
	if !s.finished {
		s.finished = true
		s.cur = nil
		s.driver <- struct{}{}
	}
}

// die parks the calling task forever (its process is gone).
func (s *Sim) die(me *Task) {
	me.state = tsDone
	s.delRun(me)
	s.dispatch(me)
	select {}
}

// Go starts a task in process p.
func (s *Sim) newTask(p *Proc, fn func()) *Task {
	s.nextTID++
	p.nextGoID++
	gid := p.nextGoID
	if gid > 1 {
		gid += 16 + gid%3 // other goroutine ids are not dense in a real process
	}
	t := &Task{ID: s.nextTID, GoID: gid, Proc: p, wake: make(chan struct{}, 1)}
	p.tasks[t] = true
	s.tasks[t.ID] = t
	go func() {
		<-t.wake
		s.cur = t
		defer func() {
			if r := recover(); r != nil {
				if p == s.Harness {
					s.Unsupported = fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
					s.finish()
					select {}
				}
				if u, ok := r.(unsupported); ok {
					s.noteUnsupported(string(u))
				}
				msg := fmt.Sprintf("panic: %v", r)
				s.Event("uncaught panic in pid %d: %v", p.Pid, r)
				if s.KeepLog {
					s.Log = append(s.Log, string(debug.Stack()))
				}
				if p.Stderr != nil && p.Stderr.Sink != nil {
					p.Stderr.Sink.add(s, []byte(msg+"\n"))
				}
				p.Panicked = true
				s.killProc(p, 2, msg)
				s.die(t)
			}
			// plain return of the goroutine
			s.endTask(t)
		}()
		fn()
	}()
	s.addRun(t)
	return t
}

func (s *Sim) endTask(t *Task) {
	t.state = tsDone
	delete(t.Proc.tasks, t)
	delete(s.tasks, t.ID)
	s.delRun(t)
	for len(s.run) == 0 {
		if !s.fireTimer() {
			s.idle()
			if len(s.run) == 0 {
				s.finish()
				return
			}
		}
	}
	n := s.pick(nil, true)
	s.Switches++
	s.cur = n
	n.wake <- struct{}{}
}

type unsupported string

func (s *Sim) noteUnsupported(msg string) {
	if s.Unsupported == "" {
		s.Unsupported = msg
	}
}

// Unsupported aborts the run: the code under test used something the simulator
// does not model. The check ends with an error exit, never with a verdict.
func Unsupported(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if S != nil {
		S.noteUnsupported(msg + "\n" + string(debug.Stack()))
		if S.cur != nil {
			S.finish()
			select {}
		}
	}
	panic(unsupported(msg))
}

// GoFunc implements the go statement of the code under test.
func GoFunc(fn func()) {
	s := S
	s.alive()
	p := s.cur.Proc
	t := s.newTask(p, fn)
	s.Event("go %d", t.GoID)
	s.opPoint()
}

// alive parks the caller forever when its process is dead.
func (s *Sim) alive() *Task {
	me := s.cur
	if me.Proc.Dead {
		s.die(me)
	}
	return me
}

func Cur() *Proc { return S.cur.Proc }
func CurTask() *Task { return S.cur }

// ---- processes --------------------------------------------------------------

func (s *Sim) NewProc(name string, ppid int) *Proc {
	s.nextPid++
	p := &Proc{Pid: s.nextPid, PPid: ppid, Name: name, tasks: map[*Task]bool{}, files: map[*File]bool{},
		pv: map[string]interface{}{}, Env: map[string]string{}, Cwd: "/", sim: s, StartAt: s.now}
	s.Procs[p.Pid] = p
	s.All = append(s.All, p)
	return p
}

// SkipPids lets the pid counter move on (pids of unrelated processes).
func (s *Sim) SkipPids(n int) { s.nextPid += n }

// killProc ends a process at once: its tasks never run again, its files close.
func (s *Sim) killProc(p *Proc, code int, msg string) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.Code = code
	p.ExitMsg = msg
	p.EndAt = s.now
	p.EndSeq = s.NextSeq()
	s.Event("exit pid %d code %d %s", p.Pid, code, msg)
	var ts []*Task
	for t := range p.tasks {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	for _, t := range ts {
		s.delRun(t)
		if t.timer != nil {
			t.timer.dead = true
		}
		if t != s.cur {
			t.state = tsDone
		}
		delete(s.tasks, t.ID)
	}
	var fs []*File
	for f := range p.files {
		fs = append(fs, f)
	}
	sortFiles(fs)
	for _, f := range fs {
		f.drop()
	}
	p.files = map[*File]bool{}
	delete(s.Procs, p.Pid)
	for _, w := range p.waiters {
		s.ready(w)
	}
	p.waiters = nil
}

// Exit ends the current process (os.Exit or return from main).
func Exit(code int) {
	s := S
	me := s.alive()
	s.killProc(me.Proc, code&0xff, "")
	s.die(me)
}

func (s *Sim) crash(p *Proc, why string) {
	p.Crashed = true
	s.killProc(p, -9, why)
	if s.cur.Proc == p {
		s.die(s.cur)
	}
}

// Kill kills a process from the scenario.
func (s *Sim) Kill(p *Proc) {
	if !p.Dead {
		s.Event("kill pid %d", p.Pid)
		p.Crashed = true
		s.killProc(p, -9, "killed")
	}
}

// StartProc starts fn as the main task of p.
func (s *Sim) StartProc(p *Proc, fn func()) {
	p.StartAt = s.now
	s.Event("start pid %d %s %q", p.Pid, p.Name, p.Args)
	s.newTask(p, func() {
		fn()
		s.killProc(p, 0, "")
	})
}

// WaitProc blocks the current task until p is dead. It returns false if
// nothing can run any more (hang) or the step budget was used up.
func (s *Sim) WaitProc(p *Proc) bool {
	me := s.cur
	for !p.Dead {
		p.waiters = append(p.waiters, me)
		if me.Proc == s.Harness {
			s.hungWait = me
		}
		s.block(fmt.Sprintf("wait for pid %d", p.Pid))
		if s.hungWait == me {
			s.hungWait = nil
		}
		if me.Proc == s.Harness && (s.Hung || s.Livelock) {
			return false
		}
	}
	return !s.Livelock
}

// Sleep blocks the current task for d simulated nanoseconds.
func (s *Sim) Sleep(d int64) {
	me := s.alive()
	if d < 0 {
		d = 0
	}
	me.state = tsSleeping
	me.why = fmt.Sprintf("sleep %dns", d)
	s.delRun(me)
	me.timer = s.addTimer(s.now+d, func() {
		me.timer = nil
		s.ready(me)
	})
	s.dispatch(me)
}

// SleepUntilIdle blocks the scenario task until nothing else can run before
// time limit; returns when the system is idle or the time has come.
func (s *Sim) After(d int64, fn func()) func() {
	e := s.addTimer(s.now+d, fn)
	return func() { e.dead = true }
}

// Tick advances the clock by a small deterministic amount.
func (s *Sim) tick() {
	s.seq++
	s.now += 1000 + int64(Mix(uint64(s.seq), s.MapSeed)%9000)
	if s.timers.Len() > 0 && s.timers[0].at <= s.now {
		s.runDueTimers()
	}
}

// Run executes the scenario as the harness process and returns when it is done
// or nothing can run any more.
func (s *Sim) Run(scenario func()) {
	h := &Proc{Pid: 1, Name: "scenario", tasks: map[*Task]bool{}, files: map[*File]bool{},
		pv: map[string]interface{}{}, Env: map[string]string{}, Cwd: "/", sim: s}
	s.Harness = h
	t := s.newTask(h, func() {
		scenario()
		s.finish()
		select {}
	})
	s.cur = t
	t.wake <- struct{}{}
	<-s.driver
}

// ---- package variables ------------------------------------------------------

var procInits []func()

// RegisterInit replaces func init() of the code under test.
func RegisterInit(fn func()) bool {
	procInits = append(procInits, fn)
	return true
}

func RunInits() {
	for _, f := range procInits {
		f()
	}
}

var outsidePV = map[string]interface{}{}

// PV returns the current process's instance of a package variable.
func PV[T any](key string, init func() T) *T {
	m := outsidePV
	if S != nil && S.cur != nil {
		m = S.cur.Proc.pv
	}
	if v, ok := m[key]; ok {
		return v.(*T)
	}
	v := new(T)
	m[key] = v
	*v = init()
	return v
}
