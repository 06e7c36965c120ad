package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/innerr/ticat/zsim/rt"
)

// Batch is what a worker reports.
type Batch struct {
	Runs, Baselines, FaultRuns int
	Fired                      map[string]int
	FiredOps                   map[string]int
	Probes                     map[string]int
	Traces                     []uint64
	States                     []uint64
	Shapes                     []uint64
	Cases                      []uint64
	Steps, Switches            int64
	SimNs                      float64
	Procs, Scripts             int
	Samples                    []string
	Known                      map[string]int
	Viol                       *Violation
	Err                        string
	Determ                     int
	Sites                      int64
	Enumerated                 int // workloads whose every (site, kind) was tried
}

type Violation struct {
	Plan Plan
	Key  string
	Msg  string
}

func main() {
	os.Setenv("TZ", "UTC")
	time.Local = time.UTC
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simticat check|worker|replay|one|determ ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "one":
		oneRun(os.Args[2:])
	case "determ":
		determ(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func getProp(id string) *Prop {
	p := props[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "no such property %q\n", id)
		os.Exit(2)
	}
	return p
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	from := fs.Uint64("from", 0, "")
	n := fs.Int("n", 100, "")
	base := fs.Uint64("seed", 1, "")
	known := fs.String("known", "", "")
	dl := fs.Int64("deadline", 0, "unix milliseconds")
	mini := fs.Int("min", 400, "")
	fs.Parse(args)
	p := getProp(*id)
	ks, err := loadKnown(*known)
	b := &Batch{Fired: map[string]int{}, FiredOps: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	out := func() {
		j, _ := json.Marshal(b)
		os.Stdout.Write(append(j, '\n'))
	}
	if err != nil {
		b.Err = err.Error()
		out()
		return
	}
	seenT, seenS, seenSh := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	procs := 0
	account := func(pl *Plan, r *Result) bool {
		b.Runs++
		b.Steps += r.Steps
		b.SimNs += float64(r.SimNs)
		b.Switches += r.NSwitch
		b.Procs += r.Procs
		b.Scripts += r.Scripts
		procs += r.Procs
		for k, v := range r.Probes {
			b.Probes[k] += v
		}
		for _, f := range r.Fired {
			b.Fired[f.Kind]++
			b.FiredOps[f.Op+":"+f.Kind]++
		}
		if !seenT[r.Trace] {
			seenT[r.Trace] = true
			b.Traces = append(b.Traces, r.Trace)
		}
		if !seenS[r.State] {
			seenS[r.State] = true
			b.States = append(b.States, r.State)
		}
		fk := ""
		for _, f := range r.Fired {
			fk += fmt.Sprint(f.Op, f.Kind, f.At)
		}
		c := hash64(fmt.Sprint(r.Shape, r.Tape, fk, r.Trace))
		if !seenSh[c] && (r.Procs > 1) && (r.Scripts > 0 || r.Procs > 1) {
			seenSh[c] = true
			b.Cases = append(b.Cases, c)
		}
		if len(b.Samples) < 2 && r.Sample != "" {
			s := r.Sample
			for _, f := range r.Fired {
				s += fmt.Sprintf(" | fault %s at %s %s", f.Kind, f.Op, f.Path)
			}
			b.Samples = append(b.Samples, fmt.Sprintf("seed %d variant %d: %s", pl.Seed, pl.Variant, s))
		}
		if r.Err != "" {
			b.Err = fmt.Sprintf("seed %d variant %d: %s", pl.Seed, pl.Variant, r.Err)
			return false
		}
		f, kn := firstUnknown(p, r.Fails, ks)
		for _, k := range kn {
			b.Known[k]++
		}
		if f != nil {
			q := *pl
			if m := minimise(p, pl, f.Key, ks, *mini); m != nil {
				q = *m
			} else {
				// the recorded schedule did not reproduce it
				b.Err = fmt.Sprintf("seed %d variant %d: failure %s (%s) is not reproduced by its recording", pl.Seed, pl.Variant, f.Key, f.Msg)
				return false
			}
			b.Viol = &Violation{Plan: q, Key: f.Key, Msg: f.Msg}
			return false
		}
		return true
	}
	for i := 0; i < *n; i++ {
		if *dl > 0 && time.Now().UnixMilli() > *dl {
			break
		}
		if procs > 6000 {
			break
		}
		seed := rt.Mix(*base, *from+uint64(i)) >> 1
		pl := basePlan(p, seed)
		r := execPlan(p, pl, false)
		b.Baselines++
		if i == 0 { // determinism: the same plan gives the same run
			r2 := execPlan(p, pl, false)
			b.Determ++
			if r2.Hash != r.Hash {
				b.Err = fmt.Sprintf("seed %d: two runs of one plan differ", seed)
				break
			}
		}
		if !account(pl, r) {
			break
		}
		if p.Kinds == nil || p.Variants == 0 {
			continue
		}
		b.Sites += int64(len(r.Sites))
		stop := false
		for v := 1; v <= p.Variants; v++ {
			if *dl > 0 && time.Now().UnixMilli() > *dl {
				break
			}
			q := *pl
			q.Variant = v
			q.Inject = true
			q.Faults = faultPlan(p, seed, v, r.Sites)
			if len(q.Faults) == 0 {
				break
			}
			r2 := execPlan(p, &q, false)
			if len(r2.Fired) > 0 {
				b.FaultRuns++
			}
			if !account(&q, r2) {
				stop = true
				break
			}
		}
		if stop {
			break
		}
	}
	out()
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	secs := fs.Int("secs", 20, "")
	known := fs.String("known", "", "")
	evid := fs.String("evidence", "", "")
	rdir := fs.String("replays", "", "")
	nw := fs.Int("workers", 8, "")
	fs.Parse(args)
	p := getProp(*id)
	start := time.Now()
	deadline := start.Add(time.Duration(*secs) * time.Second)
	self, _ := os.Executable()
	var mu sync.Mutex
	allKnown, err := loadKnown(*known)
	if err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(2)
	}
	tot := &Batch{Fired: map[string]int{}, FiredOps: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	traces, states, cases := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	next := uint64(0)
	const chunk = 100
	var wg sync.WaitGroup
	stop := false
	for i := 0; i < *nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				from := next
				next += chunk
				mu.Unlock()
				cmd := exec.Command(self, "worker", "-prop", *id, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(from),
					"-n", fmt.Sprint(chunk), "-known", *known, "-deadline", fmt.Sprint(deadline.UnixMilli()))
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
				cmd.Stderr = &tail{}
				pipe, _ := cmd.StdoutPipe()
				err := cmd.Start()
				var b Batch
				if err == nil {
					// a watchdog: the simulator itself must not hang
					kill := time.AfterFunc(time.Until(deadline)+100*time.Second, func() { cmd.Process.Kill() })
					d := json.NewDecoder(bufio.NewReader(pipe))
					err = d.Decode(&b)
					cmd.Wait()
					kill.Stop()
				}
				mu.Lock()
				if err != nil {
					b.Err = fmt.Sprintf("worker from %d: %v: %s", from, err, cmd.Stderr.(*tail).String())
				}
				merge(tot, &b, traces, states, cases)
				if b.Err != "" || b.Viol != nil {
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	wall := time.Since(start).Seconds()
	viol := 0
	exit := 0
	if tot.Viol != nil {
		path := fmt.Sprintf("%s/%s-%s-%x.json", *rdir, *id, tot.Viol.Key, rt.Mix(tot.Viol.Plan.Seed, uint64(tot.Viol.Plan.Variant))&0xffffffff)
		r := execPlan(p, &tot.Viol.Plan, true)
		rf := ReplayFile{Plan: tot.Viol.Plan, Key: tot.Viol.Key, Message: tot.Viol.Msg, Fired: r.Fired, Hash: fmt.Sprintf("%016x", r.Hash), Sample: r.Sample, Trace: r.Log}
		ks, _ := loadKnown(*known)
		if f, _ := firstUnknown(p, r.Fails, ks); f != nil {
			rf.Message = f.Msg
		}
		if err := saveJSON(path, rf); err != nil {
			fmt.Fprintln(os.Stderr, "cannot write the replay file:", err)
			os.Exit(2)
		}
		// it must fail again in a fresh process
		o, err := exec.Command(self, "replay", "-known", *known, path).CombinedOutput()
		code := 0
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		if code != 1 {
			fmt.Fprintf(os.Stderr, "ERROR: the failure %s is not reproduced by its replay file %s:\n%s\n", tot.Viol.Key, path, o)
			os.Exit(2)
		}
		fmt.Printf("%s: %s\n", rf.Key, rf.Message)
		fmt.Printf("  workload: %s\n", rf.Sample)
		for _, f := range rf.Fired {
			fmt.Printf("  fault: %s at %s %s (pid %d)\n", f.Kind, f.Op, f.Path, f.Pid)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, path)
		viol, exit = 1, 1
	} else if tot.Err != "" {
		fmt.Fprintf(os.Stderr, "ERROR: %s\n", tot.Err)
		exit = 2
	}
	if tot.Runs == 0 && exit == 0 {
		fmt.Fprintln(os.Stderr, "ERROR: nothing was run")
		exit = 2
	}
	var kn []string
	for _, k := range allKnown {
		if k.Property == *id {
			kn = append(kn, k.What)
		}
	}
	sort.Strings(kn)
	for _, k := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, k)
	}
	var zero []string
	for _, pr := range p.Probes {
		if tot.Probes[pr] == 0 {
			zero = append(zero, pr)
		}
	}
	ev := map[string]interface{}{
		"property": *id, "tier": *tier, "seed": *seed, "level": p.Level, "wall_s": wall, "violations": viol,
		"coverage": map[string]interface{}{
			"evaluations":              tot.Runs,
			"distinct_nontrivial":      len(cases),
			"rule":                     p.Rule + " Each run draws a workload from its seed; a run counts as distinct if its workload decisions, the faults that fired or its order of task switches differ from every other run's, and as non-trivial if at least one ticat process ran in it.",
			"samples":                  tot.Samples,
			"workloads":                tot.Baselines,
			"runs_with_faults_fired":   tot.FaultRuns,
			"faults_injected_by_kind":  tot.Fired,
			"faults_injected_by_site":  tot.FiredOps,
			"fault_sites_in_workloads": tot.Sites,
			"runs_per_hour":            int(float64(tot.Runs) / wall * 3600),
			"seeds_per_hour":           int(float64(tot.Baselines) / wall * 3600),
			"simulated_seconds":        tot.SimNs / 1e9,
			"simulated_processes":      tot.Procs,
			"script_runs":              tot.Scripts,
			"task_switches":            tot.Switches,
			"simulated_statements":     tot.Steps,
			"distinct_interleavings":   len(traces),
			"distinct_final_states":    len(states),
			"determinism_checks":       tot.Determ,
			"probes":                   tot.Probes,
			"probes_not_reached":       zero,
			"known_findings_seen":      tot.Known,
			"real_components":          "all of pkg/ (rewritten at build time: statements yield, go/chan/map iteration/package state and the std packages os, os/exec, time, sync, math/rand, runtime, syscall, net, io/ioutil, path/filepath, fmt.Print* go to the simulator), go-shellwords",
			"stub_components":          "file system, pipes, processes, clock, terminal (liner), scripts run by bash, git, mv, cp, rm: simulated" + p.Stub,
		},
		"assumptions": []string{
			"a file operation is atomic unless a torn or short write is injected; what was written before a process crash survives it (the machine itself does not crash)",
			"scheduling points are the statements of ticat's code and its system calls; data races inside one statement are not explored",
		},
	}
	if *evid != "" {
		if err := saveJSON(*evid, ev); err != nil {
			fmt.Fprintln(os.Stderr, "cannot write the evidence:", err)
			os.Exit(2)
		}
	}
	fmt.Printf("%s %s: %d runs (%d workloads, %d with faults fired), %d distinct, %d interleavings, %d final states, %.0f simulated s, %.1f s\n", *id, *tier,
		tot.Runs, tot.Baselines, tot.FaultRuns, len(cases), len(traces), len(states), tot.SimNs/1e9, wall)
	if len(zero) > 0 {
		fmt.Printf("  conditions not reached: %s\n", strings.Join(zero, ", "))
	}
	os.Exit(exit)
}

type tail struct{ b []byte }

func (t *tail) Write(b []byte) (int, error) {
	t.b = append(t.b, b...)
	if len(t.b) > 8000 {
		t.b = append(append([]byte{}, t.b[:4000]...), t.b[len(t.b)-4000:]...)
	}
	return len(b), nil
}
func (t *tail) String() string { return string(t.b) }

func merge(t, b *Batch, traces, states, cases map[uint64]bool) {
	t.Runs += b.Runs
	t.Baselines += b.Baselines
	t.FaultRuns += b.FaultRuns
	t.Steps += b.Steps
	t.SimNs += b.SimNs
	t.Switches += b.Switches
	t.Procs += b.Procs
	t.Scripts += b.Scripts
	t.Determ += b.Determ
	t.Sites += b.Sites
	for k, v := range b.Fired {
		t.Fired[k] += v
	}
	for k, v := range b.FiredOps {
		t.FiredOps[k] += v
	}
	for k, v := range b.Probes {
		t.Probes[k] += v
	}
	for k, v := range b.Known {
		t.Known[k] += v
	}
	for _, x := range b.Traces {
		traces[x] = true
	}
	for _, x := range b.States {
		states[x] = true
	}
	for _, x := range b.Cases {
		cases[x] = true
	}
	if len(t.Samples) < 4 {
		t.Samples = append(t.Samples, b.Samples...)
	}
	if b.Viol != nil && t.Viol == nil {
		t.Viol = b.Viol
	}
	if b.Err != "" && t.Err == "" {
		t.Err = b.Err
	}
}

func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	known := fs.String("known", "", "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := getProp(rf.Prop)
	ks, _ := loadKnown(*known)
	r := execPlan(p, &rf.Plan, true)
	if *verbose {
		for _, l := range r.Log {
			fmt.Println(l)
		}
	}
	if r.Err != "" {
		fmt.Fprintln(os.Stderr, r.Err)
		os.Exit(2)
	}
	f, _ := firstUnknown(p, r.Fails, ks)
	if f == nil {
		fmt.Printf("no violation (event hash %016x, recorded %s)\n", r.Hash, rf.Hash)
		os.Exit(0)
	}
	fmt.Printf("%s: %s\n", f.Key, f.Msg)
	if f.Key != rf.Key || fmt.Sprintf("%016x", r.Hash) != rf.Hash {
		fmt.Printf("differs from the recording: key %s/%s hash %016x/%s\n", f.Key, rf.Key, r.Hash, rf.Hash)
		os.Exit(3)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Prop, fs.Arg(0))
	os.Exit(1)
}

// oneRun runs one seed and prints everything (for development).
func oneRun(args []string) {
	p := getProp(args[0])
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	v := 0
	if len(args) > 2 {
		v, _ = strconv.Atoi(args[2])
	}
	pl := basePlan(p, seed)
	r := execPlan(p, pl, v == 0)
	if v > 0 {
		q := *pl
		q.Variant = v
		q.Inject = true
		q.Faults = faultPlan(p, seed, v, r.Sites)
		r = execPlan(p, &q, true)
	}
	for _, l := range r.Log {
		fmt.Println(l)
	}
	fmt.Println("sample:", r.Sample, "err:", r.Err, "tape:", r.Tape)
	for _, f := range r.Fired {
		fmt.Printf("fault %s at %s %s\n", f.Kind, f.Op, f.Path)
	}
	for _, f := range r.Fails {
		fmt.Println("FAIL", f.Key, f.Msg)
	}
}

// determ prints a hash per seed, to be compared between processes.
func determ(args []string) {
	p := getProp(args[0])
	from, _ := strconv.ParseUint(args[1], 10, 64)
	n, _ := strconv.Atoi(args[2])
	for i := 0; i < n; i++ {
		seed := rt.Mix(1, from+uint64(i)) >> 1
		pl := basePlan(p, seed)
		r := execPlan(p, pl, false)
		fmt.Printf("%d %016x", seed, r.Hash)
		if p.Kinds != nil {
			q := *pl
			q.Variant = 1
			q.Inject = true
			q.Faults = faultPlan(p, seed, 1, r.Sites)
			r2 := execPlan(p, &q, false)
			fmt.Printf(" %016x", r2.Hash)
			q.Replay, q.Tape, q.Switches = true, r2.Tape, r2.Switches
			r3 := execPlan(p, &q, false)
			if r3.Hash != r2.Hash {
				fmt.Printf(" REPLAY-DIFFERS")
			}
		}
		fmt.Println()
	}
}
