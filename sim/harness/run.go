package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/innerr/ticat/zsim/rt"
)

// Prop is one property with the scenario that decides it.
type Prop struct {
	ID       string
	Level    string
	Run      func(w *W)
	Kinds    func(site rt.Site) []string // fault kinds possible at a site; nil: no faults
	Variants int                         // fault variants per workload
	Double   int                         // per cent of variants with a second fault
	StepP    []float64                   // probabilities to switch tasks at plain statements (one is chosen per run)
	OpP      []float64                   // ... at operations
	MaxSteps int64
	Rule     string
	Stub     string
	Probes   []string // rare conditions every batch is expected to reach
}

var props = map[string]*Prop{}

func reg(p *Prop) { props[p.ID] = p }

// Plan is everything that determines one run.
type Plan struct {
	Prop       string         `json:"property"`
	Seed       uint64         `json:"seed"`
	Variant    int            `json:"variant"`
	Replay     bool           `json:"replay"`
	Tape       []int          `json:"tape,omitempty"`
	Switches   []rt.SwitchRec `json:"switches,omitempty"`
	Faults     []rt.Fault     `json:"faults,omitempty"`
	MapSeed    uint64         `json:"map_seed"`
	ShortReads bool           `json:"short_reads,omitempty"`
	Inject     bool           `json:"inject,omitempty"`
}

type Result struct {
	Fails    []Failure
	Hash     uint64
	Trace    uint64
	Tape     []int
	Switches []rt.SwitchRec
	Fired    []rt.FiredFault
	Sites    []rt.Site
	Steps    int64
	SimNs    int64
	Procs    int
	Scripts  int
	Probes   map[string]int
	Sample   string
	Shape    string
	NSwitch  int64
	Log      []string
	Err      string
	State    uint64
}

func basePlan(p *Prop, seed uint64) *Plan {
	pl := &Plan{Prop: p.ID, Seed: seed}
	pl.MapSeed = rt.Mix(seed, 11) | 1
	pl.ShortReads = rt.Mix(seed, 12)%4 == 0
	return pl
}

func execPlan(p *Prop, pl *Plan, keepLog bool) *Result {
	cfg := rt.SchedCfg{Seed: rt.Mix(pl.Seed, 13), Replay: pl.Replay, Switches: pl.Switches}
	if len(p.StepP) > 0 {
		cfg.StepP = p.StepP[rt.Mix(pl.Seed, 14)%uint64(len(p.StepP))]
	}
	if len(p.OpP) > 0 {
		cfg.SwitchP = p.OpP[rt.Mix(pl.Seed, 15)%uint64(len(p.OpP))]
	}
	s := rt.NewSim(cfg, pl.Faults, pl.MapSeed)
	s.ShortReads = pl.ShortReads
	s.KeepLog = keepLog
	s.MaxSteps = p.MaxSteps
	if s.MaxSteps == 0 {
		s.MaxSteps = 5000000
	}
	ch := &Choice{seed: rt.Mix(pl.Seed, 16), replay: pl.Replay, tape: pl.Tape}
	w := NewWorld(p, s, ch)
	w.inject = pl.Inject
	s.Run(func() { p.Run(w) })
	r := &Result{Fails: w.Fails, Hash: s.Hash(), Trace: s.TraceHash, Tape: ch.rec, Switches: s.Recorded, Fired: s.Fired,
		Sites: s.Sites, Steps: s.Steps(), SimNs: s.Now(), Procs: len(s.All), Scripts: len(w.Hist), Probes: w.Probes, Sample: w.Sample, Shape: w.Shape,
		NSwitch: s.Switches, Log: s.Log, Err: s.Unsupported}
	st := fmt.Sprint(w.names(0))
	tree := s.FS.Tree(dataDir)
	for _, k := range sortedKeys(tree) {
		st += "|" + stateName(k) + fmt.Sprint(len(tree[k]))
	}
	for _, t := range w.Tics {
		st += fmt.Sprintf("/%d%v", t.P.Code, t.P.Crashed)
	}
	r.State = hash64(st)
	rt.S = nil
	if s.Livelock && len(w.Fails) == 0 && r.Err == "" {
		r.Err = "step budget used up without the scenario noticing"
	}
	return r
}

func stateName(k string) string {
	if i := strings.Index(k, "/sessions/"); i >= 0 {
		j := strings.IndexByte(k[i+10:], '/')
		if j >= 0 {
			k = k[:i+10] + k[i+10+j:]
		}
		if m := strings.LastIndexByte(k, '_'); m >= 0 {
			k = k[:m]
		}
	}
	return k
}

var defaultKinds = map[string][]string{
	"open-r":     {"crash", "EACCES", "EMFILE", "EIO"},
	"open-w":     {"crash", "crash-after", "ENOSPC", "EACCES", "EMFILE"},
	"read":       {"crash", "EIO"},
	"write":      {"crash", "crash-torn", "crash-torn", "crash-after", "short", "ENOSPC", "EIO"},
	"close-w":    {"crash", "crash-after", "EIO"},
	"close":      {"crash"},
	"sync":       {"crash", "EIO"},
	"rename":     {"crash", "crash-after", "EIO", "EACCES"},
	"remove":     {"crash", "crash-after", "EIO", "EACCES"},
	"mkdir":      {"crash", "crash-after", "ENOSPC", "EACCES"},
	"readdir":    {"crash", "EIO", "EMFILE"},
	"stat":       {"crash"},
	"exec":       {"crash", "EAGAIN", "crash-after"},
	"truncate":   {"crash", "EIO"},
	"out":        {"crash"},
	"pipe-write": {"crash"},
	"symlink":    {"crash", "EACCES"},
	"link":       {"crash", "EACCES"},
	"git-net":    {"crash", "EIO", "stall", "EIO"},
	"chmod":      {"crash"},
}

func anyKinds(s rt.Site) []string { return defaultKinds[s.Op] }

// faultPlan draws the faults of a variant from the sites of the fault-free run.
func faultPlan(p *Prop, seed uint64, variant int, sites []rt.Site) []rt.Fault {
	r := rt.NewRNG(rt.Mix(seed, 17, uint64(variant)))
	byOp := map[string][]int{}
	var ops []string
	for i, s := range sites {
		if len(p.Kinds(s)) == 0 {
			continue
		}
		key := s.Op
		if len(byOp[key]) == 0 {
			ops = append(ops, key)
		}
		byOp[key] = append(byOp[key], i)
	}
	if len(ops) == 0 {
		return nil
	}
	var out []rt.Fault
	n := 1
	if r.Intn(100) < p.Double {
		n = 2
	}
	for k := 0; k < n; k++ {
		var at int
		if r.Intn(2) == 0 { // any kind of operation is as likely as any other
			l := byOp[ops[r.Intn(len(ops))]]
			at = l[r.Intn(len(l))]
		} else { // any site that can change something
			var l []int
			for i, s := range sites {
				if len(p.Kinds(s)) > 0 && s.Op != "stat" && s.Op != "read" && s.Op != "open-r" && s.Op != "close" && (s.Op != "out" || i%8 == 0) {
					l = append(l, i)
				}
			}
			if len(l) == 0 {
				l = byOp[ops[r.Intn(len(ops))]]
			}
			at = l[r.Intn(len(l))]
		}
		ks := p.Kinds(sites[at])
		out = append(out, rt.Fault{At: at, Kind: ks[r.Intn(len(ks))], Op: sites[at].Op, Param: r.Intn(100000)})
	}
	if len(out) == 2 && out[0].At == out[1].At {
		out = out[:1]
	}
	return out
}

func firstUnknown(p *Prop, fs []Failure, known []Known) (*Failure, []string) {
	var kn []string
	for i := range fs {
		f := &fs[i]
		if k := matchKnown(p.ID, f, known); k != nil {
			kn = append(kn, k.What)
			continue
		}
		return f, kn
	}
	return nil, kn
}

// ---- minimisation -----------------------------------------------------------

func minimise(p *Prop, pl *Plan, key string, known []Known, budget int) *Plan {
	limit := time.Now().Add(25 * time.Second)
	fails := func(q *Plan) *Result {
		r := execPlan(p, q, false)
		budget--
		if time.Now().After(limit) {
			budget = 0
		}
		if r.Err != "" {
			return nil
		}
		f, _ := firstUnknown(p, r.Fails, known)
		if f != nil && f.Key == key {
			return r
		}
		return nil
	}
	cur := *pl
	// freeze the schedule
	r0 := execPlan(p, pl, false)
	q := cur
	q.Replay, q.Tape, q.Switches = true, r0.Tape, r0.Switches
	if r := fails(&q); r == nil {
		return nil
	}
	cur = q
	try := func(q Plan) bool {
		if budget <= 0 {
			return false
		}
		if r := fails(&q); r != nil {
			q.Tape = r.Tape
			q.Switches = r.Switches
			cur = q
			return true
		}
		return false
	}
	for round := 0; round < 3 && budget > 0; round++ {
		changed := false
		// fewer switches
		for n := len(cur.Switches); n >= 1 && budget > 0; n /= 2 {
			for i := 0; i+n <= len(cur.Switches) && budget > 0; {
				q := cur
				q.Switches = append(append([]rt.SwitchRec{}, cur.Switches[:i]...), cur.Switches[i+n:]...)
				if try(q) {
					changed = true
				} else {
					i += n
				}
			}
			if n > 1 && n/2 == 0 {
				break
			}
		}
		// fewer faults
		for i := 0; i < len(cur.Faults); i++ {
			q := cur
			q.Faults = append(append([]rt.Fault{}, cur.Faults[:i]...), cur.Faults[i+1:]...)
			if try(q) {
				changed = true
				i--
			}
		}
		// simpler workload: shorter tape, then smaller numbers
		for n := len(cur.Tape) / 2; n >= 1 && budget > 0; n /= 2 {
			for i := len(cur.Tape) - n; i >= 0 && budget > 0; i -= n {
				q := cur
				q.Tape = append([]int{}, cur.Tape...)
				all0 := true
				for k := i; k < i+n && k < len(q.Tape); k++ {
					if q.Tape[k] != 0 {
						all0 = false
					}
					q.Tape[k] = 0
				}
				if all0 {
					continue
				}
				if try(q) {
					changed = true
				}
			}
		}
		for i := 0; i < len(cur.Tape) && budget > 0; i++ {
			if cur.Tape[i] > 1 {
				q := cur
				q.Tape = append([]int{}, cur.Tape...)
				q.Tape[i] = cur.Tape[i] - 1
				if try(q) {
					changed = true
				}
			}
		}
		if pl.ShortReads {
			q := cur
			q.ShortReads = false
			if try(q) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	for len(cur.Tape) > 0 && cur.Tape[len(cur.Tape)-1] == 0 {
		cur.Tape = cur.Tape[:len(cur.Tape)-1]
	}
	return &cur
}

// ReplayFile is what is written for a violation.
type ReplayFile struct {
	Plan
	Key     string          `json:"key"`
	Message string          `json:"message"`
	Fired   []rt.FiredFault `json:"faults_fired"`
	Hash    string          `json:"event_hash"`
	Sample  string          `json:"workload"`
	Trace   []string        `json:"trace"`
}

func saveJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0644)
}

// Known is a recorded genuine defect that is not repaired.
type Known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Contains string `json:"contains"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

func loadKnown(path string) ([]Known, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var f struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	var out []Known
	for _, k := range f.Findings {
		if k.Status == "known" {
			out = append(out, k)
		}
	}
	return out, nil
}

func matchKnown(prop string, f *Failure, ks []Known) *Known {
	for i := range ks {
		k := &ks[i]
		if k.Property == prop && k.Key == f.Key && strings.Contains(f.Msg, k.Contains) {
			return k
		}
	}
	return nil
}
