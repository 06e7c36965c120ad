package rt

import (
	"fmt"
	"os"
	"reflect"
	"sort"
)

func sortStrings(s []string) { sort.Strings(s) }
func sortFiles(f []*File)    { sort.Slice(f, func(i, j int) bool { return f[i].id < f[j].id }) }

// Entry is one map entry of a ranged map.
type Entry[K comparable, V any] struct {
	m map[K]V
	K K
}

func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }
func (e Entry[K, V]) V() V       { return e.m[e.K] }

// Entries gives the entries of a map in an order that depends on the run's map
// seed only (seed 0: sorted).
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	out := make([]Entry[K, V], 0, len(m))
	for k := range m {
		out = append(out, Entry[K, V]{m, k})
	}
	if len(out) < 2 {
		return out
	}
	switch x := interface{}(out).(type) {
	default:
		_ = x
		kind := reflect.TypeOf(out[0].K).Kind()
		switch kind {
		case reflect.String:
			sort.Slice(out, func(i, j int) bool {
				return reflect.ValueOf(out[i].K).String() < reflect.ValueOf(out[j].K).String()
			})
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			sort.Slice(out, func(i, j int) bool {
				return reflect.ValueOf(out[i].K).Int() < reflect.ValueOf(out[j].K).Int()
			})
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			sort.Slice(out, func(i, j int) bool {
				return reflect.ValueOf(out[i].K).Uint() < reflect.ValueOf(out[j].K).Uint()
			})
		case reflect.Bool, reflect.Float32, reflect.Float64, reflect.Struct, reflect.Array:
			sort.Slice(out, func(i, j int) bool {
				return fmt.Sprint(out[i].K) < fmt.Sprint(out[j].K)
			})
		default:
			// Pointers and interfaces have no order that survives from one OS
			// process to another; use one given by the objects' content.
			sort.SliceStable(out, func(i, j int) bool {
				return ptrKey(out[i].K) < ptrKey(out[j].K)
			})
		}
	}
	if S != nil && S.MapSeed != 0 && S.cur != nil {
		S.mapN++
		r := NewRNG(Mix(S.MapSeed, S.mapN))
		for i := len(out) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// SimKeyer may be implemented by nothing at all; ptrKey falls back on exported
// string-like identity methods.
func ptrKey(k interface{}) string {
	v := reflect.ValueOf(k)
	for _, name := range []string{"DisplayPath", "Path", "Name", "String"} {
		if m := v.MethodByName(name); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 {
			return fmt.Sprint(m.Call(nil)[0].Interface())
		}
	}
	if m := v.MethodByName("Owner"); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 {
		o := m.Call(nil)[0]
		if dm := o.MethodByName("DisplayPath"); dm.IsValid() && o.Kind() == reflect.Ptr && !o.IsNil() {
			return fmt.Sprint(dm.Call(nil)[0].Interface())
		}
	}
	Unsupported("ranging over a map with key type %T", k)
	return ""
}

// Println is the println builtin.
func Println(a ...interface{}) {
	s := S
	if s == nil || s.cur == nil {
		fmt.Fprintln(os.Stderr, a...)
		return
	}
	s.alive()
	if f := s.cur.Proc.Stderr; f != nil {
		f.Write([]byte(fmt.Sprintln(a...)))
	}
}

func (s *Sim) Count(k string, n int64) { s.Counts[k] += n }

// GoIn starts a task in process p from a timer.
func (s *Sim) GoIn(p *Proc, fn func()) { s.newTask(p, fn) }

// TimerSend is the non-blocking send of a timer on its channel.
func TimerSend[T any](c chan T, v T) {
	cs := st(c)
	if !cs.closed {
		cs.trySend(v)
	}
}

// RandDigits is used for temporary file names.
func RandDigits() string {
	s := S
	s.mapN++
	return fmt.Sprint(Mix(uint64(s.cur.Proc.Pid), s.mapN, 77) % 1000000000)
}

func Environ(p *Proc) []string {
	var out []string
	for k, v := range p.Env {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}

func ProcSeed() int64 { return int64(Mix(uint64(S.cur.Proc.Pid), 99) >> 1) }
func NumTasks() int   { return len(S.cur.Proc.tasks) }

func Goexit() {
	s := S
	me := s.alive()
	delete(me.Proc.tasks, me)
	delete(s.tasks, me.ID)
	s.die(me)
}

// Enlist registers the current task on the list before it blocks.
type Ticket struct{ t *Task }

func (w *WaitList) Enlist() Ticket {
	t := S.alive()
	w.ts = append(w.ts, t)
	t.pend = false
	t.enlisted = true
	return Ticket{t}
}

func (k Ticket) Block(why string) {
	k.t.enlisted = false
	if k.t.pend {
		k.t.pend = false
		return
	}
	S.block(why)
}

// MapIter drives a range over a map.
type Iter[K comparable, V any] struct {
	es []Entry[K, V]
	i  int
}

func MapIter[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *Iter[K, V]) {
	it = &Iter[K, V]{es: Entries(m)}
	return
}

func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.es) {
		e := it.es[it.i]
		it.i++
		if !e.Live() {
			continue
		}
		if k != nil {
			*k = e.K
		}
		if v != nil {
			*v = e.V()
		}
		return true
	}
	return false
}

// NextSeq is a global order of events.
func (s *Sim) NextSeq() int64 { s.seq++; return s.seq }

// Step is one step of a simulated external program.
func (s *Sim) Step() {
	s.alive()
	s.tick()
	s.opPoint()
	s.alive()
}

// NetOp is a network operation of an external program, with faults.
func (s *Sim) NetOp(op, what string) error {
	a := s.op(op, what, 0)
	if a.err != nil {
		return a.err
	}
	s.done(a, op)
	return nil
}

// Jitter is a deterministic small random number.
func (s *Sim) Jitter(n int) int {
	s.mapN++
	return int(Mix(s.MapSeed, s.mapN, 5) % uint64(n))
}
