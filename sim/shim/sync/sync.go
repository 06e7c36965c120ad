package sync

import (
	"sort"

	"fmt"
	"github.com/innerr/ticat/zsim/rt"
)

type Mutex = rt.Mutex
type RWMutex = rt.RWMutex

type Locker interface {
	Lock()
	Unlock()
}

type WaitGroup struct {
	n int
	w rt.WaitList
}

func (g *WaitGroup) Add(d int) {
	rt.Point()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.w.WakeAll()
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	rt.Point()
	for g.n > 0 {
		g.w.Wait("waitgroup")
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.GoFunc(func() { defer g.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

type Cond struct {
	L Locker
	w rt.WaitList
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	// Enqueue and unlock without a scheduling point in between that could lose
	// a wake-up: register first.
	tk := c.w.Enlist()
	c.L.Unlock()
	tk.Block("cond")
	c.L.Lock()
}
func (c *Cond) Signal()    { rt.Point(); c.w.WakeOne() }
func (c *Cond) Broadcast() { rt.Point(); c.w.WakeAll() }

type Pool struct {
	New func() any
	s   []any
}

func (p *Pool) Get() any {
	if n := len(p.s); n > 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) { p.s = append(p.s, x) }

type Map struct{ m map[any]any }

func (m *Map) Load(k any) (any, bool) { rt.Point(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	rt.Point()
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	rt.Point()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	rt.Point()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { rt.Point(); delete(m.m, k) }
func (m *Map) Range(f func(k, v any) bool) {
	rt.Point()
	var ks []any
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	for _, k := range ks {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
