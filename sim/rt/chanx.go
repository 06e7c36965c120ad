package rt

import (
	"fmt"
	"reflect"
)

// Channels of the code under test stay ordinary Go channel values; their
// content lives here.
type chanState struct {
	cap    int
	buf    []interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	t    *Task
	val  interface{}
	ok   bool
	done *bool // shared by the cases of one select
	idx  int
	sel  *int
}

func st(c interface{}) *chanState {
	v := reflect.ValueOf(c)
	p := v.Pointer()
	s := S
	cs, ok := s.chans[p]
	if !ok {
		cs = &chanState{cap: v.Cap()}
		s.chans[p] = cs
		s.keep = append(s.keep, c)
	}
	return cs
}

func popLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.t.Proc.Dead || (w.done != nil && *w.done) {
			continue
		}
		return w
	}
	return nil
}

func (s *Sim) wakeWaiter(w *waiter) {
	if w.done != nil {
		*w.done = true
		*w.sel = w.idx
	}
	s.ready(w.t)
}

func (cs *chanState) trySend(v interface{}) bool {
	if cs.closed {
		panic(fmt.Errorf("send on closed channel"))
	}
	if w := popLive(&cs.recvq); w != nil {
		w.val, w.ok = v, true
		S.wakeWaiter(w)
		return true
	}
	if len(cs.buf) < cs.cap {
		cs.buf = append(cs.buf, v)
		return true
	}
	return false
}

func (cs *chanState) tryRecv() (v interface{}, ok bool, done bool) {
	if len(cs.buf) > 0 {
		v = cs.buf[0]
		cs.buf = cs.buf[1:]
		if w := popLive(&cs.sendq); w != nil {
			cs.buf = append(cs.buf, w.val)
			S.wakeWaiter(w)
		}
		return v, true, true
	}
	if w := popLive(&cs.sendq); w != nil {
		v = w.val
		S.wakeWaiter(w)
		return v, true, true
	}
	if cs.closed {
		return nil, false, true
	}
	return nil, false, false
}

// Send is c <- v.
func Send[T any](c chan<- T, v T) {
	s := S
	me := s.alive()
	s.opPoint()
	if c == nil {
		s.block("send on nil channel")
	}
	cs := st(c)
	if cs.trySend(v) {
		return
	}
	w := &waiter{t: me, val: v}
	cs.sendq = append(cs.sendq, w)
	s.block("channel send")
	if w.ok { // set by Close
		panic(fmt.Errorf("send on closed channel"))
	}
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	s := S
	me := s.alive()
	s.opPoint()
	var zero T
	if c == nil {
		s.block("receive from nil channel")
	}
	cs := st(c)
	if v, ok, done := cs.tryRecv(); done {
		if !ok {
			return zero, false
		}
		r, _ := v.(T)
		return r, true
	}
	w := &waiter{t: me}
	cs.recvq = append(cs.recvq, w)
	s.block("channel receive")
	if !w.ok {
		return zero, false
	}
	r, _ := w.val.(T)
	return r, true
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Close is close(c).
func Close[T any](c chan<- T) {
	s := S
	s.alive()
	cs := st(c)
	if cs.closed {
		panic(fmt.Errorf("close of closed channel"))
	}
	cs.closed = true
	for {
		w := popLive(&cs.recvq)
		if w == nil {
			break
		}
		s.wakeWaiter(w)
	}
	for {
		w := popLive(&cs.sendq)
		if w == nil {
			break
		}
		w.ok = true
		s.wakeWaiter(w)
	}
	s.opPoint()
}

func ChanLen(c interface{}) int { return len(st(c).buf) }

// SelCase is one case of a select statement.
type SelCase struct {
	send bool
	c    interface{}
	v    interface{}
	nilc bool
}

func SelSend[T any](c chan<- T, v T) SelCase { return SelCase{true, c, v, c == nil} }
func SelRecv[T any](c <-chan T) SelCase      { return SelCase{false, c, nil, c == nil} }

// SelVal converts the value received by Select.
func SelVal[T any](c <-chan T, v interface{}) T {
	r, _ := v.(T)
	return r
}

// Select returns the index of the chosen case (-1: default), and the received
// value.
func Select(hasDefault bool, cases ...SelCase) (int, interface{}, bool) {
	s := S
	me := s.alive()
	s.opPoint()
	n := len(cases)
	off := 0
	if n > 1 {
		s.mapN++
		off = int(Mix(s.MapSeed, s.mapN) % uint64(n))
	}
	for k := 0; k < n; k++ {
		i := (k + off) % n
		c := cases[i]
		if c.nilc {
			continue
		}
		cs := st(c.c)
		if c.send {
			if cs.trySend(c.v) {
				return i, nil, false
			}
		} else if v, ok, done := cs.tryRecv(); done {
			return i, v, ok
		}
	}
	if hasDefault {
		return -1, nil, false
	}
	done := false
	sel := -1
	ws := make([]*waiter, n)
	for i, c := range cases {
		if c.nilc {
			continue
		}
		cs := st(c.c)
		w := &waiter{t: me, val: c.v, done: &done, idx: i, sel: &sel}
		ws[i] = w
		if c.send {
			cs.sendq = append(cs.sendq, w)
		} else {
			cs.recvq = append(cs.recvq, w)
		}
	}
	s.block("select")
	w := ws[sel]
	if cases[sel].send {
		if w.ok {
			panic(fmt.Errorf("send on closed channel"))
		}
		return sel, nil, false
	}
	return sel, w.val, w.ok
}
