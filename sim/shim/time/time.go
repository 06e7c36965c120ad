package time

import (
	rtime "time"

	"github.com/innerr/ticat/zsim/rt"
)

var Local = rtime.UTC
var UTC = rtime.UTC

func Now() Time { rt.Tick(); return rtime.Unix(0, rt.Wall()).In(Local) }

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration) {
	rt.Tick()
	rt.S.Sleep(int64(d))
}

type Timer struct {
	C    <-chan Time
	c    chan Time
	fn   func()
	stop func()
	live bool
}

func (t *Timer) arm(d Duration) {
	t.live = true
	p := rt.Cur()
	t.stop = rt.S.After(int64(d), func() {
		t.live = false
		if p.Dead {
			return
		}
		if t.fn != nil {
			rt.S.GoIn(p, t.fn)
			return
		}
		rt.TimerSend(t.c, rtime.Unix(0, rt.Wall()).In(Local))
	})
}
func NewTimer(d Duration) *Timer {
	t := &Timer{c: make(chan Time, 1)}
	t.C = t.c
	t.arm(d)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{fn: f}
	t.arm(d)
	return t
}
func (t *Timer) Stop() bool {
	was := t.live
	if was {
		t.stop()
	}
	t.live = false
	return was
}
func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}
func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan Time
	c    chan Time
	d    Duration
	stop func()
	dead bool
}

func NewTicker(d Duration) *Ticker {
	t := &Ticker{c: make(chan Time, 1), d: d}
	t.C = t.c
	t.arm(rt.Cur())
	return t
}
func (t *Ticker) arm(p *rt.Proc) {
	t.stop = rt.S.After(int64(t.d), func() {
		if t.dead || p.Dead {
			return
		}
		rt.TimerSend(t.c, rtime.Unix(0, rt.Wall()).In(Local))
		t.arm(p)
	})
}
func (t *Ticker) Stop() {
	t.dead = true
	t.stop()
}
func (t *Ticker) Reset(d Duration) {
	t.stop()
	t.d = d
	t.dead = false
	t.arm(rt.Cur())
}
func Tick(d Duration) <-chan Time { return NewTicker(d).C }
func Unix(sec, nsec int64) Time   { return rtime.Unix(sec, nsec).In(Local) }
func UnixMilli(ms int64) Time     { return rtime.UnixMilli(ms).In(Local) }
func UnixMicro(ms int64) Time     { return rtime.UnixMicro(ms).In(Local) }
