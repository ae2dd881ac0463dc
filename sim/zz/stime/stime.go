// Package stime replaces the clock and the timers of package time by virtual time
package stime

import (
	"time"

	"zzsim.local/rt"
)

func Now() time.Time                  { return rt.Now() }
func Since(t time.Time) time.Duration { return rt.Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(rt.Now()) }
func Sleep(d time.Duration) {
	if s := rt.Active(); s != nil {
		s.Sleep(d)
	}
}

type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	t  *rt.Timer
	fn func()
}

func (t *Timer) fire() {
	if t.fn != nil {
		t.fn()
		return
	}
	select {
	case t.c <- rt.Now():
	default:
	}
}

func (t *Timer) Stop() bool { return t.t.Stop() }
func (t *Timer) Reset(d time.Duration) bool {
	ok := t.t.Stop()
	t.t = rt.AfterFunc(d, t.fire)
	return ok
}

func NewTimer(d time.Duration) *Timer {
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.t = rt.AfterFunc(d, t.fire)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{fn: f}
	t.t = rt.AfterFunc(d, t.fire)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *rt.Timer
	d time.Duration
}

func (t *Ticker) fire() {
	select {
	case t.c <- rt.Now():
	default:
	}
	t.t = rt.AfterFunc(t.d, t.fire)
}

func NewTicker(d time.Duration) *Ticker {
	t := &Ticker{c: make(chan time.Time, 1), d: d}
	t.C = t.c
	t.t = rt.AfterFunc(d, t.fire)
	return t
}

func (t *Ticker) Stop()                     { t.t.Stop() }
func (t *Ticker) Reset(d time.Duration)     { t.t.Stop(); t.d = d; t.t = rt.AfterFunc(d, t.fire) }
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
