// Package ztime stands in for the clock and the timers of package time.
package ztime

import (
	"time"

	"robpike.io/ivy/zzsim"
)

func Now() time.Time {
	w, _ := zzsim.Now()
	return w
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }

func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) { zzsim.Sleep(int64(d)) }

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Timer struct {
	C       <-chan time.Time
	stopped *bool
	c       chan time.Time
	f       func()
}

func start(t *Timer, d time.Duration) {
	stopped := new(bool)
	t.stopped = stopped
	zzsim.Go(func() {
		zzsim.Sleep(int64(d))
		if *stopped {
			return
		}
		*stopped = true
		if t.f != nil {
			t.f()
			return
		}
		zzsim.Sender(t.c)(Now())
	})
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	start(t, d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	start(t, d)
	return t
}

func (t *Timer) Stop() bool {
	was := !*t.stopped
	*t.stopped = true
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	start(t, d)
	return was
}

type Ticker struct {
	C    <-chan time.Time
	stop bool
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c}
	zzsim.Go(func() {
		for !t.stop {
			zzsim.Sleep(int64(d))
			if len(c) == 0 {
				zzsim.Sender(c)(Now())
			}
		}
	})
	return t
}

func (t *Ticker) Stop() { t.stop = true }

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
