// Package vtime replaces the clock, sleeps and timers of package time.
package vtime

import (
	"time"

	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

func Now() time.Time                  { return sched.Now() }
func Since(t time.Time) time.Duration { return sched.Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(sched.Now()) }
func Sleep(d time.Duration)           { sched.Sleep(d) }

type Ticker struct {
	C <-chan time.Time
	h *sched.TimerHandle
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	return &Ticker{C: c, h: sched.NewTimer(d, d, c, nil)}
}

func (t *Ticker) Stop()                 { t.h.Stop() }
func (t *Ticker) Reset(d time.Duration) { t.h.Reset(d, d) }

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

type Timer struct {
	C <-chan time.Time
	h *sched.TimerHandle
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	return &Timer{C: c, h: sched.NewTimer(d, 0, c, nil)}
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func AfterFunc(d time.Duration, f func()) *Timer {
	return &Timer{h: sched.NewTimer(d, 0, nil, f)}
}

func (t *Timer) Stop() bool                 { return t.h.Stop() }
func (t *Timer) Reset(d time.Duration) bool { return t.h.Reset(d, 0) }
