// Package vtime mirrors time on a virtual clock.
package vtime

import (
	rt "time"

	"MODULE/zzverif/vs"
)

func Now() rt.Time                       { return vs.Now() }
func Since(t rt.Time) rt.Duration        { return vs.Now().Sub(t) }
func Until(t rt.Time) rt.Duration        { return t.Sub(vs.Now()) }
func Sleep(d rt.Duration)                { vs.Sleep(d) }
func After(d rt.Duration) <-chan rt.Time { return NewTimer(d).C }
func Tick(d rt.Duration) <-chan rt.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type Timer struct {
	C <-chan rt.Time
	t *vs.Timer0
}

func NewTimer(d rt.Duration) *Timer {
	c := make(chan rt.Time, 1)
	return &Timer{C: c, t: vs.StartTimer(d, 0, c, nil)}
}

func AfterFunc(d rt.Duration, f func()) *Timer {
	return &Timer{t: vs.StartTimer(d, 0, nil, f)}
}

func (t *Timer) Stop() bool               { vs.P(); return vs.StopTimer(t.t) }
func (t *Timer) Reset(d rt.Duration) bool { vs.P(); return vs.ResetTimer(t.t, d, 0) }

type Ticker struct {
	C <-chan rt.Time
	t *vs.Timer0
}

func NewTicker(d rt.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan rt.Time, 1)
	return &Ticker{C: c, t: vs.StartTimer(d, d, c, nil)}
}

func (t *Ticker) Stop() { vs.P(); vs.StopTimer(t.t) }
func (t *Ticker) Reset(d rt.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	vs.P()
	vs.ResetTimer(t.t, d, d)
}
