// Package vsync mirrors sync on top of the controlled scheduler.
package vsync

import (
	real "sync"

	"MODULE/zzverif/vs"
)

type (
	Cond      = vs.Cond
	Locker    = real.Locker
	Map       = vs.Map
	Mutex     = vs.Mutex
	Once      = vs.Once
	Pool      = vs.Pool
	RWMutex   = vs.RWMutex
	WaitGroup = vs.WaitGroup
)

func NewCond(l Locker) *Cond { return vs.NewCond(l) }

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}
