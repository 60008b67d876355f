// Package vruntime mirrors runtime for the controlled scheduler.
package vruntime

import (
	rt "runtime"

	"MODULE/zzverif/vs"
)

type Error = rt.Error

func Gosched()             { vs.P() }
func NumCPU() int          { return vs.NumCPU() }
func GOMAXPROCS(n int) int { return vs.NumCPU() }
func NumGoroutine() int    { return 1 + vs.LiveThreads() }
