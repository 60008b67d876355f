// Package lin records concurrent histories and checks them for
// linearizability against a sequential model by brute force.
package lin

import (
	"fmt"
	"strings"

	"MODULE/zzverif/vs"
)

// Op is one completed call. Call and Ret are positions in the global order.
type Op struct {
	Thread    int
	Name      string
	Arg       any
	Out       any
	Call, Ret int64
}

var clock int64

//go:norace
//go:noinline
func tick() int64 { clock++; return clock }

// Log is one thread's history; each thread owns its log.
type Log struct {
	Thread int
	Ops    []Op
}

// Do runs f as one operation of this thread.
func (l *Log) Do(name string, arg any, f func() any) any {
	vs.P()
	c := tick()
	out := f()
	l.Ops = append(l.Ops, Op{l.Thread, name, arg, out, c, tick()})
	return out
}

// Check searches a linearization. step returns the next state and whether the
// operation's output is allowed in the given state; key identifies a state.
func Check[S any](init S, ops []Op, step func(S, Op) (S, bool), key func(S) string, final func(S) bool) bool {
	n := len(ops)
	if n > 30 {
		panic("lin: history too long")
	}
	seen := map[string]bool{}
	var rec func(mask uint32, s S) bool
	rec = func(mask uint32, s S) bool {
		if mask == uint32(1)<<n-1 {
			return final == nil || final(s)
		}
		k := fmt.Sprintf("%x|%s", mask, key(s))
		if seen[k] {
			return false
		}
		seen[k] = true
		// an op may be next only if no other pending op returned before its call
		minRet := int64(1 << 62)
		for i := 0; i < n; i++ {
			if mask&(1<<i) == 0 && ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		for i := 0; i < n; i++ {
			if mask&(1<<i) != 0 || ops[i].Call > minRet {
				continue
			}
			if s2, ok := step(s, ops[i]); ok && rec(mask|1<<i, s2) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

// Merge concatenates thread logs.
func Merge(ls ...*Log) []Op {
	var out []Op
	for _, l := range ls {
		out = append(out, l.Ops...)
	}
	return out
}

// String renders a history.
func String(ops []Op) string {
	var b strings.Builder
	for _, o := range ops {
		fmt.Fprintf(&b, "[T%d %s(%v)=%v @%d-%d] ", o.Thread, o.Name, o.Arg, o.Out, o.Call, o.Ret)
	}
	return b.String()
}
