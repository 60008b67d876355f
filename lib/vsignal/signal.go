// Package vsignal stands in for os/signal: Raise delivers a signal.
package vsignal

import (
	"context"
	"os"

	"MODULE/zzverif/vcontext"
	"MODULE/zzverif/vs"
)

type want struct {
	c    chan<- os.Signal
	sigs map[os.Signal]bool // nil: all
}

var (
	wants   []want
	ignored map[os.Signal]bool
)

func init() {
	vs.OnReset(func() { wants, ignored = nil, nil })
}

func set(sigs []os.Signal) map[os.Signal]bool {
	if len(sigs) == 0 {
		return nil
	}
	m := map[os.Signal]bool{}
	for _, s := range sigs {
		m[s] = true
	}
	return m
}

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	wants = append(wants, want{c, set(sigs)})
}

func Stop(c chan<- os.Signal) {
	var l []want
	for _, w := range wants {
		if w.c != c {
			l = append(l, w)
		}
	}
	wants = l
}

func Reset(sigs ...os.Signal) {
	if len(sigs) == 0 {
		wants, ignored = nil, nil
		return
	}
	for _, s := range sigs {
		delete(ignored, s)
		for _, w := range wants {
			delete(w.sigs, s)
		}
	}
}

func Ignore(sigs ...os.Signal) {
	Reset(sigs...)
	ignored = map[os.Signal]bool{}
	for _, s := range sigs {
		ignored[s] = true
	}
}

func Ignored(s os.Signal) bool { return ignored[s] }

func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := vcontext.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sigs...)
	vs.Go(func() {
		r, d := vs.CaseRecv(c), vs.CaseRecv(ctx.Done())
		if vs.Select(false, r, d) == 0 {
			cancel()
		}
	})
	return ctx, func() { cancel(); Stop(c) }
}

// Raise delivers a signal like the runtime: to every channel that wants it and
// has room. It reports whether the process survives it.
func Raise(s os.Signal) bool {
	caught := ignored[s]
	for _, w := range wants {
		if w.sigs == nil || w.sigs[s] {
			caught = true
			vs.Select(true, vs.CaseSend(w.c, s))
		}
	}
	return caught
}
