package vs

import (
	"runtime"
	"sync"
	"time"
)

// Base is the origin of virtual time.
var Base = time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC)

// Timer0 is a pending virtual timer; the list is kept sorted by (when, seq).
type Timer0 struct {
	when, seq int64
	period    int64
	C         chan time.Time
	f         func()
	wake      *thread // sleeping thread
	fired     bool
	on        bool
	next      *Timer0
	mu        sync.Mutex // real; carries the happens-before edge from starting the timer to calling f
}

func (t *Timer0) started() {
	t.mu.Lock()
	t.mu.Unlock()
}

//go:norace
func insertTimer(t *Timer0) {
	ex.tseq++
	t.seq = ex.tseq
	t.on = true
	pp := &ex.timers
	for *pp != nil && ((*pp).when < t.when || ((*pp).when == t.when && (*pp).seq < t.seq)) {
		pp = &(*pp).next
	}
	t.next = *pp
	*pp = t
}

//go:norace
func removeTimer(t *Timer0) bool {
	if !t.on {
		return false
	}
	t.on = false
	pp := &ex.timers
	for *pp != nil {
		if *pp == t {
			*pp = t.next
			t.next = nil
			return true
		}
		pp = &(*pp).next
	}
	return false
}

// fireNext advances the clock to the earliest timer and fires it; runs on the
// controller so that it adds no happens-before edge between threads.
//
//go:norace
func fireNext() bool {
	t := ex.timers
	if t == nil {
		return false
	}
	ex.timers = t.next
	t.next = nil
	t.on = false
	if t.when > ex.now {
		ex.now = t.when
	}
	t.fired = true
	switch {
	case t.wake != nil:
	case t.f != nil:
		nt := newThread()
		ex.wg.Add(1)
		go runThread(nt, func() { t.started(); t.f() })
	default:
		fireChan(t.C, Base.Add(time.Duration(ex.now)))
		if t.period > 0 {
			t.when += t.period
			insertTimer(t)
		}
	}
	return true
}

// fireChan sends the time. In the race build a goroutine of its own does, lest
// the controller carry happens-before edges from one timer's reader to another's.
//
//go:norace
func fireChan(c chan time.Time, v time.Time) {
	if !RaceBuild {
		trySendTime(c, v)
		return
	}
	sent := new(int32)
	go sendTime(c, v, sent)
	for !loadSent(sent) {
		runtime.Gosched()
	}
}

//go:norace
func sendTime(c chan time.Time, v time.Time, sent *int32) {
	trySendTime(c, v)
	setSent(sent)
}

//go:norace
//go:noinline
func loadSent(p *int32) bool { return *p != 0 }

//go:norace
//go:noinline
func setSent(p *int32) { *p = 1 }

func trySendTime(c chan time.Time, v time.Time) {
	select {
	case c <- v:
	default:
	}
}

//go:norace
func nowNS() int64 { return ex.now }

//go:norace
func Now() time.Time {
	if ex.active && !ex.aborting {
		ex.now += ex.opt.NowStep
	}
	return Base.Add(time.Duration(ex.now))
}

// Peek reads the virtual clock without advancing it.
//
//go:norace
func Peek() time.Time { return Base.Add(time.Duration(ex.now)) }

// NowNS is the virtual time in nanoseconds since the start of the execution.
//
//go:norace
func NowNS() int64 { return ex.now }

// Advance moves the virtual clock by hand (sequential harnesses).
//
//go:norace
func Advance(d time.Duration) { ex.now += int64(d) }

type sleepW struct{ t *Timer0 }

//go:norace
func (s sleepW) Ready(*thread) bool { return s.t.fired }

//go:norace
func Sleep(d time.Duration) {
	switch Mode() {
	case 0:
		return
	case 2:
		return
	}
	if d <= 0 {
		point()
		return
	}
	t := &Timer0{when: ex.now + int64(d), wake: ex.cur}
	insertTimer(t)
	block(sleepW{t}, "sleep")
}

//go:norace
func StartTimer(d time.Duration, period time.Duration, c chan time.Time, f func()) *Timer0 {
	if d < 0 {
		d = 0
	}
	t := &Timer0{when: ex.now + int64(d), period: int64(period), C: c, f: f}
	t.started()
	if ex.active && !ex.aborting {
		insertTimer(t)
	}
	return t
}

//go:norace
func StopTimer(t *Timer0) bool {
	r := removeTimer(t)
	if t.C != nil && drainTime(t.C) {
		r = true
	}
	return r
}

func drainTime(c chan time.Time) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

//go:norace
func ResetTimer(t *Timer0, d time.Duration, period time.Duration) bool {
	r := removeTimer(t)
	if t.C != nil && drainTime(t.C) {
		r = true
	}
	t.when = ex.now + int64(d)
	t.period = int64(period)
	t.fired = false
	t.started()
	if ex.active && !ex.aborting {
		insertTimer(t)
	}
	return r
}

// PendingTimers reports the number of armed timers.
//
//go:norace
func PendingTimers() int {
	n := 0
	for t := ex.timers; t != nil; t = t.next {
		n++
	}
	return n
}
