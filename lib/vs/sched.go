// Package vs is the controlled runtime: a cooperative scheduler that owns all
// nondeterminism of one execution, plus the explorer that enumerates
// executions. At most one thread of an execution runs at any time; threads hand
// over with plain memory writes inside go:norace functions, so the hand-over is
// invisible to the race detector and every explored schedule can be checked for
// data races by the stock -race instrumentation.
package vs

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"unsafe"
)

const (
	maxThreads = 1024
	maxTrace   = 1 << 17
)

type waiter interface {
	// Ready reports whether the waiting thread can proceed. norace.
	Ready(t *thread) bool
}

type thread struct {
	id      int
	turn    bool
	wake    chan struct{}
	w       waiter // nil: runnable
	what    string // description of what it waits for
	done    bool
	granted bool
	started bool
	sel     *selState
	fin     chan struct{}
	daemon  bool
	name    string
}

// choice point record
type ChoicePoint struct {
	N       int32 // number of alternatives
	Running bool  // alternative 0 is "the running thread continues"
	Choice  int32
	Env     bool // environment choice, not a scheduling one
	Cost    int8 // cost of a non-zero alternative
}

type exec struct {
	active   bool
	aborting bool
	finished bool
	epoch    int64

	quiet    bool
	threads  [maxThreads]*thread
	en       [maxThreads]*thread // scratch
	nthreads int
	cur      *thread

	prefix    []int32
	trace     []ChoicePoint
	ntrace    int
	steps     int
	maxSteps  int
	streak    int
	lastID    int
	truncated bool

	now    int64
	timers *Timer0
	tseq   int64
	advReq bool
	nAdv   int

	failure string
	failMsg string

	opt Options
	wg  sync.WaitGroup

	randCtr   int
	earlyFire bool
}

// Options of one scenario.
type Options struct {
	Preemptions int  // preemption bound (schedule deviations)
	EnvBound    int  // bound on non-default environment answers (-1: same budget as preemptions)
	DelayBound  bool // every non-default scheduling choice costs one
	EarlyTimers bool // a pending timer may fire before runnable threads proceed (costs one)
	MaxSteps    int
	NowStep     int64 // ns added by each reading of the clock
	NumCPU      int
	Rand        func(ctr int, b []byte) // random byte source; default zero bytes pattern
	Horizon     int64                   // virtual ns after which the execution is cut (0: none)
	FreeSched   bool                    // sequential mode: no choice points for scheduling
}

var ex exec

// Failure kinds
const (
	FailDeadlock = "deadlock"
	FailPanic    = "panic"
	FailAssert   = "assert"
	FailRace     = "race"
	FailDiverge  = "diverge"
)

//go:norace
func Active() bool { return ex.active }

//go:norace
func aborting() bool { return ex.aborting }

// Mode: 0 outside an execution, 1 inside, 2 while the execution is torn down.
//
//go:norace
func Mode() int {
	if !ex.active {
		return 0
	}
	if ex.aborting {
		return 2
	}
	return 1
}

//go:norace
func live() bool { return ex.active && !ex.aborting }

//go:norace
func epoch() int64 { return ex.epoch }

//go:norace
//go:noinline
func (t *thread) waitTurn() {
	awaitTurn(t)
	if ex.aborting {
		runtime.Goexit()
	}
}

//go:norace
//go:noinline
func isReady(t *thread) bool {
	if t.done {
		return false
	}
	if t.w == nil {
		return true
	}
	return t.w.Ready(t)
}

//go:norace
func choose(n int, running, env bool, cost int8) int {
	if n <= 1 || ex.quiet {
		return 0
	}
	i := ex.ntrace
	if i >= maxTrace {
		ex.truncated = true
		return 0
	}
	c := int32(0)
	if i < len(ex.prefix) {
		c = ex.prefix[i]
		if int(c) >= n {
			fail(FailDiverge, fmt.Sprintf("replay divergence at point %d: choice %d of %d", i, c, n))
			c = 0
		}
	}
	p := &ex.trace[i]
	p.N, p.Running, p.Choice, p.Env, p.Cost = int32(n), running, c, env, cost
	ex.ntrace = i + 1
	return int(c)
}

// Quiet(true) takes the default choice at every point until Quiet(false): a
// scenario explores only the part of an execution it is about.
//
//go:norace
func Quiet(on bool) { ex.quiet = on }

//go:norace
func fail(kind, msg string) {
	if ex.failure == "" {
		ex.failure, ex.failMsg = kind, msg
	}
}

// Fail records a violation and ends the calling thread's execution.
//
//go:norace
func Fail(format string, a ...any) {
	if ex.aborting {
		runtime.Goexit()
	}
	fail(FailAssert, fmt.Sprintf(format, a...))
	if ex.active {
		endExec()
		park()
	}
}

// Failed reports whether this execution has failed already.
//
//go:norace
func Failed() bool { return ex.failure != "" }

//go:norace
func endExec() { ex.finished = true }

// point is a scheduling point before a visible operation of the current thread.
//
//go:norace
//go:noinline
func point() {
	if !ex.active || ex.aborting {
		return
	}
	if ex.finished {
		park()
	}
	cur := ex.cur
	ex.steps++
	if ex.steps > ex.maxSteps {
		ex.truncated = true
		endExec()
		park()
	}
	if ex.opt.FreeSched {
		return
	}
	en := &ex.en
	n := 1
	en[0] = cur
	for k := 1; k < ex.nthreads; k++ {
		t := ex.threads[(cur.id+k)%ex.nthreads]
		if t != cur && isReady(t) {
			en[n] = t
			n++
		}
	}
	early := 0
	if ex.opt.EarlyTimers && ex.timers != nil {
		early = 1
	}
	if n+early == 1 {
		ex.streak = 0
		return
	}
	ex.streak++
	if ex.streak > 3000 && n > 1 {
		// fairness: a thread that polls without blocking gives way
		ex.streak = 0
		switchTo(en[1])
		cur.waitTurn()
		return
	}
	c := choose(n+early, true, false, 1)
	if c == 0 {
		return
	}
	ex.streak = 0
	if c < n {
		switchTo(en[c])
		cur.waitTurn()
		return
	}
	ex.advReq = true
	ex.earlyFire = true
	cur.waitTurn()
}

// park ends this thread: the execution is over.
//
//go:norace
func park() {
	cur := ex.cur
	cur.turn = false
	awaitTurn(cur)
	runtime.Goexit()
}

//go:norace
func switchTo(t *thread) {
	ex.cur = t
	t.w = nil
	giveTurn(t)
}

// awaitTurn suspends the calling goroutine until it is t's turn. The hand-over
// uses channels that the race detector is told to ignore.
//
//go:norace
func awaitTurn(t *thread) {
	if ex.finished || ex.advReq {
		wakeCtl()
	}
	syncOff()
	for !t.turn {
		<-t.wake
	}
	syncOn()
	t.turn = false
}

//go:norace
func giveTurn(t *thread) {
	t.turn = true
	syncOff()
	select {
	case t.wake <- struct{}{}:
	default:
	}
	syncOn()
}

var ctl = make(chan struct{}, 1)

//go:norace
func wakeCtl() {
	syncOff()
	select {
	case ctl <- struct{}{}:
	default:
	}
	syncOn()
}

// block suspends the current thread until w is ready.
//
//go:norace
//go:noinline
func block(w waiter, what string) {
	cur := ex.cur
	for {
		if ex.aborting {
			runtime.Goexit()
		}
		if ex.finished {
			park()
		}
		cur.w, cur.what = w, what
		if isReady(cur) && ex.opt.FreeSched {
			cur.w = nil
			return
		}
		if next := pickBlocked(); next != nil {
			if next == cur {
				cur.w = nil
				return
			}
			switchTo(next)
		} else {
			ex.advReq = true // controller advances time or declares deadlock
		}
		cur.waitTurn()
		// switched back to: we were ready when chosen, and nothing else ran since
		return
	}
}

// pickBlocked chooses the next thread when the current one cannot continue.
//
//go:norace
func pickBlocked() *thread {
	en := &ex.en
	n := 0
	base := 0
	if ex.cur != nil {
		base = ex.cur.id
	}
	for k := 0; k < ex.nthreads; k++ {
		t := ex.threads[(base+k)%ex.nthreads]
		if isReady(t) {
			en[n] = t
			n++
		}
	}
	if n == 0 {
		return nil
	}
	early := 0
	if ex.opt.EarlyTimers && ex.timers != nil {
		early = 1
	}
	ex.streak = 0
	if ex.opt.FreeSched {
		return en[0]
	}
	cost := int8(0)
	if ex.opt.DelayBound {
		cost = 1
	}
	c := choose(n+early, false, false, cost)
	if c < n {
		return en[c]
	}
	ex.earlyFire = true
	return nil
}

// Yield is an explicit scheduling point.
func Yield() { point() }

//go:norace
func newThread() *thread {
	if ex.nthreads >= maxThreads {
		fmt.Fprintln(os.Stderr, "vs: too many threads")
		os.Exit(4)
	}
	t := &thread{id: ex.nthreads, fin: make(chan struct{}), wake: make(chan struct{}, 1)}
	ex.threads[ex.nthreads] = t
	ex.nthreads++
	return t
}

// Go starts f as a new thread.
func Go(f func()) { goThread(f, false) }

// GoD starts a harness thread and returns a join function.
func GoJ(f func()) func() {
	if !Active() {
		done := make(chan struct{})
		go func() { defer close(done); f() }()
		return func() { <-done }
	}
	t := goThread(f, false)
	return func() { joinThread(t) }
}

type joinW struct{ t *thread }

//go:norace
func (j joinW) Ready(*thread) bool { return j.t.done }

//go:norace
func joinThread(t *thread) {
	if ex.aborting {
		return
	}
	if !t.done {
		block(joinW{t}, "join")
	}
	<-t.fin
}

func goThread(f func(), daemon bool) *thread {
	if !Active() {
		go f()
		return nil
	}
	if aborting() {
		return nil
	}
	t := newThread()
	t.daemon = daemon
	ex.wg.Add(1)
	go runThread(t, f)
	point()
	return t
}

func runThread(t *thread, f func()) {
	defer ex.wg.Done()
	defer threadExit(t)
	defer close(t.fin)
	defer func() {
		if aborting() {
			recover()
			return
		}
		if p := recover(); p != nil {
			threadPanic(p, debug.Stack())
		}
	}()
	t.waitTurn()
	f()
}

//go:norace
func threadPanic(p any, stack []byte) {
	fail(FailPanic, fmt.Sprintf("panic: %v\n%s", p, trimStack(stack)))
	ex.finished = true
}

func trimStack(b []byte) []byte {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return b
}

//go:norace
func threadExit(t *thread) {
	t.done = true
	if ex.aborting {
		return
	}
	if !ex.finished {
		if t.id == 0 {
			ex.finished = true
		} else if next := pickBlocked(); next != nil {
			switchTo(next)
		} else {
			ex.advReq = true
		}
	}
	if ex.finished || ex.advReq {
		wakeCtl()
	}
}

// controller side -----------------------------------------------------------

//go:norace
func ctlWait() bool {
	syncOff()
	for !ex.finished && !ex.advReq {
		<-ctl
	}
	syncOn()
	return ex.finished
}

//go:norace
func ctlAdvance() {
	ex.advReq = false
	early := ex.earlyFire
	ex.earlyFire = false
	for {
		if !fireNext() {
			if early {
				break
			}
			fail(FailDeadlock, describeThreads())
			ex.finished = true
			return
		}
		ex.nAdv++
		// timers due at the same instant fire together, so that what they wake interleaves
		for !early && !ex.opt.FreeSched && ex.timers != nil && ex.timers.when <= ex.now {
			fireNext()
		}
		if ex.opt.Horizon > 0 && ex.now > ex.opt.Horizon {
			ex.truncated = true
			ex.finished = true
			return
		}
		next := pickBlocked()
		if next != nil {
			switchTo(next)
			return
		}
		if ex.earlyFire { // choose another early fire
			ex.earlyFire = false
			continue
		}
	}
	if next := pickBlocked(); next != nil {
		switchTo(next)
	}
}

//go:norace
func describeThreads() string {
	s := "no thread can proceed:"
	for i := 0; i < ex.nthreads; i++ {
		t := ex.threads[i]
		if !t.done {
			s += fmt.Sprintf(" T%d waits for %s;", t.id, t.what)
		}
	}
	return s
}

//go:norace
func ctlBegin(prefix []int32, opt Options) *thread {
	ex.epoch++
	ex.quiet = false
	ex.aborting, ex.finished, ex.truncated, ex.advReq, ex.earlyFire = false, false, false, false, false
	for i := 0; i < ex.nthreads; i++ {
		ex.threads[i] = nil
	}
	ex.nthreads = 0
	ex.prefix = prefix
	ex.ntrace = 0
	ex.steps = 0
	ex.streak = 0
	ex.nAdv = 0
	ex.now = 0
	ex.timers = nil
	ex.tseq = 0
	ex.failure, ex.failMsg = "", ""
	ex.opt = opt
	ex.randCtr = 0
	ex.maxSteps = opt.MaxSteps
	if ex.maxSteps == 0 {
		ex.maxSteps = 200000
	}
	if ex.trace == nil {
		ex.trace = make([]ChoicePoint, maxTrace)
	}
	ex.active = true
	return newThread()
}

//go:norace
func ctlStart(t *thread) {
	ex.cur = t
	giveTurn(t)
}

//go:norace
func ctlAbort() {
	ex.aborting = true
	for i := 0; i < ex.nthreads; i++ {
		t := ex.threads[i]
		if !t.done {
			giveTurn(t)
			for !t.done {
				runtime.Gosched()
			}
		}
	}
}

//go:norace
func ctlEnd() { ex.active = false; ex.aborting = false }

// Result of one execution.
type Result struct {
	Failure, Msg string
	Points       []ChoicePoint
	Steps        int
	Truncated    bool
	Threads      int
	VirtualNS    int64
}

// RunOnce executes body as thread 0 following prefix.
func RunOnce(prefix []int32, opt Options, body func()) Result {
	resetGlobals()
	r0 := raceErrors()
	t := ctlBegin(prefix, opt)
	ex.wg.Add(1)
	go runThread(t, body)
	ctlStart(t)
	for !ctlWait() {
		ctlAdvance()
		if ctlFinished() {
			break
		}
	}
	ctlAbort()
	ex.wg.Wait()
	res := ctlResult()
	ctlEnd()
	if n := raceErrors(); n != r0 && res.Failure == "" {
		res.Failure, res.Msg = FailRace, "data race reported by the race detector on this schedule (see the race report above)"
	}
	return res
}

//go:norace
func ctlFinished() bool { return ex.finished }

//go:norace
func ctlResult() Result {
	r := Result{Failure: ex.failure, Msg: ex.failMsg, Steps: ex.steps, Truncated: ex.truncated, Threads: ex.nthreads, VirtualNS: ex.now}
	r.Points = make([]ChoicePoint, ex.ntrace)
	for i := range r.Points {
		r.Points[i] = ex.trace[i]
	}
	return r
}

// Threads reports the number of live threads other than the caller.
//
//go:norace
func LiveThreads() int {
	n := 0
	for i := 0; i < ex.nthreads; i++ {
		if t := ex.threads[i]; t != ex.cur && !t.done {
			n++
		}
	}
	return n
}

// LiveDesc describes what other live threads are waiting for.
//
//go:norace
func LiveDesc() string { return describeThreads() }

type quiesceW struct{}

//go:norace
func (quiesceW) Ready(t *thread) bool {
	for i := 0; i < ex.nthreads; i++ {
		o := ex.threads[i]
		if o != t && isReadyNoQ(o) {
			return false
		}
	}
	return true
}

//go:norace
func isReadyNoQ(t *thread) bool {
	if t.done {
		return false
	}
	if t.w == nil {
		return true
	}
	if _, ok := t.w.(quiesceW); ok {
		return false
	}
	return t.w.Ready(t)
}

// Quiesce lets every other thread run until all of them are blocked or done,
// without advancing virtual time.
//
//go:norace
func Quiesce() {
	if !live() {
		return
	}
	block(quiesceW{}, "quiescence")
}

// Choose is a free environment choice (enumerated exhaustively).
//
//go:norace
func Choose(n int) int {
	if !live() {
		return 0
	}
	return choose(n, false, true, 0)
}

// ChooseDev is an environment choice whose non-default answers cost one deviation.
//
//go:norace
func ChooseDev(n int) int {
	if !live() {
		return 0
	}
	return choose(n, false, true, 1)
}

//go:norace
func NumCPU() int {
	if ex.active && ex.opt.NumCPU > 0 {
		return ex.opt.NumCPU
	}
	return 2
}

// ProbeRand answers the draws made outside an execution, when set.
var ProbeRand func(b []byte)

//go:norace
func FillRandom(b []byte) {
	c := ex.randCtr
	ex.randCtr++
	if ex.active && ex.opt.Rand != nil {
		ex.opt.Rand(c, b)
		return
	}
	if !ex.active && ProbeRand != nil {
		ProbeRand(b)
		return
	}
	x := uint64(c)*0x9E3779B97F4A7C15 + 0x1234567
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 24)
	}
}

var _ = unsafe.Sizeof(0)
