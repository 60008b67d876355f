// C31: the simulation shows, pauses, resets, disrupts and ends the swarm it runs.
package main

import (
	context "MODULE/zzverif/vcontext"
	"fmt"
	"math"
	"sort"
	"time"

	"MODULE/emerge/goal"
	"MODULE/emerge/scale"
	sim "MODULE/simulations/emerge/simulation"
	"MODULE/simulations/emerge/simulation/pattern"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

const ms = time.Millisecond

var goals = []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
var patterns = []pattern.Type{pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse, pattern.Unset}

func phases(s sim.Snapshot) []float64 {
	r := make([]float64, len(s.Agents))
	for i, a := range s.Agents {
		r[i] = a.Phase
	}
	return r
}

func byID(s sim.Snapshot) map[string]sim.AgentSnapshot {
	m := map[string]sim.AgentSnapshot{}
	for _, a := range s.Agents {
		m[a.ID] = a
	}
	return m
}

// world follows one simulation.
type world struct {
	e         *vs.E
	s         *sim.Simulation
	target    float64
	n         int
	t0        time.Time // of the start or the latest reset
	paused    bool
	frozen    sim.Snapshot
	reset     time.Time
	disrupted time.Time
	peak      float64
	since     float64 // maximal coherence since the latest disruption
	moved     bool    // reset or disrupted since paused
	calm      bool    // neither reset nor disrupted yet
	running   int     // threads when running
	goal      goal.Type
	what      string
	log       string
}

func (w *world) check(ok bool, f string, a ...any) {
	if !ok {
		w.e.Fail("%s after%s: %s", w.what, w.log, fmt.Sprintf(f, a...))
	}
}

// look checks everything a snapshot and the statistics show.
func (w *world) look() sim.Snapshot {
	x := w.s.Snapshot()
	now := vs.Now()
	w.check(len(x.Agents) == w.n && len(byID(x)) == w.n, "%d agents shown, %d different, want %d", len(x.Agents), len(byID(x)), w.n)
	w.check(x.Paused == w.paused, "paused is shown as %v", x.Paused)
	w.check(x.TargetCoherence == w.target, "the target is shown as %v, want %v", x.TargetCoherence, w.target)
	w.check(x.Timestamp.Equal(now) && x.ElapsedTime == now.Sub(w.t0), "at %v: timestamp %v, elapsed %v, want %v", now, x.Timestamp, x.ElapsedTime, now.Sub(w.t0))
	w.check(math.Abs(x.Coherence-hx.Coh(phases(x))) < 1e-9, "coherence %v of phases with coherence %v", x.Coherence, hx.Coh(phases(x)))
	p, sent := 0, 0
	for _, a := range x.Agents {
		p += a.PendingTasks
		sent += a.BatchesSent
	}
	w.check(x.PendingTasks == p, "%d pending tasks of agents with %d", x.PendingTasks, p)
	w.check(math.Abs(x.Savings-(x.CostWithoutSync-x.CostWithSync)) < 1e-9, "savings %v of %v-%v", x.Savings, x.CostWithoutSync, x.CostWithSync)
	w.check(math.Abs(x.CostWithSync-.015*float64(x.BatchesProcessed)) < 1e-9, "cost %v of %d batches", x.CostWithSync, x.BatchesProcessed)
	w.check(x.BatchJustSent == (now.Sub(x.LastBatchTime) < 500*ms), "batch just sent: %v, %v ago", x.BatchJustSent, now.Sub(x.LastBatchTime))
	w.check(x.LastBatchTime.IsZero() == (x.LastBatchSize == 0), "last batch of %d at %v", x.LastBatchSize, x.LastBatchTime)
	w.check(x.Reset == (!w.reset.IsZero() && now.Sub(w.reset) < 2*time.Second), "reset is shown as %v, %v after it", x.Reset, now.Sub(w.reset))
	if w.disrupted.IsZero() {
		w.check(!x.Disrupted, "shown as disrupted")
	} else {
		w.since = math.Max(w.since, w.s.Statistics().FinalCoherence)
		w.check(x.Disrupted || w.since >= .9*w.target || now.Sub(w.disrupted) >= 30*time.Second, "not shown as disrupted %v after it, with coherence up to %v, target %v", now.Sub(w.disrupted), w.since, w.target)
		w.check(!x.Disrupted || now.Sub(w.disrupted) <= 30*time.Second, "disrupted for %v", now.Sub(w.disrupted))
	}
	if w.paused {
		w.check(x.Coherence == w.frozen.Coherence && x.PendingTasks == w.frozen.PendingTasks, "coherence %v, pending %d while paused with %v and %d", x.Coherence, x.PendingTasks, w.frozen.Coherence, w.frozen.PendingTasks)
		f := byID(w.frozen)
		for _, a := range x.Agents {
			w.check(a.Phase == f[a.ID].Phase && a.PendingTasks == f[a.ID].PendingTasks && a.BatchesSent == f[a.ID].BatchesSent, "while paused agent %+v was %+v", a, f[a.ID])
		}
	}
	w.peak = math.Max(w.peak, x.Coherence)
	st := w.s.Statistics()
	w.peak = math.Max(w.peak, st.FinalCoherence)
	w.check(math.Abs(st.PeakCoherence-w.peak) < 1e-12, "peak coherence %v, %v was shown", st.PeakCoherence, w.peak)
	w.check(st.TotalBatches == x.BatchesProcessed && st.CostWithSync == x.CostWithSync && st.CostWithoutSync == x.CostWithoutSync && math.Abs(st.CostWithoutSync-.03*float64(st.TotalAPICalls)) < 1e-9, "statistics %+v of %+v", st, x)
	w.check(st.TotalBatches == 0 && st.AverageBatchSize == 0 || math.Abs(st.AverageBatchSize*float64(st.TotalBatches)-float64(st.TotalAPICalls)) < 1e-9, "average batch size of %+v", st)
	w.check(st.TimeToConverge <= now.Sub(w.t0), "converged after %v in %v", st.TimeToConverge, now.Sub(w.t0))
	if w.paused && !w.moved { // the real swarm stands still, too
		w.check(math.Abs(st.FinalCoherence-w.frozen.Coherence) < 1e-12, "coherence %v in the statistics, paused with %v", st.FinalCoherence, w.frozen.Coherence)
	}
	if !w.paused {
		w.check(math.Abs(st.FinalCoherence-x.Coherence) < 1e-12, "coherence %v in the statistics, %v in the snapshot", st.FinalCoherence, x.Coherence)
	}
	w.e.Step(1)
	return x
}

// do applies an operation.
func (w *world) do(op byte) {
	w.log += " " + string(op)
	before := w.s.Snapshot()
	w.peak = math.Max(w.peak, before.Coherence)
	switch op {
	case 'P':
		w.s.Pause()
		if !w.paused {
			w.frozen, w.moved = before, false
		}
		w.paused = true
	case 'U':
		w.s.Resume()
		w.paused = false
	case 'R':
		w.s.Reset()
		w.moved, w.calm = true, false
		w.reset, w.t0, w.peak = vs.Now(), vs.Now(), 0
		for i := range w.frozen.Agents {
			w.frozen.Agents[i].PendingTasks, w.frozen.Agents[i].BatchesSent = 0, 0
		}
		w.frozen.PendingTasks = 0
	case 'D':
		w.s.Disrupt()
		w.moved, w.calm = true, false
		w.check(w.s.Snapshot().Disrupted, "not shown as disrupted")
		w.disrupted, w.since = vs.Now(), 0
	case 'w':
		return
	case 'W':
		vs.Sleep(1700 * ms)
		return
	}
	x := w.look()
	if op == 'D' && !w.paused {
		turned := 0
		b := byID(before)
		for _, a := range x.Agents {
			if a.Phase == b[a.ID].Phase {
				continue
			}
			turned++
			w.check(math.Abs(hx.CD(a.Phase, b[a.ID].Phase)-math.Pi) < 1e-4, "phase %v was %v before the disruption", a.Phase, b[a.ID].Phase)
		}
		w.check(turned == w.n/5, "%d of %d agents disrupted", turned, w.n)
	}
	if op == 'R' {
		w.check(x.BatchesProcessed == 0 && x.CostWithoutSync == 0 && x.CostWithSync == 0 && x.PendingTasks == 0 && x.LastBatchSize == 0 && x.LastBatchTime.IsZero() && x.CurrentBatchSize == 0, "after the reset %+v", x)
		for _, a := range x.Agents {
			w.check(a.PendingTasks == 0 && a.BatchesSent == 0 && !a.InBurstMode, "after the reset %+v", a)
		}
		if !w.paused {
			w.worst(x)
		}
	}
	if op == 'P' || op == 'U' {
		for _, a := range x.Agents {
			b := byID(before)[a.ID]
			w.check(a.PendingTasks == b.PendingTasks && a.BatchesSent == b.BatchesSent, "%c changed %+v to %+v", op, b, a)
		}
	}
}

// worst checks the phases after a reset: the worst ones for the goal.
func (w *world) worst(x sim.Snapshot) {
	n := len(x.Agents)
	p := phases(x)
	for i := range p {
		p[i] = hx.Wrap(p[i] + 1e-4)
	}
	sort.Float64s(p)
	zero, half := 0, 0
	for _, q := range p {
		if q < 1e-3 {
			zero++
		}
		if math.Abs(q-math.Pi) < 1e-3 {
			half++
		}
	}
	switch w.goal {
	case goal.DistributeLoad, goal.SaveEnergy, goal.AdaptToTraffic:
		w.check(zero == n, "goal %v starts over with %d of %d agents at 0", w.goal, zero, n)
	case goal.MinimizeLatency, goal.RecoverFromFailure:
		w.check(zero == n/2 && half == n-n/2 || zero == n-n/2 && half == n/2, "goal %v starts over with %d agents at 0, %d at π", w.goal, zero, half)
	case goal.MaintainRhythm:
		even := true
		for i := 1; i < n; i++ {
			even = even && math.Abs(p[i]-p[i-1]-hx.TwoPi/float64(n)) < .01*hx.TwoPi/float64(n)
		}
		w.check(x.Coherence < .3 && !even && zero <= 1+n/20, "goal %v starts over with phases %v", w.goal, p)
	default:
		for i := 0; i < n; i++ {
			w.check(math.Abs(p[i]-float64(i)*hx.TwoPi/float64(n)) < 1e-3, "goal %v starts over with phases %v", w.goal, p)
		}
	}
}

// start builds and starts a simulation; end cancels it and returns when it ends.
func start(e *vs.E, c sim.BuildConfig, what string) (w *world, end func()) {
	live := vs.LiveThreads()
	s, err := sim.New(c)
	e.Check(err == nil, "%s: %v", what, err)
	target := c.TargetCoherence
	if target <= 0 {
		target = c.Scale.DefaultTargetCoherence()
	}
	w = &world{e: e, s: s, target: target, n: c.Scale.DefaultAgentCount(), what: what, goal: c.Goal, calm: true}
	ctx, cancel := context.WithCancel(context.Background())
	started := false
	var err2 error
	idle := vs.LiveThreads() // what building the client leaves
	j := vs.GoJ(func() { started = true; err2 = s.Start(ctx) })
	vs.Quiesce()
	w.t0 = vs.Now()
	e.Check(started, "not started")
	return w, func() {
		cancel()
		j()
		e.Check(err2 == nil, "%s: Start: %v", what, err2)
		vs.Sleep(2500 * ms)
		if !w.disrupted.IsZero() {
			vs.Sleep(30 * time.Second)
		}
		e.Check(vs.LiveThreads() == idle, "%s after%s: %d threads left after the end (%d before), %s", what, w.log, vs.LiveThreads()-live, idle-live, vs.LiveDesc())
	}
}

// ops: every sequence of operations
func ops(e *vs.E) {
	n := 5
	if e.Thorough() {
		n = 6
	}
	alphabet := "PURDw"
	e.Param("every sequence of %d of the operations %s (pause, resume, reset, disrupt, wait), 140 ms apart; every goal and pattern in turn", n, alphabet)
	total := 1
	for i := 0; i < n; i++ {
		total *= len(alphabet)
	}
	for x := 0; x < total; x++ {
		e.Case(func() {
			c := sim.BuildConfig{Goal: goals[x%8], Scale: scale.Tiny, Pattern: patterns[(x/8)%6], TargetCoherence: []float64{0, .75, .9}[x%3]}
			vs.SetMapOrder(x % 2)
			e.Seq(vs.Options{MaxSteps: 1 << 30, Rand: hx.Lcg(x % 11)}, func() {
				w, end := start(e, c, fmt.Sprintf("%v, %v", c.Goal, c.Pattern))
				vs.Sleep(333 * ms)
				w.look()
				w.running = vs.LiveThreads()
				for i, y := 0, x; i < n; i, y = i+1, y/len(alphabet) {
					w.do(alphabet[y%len(alphabet)])
					for k := 0; k < 4; k++ {
						vs.Sleep(35 * ms)
						w.look()
					}
					if w.calm {
						l := vs.LiveThreads()
						w.check(l == w.running || w.paused && l < w.running, "%d threads, %d at first", l, w.running)
					}
				}
				end()
			})
			vs.SetMapOrder(0)
			e.Seen(fmt.Sprint(x))
		})
	}
}

// layouts: the phases after a reset and a disruption of a simulation that does not run yet, at every scale
func layouts(e *vs.E) {
	scales := []scale.Size{scale.Tiny, scale.Small, scale.Medium}
	if e.Thorough() {
		scales = append(scales, scale.Large, scale.Huge)
	}
	e.Param("8 goals, scales %v", scales)
	for _, sc := range scales {
		for _, g := range goals {
			for mo := 0; mo < 2; mo++ {
				e.Case(func() {
					vs.SetMapOrder(mo)
					e.Seq(vs.Options{MaxSteps: 1 << 30, Rand: hx.Lcg(5)}, func() {
						s, err := sim.New(sim.BuildConfig{Goal: g, Scale: sc, Pattern: pattern.Steady})
						e.Check(err == nil, "%v", err)
						w := &world{e: e, s: s, target: sc.DefaultTargetCoherence(), n: sc.DefaultAgentCount(), what: fmt.Sprint(g, " ", sc), goal: g, t0: time.Time{}}
						w.do('R')
						w.do('D')
						w.do('D')
						w.do('R')
						w.do('P')
						w.do('U')
					})
					vs.SetMapOrder(0)
					e.Seen(fmt.Sprint(g, sc, mo))
				})
			}
		}
	}
}

// flags: a reset is shown for 2 s after the latest one, a disruption from which nothing recovers (paused) for 30 s after the latest one
func flags(e *vs.E) {
	e.Param("two resets 0-2.3 s, three resets, and two disruptions 0-33 s apart, shown every 100 ms")
	for gap := 0; gap <= 23; gap++ {
		for gap2 := -1; gap2 <= 23; gap2 += 3 {
			e.Case(func() {
				e.Seq(vs.Options{MaxSteps: 1 << 30, Rand: hx.Lcg(gap)}, func() {
					w, end := start(e, sim.BuildConfig{Goal: goals[gap%8], Scale: scale.Tiny, Pattern: patterns[gap%6]}, fmt.Sprintf("resets %d ms and %d ms apart", gap*100, gap2*100))
					gs := []int{2, gap, 25}
					if gap2 >= 0 {
						gs = []int{2, gap, gap2, 25}
					}
					for i, g := range gs {
						for k := 0; k < g; k++ {
							vs.Sleep(50 * ms)
							w.look()
							vs.Sleep(50 * ms)
						}
						if i < len(gs)-1 {
							w.do('R')
						}
					}
					end()
				})
				e.Seen(fmt.Sprint(gap, gap2))
			})
		}
	}
	for gap := 0; gap <= 33; gap++ {
		e.Case(func() {
			e.Seq(vs.Options{MaxSteps: 1 << 30, Rand: hx.Lcg(gap)}, func() {
				w, end := start(e, sim.BuildConfig{Goal: goal.MinimizeAPICalls, Scale: scale.Tiny, Pattern: pattern.Steady, TargetCoherence: .99}, fmt.Sprintf("disruptions %d s apart", gap))
				w.do('R')
				w.do('P')
				w.do('D')
				for k := 0; k < gap*10; k++ {
					vs.Sleep(50 * ms)
					x := w.look()
					w.check(x.Disrupted == (k < 300), "shown as disrupted: %v", x.Disrupted)
					vs.Sleep(50 * ms)
				}
				w.do('D')
				for k := 0; k < 330; k++ {
					vs.Sleep(50 * ms)
					x := w.look()
					w.check(x.Disrupted == (k < 300), "shown as disrupted: %v, %v after the latest", x.Disrupted, vs.Now().Sub(w.disrupted))
					vs.Sleep(50 * ms)
				}
				end()
			})
			e.Seen(fmt.Sprint("d", gap))
		})
	}
}

// levels: how long a disruption of a swarm that stands still is shown, with its coherence just below, at or above the target
func levels(e *vs.E) {
	n := 12
	if e.Thorough() {
		n = 60
	}
	ds := []float64{-.2, -.05, -.01, -.001, 0, .001, .01, .05, .2}
	e.Param("%d random streams, targets at the coherence and up to 0.2 below and above it; running or paused; disrupted once or twice", n)
	for i := 0; i < n; i++ {
		for _, d := range ds {
			for how := 0; how < 4; how++ {
				e.Case(func() {
					c := sim.BuildConfig{Goal: goals[i%8], Scale: scale.Tiny, Pattern: patterns[i%6]}
					run := func(what string) *world {
						s, err := sim.New(c)
						e.Check(err == nil, "%v", err)
						w := &world{e: e, s: s, target: c.TargetCoherence, n: scale.Tiny.DefaultAgentCount(), what: what, goal: c.Goal, t0: time.Time{}}
						if w.target <= 0 {
							w.target = c.Scale.DefaultTargetCoherence()
						}
						if how&1 != 0 {
							w.do('P')
						}
						w.do('D')
						if how&2 != 0 {
							w.do('D')
						}
						return w
					}
					var level float64
					seq := func(f func()) {
						e.Seq(vs.Options{MaxSteps: 1 << 30, Rand: hx.Lcg(i)}, f)
					}
					seq(func() { level = run("first").s.Statistics().FinalCoherence })
					c.TargetCoherence = level + d
					if c.TargetCoherence <= 0 || c.TargetCoherence > 1 {
						return
					}
					seq(func() {
						w := run(fmt.Sprintf("stream %d, a target of %v, coherence %v", i, c.TargetCoherence, level))
						c := w.s.Statistics().FinalCoherence
						w.check(math.Abs(c-level) < 1e-9, "coherence %v", c)
						for k := 0; k < 310; k++ {
							vs.Sleep(50 * ms)
							x := w.look()
							if math.Abs(c-w.target) > 1e-9 && k > 2 && k != 299 && k != 300 {
								w.check(x.Disrupted == (c < w.target && k < 300), "%d ms after the disruption it is shown: %v", k*100+50, x.Disrupted)
							}
							vs.Sleep(50 * ms)
						}
					})
					e.Seen(fmt.Sprint(i, d, how))
				})
			}
		}
	}
}

// recovery: a swarm that synchronizes recovers from reset and disruption, shows it, and batches
func recovery(e *vs.E) {
	n := 24
	if e.Thorough() {
		n = 200
	}
	e.Param("%d random streams: synchronize, disrupt, recover, reset, recover, pause 3 s, recover", n)
	for i := 0; i < n; i++ {
		e.Case(func() {
			vs.SetMapOrder(i % 2)
			e.Seq(vs.Options{MaxSteps: 1 << 30, Rand: hx.Lcg(i)}, func() {
				w, end := start(e, sim.BuildConfig{Goal: goal.MinimizeAPICalls, Scale: scale.Tiny, Pattern: pattern.Steady}, fmt.Sprint("stream ", i))
				until := func(what string) {
					t := vs.Now()
					for {
						vs.Sleep(100 * ms)
						x := w.look()
						if x.Coherence >= w.target {
							break
						}
						w.check(vs.Now().Sub(t) < 10*time.Second, "%s: coherence %v after %v, target %v", what, x.Coherence, vs.Now().Sub(t), w.target)
					}
					vs.Outcome("%s %v", what, vs.Now().Sub(t).Round(time.Second))
				}
				vs.Sleep(50 * ms)
				until("at first")
				for k := 0; k < 3; k++ {
					w.do('D')
					until("after a disruption")
					vs.Sleep(200 * ms)
					w.check(!w.s.Snapshot().Disrupted, "still shown as disrupted after recovering")
				}
				w.do('R')
				until("after a reset")
				w.do('P')
				vs.Sleep(3 * time.Second)
				w.look()
				w.do('U')
				until("after a pause")
				st := w.s.Statistics()
				w.check(st.TimeToConverge > 0 && st.PeakCoherence >= .7, "%+v after converging", st)
				end()
			})
			vs.SetMapOrder(0)
			e.Seen(fmt.Sprint(i))
		})
	}
}

// construction: the swarm that is built has the workloads of the goal in turn, and they generate tasks by the pattern
func construction(e *vs.E) {
	scales := []scale.Size{scale.Tiny, scale.Small, scale.Medium}
	if e.Thorough() {
		scales = append(scales, scale.Large, scale.Huge)
	}
	e.Param("8 goals, 6 patterns, scales %v for the workloads, and Tiny for the first 1.95 s of tasks, with the default and another target", scales)
	for _, sc := range scales {
		for _, g := range goals {
			for _, p := range patterns {
				for _, t := range []float64{0, sc.DefaultTargetCoherence(), .6} {
					e.Case(func() {
						what := fmt.Sprintf("%v, %v, %v, target %v", g, p, sc, t)
						e.Seq(vs.Options{MaxSteps: 1 << 30, Rand: hx.Lcg(int(p) + 7)}, func() {
							build(e, what, sim.BuildConfig{Goal: g, Scale: sc, Pattern: p, TargetCoherence: t})
						})
						if sc == scale.Tiny {
							e.Seq(vs.Options{MaxSteps: 1 << 30, Rand: hx.Lcg(int(p) + 7)}, func() {
								tasks(e, what, sim.BuildConfig{Goal: g, Scale: sc, Pattern: p, TargetCoherence: t})
							})
						}
						e.Seen(what)
					})
				}
			}
		}
	}
}

func build(e *vs.E, what string, c sim.BuildConfig) {
	s, err := sim.New(c)
	e.Check(err == nil, "%s: %v", what, err)
	x := s.Snapshot()
	want, got := map[string]int{}, map[string]int{}
	for i := range x.Agents {
		a := sim.NewWorkload("a", i, c.Goal).Snapshot()
		want[a.Type+a.Icon]++
	}
	level := map[pattern.Type]string{pattern.HighFrequency: "active", pattern.Steady: "steady", pattern.Unset: "steady"}[c.Pattern]
	if level == "" {
		level = "quiet"
	}
	for _, a := range x.Agents {
		got[a.Type+a.Icon]++
		e.Check(a.PendingTasks == 0 && a.BatchesSent == 0 && !a.InBurstMode && a.ActivityLevel == level, "%s: at first agent %+v, want it %s", what, a, level)
	}
	e.Check(len(x.Agents) == c.Scale.DefaultAgentCount() && fmt.Sprint(want) == fmt.Sprint(got), "%s: agents %v, want %v", what, got, want)
}

func tasks(e *vs.E, what string, c sim.BuildConfig) {
	w, end := start(e, c, what)
	levels := map[string]int{}
	for k := 0; k < 39; k++ {
		vs.Sleep(25 * ms)
		for _, a := range w.look().Agents {
			levels[a.ActivityLevel]++
			w.check(a.InBurstMode == (a.ActivityLevel == "burst"), "%+v", a)
		}
		vs.Sleep(25 * ms)
	}
	all := w.s.Snapshot().PendingTasks + w.s.Statistics().TotalAPICalls
	lo, hi := 3*w.n, 3*w.n
	show := "steady"
	switch c.Pattern {
	case pattern.HighFrequency:
		lo, hi, show = 2*19*w.n, 4*39*w.n, "active"
	case pattern.Burst:
		lo, hi, show = 3, 7*19*w.n, "burst"
	case pattern.Mixed:
		lo, hi, show = 1, 3*9*w.n, "active"
	case pattern.Sparse:
		lo, hi, show = 0, 0, "quiet"
	}
	w.check(all >= lo && all <= hi && levels[show] > 0, "%d tasks generated, want %d to %d; activity %v", all, lo, hi, levels)
	vs.Outcome("%v", levels)
	end()
}

// conservation: every task generated is pending or processed, none while paused
func conservation(e *vs.E) {
	e.Param("24 random streams x 8 goals, 12 s with a pause at 4 moments of 3 lengths")
	for i := 0; i < 96; i++ {
		e.Case(func() {
			g := goals[i%8]
			e.Seq(vs.Options{MaxSteps: 1 << 30, Rand: hx.Lcg(i)}, func() {
				w, end := start(e, sim.BuildConfig{Goal: g, Scale: scale.Tiny, Pattern: pattern.Steady}, fmt.Sprintf("%v, stream %d", g, i))
				t0 := w.t0
				gen := 0
				for k := 0; k < 120; k++ {
					on := !w.paused // at the tick
					vs.Sleep(5 * ms)
					if k == 20+7*(i/8%4) {
						w.do('P')
					}
					if k == 20+7*(i/8%4)+[]int{4, 11, 37}[i/32%3] {
						w.do('U')
					}
					vs.Sleep(90 * ms)
					at := vs.Now().Sub(t0) - 95*ms
					if at > 0 && at%(500*ms) == 0 && on {
						gen += w.n
					}
					x := w.look()
					st := w.s.Statistics()
					w.check(st.TotalAPICalls+x.PendingTasks == gen, "at %v: %d tasks generated, %d processed, %d pending", at, gen, st.TotalAPICalls, x.PendingTasks)
					vs.Sleep(5 * ms)
				}
				end()
			})
			e.Seen(fmt.Sprint(i))
		})
	}
}

// concurrent: users operate the simulation at the same time
func concurrent(name string, run bool, threads []string, o, t vs.Options) {
	explore(name, false, run, threads, o, t)
	if run { // 65 threads: the race detector only sees the executions without deviations
		o.Preemptions, t.Preemptions = 0, 0
	} else {
		o.Preemptions, t.Preemptions = o.Preemptions-1, t.Preemptions-1
	}
	explore(name, true, run, threads, o, t)
}

func explore(name string, race, run bool, threads []string, o, t vs.Options) {
	o.DelayBound, t.DelayBound = true, true
	o.MaxSteps, t.MaxSteps = 1<<20, 1<<20
	o.Rand, t.Rand = hx.Lcg(3), hx.Lcg(3)
	vs.Add(&vs.Scenario{Name: name, Race: race, Opt: o, Thorough: &t, Body: func() {
		vs.Quiet(true)
		s, err := sim.New(sim.BuildConfig{Goal: goal.MinimizeAPICalls, Scale: scale.Tiny, Pattern: pattern.HighFrequency})
		if err != nil {
			vs.Fail("%v", err)
		}
		idle := vs.LiveThreads()
		ctx, cancel := context.WithCancel(context.Background())
		var js []func()
		threads := threads
		if len(threads) > 1 && threads[1] == "" { // starts later
			threads = threads[2:]
		} else if run {
			js = append(js, vs.GoJ(func() { s.Start(ctx) }))
			vs.Sleep(149 * ms)
		}
		if threads[0] == "" { // starts paused
			s.Pause()
			vs.Sleep(20 * ms)
			threads = threads[1:]
		}
		ops := make([]string, len(threads))
		resets, disrupts := 0, 0
		last := map[byte]bool{} // the last pause or resume of some thread
		var users []func()
		vs.Quiet(false)
		for i, th := range threads {
			l := byte(0)
			for j := range th {
				switch th[j] {
				case 'R':
					resets++
				case 'D':
					disrupts++
				case 'P', 'U':
					l = th[j]
				}
			}
			if l != 0 {
				last[l] = true
			}
			users = append(users, vs.GoJ(func() {
				for j := range th {
					switch th[j] {
					case 'P':
						s.Pause()
					case 'U':
						s.Resume()
					case 'R':
						s.Reset()
					case 'D':
						s.Disrupt()
					case 'G':
						js = append(js, vs.GoJ(func() { s.Start(ctx) }))
					case 'S':
						x := s.Snapshot()
						ops[i] += fmt.Sprint(x.Paused, x.Reset, x.Disrupted)
						if len(x.Agents) != 20 || x.Coherence < 0 || x.Coherence > 1+1e-9 || math.IsNaN(x.Coherence) {
							vs.Fail("%+v", x)
						}
						if st := s.Statistics(); st.PeakCoherence < 0 || resets == 0 && st.PeakCoherence < x.Coherence {
							vs.Fail("peak coherence %v after %v", st.PeakCoherence, x.Coherence)
						}
					case 'w':
						vs.Sleep(ms)
					}
				}
			}))
		}
		for _, j := range users {
			j()
		}
		vs.Quiet(true)
		x := s.Snapshot()
		vs.Outcome("%v %v", ops, x.Paused)
		if x.Paused && !last['P'] || !x.Paused && last['P'] && !last['U'] {
			vs.Fail("paused: %v after %v", x.Paused, threads)
		}
		if x.Reset != (resets > 0) || !x.Disrupted && disrupts == 1 && !run || x.Disrupted && disrupts == 0 {
			vs.Fail("reset: %v, disrupted: %v", x.Reset, x.Disrupted)
		}
		if !x.Paused {
			s.Pause() // the swarm stands still then, too
			x = s.Snapshot()
			if !x.Paused {
				vs.Fail("not paused after %v and a pause", threads)
			}
		}
		if x.Paused {
			c := s.Statistics().FinalCoherence
			vs.Sleep(20 * ms)
			y := s.Snapshot()
			if y.Coherence != x.Coherence || y.PendingTasks > x.PendingTasks+80 {
				vs.Fail("coherence %v, %d pending while paused, %v, %d", x.Coherence, x.PendingTasks, y.Coherence, y.PendingTasks)
			}
			vs.Sleep(100 * ms)
			if disrupts+resets == 0 {
				c = s.Statistics().FinalCoherence
				vs.Sleep(300 * ms)
				if d := s.Statistics().FinalCoherence; d != c {
					vs.Fail("the swarm goes on while paused: coherence %v and %v", c, d)
				}
			}
		}
		cancel()
		for _, j := range js {
			j()
		}
		if disrupts > 0 {
			return // may be waited for for 30 s
		}
		vs.Sleep(2100 * ms)
		if vs.LiveThreads() != idle {
			vs.Fail("%d threads left: %s", vs.LiveThreads()-idle, vs.LiveDesc())
		}
	}})
}

func main() {
	b := func(n int) vs.Options { return vs.Options{Preemptions: n} }
	concurrent("pause, resume and look at an idle simulation", false, []string{"PU", "UP", "SS"}, b(2), b(3))
	concurrent("reset, disrupt and look at an idle simulation", false, []string{"R", "D", "SS"}, b(2), b(3))
	concurrent("two disruptions, reset, pause of an idle simulation", false, []string{"DP", "D", "RU"}, b(2), b(3))
	concurrent("pause and resume a running simulation", true, []string{"PU", "P"}, b(1), b(2))
	concurrent("pause, resume and look at a running simulation", true, []string{"PU", "S"}, b(1), b(2))
	concurrent("reset, disrupt and look at a running simulation", true, []string{"R", "D", "S"}, b(1), b(2))
	concurrent("two resume a paused simulation", true, []string{"", "U", "U"}, b(1), b(2))
	concurrent("start and pause", true, []string{"", "", "G", "P"}, b(1), b(2))
	concurrent("start, pause and resume", true, []string{"", "", "G", "PU"}, b(1), b(2))
	vs.AddEnum(&vs.Enum{Name: "layouts", Run: layouts})
	vs.AddEnum(&vs.Enum{Name: "construction", Run: construction})
	vs.AddEnum(&vs.Enum{Name: "flags", Run: flags})
	vs.AddEnum(&vs.Enum{Name: "levels", Run: levels})
	vs.AddEnum(&vs.Enum{Name: "recovery", Run: recovery})
	vs.AddEnum(&vs.Enum{Name: "conservation", Run: conservation})
	vs.AddEnum(&vs.Enum{Name: "operation sequences", Run: ops})
	vs.Main()
}
