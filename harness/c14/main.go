// C14: RunContinuous maintains the goal until it is cancelled.
package main

import (
	"errors"
	"fmt"
	"math"
	"time"

	"MODULE/emerge/agent"
	"MODULE/emerge/core"
	"MODULE/emerge/goal"
	"MODULE/emerge/swarm"
	"MODULE/internal/config"
	"MODULE/zzverif/hx"
	context "MODULE/zzverif/vcontext"
	"MODULE/zzverif/vs"
)

const ms = time.Millisecond

// thresholds as documented, by target coherence
func recovery(t float64) swarm.RecoveryConfig {
	c := swarm.RecoveryConfig{CheckInterval: 100 * ms, StuckThreshold: 30}
	switch {
	case t >= 0.9:
		c.MinimumViableCoherence, c.TargetMarginRatio, c.SmallDropRatio, c.LargeDropRatio = .5, .98, .03, .08
	case t >= 0.7:
		c.MinimumViableCoherence, c.TargetMarginRatio, c.SmallDropRatio, c.LargeDropRatio = .4, .95, .05, .12
	case t >= 0.5:
		c.MinimumViableCoherence, c.TargetMarginRatio, c.SmallDropRatio, c.LargeDropRatio = .3, .92, .08, .15
	default:
		c.MinimumViableCoherence, c.TargetMarginRatio, c.SmallDropRatio, c.LargeDropRatio = .2, .85, .10, .20
	}
	return c
}

type snap struct {
	ph []float64
}

func take(as []*agent.Agent) (s snap) {
	for _, a := range as {
		s.ph = append(s.ph, a.Phase())
	}
	return
}
func (a snap) same(b snap) bool {
	for i := range a.ph {
		if a.ph[i] != b.ph[i] {
			return false
		}
	}
	return true
}

const n = 6
const practical = 0.92

// achieved: 1 met, 0 not met, -1 too close to tell (all frequencies equal the target's)
func achieved(s snap, c *swarm.Config, target core.State) int {
	tol := c.Convergence.ToleranceSmall
	if target.Coherence >= practical*0.95 {
		tol *= 2
	}
	coh := hx.Coh(s.ph)
	x, y, d := 0.0, 0.0, 0.0
	for _, p := range s.ph {
		x += math.Cos(p)
		y += math.Sin(p)
		d += hx.CD(p, target.Phase)
	}
	dist := 0.4*hx.CD(math.Atan2(y, x), target.Phase)/math.Pi + 0.3*math.Abs(coh-target.Coherence)
	m := []float64{coh - (target.Coherence - tol), c.Convergence.PatternDistanceThreshold - dist}
	if target.Coherence >= c.Thresholds.HighCoherence {
		m = append(m, 1-d/n/math.Pi-c.Convergence.PhaseConvergenceGoal)
	}
	amb := false
	for _, v := range m {
		if v < -1e-9 {
			return 0
		}
		amb = amb || v < 1e-9
	}
	if amb {
		return -1
	}
	return 1
}

// below: 1 if a < b, 0 if a > b, -1 if too close to tell
func below(a, b float64) int {
	if math.Abs(a-b) < 1e-4 {
		return -1
	}
	if a < b {
		return 1
	}
	return 0
}

type model struct {
	rec          swarm.RecoveryConfig
	target       float64
	last, peak   float64
	active       bool
	since        time.Duration // start of the last synchronization
	iter         int
	amb          bool
	resyncs, end int
}

func (m *model) needs(cur float64) bool {
	is := func(v int) bool {
		if v < 0 {
			m.amb = true
		}
		return v == 1
	}
	r := m.rec
	if is(below(cur, r.MinimumViableCoherence)) || is(below(cur, m.target*r.TargetMarginRatio)) {
		return true
	}
	drop := m.peak - cur
	if is(below(m.peak*r.SmallDropRatio, drop)) {
		if is(below(m.peak*r.LargeDropRatio, drop)) || is(below(cur, m.target)) {
			return true
		}
	}
	return is(below(cur, m.last-m.last*r.SmallDropRatio))
}

// cluster puts half of the agents on either side of phase 1, so that the coherence is c
func cluster(as []*agent.Agent, c float64) {
	d := math.Acos(c)
	for i, a := range as {
		if i%2 == 0 {
			a.SetPhase(1 + d)
		} else {
			a.SetPhase(1 - d)
		}
	}
}

type event struct {
	at time.Duration
	c  float64
}

func follow(e *vs.E, target float64, rec *swarm.RecoveryConfig, start float64, script []event, total time.Duration, deadline bool) {
	st := core.State{Phase: 1, Frequency: 100 * ms, Coherence: target}
	gc := swarm.For(goal.Type(99))
	gc.Strategy.UpdateInterval = 37 * ms
	gc.Strategy.MaxIterationsFactor = 3
	opts := []swarm.Option{swarm.WithGoalConfig(gc), swarm.WithAgentBuilder(func(id string, _ int, _ config.Swarm) *agent.Agent {
		return agent.New(id, agent.WithFrequency(100*ms), agent.WithEnergy(100))
	})}
	m := &model{rec: recovery(target), target: target}
	if rec != nil {
		opts = append(opts, swarm.WithRecoveryConfig(*rec))
		if rec.CheckInterval != 0 {
			m.rec = *rec
		}
	}
	s, err := swarm.New(n, st, opts...)
	if err != nil {
		e.Fail("%v", err)
	}
	var as []*agent.Agent
	for i := 0; i < n; i++ {
		a, _ := s.Agent(fmt.Sprintf("agent-%d", i))
		as = append(as, a)
	}
	cluster(as, start)
	max := 3 * 8
	switch u := target / practical; {
	case u < 0.8:
		max = 3
	case u < 0.9:
		max = 6
	case u < 0.95:
		max = 12
	}
	threads := vs.LiveThreads()
	var res error
	done := false
	ctx, cancel := context.WithCancel(context.Background())
	if deadline {
		ctx, cancel = context.WithTimeout(context.Background(), total)
	}
	defer cancel()
	j := vs.GoJ(func() {
		res = s.RunContinuous(ctx)
		done = true
	})
	const eps = 100 * time.Microsecond
	t0 := vs.Now()
	now := func() time.Duration { return vs.Now().Sub(t0) }
	vs.Sleep(eps)
	e.Check(!done, "returned %v at once", res)
	cur := take(as)
	m.last = hx.Coh(cur.ph)
	m.active = true
	nextCheck := m.rec.CheckInterval
	nextUpd := 37 * ms
	conv := time.Duration(-1) // when the current synchronization reached the target coherence
	camb := false             // too close to tell
	for {
		// next event
		t := nextCheck
		what := "check"
		if m.active && nextUpd < t {
			t, what = nextUpd, "update"
		}
		if len(script) > 0 && script[0].at < t {
			t, what = script[0].at, "script"
		}
		if t >= total-ms {
			break
		}
		vs.Sleep(t + eps - now())
		e.Check(!done, "RunContinuous returned %v at %v without being cancelled", res, now())
		after := take(as)
		e.Step(1)
		switch what {
		case "script":
			e.Check(cur.same(after), "agents changed at %v although no update was due", t)
			cluster(as, script[0].c)
			script = script[1:]
			after = take(as)
		case "update":
			ach := achieved(cur, gc, st)
			if ach < 0 {
				m.amb = true
			}
			m.iter++
			// convergence is judged since the start of the latest synchronization
			if c := hx.Coh(cur.ph); math.Abs(c-target) < 1e-9 {
				camb = true
			} else if c < target {
				conv, camb = -1, false
			} else if conv < 0 {
				conv = t
			}
			if !camb {
				ct := s.ConvergenceTime()
				e.Check(s.IsConverged() == (conv >= 0), "at %v converged: %v, coherence %v of %v", t, s.IsConverged(), hx.Coh(cur.ph), target)
				e.Check(conv < 0 && ct == 0 || conv >= 0 && ct > conv-m.since-ms && ct < conv-m.since+ms, "convergence time %v at %v, %v after the start at %v", ct, t, conv-m.since, m.since)
			}
			if ach == 1 {
				e.Check(cur.same(after), "agents changed at %v although the goal was met", t)
				m.active = false
				m.end++
			} else {
				if c := hx.Coh(cur.ph); c < 0.8 && c < target-0.02 && target >= 0.4 {
					far := false
					for _, p := range cur.ph {
						far = far || hx.CD(p, 1) > 0.3
					}
					if far {
						e.Check(!cur.same(after), "no agent changed at %v although synchronization is under way", t)
					}
				}
				if m.iter == max {
					m.active = false
					m.end++
				}
			}
			nextUpd += 37 * ms
		case "check":
			c := hx.Coh(cur.ph)
			if c > m.peak {
				m.peak = c
			} else {
				m.peak *= 0.9995
			}
			need := m.needs(c)
			if need && !m.active && t-m.since > 500*ms {
				m.active = true
				m.since = t
				m.iter = 0
				m.peak = c
				conv, camb = -1, false
				e.Check(!s.IsConverged() && s.ConvergenceTime() == 0, "convergence is still reported when a synchronization starts at %v", t)
				m.resyncs++
				nextUpd = t + 37*ms
			}
			m.last = c
			e.Check(cur.same(after), "agents changed at %v although no update was due", t)
			nextCheck += m.rec.CheckInterval
		}
		cur = after
		if m.amb {
			break // a comparison was too close to call: the model cannot follow
		}
	}
	e.Seen(fmt.Sprintf("%v %d %d %v", target, m.resyncs, m.end, m.amb))
	want := context.Canceled
	if deadline {
		want = context.DeadlineExceeded
		if d := total - now(); d > 0 {
			vs.Sleep(d)
		}
	} else {
		cancel()
	}
	vs.Sleep(eps)
	e.Check(done, "RunContinuous goes on after its context ended")
	if !done {
		return
	}
	j()
	e.Check(errors.Is(res, want), "returned %v, want %v", res, want)
	cur = take(as)
	vs.Sleep(2 * time.Second)
	e.Check(cur.same(take(as)), "agents change after RunContinuous returned")
	e.Check(vs.LiveThreads() <= threads, "%d goroutines before, %d after", threads, vs.LiveThreads())
	for i, a := range as {
		e.Check(a.Energy() == 100 && a.Phase() >= 0 && a.Phase() < hx.TwoPi+1e-9, "agent %d: energy %v phase %v", i, a.Energy(), a.Phase())
	}
}

func main() {
	levels := func(t float64) []float64 {
		r := recovery(t)
		return []float64{0.02, r.MinimumViableCoherence - 0.02, t*r.TargetMarginRatio - 0.008, t*r.TargetMarginRatio + 0.004, t - 0.004, math.Min(0.999, t*1.04), math.Min(0.999, t*1.1+0.03)}
	}
	vs.AddEnum(&vs.Enum{Name: "disruptions", Run: func(e *vs.E) {
		e.Param("4 targets x sequences of 3 disturbances out of 7 levels x 3 spacings")
		for _, tg := range []float64{0.9, 0.75, 0.55, 0.42} {
			lv := levels(tg)
			for _, gap := range []time.Duration{150*ms + 500*time.Microsecond, 430*ms + 500*time.Microsecond, 1110*ms + 500*time.Microsecond} {
				for i := range lv {
					for j := range lv {
						e.Case(func() {
							for k := range lv {
								e.Seq(vs.Options{Rand: hx.Lcg(i*49 + j*7 + k), NumCPU: 1, MaxSteps: 5000000}, func() {
									e.Label("target %v, coherence set to %v every %v", tg, []float64{lv[i], lv[j], lv[k]}, gap)
									first := 310*ms + 500*time.Microsecond
									follow(e, tg, nil, tg, []event{{first, lv[i]}, {first + gap, lv[j]}, {first + 2*gap, lv[k]}}, 3500*ms, false)
								})
							}
						})
					}
				}
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "quiet and starts", Run: func(e *vs.E) {
		for _, tg := range []float64{0.9, 0.75, 0.55, 0.42} {
			for _, st := range levels(tg) {
				for _, dl := range []bool{false, true} {
					e.Case(func() {
						e.Seq(vs.Options{Rand: hx.Lcg(5), NumCPU: 1, MaxSteps: 5000000}, func() {
							e.Label("target %v started at %v, deadline %v", tg, st, dl)
							follow(e, tg, nil, st, nil, 6250*ms, dl)
						})
					})
				}
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "recovery configuration", Run: func(e *vs.E) {
		e.Param("6 recovery configurations, sequences of 2 disturbances")
		base := recovery(0.75)
		mk := func(f func(*swarm.RecoveryConfig)) swarm.RecoveryConfig { c := base; f(&c); return c }
		cfgs := []swarm.RecoveryConfig{
			mk(func(c *swarm.RecoveryConfig) {}),
			mk(func(c *swarm.RecoveryConfig) { c.CheckInterval = 0; c.MinimumViableCoherence = 0.9 }), // defaults instead
			{}, // defaults
			mk(func(c *swarm.RecoveryConfig) { c.CheckInterval = 230 * ms; c.TargetMarginRatio = 0.5 }),
			mk(func(c *swarm.RecoveryConfig) {
				c.MinimumViableCoherence = 0
				c.TargetMarginRatio = 0
				c.SmallDropRatio = 0.2
				c.LargeDropRatio = 0.5
			}),
			mk(func(c *swarm.RecoveryConfig) {
				c.MinimumViableCoherence = 0.735
				c.StuckThreshold = 0
				c.CheckInterval = 50 * ms
			}),
		}
		for ci, c := range cfgs {
			for _, a := range []float64{0.1, 0.3, 0.5, 0.66, 0.72, 0.745, 0.8, 0.97} {
				for _, b := range []float64{0.1, 0.3, 0.5, 0.66, 0.72, 0.745, 0.8, 0.97} {
					e.Case(func() {
						e.Seq(vs.Options{Rand: hx.Lcg(ci), NumCPU: 1, MaxSteps: 5000000}, func() {
							e.Label("recovery configuration %d, coherence set to %v then %v", ci, a, b)
							follow(e, 0.75, &c, 0.75, []event{{310*ms + 500*time.Microsecond, a}, {1410*ms + 500*time.Microsecond, b}}, 3000*ms, false)
						})
					})
				}
			}
		}
	}})
	// schedules: disruptions, observers and cancellation while it runs
	small := func(size int) (*swarm.Swarm, []*agent.Agent) {
		gc := swarm.For(goal.Type(99))
		gc.Strategy.UpdateInterval = 100 * ms
		gc.Strategy.MaxIterationsFactor = 1
		s, err := swarm.New(size, core.State{Phase: 1, Frequency: 100 * ms, Coherence: 0.6}, swarm.WithGoalConfig(gc),
			swarm.WithAgentBuilder(func(id string, _ int, _ config.Swarm) *agent.Agent {
				return agent.New(id, agent.WithPhase(float64(len(id))), agent.WithFrequency(100*ms))
			}))
		if err != nil {
			vs.Fail("%v", err)
		}
		var as []*agent.Agent
		s.ForEachAgent(func(a *agent.Agent) bool { as = append(as, a); return true })
		return s, as
	}
	vs.Add(&vs.Scenario{Name: "cancel, disrupt and observe", Race: true, Both: true, MustEnd: true,
		Opt: vs.Options{Preemptions: 1, Rand: hx.Lcg(3), NumCPU: 1, MaxSteps: 20000},
		Body: func() {
			s, as := small(2)
			ctx, cancel := context.WithCancel(context.Background())
			var err error
			j := vs.GoJ(func() { err = s.RunContinuous(ctx) })
			k := vs.GoJ(func() {
				vs.Sleep(100 * ms)
				s.DisruptAgents(1)
				c := s.MeasureCoherence()
				d := s.CurrentCoherence()
				_ = s.IsConverged()
				if c < 0 || c > 1+1e-9 || d < 0 || d > 1+1e-9 {
					vs.Fail("coherence %v, last %v", c, d)
				}
			})
			vs.Sleep(200 * ms)
			cancel()
			j()
			k()
			if !errors.Is(err, context.Canceled) {
				vs.Fail("returned %v", err)
			}
			vs.Sleep(time.Second)
			if l := vs.LiveThreads(); l > 1 {
				vs.Fail("%d goroutines left: %v", l-1, vs.LiveDesc())
			}
			for _, a := range as {
				if p := a.Phase(); p < 0 || p > hx.TwoPi {
					vs.Fail("phase %v", p)
				}
			}
		}})
	vs.Main()
}
