// C13: Run reports success exactly when the goal is met.
package main

import (
	context "MODULE/zzverif/vcontext"
	"errors"
	"fmt"
	"math"
	"time"

	"MODULE/emerge/agent"
	"MODULE/emerge/core"
	"MODULE/emerge/goal"
	"MODULE/emerge/swarm"
	"MODULE/internal/config"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

func limits(n int) (theo, prac float64) {
	switch {
	case n == 1:
		return 1, 1
	case n < 5:
		return .95, .85
	case n < 10:
		return .98, .92
	case n < 20:
		return .99, .95
	case n < 50:
		return .995, .97
	case n < 100:
		return .998, .98
	}
	return .999, .99
}

// snap is the observable state of all agents.
type snap struct {
	ph   []float64
	freq []time.Duration
}

func take(as []*agent.Agent) snap {
	var s snap
	for _, a := range as {
		s.ph = append(s.ph, a.Phase())
		s.freq = append(s.freq, a.Frequency())
	}
	return s
}

func same(a, b snap) bool {
	for i := range a.ph {
		if a.ph[i] != b.ph[i] || a.freq[i] != b.freq[i] {
			return false
		}
	}
	return true
}

// achieved decides from the documentation whether the goal is met: 1 yes, 0 no, -1 too close to tell.
func achieved(s snap, c *swarm.Config, target core.State) int {
	n := len(s.ph)
	_, prac := limits(n)
	tol := c.Convergence.ToleranceLarge
	if n < 10 {
		tol = c.Convergence.ToleranceSmall
	} else if n < 50 {
		tol = c.Convergence.ToleranceMedium
	}
	if target.Coherence >= prac*0.95 {
		tol *= 2
	}
	coh := hx.Coh(s.ph)
	x, y := 0.0, 0.0
	var f time.Duration
	d := 0.0
	for i, p := range s.ph {
		x += math.Cos(p)
		y += math.Sin(p)
		f += s.freq[i]
		d += hx.CD(p, target.Phase)
	}
	f /= time.Duration(n)
	mean := math.Atan2(y, x)
	fd := math.Min(1, math.Abs(float64(f-target.Frequency))/float64(target.Frequency))
	dist := 0.4*hx.CD(mean, target.Phase)/math.Pi + 0.3*fd + 0.3*math.Abs(coh-target.Coherence)
	margins := []float64{coh - (target.Coherence - tol), c.Convergence.PatternDistanceThreshold - dist}
	if target.Coherence >= c.Thresholds.HighCoherence {
		margins = append(margins, 1-d/float64(n)/math.Pi-c.Convergence.PhaseConvergenceGoal)
	}
	if coh < 1e-9 {
		// the mean direction is not defined
		margins[1] = 0
	}
	amb := false
	for _, m := range margins {
		if m < -1e-9 {
			return 0
		}
		amb = amb || m < 1e-9
	}
	if amb {
		return -1
	}
	return 1
}

func defaults() *swarm.Config {
	c := swarm.For(goal.Type(99))
	return c
}

type setup struct {
	n       int
	phases  []float64
	freq    time.Duration // 0: 80..120 ms spread
	target  core.State
	cfg     *swarm.Config // nil: the default
	fromCfg bool
	want    int // how often Run is repeated
}

func build(e *vs.E, x setup) (*swarm.Swarm, []*agent.Agent) {
	var s *swarm.Swarm
	var err error
	i := 0
	var opts []swarm.Option
	opts = append(opts, swarm.WithAgentBuilder(func(id string, _ int, _ config.Swarm) *agent.Agent {
		f := x.freq
		if f == 0 {
			f = time.Duration(80+(i*17)%41) * time.Millisecond
		}
		a := agent.New(id, agent.WithPhase(x.phases[i]), agent.WithFrequency(f), agent.WithEnergy(100), agent.WithLocalGoal(1), agent.WithInfluence(0.3), agent.WithStubbornness(0.1))
		i++
		return a
	}))
	if x.cfg != nil {
		opts = append(opts, swarm.WithGoalConfig(x.cfg))
	}
	if x.fromCfg {
		s, err = swarm.NewSwarmFromConfig(x.n, x.target, config.AutoScaleConfig(x.n))
	} else {
		s, err = swarm.New(x.n, x.target, opts...)
	}
	if err != nil {
		e.Fail("%v", err)
	}
	as := make([]*agent.Agent, x.n)
	for i := range as {
		as[i], _ = s.Agent(fmt.Sprintf("agent-%d", i))
		if x.fromCfg {
			as[i].SetPhase(x.phases[i])
			if x.freq != 0 {
				as[i].SetFrequency(x.freq)
			}
		}
	}
	return s, as
}

var okRuns, failRuns int

// run follows one Run tick by tick and compares it with the oracle.
func run(e *vs.E, s *swarm.Swarm, as []*agent.Agent, x setup) {
	c := x.cfg
	if c == nil {
		c = defaults()
	}
	target := x.target
	theo, prac := limits(x.n)
	if x.fromCfg {
		target.Coherence = math.Min(target.Coherence, theo)
	} else {
		target.Coherence = math.Min(target.Coherence, prac)
	}
	tf := 8.0
	switch u := target.Coherence / prac; {
	case target.Coherence > prac:
		tf = math.Inf(1)
	case u < 0.8:
		tf = 1
	case u < 0.9:
		tf = 2
	case u < 0.95:
		tf = 4
	}
	max := int(math.Min(c.Strategy.MaxIterationsFactor*tf, 1000))
	iv := c.Strategy.UpdateInterval
	var err error
	done := false
	j := vs.GoJ(func() {
		err = s.Run(context.Background())
		done = true
	})
	vs.Sleep(iv / 2)
	prev := take(as)
	e.Check(!done, "Run returned %v before anything was measured", err)
	for k := 1; ; k++ {
		vs.Sleep(iv)
		now := take(as)
		for i, p := range now.ph {
			e.Check(p >= 0 && p < hx.TwoPi+1e-12 && now.freq[i] > 0, "after %d updates agent %d has phase %v, frequency %v", k, i, p, now.freq[i])
		}
		ach := achieved(prev, c, target)
		e.Step(1)
		if done {
			if err == nil {
				e.Check(ach != 0, "update %d: Run reports success, but the goal %+v is not met by phases %v frequencies %v", k, target, prev.ph, prev.freq)
				e.Check(same(prev, now), "update %d: Run changed the agents after it met the goal", k)
				okRuns++
			} else {
				e.Check(ach != 1, "update %d: Run reports %v, but the goal %+v is met by phases %v frequencies %v", k, err, target, prev.ph, prev.freq)
				e.Check(k == max, "Run gave up after %d updates, it has %d", k, max)
				failRuns++
			}
			e.Seen(fmt.Sprintf("end %d %v", k, err == nil))
			break
		}
		e.Check(ach != 1, "update %d: the goal %+v is met by phases %v frequencies %v, and Run goes on", k, target, prev.ph, prev.freq)
		e.Check(k < max, "Run still goes on after %d updates, it has %d", k, max)
		prev = now
	}
	j()
	for i, a := range as {
		e.Check(x.fromCfg || a.Energy() == 100 && a.Influence() == 0.3 && a.Stubbornness() == 0.1 && a.LocalGoal() == 1, "Run changed other attributes of agent %d", i)
	}
}

func spreadPh(n, mode int) []float64 {
	ph := make([]float64, n)
	for i := range ph {
		switch mode {
		case 0: // evenly spread
			ph[i] = hx.TwoPi * float64(i) / float64(n)
		case 1: // together, away from the goal
			ph[i] = 4
		case 2: // two opposite groups
			ph[i] = 0.5 + math.Pi*float64(i%2)
		case 3: // pseudo-random
			ph[i] = hx.Wrap(float64(i*i)*2.4 + 0.7)
		case 4: // together near the goal
			ph[i] = 1 + 0.02*float64(i%5)
		case 5: // all but one at the goal
			ph[i] = 1
			if i == n-1 {
				ph[i] = 4.1
			}
		}
	}
	return ph
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "small swarms", Run: func(e *vs.E) {
		g := []float64{0, 1, 2.2, 3.3, 4.7, 6}
		e.Param("1-3 agents, all starts over %d phases, targets, random streams", len(g))
		for n := 1; n <= 3; n++ {
			tot := 1
			for i := 0; i < n; i++ {
				tot *= len(g)
			}
			for _, coh := range []float64{0, 0.3, 0.5, 0.7, 0.79, 0.83, 0.9, 1} {
				for _, fac := range []float64{4, 30} {
					e.Case(func() {
						for k := 0; k < tot; k++ {
							e.Seq(vs.Options{Rand: hx.Lcg(k*8 + int(fac)), NumCPU: 1, MaxSteps: 5000000}, func() {
								ph := make([]float64, n)
								for i, v := 0, k; i < n; i, v = i+1, v/len(g) {
									ph[i] = g[v%len(g)]
								}
								c := defaults()
								c.Strategy.MaxIterationsFactor = fac
								x := setup{n: n, phases: ph, freq: 100 * time.Millisecond, target: core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: coh}, cfg: c}
								e.Label("%d agents %v target %v factor %v", n, ph, coh, fac)
								s, as := build(e, x)
								run(e, s, as, x)
							})
						}
					})
				}
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "configurations", Run: func(e *vs.E) {
		sizes := []int{1, 4, 5, 9, 10, 19, 20, 49, 50, 99, 100, 101}
		streams := 1
		if e.Thorough() {
			streams = 4
		}
		e.Param("%d sizes x 9 goal configurations x 6 starts x targets x frequencies x %d random streams", len(sizes), streams)
		for _, n := range sizes {
			for gt := -1; gt < 9; gt++ {
				for mode := 0; mode < 6; mode++ {
					e.Case(func() {
						for _, coh := range []float64{0.2, 0.6, 0.85, 0.93, 0.985, 1} {
							for fi, fr := range []time.Duration{100 * time.Millisecond, 0} {
								for k := 0; k < streams; k++ {
									e.Seq(vs.Options{Rand: hx.Lcg(n*31 + mode*7 + fi + k*1000), NumCPU: 1, MaxSteps: 50000000}, func() {
										var c *swarm.Config
										if gt >= 0 {
											c = swarm.For(goal.Type(gt)).WithSize(n)
											c.Strategy.MaxIterationsFactor = 5
										}
										if gt < 0 && mode > 1 && !e.Thorough() {
											return
										}
										x := setup{n: n, phases: spreadPh(n, mode), freq: fr, cfg: c, target: core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: coh}}
										e.Label("%d agents, goal %d, start %d, target %v, frequencies %v", n, gt, mode, coh, fr)
										s, as := build(e, x)
										run(e, s, as, x)
										if k == 0 && gt >= 0 {
											// disturbed and run again
											for i, p := range spreadPh(n, (mode+1)%6) {
												as[i].SetPhase(p)
											}
											e.Label("%d agents, goal %d, start %d, target %v, frequencies %v, second run", n, gt, mode, coh, fr)
											run(e, s, as, x)
										}
									})
								}
							}
						}
					})
				}
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "targets", Run: func(e *vs.E) {
		e.Param("phases in several turns, frequencies, both constructors")
		for _, n := range []int{2, 6, 12} {
			for _, fromCfg := range []bool{false, true} {
				for _, tp := range []float64{0, 1, math.Pi, 6.2, hx.TwoPi, 7, -1, 50} {
					e.Case(func() {
						for _, tfr := range []time.Duration{20 * time.Millisecond, 100 * time.Millisecond, time.Second} {
							for _, coh := range []float64{0.5, 0.8, 0.9, 0.97, 1} {
								e.Seq(vs.Options{Rand: hx.Lcg(n), NumCPU: 1, MaxSteps: 50000000}, func() {
									x := setup{n: n, phases: spreadPh(n, 3), freq: tfr, fromCfg: fromCfg, target: core.State{Phase: tp, Frequency: tfr, Coherence: coh}}
									e.Label("%d agents, target phase %v frequency %v coherence %v, from config %v", n, tp, tfr, coh, fromCfg)
									s, as := build(e, x)
									run(e, s, as, x)
									// and from the goal itself
									for _, a := range as {
										a.SetPhase(tp)
										a.SetFrequency(tfr)
									}
									run(e, s, as, x)
								})
							}
						}
					})
				}
			}
		}
	}})
	// the goal is reached from every start; one unlucky random stream in four is allowed
	vs.AddEnum(&vs.Enum{Name: "reached", Run: func(e *vs.E) {
		streams := 4
		if e.Thorough() {
			streams = 16
		}
		e.Param("6 starts, 9 sizes, 2 configurations, %d random streams", streams)
		for _, n := range []int{5, 7, 9, 10, 20, 30, 50, 100, 101} {
			for _, gt := range []int{-1, int(goal.SaveEnergy)} {
				for mode := 0; mode < 6; mode++ {
					e.Case(func() {
						okRuns = 0
						for k := 0; k < streams; k++ {
							e.Seq(vs.Options{Rand: hx.Lcg(n*31 + mode*7 + k*1000), NumCPU: 1, MaxSteps: 50000000}, func() {
								var c *swarm.Config
								if gt >= 0 {
									c = swarm.For(goal.Type(gt)).WithSize(n)
								}
								x := setup{n: n, phases: spreadPh(n, mode), freq: 100 * time.Millisecond, cfg: c, target: core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.9}}
								e.Label("%d agents, goal %d, start %d, stream %d", n, gt, mode, k)
								s, as := build(e, x)
								run(e, s, as, x)
							})
						}
						e.Check(okRuns >= streams-streams/4, "the goal was reached in %d of %d runs", okRuns, streams)
					})
				}
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "cancel", Run: func(e *vs.E) {
		e.Param("cancellation and deadline at every 10 ms of the first 350 ms, before the start and at a tick")
		for _, n := range []int{1, 3, 101} {
			for t := 0; t <= 350; t += 10 {
				for kind := 0; kind < 3; kind++ {
					e.Case(func() {
						e.Seq(vs.Options{Rand: hx.Lcg(t), NumCPU: 1, MaxSteps: 5000000}, func() {
							e.Label("%d agents, kind %d at %d ms", n, kind, t)
							x := setup{n: n, phases: spreadPh(n, 0), freq: 100 * time.Millisecond, target: core.State{Phase: 1, Frequency: 300 * time.Millisecond, Coherence: 0.8}}
							s, as := build(e, x)
							d := time.Duration(t) * time.Millisecond
							ctx, cancel := context.WithCancel(context.Background())
							want := context.Canceled
							switch kind {
							case 1:
								ctx, cancel = context.WithTimeout(context.Background(), d)
								want = context.DeadlineExceeded
							case 2:
								ctx, cancel = context.WithDeadline(context.Background(), vs.Now().Add(d))
								want = context.DeadlineExceeded
							}
							defer cancel()
							if kind == 0 && t == 0 {
								cancel()
							}
							live := vs.LiveThreads()
							var err error
							var at time.Duration
							t0 := vs.Now()
							done := false
							j := vs.GoJ(func() {
								err = s.Run(ctx)
								at = vs.Now().Sub(t0)
								done = true
							})
							var before snap
							if t > 0 {
								vs.Sleep(d - time.Millisecond)
								before = take(as)
								vs.Sleep(time.Millisecond)
							}
							if kind == 0 {
								cancel()
							}
							vs.Sleep(time.Millisecond)
							if t%100 != 0 {
								e.Check(done && at == d, "Run returned=%v at %v, cancelled at %v", done, at, d)
							}
							vs.Sleep(time.Second)
							e.Check(done, "Run goes on after its context ended")
							if !done {
								return
							}
							j()
							e.Check(errors.Is(err, want), "Run returned %v, want %v", err, want)
							e.Check(at <= d+100*time.Millisecond, "Run returned at %v, cancelled at %v", at, d)
							if t%100 != 0 {
								e.Check(same(before, take(as)), "agents changed after Run was cancelled")
							}
							e.Check(vs.LiveThreads() <= live, "%d threads before, %d after", live, vs.LiveThreads())
						})
					})
				}
			}
		}
	}})
	vs.Main()
}
