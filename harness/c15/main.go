// C15: a disruption hits exactly the requested share of the agents.
package main

import (
	"fmt"
	"math"
	"time"

	"MODULE/emerge/agent"
	"MODULE/emerge/core"
	"MODULE/emerge/swarm"
	"MODULE/internal/config"
	"MODULE/zzverif/hx"
	context "MODULE/zzverif/vcontext"
	"MODULE/zzverif/vs"
)

const ms = time.Millisecond

func build(size int, phase func(i int) float64) (*swarm.Swarm, []*agent.Agent, error) {
	i := 0
	var as []*agent.Agent
	s, err := swarm.New(size, core.State{Phase: 1, Frequency: 100 * ms, Coherence: 0.6}, swarm.WithAgentBuilder(func(id string, _ int, _ config.Swarm) *agent.Agent {
		a := agent.New(id, agent.WithPhase(phase(i)), agent.WithFrequency(100*ms), agent.WithEnergy(60), agent.WithLocalGoal(2), agent.WithInfluence(0.3), agent.WithStubbornness(0.4))
		i++
		as = append(as, a)
		return a
	}))
	return s, as, err
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "count", Run: func(e *vs.E) {
		pcts := []float64{-math.MaxFloat64, -1, -0.001, 0, 0.001, 0.01, 0.05, 0.099, 0.1, 0.2, 0.25, 1.0 / 3, 0.5, 0.51, 0.75, 0.9, 0.99, 0.999, 1, 1.0001, 1.5, 100, math.MaxFloat64}
		sizes := []int{1, 2, 3, 4, 5, 7, 10, 20, 33, 50, 99, 100, 101, 102, 150, 200, 201, 500, 501, 999, 1000, 1001}
		if e.Thorough() {
			for n := 1; n < 130; n++ {
				sizes = append(sizes, n)
			}
			for p := 0; p <= 100; p++ {
				pcts = append(pcts, float64(p)/100)
			}
		}
		e.Param("%d sizes x %d shares x random answers", len(sizes), len(pcts))
		for _, n := range sizes {
			for _, p := range pcts {
				e.Case(func() {
					for _, r := range []float64{0, 0.37, 0.999} {
						e.Seq(vs.Options{Rand: hx.Const(r), NumCPU: 1, MaxSteps: 50000000}, func() {
							e.Label("size %d share %v draw %v", n, p, r)
							s, as, err := build0(n)
							if err != nil {
								e.Fail("%v", err)
							}
							c := hx.Clamp01(p)
							want := int(float64(n) * c)
							s.DisruptAgents(p)
							got := 0
							for _, a := range as {
								if hx.CD(a.Phase(), 1.5) > 1e-9 {
									got++
									e.Check(hx.CD(a.Phase(), r*hx.TwoPi) < 1e-6 && a.Phase() >= 0 && a.Phase() <= hx.TwoPi, "disrupted phase %v for the draw %v", a.Phase(), r)
								}
								e.Check(a.Energy() == 60 && a.Frequency() == 100*ms && a.LocalGoal() == 2 && a.Influence() == 0.3 && a.Stubbornness() == 0.4, "%s: a disruption changed more than the phase", a.ID)
							}
							e.Check(got == want, "%d agents were disrupted, want %d", got, want)
							e.Check(s.Size() == n && len(s.Agents()) == n, "size %d", s.Size())
							e.Check(!s.IsConverged() && s.ConvergenceTime() == 0 && s.CurrentCoherence() == 0, "convergence is still reported after a disruption")
							e.Seen(fmt.Sprint(n, got))
						})
					}
				})
			}
		}
	}})
	// the record of an earlier convergence is gone after a disruption, and the swarm can converge again
	vs.AddEnum(&vs.Enum{Name: "converge, disrupt, converge", Run: func(e *vs.E) {
		for _, n := range []int{1, 2, 6, 100, 101} {
			for _, p := range []float64{0, 0.5, 1} {
				for rounds := 1; rounds <= 3; rounds++ {
					e.Case(func() {
						e.Seq(vs.Options{Rand: hx.Lcg(n), NumCPU: 1, MaxSteps: 50000000}, func() {
							e.Label("size %d share %v rounds %d", n, p, rounds)
							s, as, err := build(n, func(i int) float64 { return 1 })
							if err != nil {
								e.Fail("%v", err)
							}
							for i := 0; i < rounds; i++ {
								// the phases of half the agents are turned so that the goal 0.6 is met
								for k, a := range as {
									d := math.Acos(0.62)
									if n%2 == 1 && k == n-1 {
										d = 0
									} else if k%2 == 1 {
										d = -d
									}
									a.SetPhase(1 + d)
								}
								vs.Sleep(250 * ms)
								err := s.Run(context.Background())
								if n > 1 {
									e.Check(err == nil, "round %d: %v", i, err)
								}
								if err == nil {
									e.Check(s.IsConverged() && s.CurrentCoherence() > 0.58, "round %d: converged %v, coherence %v", i, s.IsConverged(), s.CurrentCoherence())
									e.Check(s.ConvergenceTime() == 100*ms+250*ms, "round %d: convergence took %v", i, s.ConvergenceTime())
								}
								s.DisruptAgents(p)
								e.Check(!s.IsConverged() && s.ConvergenceTime() == 0 && s.CurrentCoherence() == 0, "round %d: convergence is still reported after a disruption", i)
							}
						})
					})
				}
			}
		}
	}})
	for _, n := range []int{2, 3} {
		vs.Add(&vs.Scenario{Name: fmt.Sprintf("concurrent disruptions, %d agents", n), Race: true, Both: true, MustEnd: true,
			Opt:      vs.Options{Preemptions: 2, Rand: hx.Const(0.37), NumCPU: 1, MaxSteps: 20000},
			Thorough: &vs.Options{Preemptions: 3, Rand: hx.Const(0.37), NumCPU: 1, MaxSteps: 20000},
			Body: func() {
				s, as, err := build(n, func(int) float64 { return 1.5 })
				if err != nil {
					vs.Fail("%v", err)
				}
				k := vs.GoJ(func() { s.DisruptAgents(1) })
				l := vs.GoJ(func() {
					s.DisruptAgents(0.5)
					c := s.MeasureCoherence()
					if c < 0 || c > 1+1e-9 {
						vs.Fail("coherence %v", c)
					}
				})
				as[0].SetEnergy(7)
				_ = s.IsConverged()
				k()
				l()
				for _, a := range as {
					if hx.CD(a.Phase(), 0.37*hx.TwoPi) > 1e-6 {
						vs.Fail("%s has phase %v", a.ID, a.Phase())
					}
				}
				if as[0].Energy() != 7 {
					vs.Fail("a disruption undid a change of energy")
				}
			}})
	}
	vs.Main()
}

func build0(n int) (*swarm.Swarm, []*agent.Agent, error) {
	// no connections: constant draws cannot end a search for neighbours
	i := 0
	var as []*agent.Agent
	s, err := swarm.New(n, core.State{Phase: 1, Frequency: 100 * ms, Coherence: 0.6}, swarm.WithTopology(func(*swarm.Swarm) error { return nil }),
		swarm.WithAgentBuilder(func(id string, _ int, _ config.Swarm) *agent.Agent {
			a := agent.New(id, agent.WithPhase(1.5), agent.WithFrequency(100*ms), agent.WithEnergy(60), agent.WithLocalGoal(2), agent.WithInfluence(0.3), agent.WithStubbornness(0.4))
			i++
			as = append(as, a)
			return a
		}))
	return s, as, err
}
