// C11: a swarm consists of exactly the agents that were asked for.
package main

import (
	"errors"
	"fmt"
	"math"
	"time"

	"MODULE/emerge/agent"
	"MODULE/emerge/core"
	"MODULE/emerge/monitoring"
	"MODULE/emerge/swarm"
	"MODULE/internal/config"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

var goal = core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.7}

type strat struct{ ctx core.Context }

func (s *strat) Propose(_, _ core.State, c core.Context) (core.Action, float64) {
	s.ctx = c
	return core.Action{Type: "maintain"}, 1
}
func (s *strat) Name() string { return "probe" }

type dec struct{ opts []core.Action }

func (d *dec) Decide(_ core.State, o []core.Action) (core.Action, float64) {
	d.opts = append([]core.Action{}, o...)
	return o[0], 1
}

// views checks that every way to look at the swarm shows the same n agents
func views(e *vs.E, s *swarm.Swarm, n int) map[string]*agent.Agent {
	e.Check(s.Size() == n, "size %d", s.Size())
	m := s.Agents()
	e.Check(len(m) == n, "Agents has %d", len(m))
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("agent-%d", i)
		a := m[id]
		if a == nil || a.ID != id {
			e.Fail("Agents()[%q] is missing or has another id", id)
			return m
		}
		b, ok := s.Agent(id)
		e.Check(ok && b == a, "Agent(%q) is not the agent Agents() shows", id)
	}
	for _, id := range []string{"", "agent", "agent-", "agent--1", fmt.Sprintf("agent-%d", n), "agent-00", "0", "Agent-0"} {
		b, ok := s.Agent(id)
		e.Check(!ok && b == nil, "Agent(%q) found", id)
	}
	seen := map[*agent.Agent]int{}
	s.ForEachAgent(func(a *agent.Agent) bool { seen[a]++; return true })
	e.Check(len(seen) == n, "ForEachAgent visits %d agents", len(seen))
	for id, a := range m {
		e.Check(seen[a] == 1, "ForEachAgent visits %q %d times", id, seen[a])
	}
	stops := []int{1, 2, n / 2, n - 1, n}
	for _, k := range stops {
		if k < 1 || k > n {
			continue
		}
		c := 0
		s.ForEachAgent(func(*agent.Agent) bool { c++; return c < k })
		e.Check(c == k, "ForEachAgent told to stop after %d visits %d", k, c)
	}
	// the map is the caller's own
	mm := s.Agents()
	for id := range mm {
		delete(mm, id)
		break
	}
	mm["zz"] = m["agent-0"]
	e.Check(len(s.Agents()) == n, "changing the returned map changed the swarm")
	if _, ok := s.Agent("zz"); ok {
		e.Fail("changing the returned map changed the swarm")
	}
	e.Step(n)
	return m
}

// attributes checks that the agents have what the swarm configuration says
func attributes(e *vs.E, s *swarm.Swarm, n int, opt bool) {
	cfg := s.Config()
	ids := map[string]bool{"agent-0": true, fmt.Sprintf("agent-%d", n/2): true, fmt.Sprintf("agent-%d", n-1): true}
	for id, a := range s.Agents() {
		in := func(x, lo, hi float64) bool { return x >= lo && x <= hi }
		e.Check(in(a.Phase(), 0, hx.TwoPi) && in(a.LocalGoal(), 0, hx.TwoPi), "%s phase %v goal %v", id, a.Phase(), a.LocalGoal())
		e.Check(a.Frequency() >= 100*time.Millisecond && a.Frequency() <= 150*time.Millisecond, "%s frequency %v", id, a.Frequency())
		e.Check(a.Energy() == cfg.InitialEnergy, "%s energy %v, configured %v", id, a.Energy(), cfg.InitialEnergy)
		if cfg.InfluenceDefault != 0 {
			e.Check(a.Influence() == cfg.InfluenceDefault, "%s influence %v, configured %v", id, a.Influence(), cfg.InfluenceDefault)
		}
		if cfg.Stubbornness != 0 {
			e.Check(a.Stubbornness() == cfg.Stubbornness, "%s stubbornness %v, configured %v", id, a.Stubbornness(), cfg.Stubbornness)
		}
		if !ids[id] {
			continue
		}
		d := &dec{}
		a.SetDecisionMaker(d)
		a.SetStubbornness(0)
		a.SetPhase(1)
		a.SetLocalGoal(2)
		a.ProposeAdjustment(core.State{Coherence: 0.5})
		if len(d.opts) == 0 {
			e.Fail("%s proposes nothing", id)
		} else if cfg.CouplingStrength != 0 {
			p := d.opts[0]
			e.Check(p.Type == "phase_nudge" && hx.Eq(p.Value, cfg.CouplingStrength), "%s proposes %+v, coupling strength %v", id, p, cfg.CouplingStrength)
		}
	}
}

// spread answers draws so that every rejection loop ends
func spread(k int) func(int, []byte) { return hx.Lcg(k) }

func main() {
	vs.AddEnum(&vs.Enum{Name: "sizes", Run: func(e *vs.E) {
		var sizes []int
		for n := 1; n <= 130; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 150, 199, 200, 201, 202, 250, 300, 301, 499, 500, 501, 999, 1000, 1001)
		if e.Thorough() {
			sizes = append(sizes, 1999, 2000, 2001, 4999, 5000, 5001)
		}
		e.Param("%d sizes x 2 constructors x 2 random streams", len(sizes))
		for _, n := range sizes {
			for k := 1; k <= 2; k++ {
				for ctor := 0; ctor < 2; ctor++ {
					e.Case(func() {
						e.Label("size %d constructor %d stream %d", n, ctor, k)
						e.Seq(vs.Options{Rand: spread(k), NumCPU: 1}, func() {
							var s *swarm.Swarm
							var err error
							if ctor == 0 {
								s, err = swarm.New(n, goal)
							} else {
								s, err = swarm.NewSwarmFromConfig(n, goal, config.AutoScaleConfig(n))
							}
							if err != nil || s == nil {
								e.Fail("%v", err)
								return
							}
							want := config.AutoScaleConfig(n)
							if err := want.NormalizeAndValidate(n); err != nil {
								e.Fail("%v", err)
							}
							e.Check(s.Config() == want, "config %+v", s.Config())
							views(e, s, n)
							attributes(e, s, n, n > 100)
							e.Seen(fmt.Sprint(n))
						})
					})
				}
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "rejected", Run: func(e *vs.E) {
		bad := func(name string, want error, f func() (*swarm.Swarm, error)) {
			e.Case(func() {
				e.Label("%s", name)
				e.Seq(vs.Options{Rand: spread(3), NumCPU: 1}, func() {
					s, err := f()
					e.Check(err != nil && s == nil, "accepted (error %v)", err)
					if want != nil {
						e.Check(errors.Is(err, want), "error %v, want %v", err, want)
					}
				})
			})
		}
		for _, n := range []int{0, -1, -100, math.MinInt64} {
			bad(fmt.Sprintf("New size %d", n), swarm.ErrInvalidSwarmSize, func() (*swarm.Swarm, error) { return swarm.New(n, goal) })
			bad(fmt.Sprintf("NewSwarmFromConfig size %d", n), swarm.ErrInvalidSwarmSize, func() (*swarm.Swarm, error) {
				return swarm.NewSwarmFromConfig(n, goal, config.AutoScaleConfig(5))
			})
		}
		boom := errors.New("boom")
		for _, n := range []int{1, 2, 5, 100, 101, 150} {
			goals := []core.State{}
			for _, f := range []time.Duration{0, -time.Second, time.Second} {
				for _, c := range []float64{-0.01, 1.01, math.NaN(), 0.5} {
					for _, p := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), 1} {
						if f > 0 && c == 0.5 && p == 1 {
							continue
						}
						goals = append(goals, core.State{Phase: p, Frequency: f, Coherence: c})
					}
				}
			}
			for _, g := range goals {
				bad(fmt.Sprintf("size %d goal %+v", n, g), nil, func() (*swarm.Swarm, error) { return swarm.New(n, g) })
				bad(fmt.Sprintf("NewSwarmFromConfig size %d goal %+v", n, g), nil, func() (*swarm.Swarm, error) {
					return swarm.NewSwarmFromConfig(n, g, config.AutoScaleConfig(n))
				})
			}
			for _, max := range []int{1, n / 2, n - 1} {
				if max < 1 || max >= n {
					continue
				}
				c := config.AutoScaleConfig(n)
				c.MaxSwarmSize = max
				bad(fmt.Sprintf("size %d with a maximum of %d", n, max), nil, func() (*swarm.Swarm, error) { return swarm.New(n, goal, swarm.WithConfig(c)) })
				bad(fmt.Sprintf("NewSwarmFromConfig size %d with a maximum of %d", n, max), nil, func() (*swarm.Swarm, error) { return swarm.NewSwarmFromConfig(n, goal, c) })
			}
			ok := func(*swarm.Swarm) error { return nil }
			fail := func(*swarm.Swarm) error { return boom }
			for pos := 0; pos < 3; pos++ {
				opts := []swarm.Option{ok, ok, ok}
				opts[pos] = fail
				bad(fmt.Sprintf("size %d failing option %d", n, pos), boom, func() (*swarm.Swarm, error) { return swarm.New(n, goal, opts...) })
			}
			bad(fmt.Sprintf("size %d failing topology", n), boom, func() (*swarm.Swarm, error) { return swarm.New(n, goal, swarm.WithTopology(fail)) })
			bad(fmt.Sprintf("size %d failing topology, custom agents", n), boom, func() (*swarm.Swarm, error) {
				return swarm.New(n, goal, swarm.WithTopology(fail), swarm.WithAgentBuilder(func(id string, _ int, _ config.Swarm) *agent.Agent { return agent.New(id) }))
			})
			gc := []func(c *swarm.Config){
				func(c *swarm.Config) { c.Strategy.UpdateInterval = 0 },
				func(c *swarm.Config) { c.Strategy.UpdateInterval = -1 },
				func(c *swarm.Config) { c.Strategy.ExplorationTimeWindow = 0 },
				func(c *swarm.Config) { c.Convergence.BaseAdjustmentScale = 1.1 },
				func(c *swarm.Config) { c.Convergence.BaseAdjustmentScale = -0.1 },
				func(c *swarm.Config) { c.Convergence.PhaseConvergenceGoal = 1.1 },
				func(c *swarm.Config) { c.Convergence.PhaseConvergenceGoal = -0.1 },
				func(c *swarm.Config) { c.Thresholds.ModerateCoherence = c.Thresholds.HighCoherence + 0.01 },
				func(c *swarm.Config) { c.Thresholds.HighCoherence = c.Thresholds.VeryHighCoherence + 0.01 },
				func(c *swarm.Config) { c.Variation.BaseRange = [2]float64{-0.1, 0.2} },
				func(c *swarm.Config) { c.Variation.BaseRange = [2]float64{0.3, 0.2} },
				func(c *swarm.Config) { c.Variation.PerturbationChance = 1.2 },
				func(c *swarm.Config) { c.Variation.PerturbationChance = -0.2 },
				func(c *swarm.Config) { c.Resonance.AffectedAgents = 1.2 },
				func(c *swarm.Config) { c.Resonance.AffectedAgents = -0.2 },
				func(c *swarm.Config) { c.Resonance.ActivationRate = 1.2 },
				func(c *swarm.Config) { c.Resonance.ActivationRate = -0.2 },
			}
			for i, f := range gc {
				bad(fmt.Sprintf("size %d goal configuration error %d", n, i), nil, func() (*swarm.Swarm, error) {
					c := swarm.For(0)
					f(c)
					return swarm.New(n, goal, swarm.WithGoalConfig(c))
				})
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "options", Run: func(e *vs.E) {
		e.Param("all subsets of 6 options in two orders, 5 sizes")
		for _, n := range []int{1, 4, 100, 101, 140} {
			for sub := 0; sub < 64; sub++ {
				for order := 0; order < 2; order++ {
					e.Case(func() {
						e.Label("size %d options %06b order %d", n, sub, order)
						e.Seq(vs.Options{Rand: spread(7), NumCPU: 1}, func() {
							cfg := config.Swarm{ConnectionProbability: 0.5, MaxNeighbors: 1000, MinNeighbors: 1, CouplingStrength: 0.35, Stubbornness: 0.15, InitialEnergy: 42,
								BasinStrength: 2, BasinWidth: 1, BaseConfidence: 0.5, InfluenceDefault: 0.45, AgentUpdateInterval: time.Second, MonitoringInterval: time.Second, MaxSwarmSize: n}
							var built []*agent.Agent
							topo := 0
							mon := monitoring.New()
							var opts []swarm.Option
							add := func(bit int, o swarm.Option) {
								if sub&(1<<bit) != 0 {
									opts = append(opts, o)
								}
							}
							add(0, swarm.WithConfig(cfg))
							add(1, swarm.WithAgentBuilder(func(id string, size int, c config.Swarm) *agent.Agent {
								e.Check(id == fmt.Sprintf("agent-%d", len(built)) && size == n, "builder called with %q, %d", id, size)
								if order == 0 && sub&1 != 0 {
									e.Check(c.CouplingStrength == 0.35 && c.InitialEnergy == 42, "builder was given %+v", c)
								}
								a := agent.New(id, agent.WithPhase(float64(len(built)%6)), agent.WithEnergy(7))
								built = append(built, a)
								return a
							}))
							add(2, swarm.WithTopology(func(s *swarm.Swarm) error {
								topo++
								m := s.Agents()
								e.Check(len(m) == n && s.Size() == n, "the topology builder sees %d agents", len(m))
								for id, a := range m {
									e.Check(a.NeighborCount() == 0, "%s is connected before the topology is built", id)
								}
								if n > 1 {
									a, _ := s.Agent("agent-0")
									b, _ := s.Agent(fmt.Sprintf("agent-%d", n-1))
									if a != nil && b != nil {
										a.ConnectTo(b.ID, b)
									}
								}
								return nil
							}))
							add(3, swarm.WithGoalConfig(swarm.For(1)))
							add(4, swarm.WithRecoveryConfig(swarm.DefaultRecoveryConfig(0.5)))
							add(5, swarm.WithMonitor(mon))
							if order == 1 {
								for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
									opts[i], opts[j] = opts[j], opts[i]
								}
							}
							s, err := swarm.New(n, goal, opts...)
							if err != nil {
								e.Fail("%v", err)
								return
							}
							m := views(e, s, n)
							if sub&1 != 0 {
								w := cfg
								if w.MaxNeighbors > n-1 {
									w.MaxNeighbors = n - 1
								}
								if w.MinNeighbors > n-1 {
									w.MinNeighbors = n - 1
								}
								w.BasinStrength = 1
								e.Check(s.Config() == w, "config %+v, want %+v", s.Config(), w)
							}
							if sub&4 != 0 {
								e.Check(topo == 1, "topology built %d times", topo)
								for id, a := range m {
									w := 0
									if n > 1 && id == "agent-0" {
										w = 1
									}
									e.Check(a.NeighborCount() == w, "%s has %d neighbours, the topology gave it %d", id, a.NeighborCount(), w)
								}
							}
							if sub&2 != 0 {
								e.Check(len(built) == n, "builder called %d times", len(built))
								for i, a := range built {
									e.Check(m[a.ID] == a && a.Energy() == 7 && a.Phase() == float64(i%6), "agent %d is not the one that was built", i)
								}
							} else {
								attributes(e, s, n, n > 100)
							}
							e.Seen(fmt.Sprintf("%d/%06b", n, sub))
						})
					})
				}
			}
		}
	}})
	vs.Main()
}
