// C10: agents are created exactly as configured.
package main

import (
	"fmt"
	"math"
	"time"

	"MODULE/emerge/agent"
	"MODULE/emerge/core"
	"MODULE/emerge/strategy"
	"MODULE/internal/config"
	"MODULE/internal/resource"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

type dec struct{ opts []core.Action }

func (d *dec) Decide(_ core.State, o []core.Action) (core.Action, float64) {
	d.opts = append([]core.Action{}, o...)
	return o[0], 1
}

// proposal shows what strategy the agent has: it is one radian behind its goal
func proposal(a *agent.Agent) core.Action {
	d := &dec{}
	a.SetDecisionMaker(d)
	a.SetStubbornness(0)
	a.SetPhase(1)
	a.SetLocalGoal(2)
	a.ProposeAdjustment(core.State{Coherence: 0.5})
	if len(d.opts) == 0 {
		return core.Action{Type: "none"}
	}
	return d.opts[0]
}

func within(x, lo, hi float64) bool { return x >= lo-1e-12 && x <= hi+1e-12 }

var rands = []float64{0, 0.37, 0.999}

func common(e *vs.E, a *agent.Agent, cfg config.Agent, r float64) {
	if cfg.RandomizePhase {
		e.Check(hx.CD(a.Phase(), r*hx.TwoPi) < 1e-6 && within(a.Phase(), 0, hx.TwoPi), "random phase %v for the draw %v", a.Phase(), r)
	} else {
		e.Check(hx.CD(a.Phase(), cfg.Phase) < 1e-9 && within(a.Phase(), 0, hx.TwoPi), "phase %v", a.Phase())
	}
	if cfg.RandomizeLocalGoal {
		e.Check(hx.CD(a.LocalGoal(), r*hx.TwoPi) < 1e-6, "random goal %v for the draw %v", a.LocalGoal(), r)
	} else if cfg.LocalGoal != 0 {
		e.Check(hx.CD(a.LocalGoal(), cfg.LocalGoal) < 1e-9, "goal %v", a.LocalGoal())
	}
	e.Check(within(a.LocalGoal(), 0, hx.TwoPi), "goal %v", a.LocalGoal())
	if cfg.RandomizeFrequency {
		f := a.Frequency()
		e.Check(f >= 100*time.Millisecond && f <= 150*time.Millisecond, "random frequency %v", f)
	} else if cfg.Frequency != 0 {
		e.Check(a.Frequency() == cfg.Frequency, "frequency %v", a.Frequency())
	}
	if cfg.InitialEnergy != 0 {
		e.Check(a.Energy() == math.Max(0, cfg.InitialEnergy), "energy %v", a.Energy())
	}
	if cfg.Influence != 0 {
		e.Check(a.Influence() == hx.Clamp01(cfg.Influence), "influence %v", a.Influence())
	}
	if cfg.Stubbornness != 0 {
		e.Check(a.Stubbornness() == hx.Clamp01(cfg.Stubbornness), "stubbornness %v", a.Stubbornness())
	}
	e.Check(a.ID == "id-7" && a.NeighborCount() == 0, "id %q with %d neighbours", a.ID, a.NeighborCount())
	// the token budget is separate from the energy: spending works right away
	if a.Energy() >= 1 {
		ok, c, err := a.ApplyAction(core.Action{Type: "maintain", Cost: 1})
		e.Check(ok && c == 1 && err == nil, "cannot act: %v", err)
	}
}

func main() {
	phases := []float64{0, 1.5, -1, 9}
	energies := []float64{0, 12.5, 100, -4, 250}
	inf := []float64{0, 0.3, 1, 1.7, -0.4}
	vs.AddEnum(&vs.Enum{Name: "attributes", Run: func(e *vs.E) {
		e.Param("phase, goal, frequency, energy, influence, stubbornness grids; randomisation flags; 3 random answers; 2 constructors")
		for _, r := range rands {
			for flags := 0; flags < 8; flags++ {
				for _, p := range phases {
					for _, g := range phases {
						e.Case(func() {
							for _, f := range []time.Duration{0, 70 * time.Millisecond, time.Second} {
								for _, en := range energies {
									for ii := range inf {
										e.Seq(vs.Options{Rand: hx.Const(r)}, func() {
											cfg := config.Agent{DecisionMakerType: "simple", GoalManagerType: "weighted", ResourceManagerType: "token", StrategyType: "phase_nudge", MaxTokens: 40,
												Phase: p, LocalGoal: g, Frequency: f, InitialEnergy: en, Influence: inf[ii], Stubbornness: inf[(ii+2)%len(inf)],
												RandomizePhase: flags&1 != 0, RandomizeLocalGoal: flags&2 != 0, RandomizeFrequency: flags&4 != 0, StrategyRate: 0.4}
											e.Label("config %+v draw %v", cfg, r)
											a, err := agent.NewFromConfig("id-7", cfg)
											e.Check(err == nil && a != nil, "NewFromConfig: %v", err)
											if err == nil {
												if f == 0 && !cfg.RandomizeFrequency {
													e.Check(a.Frequency() == 100*time.Millisecond, "default frequency %v", a.Frequency())
												}
												if en == 0 {
													e.Check(a.Energy() == 100, "default energy %v", a.Energy())
												}
												if cfg.Influence == 0 {
													e.Check(a.Influence() == 0.5, "default influence %v", a.Influence())
												}
												if cfg.Stubbornness == 0 {
													e.Check(a.Stubbornness() == 0.2, "default stubbornness %v", a.Stubbornness())
												}
												if g == 0 && !cfg.RandomizeLocalGoal {
													e.Check(hx.CD(a.LocalGoal(), r*hx.TwoPi) < 1e-6, "default goal %v for the draw %v", a.LocalGoal(), r)
												}
												common(e, a, cfg, r)
											}
											a, err = agent.NewOptimizedFromConfig("id-7", cfg)
											e.Check(err == nil && a != nil, "NewOptimizedFromConfig: %v", err)
											if err == nil {
												common(e, a, cfg, r)
											}
											e.Step(2)
										})
									}
								}
							}
						})
					}
				}
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "components", Run: func(e *vs.E) {
		dms := map[string]bool{"": true, "simple": true, "adaptive": true, "bogus": false, "Simple": false}
		gms := map[string]bool{"": true, "weighted": true, "bogus": false}
		rms := map[string]bool{"": true, "token": true, "bogus": false}
		sts := map[string]bool{"": true, "phase_nudge": true, "frequency_lock": true, "energy_aware": true, "adaptive": true, "pulse": true, "bogus": false}
		for _, d := range []string{"", "simple", "adaptive", "bogus", "Simple"} {
			for _, g := range []string{"", "weighted", "bogus"} {
				for _, r := range []string{"", "token", "bogus"} {
					for _, s := range []string{"", "phase_nudge", "frequency_lock", "energy_aware", "adaptive", "pulse", "bogus"} {
						for _, rate := range []float64{0, 0.25, 0.9} {
							e.Case(func() {
								e.Seq(vs.Options{Rand: hx.Const(0.5)}, func() {
									cfg := config.Agent{DecisionMakerType: d, GoalManagerType: g, ResourceManagerType: r, StrategyType: s, StrategyRate: rate}
									e.Label("components %q %q %q %q rate %v", d, g, r, s, rate)
									a, err := agent.NewFromConfig("x", cfg)
									ok := dms[d] && gms[g] && rms[r] && sts[s]
									e.Check((err == nil) == ok && (a != nil) == ok, "agent %v, error %v", a != nil, err)
									if a == nil {
										return
									}
									p := proposal(a)
									switch s {
									case "", "phase_nudge":
										w := rate
										if w == 0 {
											w = 0.7
										}
										e.Check(p.Type == "phase_nudge" && hx.Eq(p.Value, w), "proposes %+v", p)
									case "frequency_lock":
										w := rate
										if w == 0 {
											w = 0.5
										}
										e.Check(p.Type == "frequency_lock" && hx.Eq(p.Value, w), "proposes %+v", p)
									case "energy_aware":
										e.Check(p.Type == "energy_save" && hx.Eq(p.Value, 0.1), "proposes %+v", p)
									case "adaptive":
										e.Check(p.Type == "frequency_lock" && hx.Eq(p.Value, 0.5), "proposes %+v", p)
									case "pulse":
										e.Check(p.Type == "maintain", "proposes %+v", p)
										vs.Advance(100 * time.Millisecond)
										p = proposal(a)
										e.Check(p.Type == "pulse" && hx.Eq(p.Value, 0.8), "after a period proposes %+v", p)
									}
									b, err := agent.NewOptimizedFromConfig("x", cfg)
									e.Check(err == nil && b != nil, "optimized: %v", err)
									if b != nil && (s == "phase_nudge" || s == "frequency_lock" || s == "energy_aware") {
										q := proposal(b)
										want := map[string]float64{"phase_nudge": rate, "frequency_lock": 0.5, "energy_aware": 0.1}[s]
										ty := map[string]string{"phase_nudge": "phase_nudge", "frequency_lock": "frequency_lock", "energy_aware": "energy_save"}[s]
										e.Check(q.Type == ty && hx.Eq(q.Value, want), "optimized proposes %+v", q)
									}
								})
							})
						}
					}
				}
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "options", Run: func(e *vs.E) {
		type o struct {
			name string
			opt  agent.Option
			chk  func(a *agent.Agent) bool
		}
		tm := resource.NewTokenManager(33)
		mk := func() []o {
			return []o{
				{"phase", agent.WithPhase(-1), func(a *agent.Agent) bool { return hx.CD(a.Phase(), -1) < 1e-9 && a.Phase() >= 0 }},
				{"goal", agent.WithLocalGoal(10), func(a *agent.Agent) bool { return hx.CD(a.LocalGoal(), 10) < 1e-9 && a.LocalGoal() < 7 }},
				{"frequency", agent.WithFrequency(9), func(a *agent.Agent) bool { return a.Frequency() == 9 }},
				{"energy", agent.WithEnergy(7), func(a *agent.Agent) bool { return a.Energy() == 7 }},
				{"influence", agent.WithInfluence(3), func(a *agent.Agent) bool { return a.Influence() == 1 }},
				{"stubbornness", agent.WithStubbornness(-3), func(a *agent.Agent) bool { return a.Stubbornness() == 0 }},
				{"strategy", agent.WithStrategy(strategy.NewFrequencyLock(0.25)), nil},
			}
		}
		n := len(mk())
		for mask := 0; mask < 1<<n; mask++ {
			for _, rev := range []bool{false, true} {
				e.Case(func() {
					e.Seq(vs.Options{Rand: hx.Const(0.25)}, func() {
						os := mk()
						var opts []agent.Option
						for i := range os {
							j := i
							if rev {
								j = n - 1 - i
							}
							if mask&(1<<j) != 0 {
								opts = append(opts, os[j].opt)
							}
						}
						a := agent.New("n", opts...)
						for i, x := range os {
							on := mask&(1<<i) != 0
							if x.chk != nil {
								e.Check(!on || x.chk(a), "options %b: %s not applied", mask, x.name)
							}
						}
						if mask&8 == 0 {
							e.Check(a.Energy() == 100, "default energy %v", a.Energy())
						}
						if mask&4 == 0 {
							e.Check(a.Frequency() >= 100*time.Millisecond && a.Frequency() <= 150*time.Millisecond, "default frequency %v", a.Frequency())
						}
						if mask&16 == 0 {
							e.Check(a.Influence() == 0.1, "default influence %v", a.Influence())
						}
						if mask&32 == 0 {
							e.Check(a.Stubbornness() == 0.2, "default stubbornness %v", a.Stubbornness())
						}
						e.Check(a.ID == "n" && within(a.Phase(), 0, hx.TwoPi) && within(a.LocalGoal(), 0, hx.TwoPi), "new agent %q %v %v", a.ID, a.Phase(), a.LocalGoal())
						p := proposal(a)
						if mask&64 != 0 {
							e.Check(p.Type == "frequency_lock" && hx.Eq(p.Value, 0.25), "strategy option: proposes %+v", p)
						} else {
							e.Check(p.Type == "phase_nudge" && hx.Eq(p.Value, 0.3), "default strategy proposes %+v", p)
						}
					})
				})
			}
		}
		e.Case(func() {
			a := agent.New("r", agent.WithResourceManager(tm))
			e.Check(a.Energy() == 33, "energy %v with 33 tokens", a.Energy())
			a.ApplyAction(core.Action{Type: "maintain", Cost: 5})
			e.Check(tm.Available() == 28 && a.Energy() == 28, "after spending 5 of 33: tokens %v energy %v", tm.Available(), a.Energy())
			a.ApplyAction(core.Action{Type: "nonsense", Cost: 5})
			a.ApplyAction(core.Action{Type: "maintain", Cost: 500})
			e.Check(tm.Available() == 28, "refused actions took tokens: %v", tm.Available())
		})
	}})
	vs.AddEnum(&vs.Enum{Name: "presets", Run: func(e *vs.E) {
		e.Case(func() {
			d, r, t := config.DefaultAgent(), config.RandomizedAgent(), config.TestAgent()
			e.Check(!d.RandomizePhase && !d.RandomizeLocalGoal && !d.RandomizeFrequency && r.RandomizePhase && r.RandomizeLocalGoal && r.RandomizeFrequency, "randomisation flags")
			r.RandomizePhase, r.RandomizeLocalGoal, r.RandomizeFrequency = false, false, false
			e.Check(r == d, "the randomised preset differs from the default in more than its flags")
			e.Check(agent.TestAgentConfig() == t, "test preset")
			for _, c := range []config.Agent{d, t, config.RandomizedAgent()} {
				a, err := agent.NewFromConfig("p", c)
				e.Check(err == nil && a.Energy() == c.InitialEnergy && a.Influence() == c.Influence && a.Stubbornness() == c.Stubbornness, "preset %+v", c)
			}
		})
		for _, en := range []float64{1, 50, 100} {
			for _, cp := range []float64{0, 0.4, 1} {
				for _, x := range []float64{0, 0.2, 0.9} {
					e.Case(func() {
						s := config.Swarm{InitialEnergy: en, CouplingStrength: cp, InfluenceDefault: x, Stubbornness: 1 - x, AssumedMaxNeighbors: 7}
						c := config.AgentFromSwarm(s)
						e.Check(c.InitialEnergy == en && c.MaxTokens == en && c.StrategyRate == cp && c.Influence == x && c.Stubbornness == 1-x && c.AssumedMaxNeighbors == 7 &&
							c.RandomizePhase && c.RandomizeLocalGoal && c.RandomizeFrequency, "agent configuration %+v from %+v", c, s)
						a, err := agent.NewFromConfig("p", c)
						e.Check(err == nil && a.Energy() == en, "%v", err)
					})
				}
			}
		}
	}})
	// agents share nothing: an agent behaves the same whatever others built like it do
	vs.AddEnum(&vs.Enum{Name: "independence", Run: func(e *vs.E) {
		const ops = 6
		depth := 3
		if e.Thorough() {
			depth = 5
		}
		tot := 1
		for i := 0; i < depth; i++ {
			tot *= ops
		}
		e.Param("2 siblings built before and after an agent in 3 ways with 6 strategies; every sequence of %d of %d operations on the siblings, the agent observed after each", depth, ops)
		for _, st := range []string{"", "phase_nudge", "frequency_lock", "energy_aware", "adaptive", "pulse"} {
			for how := 0; how < 3; how++ {
				mk := func(id string) *agent.Agent {
					cfg := config.Agent{StrategyType: st, StrategyRate: 0.4, Phase: 1, LocalGoal: 2, Frequency: time.Second, InitialEnergy: 30, Influence: 0.5, Stubbornness: 0.1}
					var a *agent.Agent
					switch how {
					case 0:
						a, _ = agent.NewFromConfig(id, cfg)
					case 1:
						a, _ = agent.NewOptimizedFromConfig(id, cfg)
					default:
						a = agent.New(id)
					}
					return a
				}
				for k := 0; k < tot && !e.Stop(); k++ {
					e.Case(func() {
						e.Label("strategy %q, built in way %d, operations %d", st, how, k)
						world := func(siblings bool) []string {
							var seen []string
							e.Seq(vs.Options{Rand: hx.Const(0.5)}, func() {
								var sib []*agent.Agent
								if siblings {
									sib = append(sib, mk("before"))
								}
								a := mk("self")
								if siblings {
									sib = append(sib, mk("after"))
								}
								x := k
								for i := 0; i < depth; i++ {
									op := x % ops
									x /= ops
									if op == 5 {
										vs.Advance(60 * time.Millisecond)
									}
									for _, b := range sib {
										switch op {
										case 0:
											proposal(b)
										case 1:
											b.ApplyAction(core.Action{Type: "maintain", Cost: 7})
										case 2:
											b.SetPhase(3)
											b.SetLocalGoal(4)
											b.SetInfluence(0.9)
											b.SetStubbornness(0.8)
											b.SetEnergy(5)
										case 3:
											o := agent.New("other")
											b.ConnectTo(o.ID, o)
											b.UpdateContext()
										case 4:
											b.ApplyAction(core.Action{Type: "adjust_phase", Value: 1, Cost: 2})
											b.SetDecisionMaker(&dec{})
										}
									}
									obs := fmt.Sprint(a.ID, a.Phase(), a.LocalGoal(), a.Frequency(), a.Energy(), a.Influence(), a.Stubbornness(), a.NeighborCount())
									if i == depth-1 || k%2 == 0 {
										ok, c, err := a.ApplyAction(core.Action{Type: "maintain", Cost: 6})
										obs += fmt.Sprint(proposal(a), ok, c, err, a.Energy())
									}
									seen = append(seen, obs)
								}
							})
							return seen
						}
						alone, among := world(false), world(true)
						for i := range alone {
							e.Check(alone[i] == among[i], "after %d operations on others the agent shows %s, alone %s", i+1, among[i], alone[i])
						}
						e.Seen(fmt.Sprint(st, how, alone))
					})
				}
			}
		}
	}})
	vs.Main()
}
