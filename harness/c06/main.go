// C06: what an agent senses and when it accepts a proposal.
package main

import (
	"fmt"
	"math"
	"time"

	"MODULE/emerge/agent"
	"MODULE/emerge/core"
	"MODULE/emerge/decision"
	"MODULE/emerge/goal"
	"MODULE/emerge/strategy"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

type strat struct {
	act      core.Action
	conf     float64
	n        int
	ctx      core.Context
	cur, tgt core.State
}

func (s *strat) Propose(cur, tgt core.State, ctx core.Context) (core.Action, float64) {
	s.n++
	s.cur, s.tgt, s.ctx = cur, tgt, ctx
	return s.act, s.conf
}
func (*strat) Name() string { return "s" }

type dec struct {
	acc  float64
	opts []core.Action
	pick int
}

func (d *dec) Decide(_ core.State, o []core.Action) (core.Action, float64) {
	d.opts = append([]core.Action{}, o...)
	return o[d.pick], d.acc
}

func sensing(e *vs.E) {
	sets := [][]float64{{}}
	grid := []float64{0, 0.4, math.Pi / 2, 2, math.Pi, 4, 3 * math.Pi / 2, 6.2}
	for _, a := range grid {
		sets = append(sets, []float64{a})
		for _, b := range grid {
			sets = append(sets, []float64{a, b})
			if e.Thorough() {
				for _, c := range grid {
					sets = append(sets, []float64{a, b, c})
				}
			} else {
				sets = append(sets, []float64{a, b, 5.1})
			}
		}
	}
	// larger neighbourhoods, across the storage capacity
	for _, n := range []int{5, 19, 20, 21, 22, 45, 130} {
		var s1, s2 []float64
		for i := 0; i < n; i++ {
			s1 = append(s1, 1+0.01*float64(i))
			s2 = append(s2, float64(i)*2.4)
		}
		sets = append(sets, s1, s2)
	}
	e.Param("%d neighbourhoods x 8 own phases x 5 declared swarm sizes", len(sets))
	for _, ph := range grid {
		for si, set := range sets {
			for _, info := range [][2]int{{0, 0}, {10, 0}, {200, 20}, {5, 40}, {1, 0}} {
				e.Case(func() {
					e.Seq(vs.Options{Rand: hx.Const(0.5)}, func() {
						s := &strat{act: core.Action{Type: "maintain"}}
						a := agent.New("a", agent.WithPhase(ph), agent.WithLocalGoal(2.5), agent.WithStubbornness(0), agent.WithStrategy(s),
							agent.WithEnergy(50), agent.WithFrequency(time.Second), agent.WithSwarmInfo(info[0], info[1]))
						c, sn := 0.0, 0.0
						for i, p := range set {
							id := fmt.Sprintf("n%d", i)
							a.ConnectTo(id, agent.New(id, agent.WithPhase(p)))
							c += math.Cos(p - ph)
							sn += math.Sin(p - ph)
						}
						e.Label("own phase %v, neighbourhood %d %v, swarm info %v", ph, si, set, info)
						a.UpdateContext()
						a.ProposeAdjustment(core.State{Phase: 1, Frequency: 3, Coherence: 0.77})
						n := len(set)
						e.Check(s.n == 1, "strategy consulted %d times", s.n)
						e.Check(s.ctx.Neighbors == n, "senses %d neighbours of %d", s.ctx.Neighbors, n)
						lc := hx.Coh(set)
						e.Check(hx.Eq(s.ctx.LocalCoherence, lc) && hx.Eq(s.cur.Coherence, lc), "senses coherence %v (state %v), neighbours have %v", s.ctx.LocalCoherence, s.cur.Coherence, lc)
						e.Check(s.ctx.LocalCoherence >= 0 && s.ctx.LocalCoherence <= 1+1e-9, "coherence %v", s.ctx.LocalCoherence)
						wantD := 0.0
						if n > 0 {
							max := info[1]
							if max == 0 {
								max = info[0] - 1
							}
							if max <= 0 {
								max = n
							}
							wantD = float64(n) / float64(max)
						}
						e.Check(hx.Eq(s.ctx.Density, wantD), "density %v, want %v", s.ctx.Density, wantD)
						e.Check(s.ctx.Stability >= 0 && s.ctx.Stability <= 1, "stability %v", s.ctx.Stability)
						e.Check(hx.CD(a.Phase(), ph) < 1e-9 && a.Energy() == 50 && a.Frequency() == time.Second, "sensing changed the agent")
						if n == 0 {
							e.Check(hx.Eq(a.LocalGoal(), 2.5), "an agent without neighbours moved its goal to %v", a.LocalGoal())
						} else if math.Hypot(c, sn)/float64(n) > 1e-6 {
							// the goal moves from the own phase toward the neighbours' mean direction,
							// by at least half the way and never past it
							mean := math.Atan2(sn, c)
							want := hx.Wrap(ph + mean*(0.5+0.5*lc))
							if math.Pi-math.Abs(mean) > 1e-6 {
								e.Check(hx.CD(a.LocalGoal(), want) < 1e-6, "local goal %v, want %v", a.LocalGoal(), want)
							}
						}
						// the strategy sees the agent's own state and its local goal
						e.Check(s.cur.Phase == a.Phase() && s.cur.Frequency == a.Frequency() && s.tgt.Phase == a.LocalGoal() && s.tgt.Frequency == a.Frequency() && s.tgt.Coherence == 0.77,
							"strategy was given current %+v, target %+v", s.cur, s.tgt)
						e.Seen(fmt.Sprintf("%v|%d", ph, si))
					})
				})
			}
		}
	}
}

func accepting(e *vs.E) {
	rs := []float64{0, 0.03, 0.11, 0.26, 0.52, 0.77, 0.93, 1}
	e.Param("random answers %v, stubbornness, confidence, acceptance, cost and energy grids", rs)
	for _, r := range rs {
		for _, stub := range []float64{0, 0.05, 0.3, 0.6, 0.95, 1} {
			for _, conf := range []float64{0, 0.2, 0.6, 1} {
				for _, acc := range []float64{0, 0.5, 0.8, 1} {
					for _, cost := range []float64{0, 0.1, 5, 5.001, 100} {
						for pick := 0; pick < 2; pick++ {
							for _, en := range []float64{0, 0.05, 5, 100} {
								e.Case(func() {
									e.Seq(vs.Options{Rand: hx.Const(r)}, func() {
										s := &strat{act: core.Action{Type: "adjust_phase", Value: 0.7, Cost: cost, Benefit: 3}, conf: conf}
										d := &dec{acc: acc, pick: pick}
										a := agent.New("a", agent.WithPhase(1), agent.WithEnergy(en), agent.WithStubbornness(stub), agent.WithStrategy(s), agent.WithDecisionMaker(d))
										b := agent.New("b", agent.WithPhase(2))
										a.ConnectTo("b", b)
										a.UpdateContext()
										g := a.LocalGoal()
										e.Label("random %v stubbornness %v confidence %v acceptance %v cost %v energy %v pick %d", r, stub, conf, acc, cost, en, pick)
										act, ok := a.ProposeAdjustment(core.State{Phase: 3, Frequency: 1, Coherence: 0.9})
										u := math.Min(r, 1-1e-15)
										e.Check(hx.Eq(a.Phase(), 1) && a.Energy() == en && a.LocalGoal() == g, "proposing changed the agent: phase %v energy %v", a.Phase(), a.Energy())
										chosen := core.Action{}
										if len(d.opts) > 0 {
											chosen = d.opts[pick]
										}
										if !ok {
											e.Check(act.Type == "maintain" && act.Value == 0 && act.Cost == 0, "refused but returned %+v", act)
										} else {
											e.Check(act == chosen, "accepted %+v, chosen was %+v", act, chosen)
											e.Check(act.Cost <= en, "accepted an action of cost %v with energy %v", act.Cost, en)
											e.Check(stub < 1, "a fully stubborn agent accepted")
										}
										if len(d.opts) > 0 {
											e.Check(d.opts[0] == s.act, "the proposal %+v was not offered: %+v", s.act, d.opts)
											has := false
											for _, o := range d.opts {
												has = has || o.Type == "maintain"
											}
											e.Check(has, "staying put was not offered: %+v", d.opts)
										}
										want := !(u < stub) && u < conf*acc
										if want {
											want = chosen.Cost <= en
										}
										e.Check(ok == want, "accepted=%v, want %v", ok, want)
										e.Seen(fmt.Sprint(ok, stub, conf, acc, cost, en, pick, r))
									})
								})
							}
						}
					}
				}
			}
		}
	}
}

func deciding(e *vs.E) {
	vals := []float64{-1, 0, 0.05, 0.1, 0.5, 1, 3}
	var acts []core.Action
	for _, c := range []float64{0, 0.05, 0.1, 0.5, 2} {
		for _, b := range vals {
			acts = append(acts, core.Action{Type: fmt.Sprintf("c%v", c), Cost: c, Benefit: b, Value: c + b})
		}
	}
	mks := []core.DecisionMaker{&decision.SimpleDecisionMaker{}, strategy.NewSimpleDecisionMaker()}
	score := func(a core.Action) float64 { return a.Benefit / math.Max(a.Cost, 0.1) }
	check := func(dm core.DecisionMaker, opts []core.Action) {
		got, conf := dm.Decide(core.State{Coherence: 0.4}, opts)
		best := math.Inf(-1)
		first := core.Action{}
		for _, o := range opts {
			if score(o) > best {
				best, first = score(o), o
			}
		}
		e.Check(hx.Eq(score(got), best), "of %+v chose %+v", opts, got)
		e.Check(got == first, "of equally good %+v chose %+v rather than the first", opts, got)
		e.Check(conf >= 0 && conf <= 1 && hx.Eq(conf, math.Max(0, math.Min(1, best/2))), "confidence %v for score %v", conf, best)
		e.Step(1)
	}
	e.Param("all lists of up to 3 of %d actions", len(acts))
	for _, dm := range mks {
		e.Case(func() {
			for _, c := range []float64{0, 0.3, 1} {
				a, conf := dm.Decide(core.State{Coherence: c}, nil)
				e.Check(a.Type == "maintain" && a.Cost == 0 && a.Value == 0 && conf == c, "without options: %+v %v", a, conf)
			}
		})
		for _, a := range acts {
			e.Case(func() {
				check(dm, []core.Action{a})
				for _, b := range acts {
					check(dm, []core.Action{a, b})
					for _, c := range acts {
						check(dm, []core.Action{a, b, c})
					}
				}
				e.Seen(fmt.Sprint(a))
			})
		}
	}
}

func blending(e *vs.E) {
	ph := []float64{0, 0.3, 1, math.Pi / 2, 2.5, math.Pi, 4, 3 * math.Pi / 2, 5.5, 6.28, -1, 7, 20}
	for _, m := range []goal.Manager{&goal.WeightedManager{}, strategy.NewWeightedGoalManager()} {
		for _, l := range ph {
			for _, g := range ph {
				for _, w := range []float64{-1, 0, 0.1, 0.25, 0.5, 0.75, 0.9, 1, 2} {
					e.Case(func() {
						for _, lc := range []float64{0, 0.4, 1} {
							for _, gc := range []float64{0, 0.7, 1} {
								r := m.Blend(core.State{Phase: l, Frequency: 7, Coherence: lc}, core.State{Phase: g, Frequency: 9, Coherence: gc}, w)
								cw := hx.Clamp01(w)
								e.Label("local %v global %v weight %v", l, g, w)
								e.Check(r.Phase >= 0 && r.Phase <= hx.TwoPi, "phase %v", r.Phase)
								e.Check(hx.Eq(r.Coherence, lc*(1-cw)+gc*cw), "coherence %v", r.Coherence)
								e.Check(r.Frequency == 7, "frequency %v", r.Frequency)
								d := hx.CD(l, g)
								// on the shortest arc, at the stated fraction of it
								e.Check(math.Abs(hx.CD(r.Phase, l)-d*cw) < 1e-6 && math.Abs(hx.CD(r.Phase, g)-d*(1-cw)) < 1e-6, "blended phase %v is %v from local and %v from global, which are %v apart", r.Phase, hx.CD(r.Phase, l), hx.CD(r.Phase, g), d)
								e.Step(1)
							}
						}
					})
				}
			}
		}
	}
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "sensing", Run: sensing})
	vs.AddEnum(&vs.Enum{Name: "accepting", Run: accepting})
	vs.AddEnum(&vs.Enum{Name: "deciding", Run: deciding})
	vs.AddEnum(&vs.Enum{Name: "blending", Run: blending})
	vs.Main()
}
