// C02: an agent's attributes stay in range and actions have exactly their stated effect.
package main

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"MODULE/emerge/agent"
	"MODULE/emerge/core"
	"MODULE/zzverif/vs"
)

const twoPi = 2 * math.Pi

func wrap(x float64) float64 {
	x = math.Mod(x, twoPi)
	if x < 0 {
		x += twoPi
	}
	return x
}

// circular distance
func cd(a, b float64) float64 {
	d := math.Abs(wrap(a) - wrap(b))
	return math.Min(d, twoPi-d)
}

func clamp01(x float64) float64 { return math.Max(0, math.Min(1, x)) }

type st struct {
	phase, energy, goal, inf, stub float64
	freq                           time.Duration
}

func read(a *agent.Agent) st {
	return st{a.Phase(), a.Energy(), a.LocalGoal(), a.Influence(), a.Stubbornness(), a.Frequency()}
}

func same(a, b st) bool {
	return cd(a.phase, b.phase) < 1e-9 && cd(a.goal, b.goal) < 1e-9 && math.Abs(a.energy-b.energy) < 1e-9 &&
		math.Abs(a.inf-b.inf) < 1e-12 && math.Abs(a.stub-b.stub) < 1e-12 && a.freq == b.freq
}

func inRange(s st) string {
	switch {
	case !(s.phase >= 0 && s.phase <= twoPi):
		return "phase"
	case !(s.goal >= 0 && s.goal <= twoPi):
		return "local goal"
	case !(s.energy >= 0):
		return "energy"
	case !(s.inf >= 0 && s.inf <= 1):
		return "influence"
	case !(s.stub >= 0 && s.stub <= 1):
		return "stubbornness"
	}
	return ""
}

type op struct {
	name string
	do   func(a *agent.Agent) error
	want func(s st) (st, error)
}

var applyTypes = []string{"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse", "maintain", "unknown", "", "Maintain"}

func setters(vals []float64) []op {
	var ops []op
	for _, v := range vals {
		v := v
		ops = append(ops,
			op{fmt.Sprintf("SetPhase(%v)", v), func(a *agent.Agent) error { a.SetPhase(v); return nil }, func(s st) (st, error) { s.phase = wrap(v); return s, nil }},
			op{fmt.Sprintf("SetLocalGoal(%v)", v), func(a *agent.Agent) error { a.SetLocalGoal(v); return nil }, func(s st) (st, error) { s.goal = wrap(v); return s, nil }},
			op{fmt.Sprintf("SetEnergy(%v)", v), func(a *agent.Agent) error { a.SetEnergy(v); return nil }, func(s st) (st, error) { s.energy = math.Max(0, v); return s, nil }},
			op{fmt.Sprintf("SetInfluence(%v)", v), func(a *agent.Agent) error { a.SetInfluence(v); return nil }, func(s st) (st, error) { s.inf = clamp01(v); return s, nil }},
			op{fmt.Sprintf("SetStubbornness(%v)", v), func(a *agent.Agent) error { a.SetStubbornness(v); return nil }, func(s st) (st, error) { s.stub = clamp01(v); return s, nil }})
	}
	for _, f := range []time.Duration{0, 1, 50 * time.Millisecond, time.Hour} {
		f := f
		ops = append(ops, op{fmt.Sprintf("SetFrequency(%v)", f), func(a *agent.Agent) error { a.SetFrequency(f); return nil }, func(s st) (st, error) { s.freq = f; return s, nil }})
	}
	return ops
}

func actions(types []string, values, costs []float64) []op {
	var ops []op
	for _, ty := range types {
		for _, v := range values {
			for _, c := range costs {
				ty, v, c := ty, v, c
				ops = append(ops, op{fmt.Sprintf("Apply(%q,value=%v,cost=%v)", ty, v, c), func(a *agent.Agent) error {
					ok, cost, err := a.ApplyAction(core.Action{Type: ty, Value: v, Cost: c, Benefit: 7})
					if ok != (err == nil) {
						return fmt.Errorf("ApplyAction returned ok=%v with err=%v", ok, err)
					}
					if ok && cost != c || !ok && cost != 0 {
						return fmt.Errorf("ApplyAction returned ok=%v cost=%v for an action of cost %v", ok, cost, c)
					}
					return err
				}, func(s st) (st, error) {
					if c > s.energy {
						return s, core.ErrInsufficientEnergy
					}
					switch ty {
					case "adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse":
						s.phase = wrap(s.phase + v)
					case "maintain":
					default:
						return s, core.ErrUnknownActionType
					}
					s.energy -= c
					return s, nil
				}})
			}
		}
	}
	return ops
}

func step(e *vs.E, a *agent.Agent, m *meter, o op, pre st) st {
	want, werr := o.want(pre)
	drawn := m.drawn
	err := o.do(a)
	if werr != nil {
		e.Check(m.drawn == drawn, "%s on %+v was refused, and drew %v from the resource manager", o.name, pre, m.drawn-drawn)
	} else if strings.HasPrefix(o.name, "Apply") {
		c := pre.energy - want.energy
		e.Check(math.Abs(m.drawn-drawn-c) <= 1e-6*(1+pre.energy), "%s on %+v drew %v from the resource manager", o.name, pre, m.drawn-drawn)
	}
	got := read(a)
	if werr == nil {
		e.Check(err == nil, "%s on %+v: unexpected error %v", o.name, pre, err)
	} else {
		// an unknown action that is also too expensive may be refused for either reason
		e.Check(errors.Is(err, werr) || (errors.Is(err, core.ErrInsufficientEnergy) || errors.Is(err, core.ErrUnknownActionType)) && isBoth(o, pre), "%s on %+v: error %v, want %v", o.name, pre, err, werr)
	}
	e.Check(same(got, want), "%s on %+v gave %+v, want %+v", o.name, pre, got, want)
	bad := inRange(got)
	e.Check(bad == "", "after %s on %+v the %s is out of range: %+v", o.name, pre, bad, got)
	e.Step(1)
	e.Seen(fmt.Sprintf("%.6f|%.6f|%.6f|%.4f|%.4f|%d", got.phase, got.energy, got.goal, got.inf, got.stub, got.freq))
	return got
}

func isBoth(o op, pre st) bool { _, err := o.want(st{energy: math.Inf(1)}); return err != nil }

// meter is a resource manager that counts what is drawn from it.
type meter struct{ drawn float64 }

func (m *meter) Request(x float64) float64 { m.drawn += x; return x }
func (m *meter) Release(x float64)         { m.drawn -= x }
func (m *meter) Available() float64        { return 1e12 }

func fresh(energy float64) (*agent.Agent, *meter) {
	m := &meter{}
	return agent.New("a", agent.WithResourceManager(m), agent.WithPhase(1), agent.WithEnergy(energy), agent.WithLocalGoal(2), agent.WithFrequency(77),
		agent.WithInfluence(0.9), agent.WithStubbornness(0.8)), m
}

func main() {
	wide := []float64{0, 1e-300, 1e-12, 0.1, 0.5, 0.999999, 1, 1.0000001, 1.5, math.Pi / 2, math.Pi, 3 * math.Pi / 2, math.Nextafter(twoPi, 0), twoPi, math.Nextafter(twoPi, 10), 7, 3 * math.Pi, 4 * math.Pi, 99.5, 100, 101, 1000.25, 1e6, 1e9,
		-1e-300, -1e-17, -1e-12, -0.1, -0.5, -1, -math.Pi, -twoPi, -3 * math.Pi, -7, -100, -1e6}
	// every operation with every boundary value, from several energies
	vs.AddEnum(&vs.Enum{Name: "single operations", Run: func(e *vs.E) {
		ops := append(setters(wide), actions(applyTypes, wide, []float64{0, 1e-9, 0.5, 1, 9.999999, 10, 10.0000001, 50, 1e9})...)
		e.Param("%d operations x 6 energies", len(ops))
		for _, en := range []float64{0, 1e-9, 0.5, 10, 100, 1e6} {
			for _, o := range ops {
				e.Case(func() {
					e.Label("energy %v: %s", en, o.name)
					a, m := fresh(en)
					step(e, a, m, o, read(a))
				})
			}
		}
	}})
	// every sequence up to the depth over a smaller alphabet
	vs.AddEnum(&vs.Enum{Name: "operation sequences", Run: func(e *vs.E) {
		ops := append(setters([]float64{-1, 0.25, 5, 9}), actions([]string{"adjust_phase", "pulse", "maintain", "bogus"}, []float64{-4, 0.75}, []float64{0, 2, 5})...)
		depth := 3
		if e.Thorough() {
			depth = 4
		}
		e.Param("%d operations, all sequences of length %d", len(ops), depth)
		n := len(ops)
		total := 1
		for i := 0; i < depth; i++ {
			total *= n
		}
		for k := 0; k < total && !e.Stop(); k++ {
			e.Case(func() {
				a, m := fresh(8)
				s := read(a)
				x := k
				names := ""
				for i := 0; i < depth; i++ {
					names += ops[x%n].name + " "
					e.Label("%s", names)
					s = step(e, a, m, ops[x%n], s)
					x /= n
				}
			})
		}
	}})
	// spending: long action histories exhaust the energy exactly, never below zero
	vs.AddEnum(&vs.Enum{Name: "spending to exhaustion", Run: func(e *vs.E) {
		for _, start := range []float64{0, 1, 2.5, 7, 10, 100} {
			for _, c := range []float64{0.1, 0.3, 0.5, 1, 2.5, 3, 33} {
				for _, ty := range []string{"maintain", "pulse", "energy_save", "frequency_lock"} {
					e.Case(func() {
						e.Label("start %v cost %v %s", start, c, ty)
						a, m := fresh(start)
						s := read(a)
						o := actions([]string{ty}, []float64{0.01}, []float64{c})[0]
						spent := 0.0
						for i := 0; i < 1100; i++ {
							p := s
							s = step(e, a, m, o, s)
							spent += p.energy - s.energy
							if s.energy == p.energy {
								break
							}
						}
						e.Check(spent <= start+1e-9 && start-spent < c+1e-6, "spent %v of %v at cost %v", spent, start, c)
					})
				}
			}
		}
	}})
	vs.Main()
}
