// C09: synchronisation strategies move toward the target, never past it, at stated cost and confidence.
package main

import (
	"fmt"
	"math"
	"time"

	"MODULE/emerge/core"
	"MODULE/emerge/strategy"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

var phs = []float64{0, 0.05, 0.0999, 0.1001, 0.5, 1, math.Pi / 2, 2.5, 3, math.Pi, 3.5, 4, 3 * math.Pi / 2, 5.5, 6.2, 6.28, -0.06, -2, 7, 13}
var ctxs []core.Context

func init() {
	for _, lc := range []float64{0, 0.2, 0.5, 0.500001, 0.7, 1} {
		for _, st := range []float64{0, 0.5, 0.7, 0.700001, 1} {
			for _, pr := range []float64{0, 0.6, 1} {
				ctxs = append(ctxs, core.Context{LocalCoherence: lc, Stability: st, Progress: pr, Density: 0.4, Neighbors: 3})
			}
		}
	}
}

// the action must turn from cur toward tgt along the shorter way, by exactly frac of it
func turn(e *vs.E, name string, a core.Action, cur, tgt, frac float64) {
	d := hx.CD(cur, tgt)
	if math.Abs(d-math.Pi) < 1e-9 {
		e.Check(math.Abs(math.Abs(a.Value)-math.Pi*frac) < 1e-6, "%s turns by %v at half a turn", name, a.Value)
	} else {
		e.Check(math.Abs(a.Value-hx.Signed(tgt, cur)*frac) < 1e-7, "%s turns by %v from %v toward %v (rate %v)", name, a.Value, cur, tgt, frac)
	}
	nd := hx.CD(cur+a.Value, tgt)
	e.Check(math.Abs(nd-d*(1-frac)) < 1e-6, "%s leaves %v of the distance %v (rate %v)", name, nd, d, frac)
}

func conf01(e *vs.E, name string, c float64) {
	e.Check(c >= 0 && c <= 1, "%s confidence %v", name, c)
}

func main() {
	rates := []float64{-1, 0, 0.1, 0.5, 0.99, 1, 1.5, 100}
	vs.AddEnum(&vs.Enum{Name: "nudge, lock, energy aware", Run: func(e *vs.E) {
		e.Param("%d x %d phases, %d contexts, rates %v", len(phs), len(phs), len(ctxs), rates)
		for _, r := range rates {
			e.Case(func() {
				n, l, en := strategy.NewPhaseNudge(r), strategy.NewFrequencyLock(r), strategy.NewEnergyAware(r)
				e.Check(n.Rate == hx.Clamp01(r) && l.SyncRate == hx.Clamp01(r) && en.Threshold == math.Max(0, r), "constructed with %v: %v %v %v", r, n.Rate, l.SyncRate, en.Threshold)
				p := strategy.NewPulse(time.Second, r)
				e.Check(p.Amplitude == hx.Clamp01(r) && p.Period == time.Second, "pulse constructed with %v: %v %v", r, p.Amplitude, p.Period)
				e.Check(n.Name() == "phase_nudge" && l.Name() == "frequency_lock" && en.Name() == "energy_aware" && p.Name() == "pulse", "names")
			})
			for _, c := range phs {
				for _, t := range phs {
					e.Case(func() {
						for _, x := range ctxs {
							cs := core.State{Phase: c, Frequency: 100, Coherence: 0.3}
							ts := core.State{Phase: t, Frequency: 200, Coherence: 0.9}
							rr := hx.Clamp01(r)
							e.Label("from %v to %v context %+v rate %v", c, t, x, r)
							n := strategy.NewPhaseNudge(r)
							a, cf := n.Propose(cs, ts, x)
							e.Check(a.Type == "phase_nudge", "nudge proposes %q", a.Type)
							turn(e, "nudge", a, c, t, rr)
							conf01(e, "nudge", cf)
							e.Check(hx.Eq(cf, math.Max(0.5, 1-x.LocalCoherence)), "nudge confidence %v", cf)
							e.Check(hx.Eq(a.Cost, 2*math.Abs(a.Value)), "nudge cost %v for %v", a.Cost, a.Value)
							e.Check(hx.Eq(a.Benefit, 1.5*(1-hx.CD(c, t)/math.Pi)), "nudge benefit %v", a.Benefit)
							l := strategy.NewFrequencyLock(r)
							a, cf = l.Propose(cs, ts, x)
							e.Check(a.Type == "frequency_lock", "lock proposes %q", a.Type)
							turn(e, "lock", a, c, t, rr)
							conf01(e, "lock", cf)
							e.Check(hx.Eq(cf, x.LocalCoherence*rr) && hx.Eq(a.Cost, 3*math.Abs(a.Value)) && hx.Eq(a.Benefit, 2*x.LocalCoherence), "lock confidence %v cost %v benefit %v", cf, a.Cost, a.Benefit)
							s := strategy.NewEnergyAware(r)
							a, cf = s.Propose(cs, ts, x)
							conf01(e, "energy aware", cf)
							if hx.CD(c, t) < 0.1 {
								e.Check(a.Type == "maintain" && a.Value == 0 && hx.Eq(a.Cost, 0.1) && a.Benefit == x.Stability && cf == 0.5, "energy aware near the target: %+v %v", a, cf)
							} else {
								e.Check(a.Type == "energy_save" && cf == 0.3, "energy aware: %+v %v", a, cf)
								turn(e, "energy aware", a, c, t, 0.1)
								e.Check(hx.Eq(a.Cost, math.Max(0.5, math.Abs(a.Value))) && hx.Eq(a.Benefit, 0.5*x.Progress), "energy aware cost %v benefit %v", a.Cost, a.Benefit)
							}
							e.Step(3)
						}
					})
				}
			}
		}
	}})
	// pulses: every history of waits up to the depth; a pulse exactly when a period has passed since the last one
	vs.AddEnum(&vs.Enum{Name: "pulse timing", Run: func(e *vs.E) {
		waits := []time.Duration{0, 1, 40 * time.Millisecond, 99999999, 100 * time.Millisecond, 100000001, 250 * time.Millisecond}
		depth := 4
		if e.Thorough() {
			depth = 6
		}
		e.Param("waits %v, all sequences of length %d, period 100ms", waits, depth)
		tot := 1
		for i := 0; i < depth; i++ {
			tot *= len(waits)
		}
		for k := 0; k < tot && !e.Stop(); k++ {
			for _, amp := range []float64{0, 0.8, 1} {
				e.Case(func() {
					e.Seq(vs.Options{}, func() {
						p := strategy.NewPulse(100*time.Millisecond, amp)
						since := time.Duration(0)
						h := ""
						for i, x := 0, k; i < depth; i, x = i+1, x/len(waits) {
							w := waits[x%len(waits)]
							vs.Advance(w)
							since += w
							h += fmt.Sprintf(" +%v", w)
							c, t := phs[(k+i)%len(phs)], phs[(k*3+i)%len(phs)]
							ctx := ctxs[(k+i)%len(ctxs)]
							a, cf := p.Propose(core.State{Phase: c}, core.State{Phase: t}, ctx)
							conf01(e, "pulse", cf)
							if since < 100*time.Millisecond {
								e.Check(a.Type == "maintain" && a.Value == 0 && hx.Eq(a.Cost, 0.1) && hx.Eq(a.Benefit, 0.5*ctx.Stability) && cf == 0.3, "%s: %v after the last pulse: %+v %v", h, since, a, cf)
							} else {
								e.Check(a.Type == "pulse" && cf == amp, "%s: %v after the last pulse: %+v %v", h, since, a, cf)
								turn(e, "pulse", a, c, t, amp)
								e.Check(hx.Eq(a.Cost, 4*math.Abs(a.Value)) && a.Benefit == 2, "pulse cost %v benefit %v", a.Cost, a.Benefit)
								since = 0
							}
							e.Step(1)
							e.Seen(fmt.Sprint(since))
						}
					})
				})
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "adaptive selection", Run: func(e *vs.E) {
		type marker struct{ n int }
		mk := func(n int) []core.SyncStrategy {
			var r []core.SyncStrategy
			for i := 0; i < n; i++ {
				r = append(r, fake(i))
			}
			return r
		}
		_ = marker{}
		for n := 0; n <= 5; n++ {
			for _, x := range ctxs {
				e.Case(func() {
					e.Label("%d strategies, context %+v", n, x)
					for v, s := range []core.SyncStrategy{strategy.NewAdaptiveStrategy(mk(n)), strategy.NewAdaptive(mk(n))} {
						e.Check(s.Name() == "adaptive", "name")
						a, cf := s.Propose(core.State{Phase: 1}, core.State{Phase: 2}, x)
						if n == 0 {
							e.Check(a.Type == "maintain" && a.Value == 0 && a.Cost == 0 && cf == 0.5, "without strategies (%d): %+v %v", v, a, cf)
							continue
						}
						want := 2
						if x.Stability > 0.7 {
							want = 0
						} else if x.LocalCoherence > 0.5 {
							want = 1
						}
						if want > n-1 {
							want = n - 1
						}
						e.Check(a.Value == float64(want) && cf == float64(want)/10, "used strategy %v, want %d", a.Value, want)
					}
					for idx := -3; idx <= 6; idx++ {
						s := strategy.NewAdaptiveStrategy(mk(n)).WithSelector(func(c core.Context) int {
							e.Check(c == x, "selector saw %+v", c)
							return idx
						})
						a, _ := s.Propose(core.State{Phase: 1}, core.State{Phase: 2}, x)
						if n == 0 {
							continue
						}
						want := idx
						if idx < 0 || idx >= n {
							want = 0
						}
						e.Check(a.Value == float64(want), "selector chose %d of %d, used %v", idx, n, a.Value)
					}
				})
			}
		}
	}})
	vs.Main()
}

type fake int

func (f fake) Propose(c, t core.State, _ core.Context) (core.Action, float64) {
	if c.Phase != 1 || t.Phase != 2 {
		return core.Action{Type: "wrong arguments", Value: -9}, -1
	}
	return core.Action{Type: "fake", Value: float64(f)}, float64(f) / 10
}
func (fake) Name() string { return "fake" }
