// C24: the attractor basin pulls toward its target within its radius and never past it.
package main

import (
	"fmt"
	"math"
	"time"

	"MODULE/emerge/core"
	ie "MODULE/internal/emerge"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

var radii = []float64{0.05, 0.5, 1, math.Pi / 2, 3, math.Pi, 4, 10}
var strengths = []float64{-3, -0.001, 0, 0.001, 0.3, 0.8, 1, 1.001, 5}
var freqs = []time.Duration{0, 1, 50 * time.Millisecond, 100 * time.Millisecond, 101 * time.Millisecond, 2 * time.Second}

func grid(n int) []float64 {
	var r []float64
	for i := 0; i < n; i++ {
		r = append(r, hx.TwoPi*float64(i)/float64(n))
	}
	return append(r, 0.001, hx.TwoPi-0.001, 3.1415)
}

func steps(e *vs.E) int {
	if e.Thorough() {
		return 90
	}
	return 24
}

func forces(e *vs.E) {
	g := grid(steps(e))
	e.Param("%d target x %d state phases, %d radii, %d strengths, %d x %d frequencies", len(g), len(g), len(radii), len(strengths), len(freqs), len(freqs))
	for _, tp := range g {
		for _, r := range radii {
			e.Case(func() {
				for _, st := range strengths {
					for _, tf := range freqs {
						b := ie.NewAttractorBasin(core.State{Phase: tp, Frequency: tf, Coherence: 0.9}, st, r)
						s := hx.Clamp01(st)
						for _, p := range g {
							d := hx.CD(p, tp)
							what := fmt.Sprintf("basin at %v radius %v strength %v, phase %v", tp, r, st, p)
							in := d <= r
							edge := math.Abs(d-r) < 1e-9
							x := core.State{Phase: p, Frequency: 100 * time.Millisecond, Coherence: 0.1}
							e.Check(math.Abs(b.DistanceToTarget(x)-d) < 1e-9, "%s: distance %v, want %v", what, b.DistanceToTarget(x), d)
							e.Check(edge || b.IsInBasin(x) == in, "%s: in the basin: %v", what, !in)
							f := b.AttractionForce(x)
							want := s * math.Max(0, 1-d/r)
							e.Check(math.Abs(f-want) < 1e-9, "%s: force %v, want %v", what, f, want)
							e.Check(f >= 0 && f <= s+1e-12, "%s: force %v above the strength", what, f)
							// whole turns change nothing
							y := x
							y.Phase += hx.TwoPi * 3
							e.Check(math.Abs(b.AttractionForce(y)-f) < 1e-9, "%s: three turns on the force is %v, not %v", what, b.AttractionForce(y), f)
							adj, sd := b.OptimalAdjustment(x), hx.Signed(tp, p)
							share := want
							if want < 1e-12 {
								share = 0.01
							}
							e.Check(math.Abs(math.Abs(adj)-share*d) < 1e-9 || want < 1e-9 && (math.Abs(math.Abs(adj)-0.01*d) < 1e-9 || math.Abs(adj) < 1e-8), "%s: adjustment %v, want %v of %v", what, adj, share, sd)
							e.Check(adj*sd >= -1e-12 || math.Pi-d < 1e-9, "%s: adjustment %v leads away (the target is at %v)", what, adj, sd)
							for _, fr := range freqs {
								x.Frequency = fr
								al := 1.0
								if m := max(fr, tf); m > 0 {
									al = float64(min(fr, tf)) / float64(m)
								}
								c := b.ConvergenceRate(x)
								e.Check(math.Abs(c-want*al) < 1e-9, "%s frequencies %v, %v: rate %v, want %v", what, fr, tf, c, want*al)
								e.Step(1)
							}
						}
					}
				}
				e.Seen(fmt.Sprint(tp, r))
			})
		}
	}
}

// following the suggested adjustment from any phase approaches the target step by step
func follow(e *vs.E) {
	g := grid(steps(e))
	e.Param("%d target x %d start phases, %d radii, 5 strengths, up to 4000 steps", len(g), len(g), len(radii))
	for _, tp := range g {
		for _, r := range radii {
			e.Case(func() {
				for _, st := range []float64{0, 0.01, 0.3, 1, 2} {
					b := ie.NewAttractorBasin(core.State{Phase: tp, Frequency: 100 * time.Millisecond}, st, r)
					for _, p := range g {
						x := core.State{Phase: p, Frequency: 100 * time.Millisecond}
						if math.Pi-hx.CD(p, tp) < 1e-9 {
							continue
						}
						d, n, rate := hx.CD(p, tp), 0, b.AttractionForce(x)
						side := hx.Signed(p, tp)
						slow := rate > 0 && rate < 0.004 // the pull fades out toward the edge
						for ; d > 0.01 && n < 4000; n++ {
							x.Phase = hx.Wrap(x.Phase + b.OptimalAdjustment(x))
							nd := hx.CD(x.Phase, tp)
							e.Check(nd < d+1e-12 && (nd < 1e-9 || hx.Signed(x.Phase, tp)*side > 0), "basin at %v radius %v strength %v from %v: step %d went from distance %v to %v", tp, r, st, p, n, d, nd)
							f := b.AttractionForce(x)
							e.Check(f >= rate-1e-9, "basin at %v radius %v strength %v from %v: step %d the force fell from %v to %v", tp, r, st, p, n, rate, f)
							d, rate = nd, f
							e.Step(1)
						}
						e.Check(slow || n < 4000, "basin at %v radius %v strength %v from %v: still %v away after %d steps", tp, r, st, p, d, n)
					}
				}
				e.Seen(fmt.Sprint(tp, r))
			})
		}
	}
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "forces, rates and adjustments", Run: forces})
	vs.AddEnum(&vs.Enum{Name: "following the adjustments", Run: follow})
	vs.Main()
}
