// C08: targets are validated and normalised, and distance and gaps to them are measured truthfully.
package main

import (
	"fmt"
	"math"
	"time"

	"MODULE/emerge/core"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

func main() {
	nan, inf := math.NaN(), math.Inf(1)
	phases := []float64{0, 1, math.Pi, hx.TwoPi, hx.TwoPi + 1, -1, -7, 100, 1e12, -1e300, math.MaxFloat64, nan, inf, -inf}
	freqs := []time.Duration{math.MinInt64, -time.Second, -1, 0, 1, 100 * time.Millisecond, time.Hour, math.MaxInt64}
	cohs := []float64{-inf, -1, -1e-12, 0, 1e-12, 0.3, 0.999, 1, 1 + 1e-12, 2, inf, nan}
	vs.AddEnum(&vs.Enum{Name: "target validation", Run: func(e *vs.E) {
		e.Param("%d x %d x %d targets", len(phases), len(freqs), len(cohs))
		for _, p := range phases {
			for _, f := range freqs {
				for _, c := range cohs {
					e.Case(func() {
						s := core.State{Phase: p, Frequency: f, Coherence: c}
						e.Label("target %+v", s)
						pOK := !math.IsNaN(p) && !math.IsInf(p, 0)
						valid := pOK && f > 0 && c >= 0 && c <= 1
						orig := s
						err := s.Validate()
						e.Check((err == nil) == valid, "Validate: %v", err)
						e.Check(fmt.Sprint(s) == fmt.Sprint(orig), "Validate changed it to %+v", s)
						if err != nil {
							e.Check(err.Error() != "", "empty error")
						}
						fixable := pOK && !math.IsNaN(c)
						err = s.NormalizeAndValidate()
						e.Check((err == nil) == fixable, "NormalizeAndValidate: %v", err)
						if err == nil {
							e.Check(s.Validate() == nil, "normalised to the invalid %+v", s)
							e.Check(s.Phase >= 0 && s.Phase <= hx.TwoPi, "normalised phase %v", s.Phase)
							if math.Abs(p) < 1e6 {
								e.Check(hx.CD(s.Phase, p) < 1e-8, "normalised phase %v is a different angle", s.Phase)
							}
							e.Check(s.Coherence == hx.Clamp01(c), "normalised coherence %v", s.Coherence)
							if f > 0 {
								e.Check(s.Frequency == f, "normalised frequency %v", s.Frequency)
							} else {
								e.Check(s.Frequency == 100*time.Millisecond, "normalised frequency %v", s.Frequency)
							}
							again := s
							e.Check(again.NormalizeAndValidate() == nil && hx.CD(again.Phase, s.Phase) < 1e-12 && again.Coherence == s.Coherence && again.Frequency == s.Frequency, "normalising again gives %+v", again)
						}
						e.Seen(fmt.Sprint(orig))
					})
				}
			}
		}
	}})
	gp := []float64{0, 0.05, 0.099, 0.101, 1, 2, math.Pi, 4, 3 * math.Pi / 2, 6.2, -0.05, 8}
	gf := []time.Duration{0, 1, 50 * time.Millisecond, 94 * time.Millisecond, 96 * time.Millisecond, 100 * time.Millisecond, 104 * time.Millisecond, 106 * time.Millisecond, time.Second, -time.Second}
	gc := []float64{0, 0.4, 0.649, 0.651, 0.7, 0.9, 1}
	vs.AddEnum(&vs.Enum{Name: "distance and gaps", Run: func(e *vs.E) {
		e.Param("all pairs over %d phases, %d frequencies, %d coherences", len(gp), len(gf), len(gc))
		e.Case(func() {
			t := &core.TargetPattern{}
			e.Check(core.PatternDistance(nil, t) == math.MaxFloat64 && core.PatternDistance(t, nil) == math.MaxFloat64 && core.PatternDistance(nil, nil) == math.MaxFloat64, "a missing pattern is not infinitely far")
		})
		for _, p1 := range gp {
			for _, p2 := range gp {
				for _, f1 := range gf {
					e.Case(func() {
						for _, f2 := range gf {
							for _, c1 := range gc {
								for _, c2 := range gc {
									cur := &core.TargetPattern{Phase: p1, Frequency: f1, Coherence: c1, Amplitude: 3, Stability: 0.1}
									tgt := &core.TargetPattern{Phase: p2, Frequency: f2, Coherence: c2, Amplitude: 5, Stability: 0.8}
									e.Step(1)
									d := core.PatternDistance(cur, tgt)
									e.Label("from %v/%v/%v to %v/%v/%v", p1, f1, c1, p2, f2, c2)
									fd := 0.0
									if f2 > 0 {
										fd = math.Min(1, math.Abs(float64(f1-f2))/float64(f2))
									}
									pd := hx.CD(p1, p2)
									want := 0.4*pd/math.Pi + 0.3*fd + 0.3*math.Abs(c1-c2)
									e.Check(d >= 0 && d <= 1+1e-9 && math.Abs(d-want) < 1e-9, "distance %v, want %v", d, want)
									gaps := core.IdentifyGaps(cur, tgt)
									seen := map[string]core.PatternGap{}
									for _, g := range gaps {
										_, dup := seen[g.Type]
										e.Check(!dup, "gap %s reported twice", g.Type)
										seen[g.Type] = g
									}
									chk := func(ty string, want bool, c, t, sev float64) {
										g, ok := seen[ty]
										e.Check(ok == want, "%s gap reported=%v, want %v", ty, ok, want)
										if ok && want {
											e.Check(hx.Eq(g.Current, c) && hx.Eq(g.Target, t) && hx.Eq(g.Severity, sev), "%s gap %+v, want %v -> %v severity %v", ty, g, c, t, sev)
										}
										delete(seen, ty)
									}
									chk("phase", pd > 0.1, p1, p2, pd/math.Pi)
									rel := 0.0
									if f1 > 0 && f2 > 0 {
										rel = math.Abs(float64(f1)/float64(f2) - 1)
									}
									chk("frequency", rel > 0.05, float64(f1), float64(f2), math.Min(1, rel))
									chk("coherence", c1 < c2-0.05, c1, c2, c2-c1)
									e.Check(len(seen) == 0, "unexpected gaps %v", seen)
									if want == 0 {
										e.Check(len(gaps) == 0, "gaps %v at no distance", gaps)
									}
								}
							}
						}
					})
				}
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "sine wave", Run: func(e *vs.E) {
		for n := 0; n <= 400; n++ {
			e.Case(func() {
				w := core.GenerateSineWave(n)
				e.Check(len(w) == n, "%d points for %d", len(w), n)
				for i, v := range w {
					e.Check(math.Abs(v-math.Sin(hx.TwoPi*float64(i)/float64(n))) < 1e-9, "point %d of %d is %v", i, n, v)
				}
			})
		}
	}})
	vs.Main()
}
