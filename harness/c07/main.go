// C07: phase arithmetic is circular and coherence is the order parameter.
package main

import (
	"fmt"
	"math"

	"MODULE/emerge/agent"
	"MODULE/emerge/core"
	"MODULE/emerge/swarm"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

func grid() []float64 {
	g := []float64{0, 1e-300, -1e-300, 1e-17, -1e-17, 1e-11, -1e-11, 0.5e-10, -0.5e-10, 2e-10, 1e-6, -1e-6}
	for i := -50; i <= 50; i++ {
		g = append(g, float64(i)*math.Pi/4, float64(i)*0.37, float64(i)*math.Pi/4+1e-11, float64(i)*math.Pi/4-1e-11)
	}
	for _, x := range []float64{hx.TwoPi, -hx.TwoPi, 1000, -1000, 12345.678, -98765.4321} {
		g = append(g, x, math.Nextafter(x, 1e9), math.Nextafter(x, -1e9))
	}
	return g
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "wrapping", Run: func(e *vs.E) {
		g := append(grid(), 1e6, -1e6, 1e9, -1e9, 1e15, -1e15, 1e18, -1e18, 1e100, -1e300, math.MaxFloat64, -math.MaxFloat64)
		e.Param("%d angles", len(g))
		for _, x := range g {
			e.Case(func() {
				w := core.WrapPhase(x)
				e.Check(w >= 0 && w < hx.TwoPi, "%v wraps to %v", x, w)
				if math.Abs(x) < 1e6 {
					e.Check(math.Abs(math.Sin(w)-math.Sin(x)) < 1e-8 && math.Abs(math.Cos(w)-math.Cos(x)) < 1e-8, "%v wraps to %v, a different angle", x, w)
				}
				ww := core.WrapPhase(w)
				e.Check(hx.CD(ww, w) < 1e-12, "wrapping %v again gives %v", w, ww)
				if math.Abs(x) < 1000 {
					for k := -3; k <= 3; k++ {
						o := core.WrapPhase(x + float64(k)*hx.TwoPi)
						e.Check(hx.CD(o, w) < 1e-8, "%v and the same angle %d turns on wrap to %v and %v", x, k, w, o)
					}
				}
				e.Seen(fmt.Sprintf("%.9f", w))
			})
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "differences", Run: func(e *vs.E) {
		g := grid()
		e.Param("%d x %d angle pairs", len(g), len(g))
		for _, a := range g {
			e.Case(func() {
				for _, b := range g {
					d := core.PhaseDifference(a, b)
					e.Label("difference of %v and %v", a, b)
					e.Check(d >= -math.Pi-1e-12 && d <= math.Pi+1e-12, "is %v", d)
					e.Check(math.Abs(math.Abs(d)-hx.CD(a, b)) < 1e-8, "is %v, they are %v apart", d, hx.CD(a, b))
					// signed: turning the second by d reaches the first
					e.Check(hx.CD(b+d, a) < 1e-8, "is %v, which turns the second into %v", d, b+d)
					r := core.PhaseDifference(b, a)
					e.Check(math.Abs(d+r) < 1e-8 || math.Abs(math.Abs(d)-math.Pi) < 1e-8, "is %v but the reverse is %v", d, r)
					e.Step(1)
				}
			})
		}
	}})
	coh := func(ph []float64) (float64, float64) {
		c, s := 0.0, 0.0
		for _, p := range ph {
			c += math.Cos(p)
			s += math.Sin(p)
		}
		return hx.Coh(ph), math.Atan2(s, c)
	}
	vs.AddEnum(&vs.Enum{Name: "coherence", Run: func(e *vs.E) {
		g := []float64{0, 0.3, math.Pi / 2, 2, math.Pi, 3.5, 3 * math.Pi / 2, 6, -2, 40}
		max := 4
		if e.Thorough() {
			max = 5
		}
		e.Param("all lists of up to %d of %d phases, all identical/evenly spread/clustered lists up to 600 phases and around 1000, 2000, 5000 and 10000", max, len(g))
		e.Case(func() {
			e.Check(core.MeasureCoherence(nil) == 0 && core.MeasureCoherence([]float64{}) == 0, "coherence of nothing is not 0")
		})
		check := func(ph []float64) {
			cp := append([]float64{}, ph...)
			got := core.MeasureCoherence(ph)
			want, _ := coh(ph)
			e.Check(math.Abs(got-want) < 1e-9, "coherence of %v is %v, want %v", ph, got, want)
			e.Check(got >= 0 && got <= 1+1e-9, "coherence of %v is %v", ph, got)
			for i := range cp {
				if cp[i] != ph[i] {
					e.Fail("measuring changed the phases")
				}
			}
			// rotation and order do not matter
			rot := make([]float64, len(ph))
			for i := range ph {
				rot[len(ph)-1-i] = ph[i] + 1.234
			}
			e.Check(math.Abs(core.MeasureCoherence(rot)-got) < 1e-9, "coherence of %v changes when rotated and reversed", ph)
			w := make([]float64, len(ph))
			for i := range w {
				w[i] = 2.5
			}
			e.Check(math.Abs(core.MeasureCoherenceWeighted(ph, w)-got) < 1e-9, "equal weights change the coherence of %v", ph)
			e.Step(1)
		}
		var rec func(ph []float64)
		rec = func(ph []float64) {
			if len(ph) > 0 {
				check(ph)
			}
			if len(ph) < max {
				for _, x := range g {
					rec(append(ph[:len(ph):len(ph)], x))
				}
			}
		}
		for _, x := range g {
			for _, y := range g {
				e.Case(func() { rec([]float64{x, y}) })
			}
			e.Case(func() { check([]float64{x}) })
		}
		for n := 1; n <= 10001; n++ {
			if n == 600 {
				n = 997
			} else if n == 1030 {
				n = 1998
			} else if n == 2052 {
				n = 4999
			} else if n == 5003 {
				n = 9999
			}
			e.Case(func() {
				same, even, two := make([]float64, n), make([]float64, n), make([]float64, n)
				for i := range same {
					same[i] = 1.1
					even[i] = 0.2 + hx.TwoPi*float64(i)/float64(n)
					two[i] = float64(i%2) * math.Pi
				}
				check(same)
				check(even)
				check(two)
				e.Check(math.Abs(core.MeasureCoherence(same)-1) < 1e-9, "identical phases have coherence %v", core.MeasureCoherence(same))
				if n > 1 {
					e.Check(core.MeasureCoherence(even) < 1e-9, "evenly spread phases have coherence %v", core.MeasureCoherence(even))
				}
			})
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "weighted coherence", Run: func(e *vs.E) {
		ph := []float64{0, 1, math.Pi / 2, math.Pi, 5}
		ws := []float64{0, 0.5, 1, 3}
		for np := 0; np <= 4; np++ {
			for nw := 0; nw <= 4; nw++ {
				tot := 1
				for i := 0; i < np; i++ {
					tot *= len(ph)
				}
				totw := 1
				for i := 0; i < nw; i++ {
					totw *= len(ws)
				}
				for k := 0; k < tot; k++ {
					e.Case(func() {
						for kw := 0; kw < totw; kw++ {
							p, w := make([]float64, np), make([]float64, nw)
							for i, x := 0, k; i < np; i, x = i+1, x/len(ph) {
								p[i] = ph[x%len(ph)]
							}
							for i, x := 0, kw; i < nw; i, x = i+1, x/len(ws) {
								w[i] = ws[x%len(ws)]
							}
							c, s, t := 0.0, 0.0, 0.0
							for i := 0; i < np && i < nw; i++ {
								c += w[i] * math.Cos(p[i])
								s += w[i] * math.Sin(p[i])
								t += w[i]
							}
							want := 0.0
							if t > 0 {
								want = math.Hypot(c, s) / t
							}
							got := core.MeasureCoherenceWeighted(p, w)
							e.Check(math.Abs(got-want) < 1e-9, "weighted coherence of %v with weights %v is %v, want %v", p, w, got, want)
							e.Step(1)
						}
					})
				}
			}
		}
	}})
	// how far a swarm's agents are from a target phase, and how spread they are
	vs.AddEnum(&vs.Enum{Name: "swarm measures", Run: func(e *vs.E) {
		g := []float64{0, 0.05, 1, math.Pi / 2, 3, math.Pi, 4.5, 6.2}
		targets := []float64{0, 0.3, math.Pi / 2, math.Pi, 5, hx.TwoPi, 7, -1, -20, 100}
		check := func(s *swarm.Swarm, ph []float64) {
			i := 0
			s.ForEachAgent(func(a *agent.Agent) bool { a.SetPhase(ph[i]); i++; return true })
			e.Check(i == len(ph), "visited %d agents of %d", i, len(ph))
			e.Check(math.Abs(s.MeasureCoherence()-hx.Coh(ph)) < 1e-9, "phases %v: coherence %v, want %v", ph, s.MeasureCoherence(), hx.Coh(ph))
			for _, t := range targets {
				d := 0.0
				for _, p := range ph {
					d += hx.CD(p, t)
				}
				want := 1 - d/float64(len(ph))/math.Pi
				got := s.MeasurePhaseConvergence(t)
				e.Check(got >= 0 && got <= 1+1e-9 && math.Abs(got-want) < 1e-9, "phases %v target %v: convergence %v, want %v", ph, t, got, want)
				e.Step(1)
			}
			_, mean := coh(ph)
			if hx.Coh(ph) > 1e-3 {
				v := 0.0
				amb := false
				for _, p := range ph {
					v += hx.CD(p, mean) * hx.CD(p, mean)
				}
				v /= float64(len(ph))
				got := s.MeasurePhaseVariance()
				e.Check(amb || math.Abs(got-v) < 1e-6, "phases %v: variance %v, want %v", ph, got, v)
			}
		}
		for _, n := range []int{1, 2, 3, 4} {
			tot := 1
			for i := 0; i < n; i++ {
				tot *= len(g)
			}
			for k := 0; k < tot; k++ {
				e.Case(func() {
					e.Seq(vs.Options{}, func() {
						s, err := swarm.New(n, core.State{Phase: 1, Frequency: 1e8, Coherence: 0.5})
						if err != nil {
							e.Fail("%v", err)
							return
						}
						ph := make([]float64, n)
						for i, x := 0, k; i < n; i, x = i+1, x/len(g) {
							ph[i] = g[x%len(g)]
						}
						check(s, ph)
					})
				})
			}
		}
		sizes := []int{20, 21, 50, 51, 99, 100, 101, 102, 128, 150, 200, 201, 250, 257, 500, 501, 999, 1000, 1001, 1002, 1025}
		if e.Thorough() {
			sizes = append(sizes, 1500, 2000, 2001, 2500, 4097, 5000, 5001)
		}
		e.Param("swarms of %v agents, 8 patterns of phases", sizes)
		for _, n := range sizes {
			for mode := 0; mode < 8; mode++ {
				e.Case(func() {
					e.Seq(vs.Options{}, func() {
						s, err := swarm.New(n, core.State{Phase: 1, Frequency: 1e8, Coherence: 0.5})
						if err != nil {
							e.Fail("%v", err)
							return
						}
						ph := make([]float64, n)
						for i := range ph {
							switch mode {
							case 0:
								ph[i] = 2
							case 1:
								ph[i] = hx.TwoPi * float64(i) / float64(n)
							case 2:
								ph[i] = 1 + 0.01*float64(i)
							case 3, 6, 7:
								ph[i] = 0
								if i == map[int]int{3: n - 1, 6: 0, 7: n / 2}[mode] {
									ph[i] = 3
								}
							case 4:
								ph[i] = 1 + 2*float64(i%2)
							case 5:
								ph[i] = 2 * float64(i*3/n)
							}
						}
						check(s, ph)
					})
				})
			}
		}
	}})
	vs.Main()
}
