// C23: recorded phase patterns: gaps, completion, similarity and the template library.
package main

import (
	"fmt"
	"math"
	"time"

	mon "MODULE/emerge/monitoring"
	ie "MODULE/internal/emerge"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

// pat is what both implementations' patterns consist of.
type pat struct {
	ph   []float64
	fr   []time.Duration
	amp  float64
	per  time.Duration
	conf float64
}

type gap struct {
	a, b int
	d    time.Duration
}

type impl struct {
	name     string
	mk       func(ph []float64, fr []time.Duration) pat
	detect   func(p pat) []gap
	complete func(p pat, g gap) []float64
	sim      func(p pat, q *pat) float64
	matches  func(base pat, vars []pat, tol float64, p pat) bool
	identify func(add []string, lib map[string]pat, p pat) (string, float64)
}

func m1(p pat) mon.TargetPattern {
	return mon.TargetPattern{Phases: p.ph, Frequencies: p.fr, Amplitude: p.amp, Period: p.per, Confidence: p.conf}
}
func m2(p pat) ie.TargetPattern {
	return ie.TargetPattern{Phases: p.ph, Frequencies: p.fr, Amplitude: p.amp, Period: p.per, Confidence: p.conf}
}

var impls = []impl{
	{"emerge/monitoring", func(ph []float64, fr []time.Duration) pat {
		p := mon.NewTargetPattern(ph, fr)
		return pat{p.Phases, p.Frequencies, p.Amplitude, p.Period, p.Confidence}
	}, func(p pat) (r []gap) {
		x := m1(p)
		for _, g := range x.Detect() {
			r = append(r, gap{g.StartIdx, g.EndIdx, g.Duration})
		}
		return r
	}, func(p pat, g gap) []float64 {
		x := m1(p)
		return x.Complete(mon.PatternGap{StartIdx: g.a, EndIdx: g.b, Duration: g.d})
	}, func(p pat, q *pat) float64 {
		x := m1(p)
		if q == nil {
			return x.Similarity(nil)
		}
		y := m1(*q)
		return x.Similarity(&y)
	}, func(base pat, vars []pat, tol float64, p pat) bool {
		t := mon.PatternTemplate{BasePattern: m1(base), Tolerance: tol}
		for _, v := range vars {
			t.Variations = append(t.Variations, m1(v))
		}
		x := m1(p)
		return t.Matches(&x)
	}, func(add []string, lib map[string]pat, p pat) (string, float64) {
		l := mon.NewPatternLibrary()
		for _, n := range add {
			l.Add(n, &mon.PatternTemplate{Name: n, BasePattern: m1(lib[n])})
		}
		x := m1(p)
		return l.Identify(&x)
	}},
	{"internal/emerge", func(ph []float64, fr []time.Duration) pat {
		p := ie.NewTargetPattern(ph, fr)
		return pat{p.Phases, p.Frequencies, p.Amplitude, p.Period, p.Confidence}
	}, func(p pat) (r []gap) {
		x := m2(p)
		for _, g := range x.Detect() {
			r = append(r, gap{g.StartIdx, g.EndIdx, g.Duration})
		}
		return r
	}, func(p pat, g gap) []float64 {
		x := m2(p)
		return x.Complete(ie.PatternGap{StartIdx: g.a, EndIdx: g.b, Duration: g.d})
	}, func(p pat, q *pat) float64 {
		x := m2(p)
		if q == nil {
			return x.Similarity(nil)
		}
		y := m2(*q)
		return x.Similarity(&y)
	}, func(base pat, vars []pat, tol float64, p pat) bool {
		t := ie.PatternTemplate{BasePattern: m2(base), Tolerance: tol}
		for _, v := range vars {
			t.Variations = append(t.Variations, m2(v))
		}
		x := m2(p)
		return t.Matches(&x)
	}, func(add []string, lib map[string]pat, p pat) (string, float64) {
		l := ie.NewPatternLibrary()
		for _, n := range add {
			l.Add(n, &ie.PatternTemplate{Name: n, BasePattern: m2(lib[n])})
		}
		x := m2(p)
		return l.Identify(&x)
	}},
}

func near(a, b float64) bool { return math.Abs(a-b) < 1e-9*(1+math.Abs(a)+math.Abs(b)) }

// seqs calls f with every sequence over vals of length 0..n.
func seqs(vals []float64, n int, f func([]float64)) {
	var rec func(p []float64)
	rec = func(p []float64) {
		f(append([]float64{}, p...))
		if len(p) < n {
			for _, v := range vals {
				rec(append(p[:len(p):len(p)], v))
			}
		}
	}
	rec(nil)
}

var angles = []float64{0, 0.02, 0.8, math.Pi/2 - 0.02, math.Pi/2 + 0.02, 2.4, math.Pi - 0.02, math.Pi, 4, 3*math.Pi/2 + 0.02, 6.26, 7, -1, -4}

// jumps: construction, gap detection and the completion of every index pair
func jumps(e *vs.E) {
	n := 3
	if e.Thorough() {
		n = 4
	}
	e.Param("every phase sequence of length 0..%d over %d angles x 0..%d frequencies, every index pair from -1 to past the end", n, len(angles), n+1)
	seqs(angles, n, func(ph []float64) {
		e.Case(func() {
			for nf := 0; nf <= n+1; nf++ {
				fr := make([]time.Duration, nf)
				tot := 0.0
				for i := range fr {
					fr[i] = time.Duration((i + 1) * (i + 2) * 10001)
					tot += float64(fr[i])
				}
				for _, im := range impls {
					what := fmt.Sprintf("%s %v %v", im.name, ph, fr)
					p := im.mk(ph, fr)
					e.Check(fmt.Sprint(p.ph, p.fr) == fmt.Sprint(ph, fr) && p.conf == 1, "%s: built %+v", what, p)
					amp := 0.0
					if len(ph) > 1 {
						m, v := 0.0, 0.0
						for _, x := range ph {
							m += hx.Wrap(x) / float64(len(ph))
						}
						for _, x := range ph {
							v += (hx.Wrap(x) - m) * (hx.Wrap(x) - m)
						}
						amp = math.Sqrt(v / float64(len(ph)))
					}
					e.Check(math.Abs(p.amp-amp) < 1e-6, "%s: amplitude %v, want %v", what, p.amp, amp)
					if nf == 0 {
						e.Check(p.per == 0, "%s: period %v", what, p.per)
					} else {
						e.Check(math.Abs(float64(p.per)-tot/float64(nf)) <= 1, "%s: period %v, want %v", what, p.per, tot/float64(nf))
					}
					gs := im.detect(p)
					j := 0
					for i := 1; i < len(ph); i++ {
						want := hx.CD(ph[i], ph[i-1]) > math.Pi/2
						got := j < len(gs) && gs[j].b == i
						e.Check(want == got, "%s: gap at %d reported: %v (%v)", what, i, got, gs)
						if got {
							d := time.Duration(0)
							if i-1 < nf {
								d = fr[i-1]
							}
							e.Check(gs[j] == gap{i - 1, i, d}, "%s: gap %d is %+v", what, j, gs[j])
							j++
						}
					}
					e.Check(j == len(gs), "%s: gaps %v", what, gs)
					if nf != 1 {
						continue
					}
					for a := -1; a <= len(ph)+1; a++ {
						for b := -1; b <= len(ph)+1; b++ {
							fill(e, im, what, p, gap{a, b, 0})
						}
					}
				}
			}
			e.Step(1)
			e.Seen(fmt.Sprint(ph))
		})
	})
}

func fill(e *vs.E, im impl, what string, p pat, g gap) {
	before := fmt.Sprint(p)
	c := im.complete(p, g)
	e.Check(fmt.Sprint(p) == before, "%s: completing changed the pattern", what)
	if g.a < 0 || g.b >= len(p.ph) || g.a >= g.b {
		e.Check(len(c) == 0, "%s: completing the impossible gap %d..%d gave %v", what, g.a, g.b, c)
		return
	}
	n := g.b - g.a - 1
	e.Check(len(c) == n, "%s: gap %d..%d completed to %v", what, g.a, g.b, c)
	d := hx.Signed(p.ph[g.b], p.ph[g.a])
	for i, x := range c {
		f := float64(i+1) / float64(n+1)
		ok := hx.CD(x, p.ph[g.a]+f*d) < 1e-6 || math.Pi-math.Abs(d) < 1e-6 && hx.CD(x, p.ph[g.a]-f*d) < 1e-6
		e.Check(ok && x >= 0 && x < hx.TwoPi+1e-9, "%s: gap %d..%d completed to %v, point %d is not on the shorter arc", what, g.a, g.b, c, i)
	}
}

// long gaps: interpolation over up to 40 missing points
func longGaps(e *vs.E) {
	e.Param("gaps of 0..40 points between every pair of %d angles", len(angles))
	for n := 2; n <= 42; n++ {
		for _, a := range angles {
			e.Case(func() {
				for _, b := range angles {
					ph := make([]float64, n+2)
					ph[1], ph[n] = a, b
					for _, im := range impls {
						fill(e, im, fmt.Sprintf("%s %v..%v", im.name, a, b), pat{ph: ph}, gap{1, n, 0})
					}
					e.Step(1)
				}
				e.Seen(fmt.Sprint(n, a))
			})
		}
	}
}

func phaseSim(a, b []float64) float64 {
	if len(a) != len(b) || len(a) == 0 {
		return 0
	}
	s := 0.0
	for i := range a {
		s += 1 - hx.CD(a[i], b[i])/math.Pi
	}
	return s / float64(len(a))
}

func ratio(a, b float64) float64 {
	if a == b {
		return 1
	}
	return math.Min(a, b) / math.Max(a, b)
}

func mag(a []float64) float64 {
	m := 0.0
	for _, x := range a {
		m = math.Max(m, math.Abs(x))
	}
	return m
}

// unknown: both periods are 0, the listed finding
func unknown(e *vs.E, p, q pat, s float64) bool {
	return math.IsNaN(s) && p.per == 0 && q.per == 0 && len(p.ph) > 0 && len(q.ph) > 0 && e.Known("similarity-both-periods-0")
}

// want checks a similarity against the definition.
func want(e *vs.E, im impl, p, q pat, s float64) {
	what := fmt.Sprintf("%s: similarity of %+v and %+v is %v", im.name, p, q, s)
	e.Check(s >= -1e-12 && s <= 1+1e-12, "%s: outside [0,1]", what)
	if len(p.ph) == 0 || len(q.ph) == 0 {
		e.Check(s == 0, "%s: there are no phases", what)
		return
	}
	fixed := 0.3*ratio(p.amp, q.amp) + 0.3*ratio(float64(p.per), float64(q.per))
	ps := 0.4 * phaseSim(p.ph, q.ph)
	a, b := mag(p.ph), mag(q.ph)
	r := 1.0
	if a > 0 && b > 0 {
		r = math.Max(a/b, b/a)
	}
	if len(p.ph) != len(q.ph) || r <= 100*(1+1e-9) {
		e.Check(near(s, fixed+ps), "%s: want %v", what, fixed+ps)
		return
	}
	// reduced when the raw magnitudes differ more than a hundred times
	e.Check(s <= fixed+ps+1e-9 && s >= fixed-1e-9, "%s: want between %v and %v", what, fixed, fixed+ps)
	if r >= 110 && ps > 1e-6 {
		e.Check(s < fixed+ps*0.92, "%s: the scales differ %v times, but nothing is taken off %v", what, r, fixed+ps)
	}
}

func pats(e *vs.E) []pat {
	var r []pat
	n := 2
	vals := []float64{0, 0.01, 1, 2.5, math.Pi, 5, -2, 300}
	if e.Thorough() {
		n = 3
	}
	seqs(vals, n, func(ph []float64) {
		for i, per := range []time.Duration{0, 40 * time.Millisecond, 100 * time.Millisecond} {
			p := impls[0].mk(ph, nil)
			p.per = per
			r = append(r, p)
			if i == 1 && len(ph) < 3 { // amplitudes set by hand
				p.amp = 0
				r = append(r, p)
				p.amp = 2.5
				r = append(r, p)
			}
		}
	})
	return r
}

func similar(e *vs.E) {
	ps := pats(e)
	e.Param("every pair of %d patterns", len(ps))
	for i := range ps {
		e.Case(func() {
			p := ps[i]
			for _, im := range impls {
				e.Check(im.sim(p, nil) == 0, "%s: similarity to no pattern", im.name)
				for _, q := range ps {
					s, t := im.sim(p, &q), im.sim(q, &p)
					if unknown(e, p, q, s) && unknown(e, q, p, t) {
						continue
					}
					want(e, im, p, q, s)
					e.Check(near(s, t), "%s: similarity of %+v and %+v is %v one way and %v the other", im.name, p, q, s, t)
				}
				if s := im.sim(p, &p); !unknown(e, p, p, s) && len(p.ph) > 0 {
					e.Check(near(s, 1), "%s: similarity of %+v to itself is %v", im.name, p, s)
				}
				e.Step(len(ps))
			}
			e.Seen(fmt.Sprint(p))
		})
	}
}

var few = func() []pat {
	var r []pat
	for _, ph := range [][]float64{{0, 0}, {0, 1}, {0.1, 1.1}, {0.2, 1.1}, {3, 6}, {1, 2, 3}, {0.3}, {}} {
		for _, per := range []time.Duration{50 * time.Millisecond, 200 * time.Millisecond} {
			p := impls[0].mk(ph, []time.Duration{per})
			r = append(r, p)
		}
	}
	return r
}()

// templates: matching within the tolerance, base or any variation
func templates(e *vs.E) {
	tols := []float64{0, 0.05, 0.2, 0.5, 0.9, 1}
	e.Param("every base, up to 2 variations and pattern of %d x tolerances %v", len(few), tols)
	for _, b := range few {
		for vi := -1; vi < len(few); vi++ {
			e.Case(func() {
				for wi := -1; wi <= vi; wi++ {
					var vars []pat
					if vi >= 0 {
						vars = append(vars, few[vi])
					}
					if wi >= 0 {
						vars = append(vars, few[wi])
					}
					for _, p := range few {
						for _, im := range impls {
							best := im.sim(b, &p)
							for _, v := range vars {
								best = math.Max(best, im.sim(v, &p))
							}
							for _, tol := range tols {
								if math.Abs(best-(1-tol)) < 1e-9 && best != 1-tol {
									continue
								}
								e.Check(im.matches(b, vars, tol, p) == (best >= 1-tol), "%s: base %v variations %v tolerance %v pattern %v with similarity %v: matches %v", im.name, b, vars, tol, p, best, best < 1-tol)
								e.Step(1)
							}
						}
					}
				}
				e.Seen(fmt.Sprint(b, vi))
			})
		}
	}
}

// library: the most similar template, in every iteration order of the map
func library(e *vs.E) {
	e.Param("every library of 0..3 of %d templates, every pattern, every map order", len(few))
	names := []string{"a", "b", "c"}
	for i := -1; i < len(few); i++ {
		for j := -1; j < len(few); j++ {
			for k := -1; k < len(few); k++ {
				e.Case(func() {
					lib := map[string]pat{}
					var add []string
					for x, t := range []int{i, j, k} {
						if t >= 0 {
							lib[names[x]] = few[t]
							add = append(add, names[x])
						}
					}
					if len(add) > 1 { // a later template replaces an earlier one of its name
						add = append(add, add[0])
					}
					for _, p := range few {
						for _, im := range impls {
							best := 0.0
							for _, t := range lib {
								best = math.Max(best, im.sim(t, &p))
							}
							name, s := "", 0.0
							// every assignment of templates to names is a case, so the two directions reach every order
							for o := 0; o < 2; o++ {
								vs.SetMapOrder(o)
								name, s = im.identify(add, lib, p)
								e.Check(near(s, best), "%s: similarity %v of %q, the best is %v", im.name, s, name, best)
								if best == 0 {
									e.Check(name == "", "%s: %q identified at similarity 0", im.name, name)
									continue
								}
								t, ok := lib[name]
								e.Check(ok && near(im.sim(t, &p), best), "%s: %v identified as %q, similarity %v of %v", im.name, p, name, s, best)
							}
							vs.SetMapOrder(0)
						}
						e.Step(len(impls))
					}
					e.Seen(fmt.Sprint(i, j, k))
				})
			}
		}
	}
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "construction, gap detection and completion", Run: jumps})
	vs.AddEnum(&vs.Enum{Name: "long gaps", Run: longGaps})
	vs.AddEnum(&vs.Enum{Name: "similarity of every pair of patterns", Run: similar})
	vs.AddEnum(&vs.Enum{Name: "template matching", Run: templates})
	vs.AddEnum(&vs.Enum{Name: "library", Run: library})
	vs.Main()
}
