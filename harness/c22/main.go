// C22: completing a pattern moves it toward its template or target and never past it.
package main

import (
	"fmt"
	"math"
	"time"

	"MODULE/emerge/completion"
	"MODULE/emerge/core"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

const ms = time.Millisecond

func dist(a, b *core.TargetPattern) float64 {
	f := 0.0
	if b.Frequency > 0 {
		f = math.Min(1, math.Abs(float64(a.Frequency-b.Frequency))/float64(b.Frequency))
	}
	return 0.4*hx.CD(a.Phase, b.Phase)/math.Pi + 0.3*f + 0.3*math.Abs(a.Coherence-b.Coherence)
}

var defaults = []*core.TargetPattern{
	{Phase: 0, Frequency: 250 * ms, Coherence: 1, Amplitude: 1, Stability: 1, Waveform: sine(100)},
	{Phase: 0, Frequency: 250 * ms, Coherence: 0.65, Amplitude: 0.8, Stability: 0.7, Waveform: sine(100)},
	{Phase: 0, Frequency: 200 * ms, Coherence: 0.5, Amplitude: 0.6, Stability: 0.5, Waveform: sine(100)},
}

func sine(n int) []float64 {
	w := make([]float64, n)
	for i := range w {
		w[i] = math.Sin(hx.TwoPi * float64(i) / float64(n))
	}
	return w
}

// nearest lists the templates an engine may choose; nil: none matches for sure, ok false: too close to tell.
func nearest(cur *core.TargetPattern, ts []*core.TargetPattern) (best []*core.TargetPattern, ok bool) {
	d := 0.7
	for _, t := range ts {
		d = math.Min(d, dist(cur, t))
	}
	for _, t := range ts {
		x := dist(cur, t)
		if math.Abs(x-0.7) < 1e-9 && x-d < 1e-9 {
			return nil, false
		}
		if x-d < 1e-9 && x < 0.7 {
			best = append(best, t)
		}
	}
	return best, true
}

type set struct {
	name string
	ts   []*core.TargetPattern
	mk   func() *completion.Engine
}

func sets() []set {
	var r []set
	add := func(name string, ts ...*core.TargetPattern) {
		r = append(r, set{name, ts, func() *completion.Engine {
			en := completion.NewEngine()
			for i, t := range ts {
				en.AddTemplate(fmt.Sprint("t", i), t)
			}
			return en
		}})
	}
	add("no templates")
	r = append(r, set{"the default templates", defaults, func() *completion.Engine {
		en := completion.NewEngine()
		en.LoadDefaultTemplates()
		return en
	}})
	add("one far template", &core.TargetPattern{Phase: 3, Frequency: 900 * ms, Coherence: 0.1})
	add("three templates", &core.TargetPattern{Phase: 1, Frequency: 100 * ms, Coherence: 0.9, Waveform: []float64{1, -1, 1}}, &core.TargetPattern{Phase: 4, Frequency: 300 * ms, Coherence: 0.4}, &core.TargetPattern{Phase: 6, Frequency: 50 * ms, Coherence: 0.6, Waveform: []float64{0.5}})
	// replacing a template forgets the old one
	r = append(r, set{"a replaced template", []*core.TargetPattern{{Phase: 2, Frequency: 100 * ms, Coherence: 0.5}}, func() *completion.Engine {
		en := completion.NewEngine()
		en.AddTemplate("x", &core.TargetPattern{Phase: 1, Frequency: 100 * ms, Coherence: 0.5})
		en.AddTemplate("x", &core.TargetPattern{Phase: 2, Frequency: 100 * ms, Coherence: 0.5})
		return en
	}})
	return r
}

func near(a, b float64) bool { return math.Abs(a-b) < 1e-6 }

// explains tells whether the completion is what the gaps and the template (nil: none) require.
func explains(c *completion.CompletedPattern, cur *core.TargetPattern, gaps []core.PatternGap, t *core.TargetPattern) string {
	want := map[string]any{}
	for _, g := range gaps {
		w := g.Severity
		if t == nil {
			w = math.Min(w, 0.5)
		}
		switch g.Type {
		case "phase":
			to, from := g.Target, g.Current
			if t != nil {
				to, from = t.Phase, cur.Phase
			}
			d := hx.Signed(to, from)
			want["phase"] = [2]float64{hx.Wrap(from + w*d), hx.Wrap(from - w*d)}
			if math.Pi-math.Abs(d) > 1e-9 {
				want["phase"] = [2]float64{hx.Wrap(from + w*d), hx.Wrap(from + w*d)}
			}
		case "frequency":
			to, from := g.Target, g.Current
			if t != nil {
				to, from = float64(t.Frequency), float64(cur.Frequency)
			}
			want["frequency"] = from + w*(to-from)
		case "coherence":
			want["coherence_boost"] = (g.Target - g.Current) * w
			if t != nil {
				want["coherence_boost"] = t.Coherence * w
			}
		case "waveform":
			if t != nil && len(t.Waveform) > 0 {
				a, b := cur.Waveform, t.Waveform
				if len(a) == 0 {
					want["waveform"] = b
					break
				}
				n := len(a)
				if len(b) > n {
					n = len(b)
				}
				m := make([]float64, n)
				for i := range m {
					m[i] = a[i*len(a)/n]*(1-w) + b[i*len(b)/n]*w
				}
				want["waveform"] = m
			}
		}
	}
	if len(want) != len(c.Filled) {
		return fmt.Sprintf("filled %v, want %v", c.Filled, want)
	}
	for k, w := range want {
		g := c.Filled[k]
		ok := false
		switch w := w.(type) {
		case [2]float64:
			x, isf := g.(float64)
			ok = isf && x >= 0 && x <= hx.TwoPi && (hx.CD(x, w[0]) < 1e-6 || hx.CD(x, w[1]) < 1e-6)
		case []float64:
			x, isf := g.([]float64)
			ok = isf && len(x) == len(w)
			for i := range w {
				ok = ok && near(x[i], w[i])
			}
		case float64:
			if k == "frequency" {
				x, isd := g.(time.Duration)
				ok = isd && math.Abs(float64(x)-w) < 2
			} else {
				x, isf := g.(float64)
				ok = isf && near(x, w)
			}
		}
		if !ok {
			return fmt.Sprintf("filled %s with %v, want %v", k, g, w)
		}
	}
	return ""
}

func one(e *vs.E, s set, cur *core.TargetPattern, gaps []core.PatternGap, what string) {
	en := s.mk()
	best, ok := nearest(cur, s.ts)
	if !ok {
		return
	}
	before := fmt.Sprint(*cur, gaps)
	c := en.CompletePattern(cur, gaps)
	e.Check(c != nil && c.Base == cur, "%s: the completion is not based on the current pattern", what)
	e.Check(fmt.Sprint(*cur, gaps) == before, "%s: completing changed its input", what)
	why := ""
	if len(best) == 0 {
		why = explains(c, cur, gaps, nil)
	} else {
		for i, t := range best {
			x := explains(c, cur, gaps, t)
			if x == "" {
				why = ""
				break
			}
			if i == 0 {
				why = x
			}
		}
	}
	e.Check(why == "", "%s, %s: %s", s.name, what, why)
	// adjustments are what leads from the pattern to the completed values
	pa, fa := c.GetPhaseAdjustment(), c.GetFrequencyAdjustment()
	if p, ok := c.Filled["phase"].(float64); ok {
		e.Check(math.Abs(pa) <= math.Pi+1e-9 && hx.CD(cur.Phase+pa, p) < 1e-6, "%s: the adjustment %v does not lead from %v to %v", what, pa, cur.Phase, p)
	} else {
		e.Check(pa == 0, "%s: phase adjustment %v without a phase gap", what, pa)
	}
	if f, ok := c.Filled["frequency"].(time.Duration); ok {
		e.Check(cur.Frequency+fa == f, "%s: the adjustment %v does not lead from %v to %v", what, fa, cur.Frequency, f)
		e.Check(f > 0 || cur.Frequency <= 0, "%s: completed to the frequency %v", what, f)
	} else {
		e.Check(fa == 0, "%s: frequency adjustment %v without a gap", what, fa)
	}
	e.Step(1)
}

var phs = []float64{0, 0.05, 0.5, 1, 2, math.Pi - 0.01, 3.5, 4.5, 6.2}
var fqs = []time.Duration{1 * ms, 50 * ms, 96 * ms, 100 * ms, 240 * ms, 400 * ms, 2000 * ms}
var cos = []float64{0, 0.3, 0.52, 0.6, 0.825, 0.97, 1}

// real gaps, as the swarm finds them
func real(e *vs.E) {
	ss := sets()
	p, f, c := phs, fqs, cos
	if e.Thorough() {
		for i := 0; i < 20; i++ {
			p = append(p, float64(i)*0.33)
		}
		f = append(f, 99*ms, 105*ms, 106*ms, 250*ms, 500*ms)
		c = append(c, 0.1, 0.2, 0.4, 0.5, 0.7, 0.9)
	}
	e.Param("%d template sets x %d current x %d target patterns", len(ss), len(p)*len(f)*len(c), 5*4*3)
	for _, s := range ss {
		for _, p1 := range p {
			for _, f1 := range f {
				e.Case(func() {
					for _, c1 := range c {
						for _, p2 := range []float64{0, 1, 3, 4.7, 6.1} {
							for _, f2 := range []time.Duration{50 * ms, 100 * ms, 250 * ms, 1000 * ms} {
								for _, c2 := range []float64{0.2, 0.65, 1} {
									cur := &core.TargetPattern{Phase: p1, Frequency: f1, Coherence: c1}
									tgt := &core.TargetPattern{Phase: p2, Frequency: f2, Coherence: c2}
									one(e, s, cur, core.IdentifyGaps(cur, tgt), fmt.Sprintf("from %v/%v/%v to %v/%v/%v", p1, f1, c1, p2, f2, c2))
								}
							}
						}
					}
					e.Seen(fmt.Sprint(s.name, p1, f1))
				})
			}
		}
	}
}

// every subset of gap types at every severity
func subsets(e *vs.E) {
	ss := sets()
	sev := []float64{0, 0.01, 0.3, 0.5, 0.51, 0.8, 1}
	e.Param("%d template sets x all subsets of 5 gap types x severities %v", len(ss), sev)
	waves := [][]float64{nil, {}, {1}, {0.2, -0.4}, sine(7), sine(100), sine(130)}
	for _, s := range ss {
		for mask := 0; mask < 32; mask++ {
			for wi, w := range waves {
				e.Case(func() {
					for _, v := range sev {
						for _, p1 := range []float64{0, 1.5, 3.3, 5} {
							cur := &core.TargetPattern{Phase: p1, Frequency: 120 * ms, Coherence: 0.5, Waveform: w}
							var gaps []core.PatternGap
							for i, t := range []core.PatternGap{{Type: "phase", Current: p1, Target: 4}, {Type: "frequency", Current: float64(120 * ms), Target: float64(300 * ms)}, {Type: "coherence", Current: 0.5, Target: 0.9}, {Type: "waveform"}, {Type: "no such gap", Current: 1, Target: 2}} {
								if mask&(1<<i) != 0 {
									t.Severity = v
									gaps = append(gaps, t)
								}
							}
							one(e, s, cur, gaps, fmt.Sprintf("gaps %05b severity %v phase %v waveform %d", mask, v, p1, wi))
						}
					}
					e.Seen(fmt.Sprint(s.name, mask, wi))
				})
			}
		}
	}
}

// without a template, repeated completion approaches the target monotonically and gets there
func approach(e *vs.E) {
	e.Param("every pair of %d x %d patterns, stepped until no gap is left", len(phs)*len(fqs), 5*4)
	for _, p1 := range phs {
		for _, f1 := range fqs {
			e.Case(func() {
				for _, p2 := range []float64{0, 1, 3, 4.7, 6.1} {
					for _, f2 := range []time.Duration{50 * ms, 100 * ms, 250 * ms, 1000 * ms} {
						en := completion.NewEngine()
						cur := &core.TargetPattern{Phase: p1, Frequency: f1, Coherence: 0.9}
						tgt := &core.TargetPattern{Phase: p2, Frequency: f2, Coherence: 0.9}
						n := 0
						for ; n < 2000; n++ {
							gaps := core.IdentifyGaps(cur, tgt)
							if len(gaps) == 0 {
								break
							}
							dp, df := hx.CD(cur.Phase, p2), math.Abs(float64(cur.Frequency-f2))
							c := en.CompletePattern(cur, gaps)
							cur.Phase = hx.Wrap(cur.Phase + c.GetPhaseAdjustment())
							cur.Frequency += c.GetFrequencyAdjustment()
							side := float64(cur.Frequency - f2)
							if f1 < f2 {
								side = -side
							}
							e.Check(hx.CD(cur.Phase, p2) <= dp+1e-9 && math.Abs(side) <= df+1 && side >= -1, "from %v/%v to %v/%v, step %d moved away to %v/%v", p1, f1, p2, f2, n, cur.Phase, cur.Frequency)
							e.Step(1)
						}
						e.Check(n < 2000, "from %v/%v to %v/%v: not there after %d steps (%v/%v)", p1, f1, p2, f2, n, cur.Phase, cur.Frequency)
						e.Seen(fmt.Sprint(p1, f1, p2, f2))
					}
				}
			})
		}
	}
	for n := 0; n < 300; n++ {
		e.Case(func() {
			w := core.GenerateSineWave(n)
			e.Check(len(w) == n, "%d points of %d", len(w), n)
			for i, x := range w {
				e.Check(near(x, sine(n)[i]), "point %d of %d is %v", i, n, x)
			}
		})
	}
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "found gaps", Run: real})
	vs.AddEnum(&vs.Enum{Name: "gap subsets", Run: subsets})
	vs.AddEnum(&vs.Enum{Name: "approach", Run: approach})
	body := func() {
		en := completion.NewEngine()
		a := &core.TargetPattern{Phase: 1, Frequency: 100 * ms, Coherence: 0.5}
		b := &core.TargetPattern{Phase: 2, Frequency: 200 * ms, Coherence: 0.5}
		cur := &core.TargetPattern{Phase: 1.5, Frequency: 150 * ms, Coherence: 0.5}
		gaps := []core.PatternGap{{Type: "phase", Current: 1.5, Target: 3, Severity: 0.5}, {Type: "frequency", Current: float64(150 * ms), Target: float64(300 * ms), Severity: 0.5}}
		j1 := vs.GoJ(func() { en.AddTemplate("a", a); en.AddTemplate("b", b) })
		j2 := vs.GoJ(func() { en.AddTemplate("a", b) })
		var r1, r2 *completion.CompletedPattern
		j3 := vs.GoJ(func() { r1 = en.CompletePattern(cur, gaps); r2 = en.CompletePattern(cur, gaps) })
		j1()
		j2()
		j3()
		for _, r := range []*completion.CompletedPattern{r1, r2} {
			x := explains(r, cur, gaps, nil)
			for _, t := range []*core.TargetPattern{a, b} {
				if x != "" {
					x = explains(r, cur, gaps, t)
				}
			}
			if x != "" {
				vs.Fail("a completion mixes templates: %v", r.Filled)
			}
		}
		vs.Outcome("%v %v", r1.Filled, r2.Filled)
	}
	vs.Add(&vs.Scenario{Name: "learning while completing", Opt: vs.Options{Preemptions: 3}, Thorough: &vs.Options{Preemptions: 5}, Body: body})
	vs.Add(&vs.Scenario{Name: "race/learning while completing", Race: true, Opt: vs.Options{Preemptions: 2}, Body: body})
	vs.Main()
}
