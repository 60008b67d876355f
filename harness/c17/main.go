// C17: the convergence trend monitor judges progress from exactly the recorded samples.
package main

import (
	"fmt"
	"math"
	"time"

	"MODULE/emerge/convergence"
	"MODULE/emerge/core"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/lin"
	"MODULE/zzverif/vs"
)

const ms = time.Millisecond

type sample struct {
	t    time.Time
	d, v float64
}

type model struct {
	w     int
	h     []sample // the samples kept
	conv  bool
	stuck int
	amb   bool
}

func newModel(w int) *model {
	if w <= 0 {
		w = 10
	}
	return &model{w: w}
}

func slope(y []float64) float64 {
	n := float64(len(y))
	mx, my := (n-1)/2, 0.0
	for _, v := range y {
		my += v / n
	}
	a, b := 0.0, 0.0
	for i, v := range y {
		a += (float64(i) - mx) * (v - my)
		b += (float64(i) - mx) * (float64(i) - mx)
	}
	return a / b
}

func (m *model) recent() []sample {
	if len(m.h) > m.w {
		return m.h[len(m.h)-m.w:]
	}
	return m.h
}

func (m *model) record(d float64, t time.Time) {
	s := sample{t: t, d: d}
	if len(m.h) > 0 {
		l := m.h[len(m.h)-1]
		if dt := t.Sub(l.t).Seconds(); dt > 0 {
			s.v = (d - l.d) / dt
		}
	}
	m.h = append(append([]sample{}, m.h...), s)
	if len(m.h) > 2*m.w {
		m.h = m.h[len(m.h)-m.w:]
	}
	r := m.recent()
	if len(r) < 3 {
		m.conv = false
		return
	}
	var y []float64
	for _, s := range r {
		y = append(y, s.d)
	}
	tr := slope(y)
	if math.Abs(math.Abs(tr)-0.001) < 1e-9 {
		m.amb = true
	}
	m.conv = tr < -0.001
	if math.Abs(tr) < 0.001 {
		m.stuck++
	} else {
		m.stuck = 0
	}
}

func (m *model) reset() { m.h, m.conv, m.stuck = nil, false, 0 }

func (m *model) progress() float64 {
	if len(m.h) == 0 {
		return 0
	}
	f, l := m.h[0].d, m.h[len(m.h)-1].d
	if f <= 0 {
		return 1
	}
	return hx.Clamp01(1 - l/f)
}

func (m *model) rate() float64 {
	if len(m.h) < 2 {
		return 0
	}
	s, n := 0.0, 0.0
	for _, x := range m.recent() {
		if x.v != 0 {
			s += x.v
			n++
		}
	}
	if n == 0 {
		return 0
	}
	return s / n
}

// swtch: more than 70% of at least 3 recent samples do not improve
func (m *model) swtch() bool {
	r := m.recent()
	if len(r) < 3 {
		return false
	}
	k := 0
	for _, x := range r {
		if x.v >= -0.001 {
			k++
		}
	}
	return float64(k) > 0.7*float64(len(r))
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-6*math.Max(1, math.Abs(b)) }

func (m *model) check(e *vs.E, r *convergence.Monitor, what string) {
	if m.amb {
		return
	}
	e.Check(r.IsConverging() == m.conv, "%s: converging %v, want %v", what, r.IsConverging(), m.conv)
	e.Check(r.IsStuck() == (m.stuck > 5), "%s: stuck %v, want %v (no trend %d times in a row)", what, r.IsStuck(), m.stuck > 5, m.stuck)
	p := r.GetProgress()
	e.Check(near(p, m.progress()) && p >= 0 && p <= 1, "%s: progress %v, want %v", what, p, m.progress())
	e.Check(near(r.GetConvergenceRate(), m.rate()), "%s: rate %v, want %v", what, r.GetConvergenceRate(), m.rate())
	e.Check(r.ShouldSwitchStrategy() == m.swtch(), "%s: switch strategy %v, want %v", what, r.ShouldSwitchStrategy(), m.swtch())
	e.Step(1)
}

// at makes a pattern at distance d (0..0.3) from the target.
func at(d float64) *core.TargetPattern {
	return &core.TargetPattern{Phase: 1, Frequency: 100 * ms, Coherence: 1 - d/0.3}
}

var target = &core.TargetPattern{Phase: 1, Frequency: 100 * ms, Coherence: 1}

func dist(p *core.TargetPattern) float64 { return 0.3 * math.Abs(target.Coherence-p.Coherence) }

func seqs(e *vs.E) {
	depth := 6
	if e.Thorough() {
		depth = 8
	}
	lv := []float64{0.3, 0.15, 0.149, 0}
	n := len(lv) + 1
	total := 1
	for i := 0; i < depth; i++ {
		total *= n
	}
	e.Param("windows -1..5 and 10 x all sequences of %d operations (4 distances, reset), with and without time passing", depth)
	for _, w := range []int{-1, 0, 1, 2, 3, 4, 5, 10} {
		for _, dt := range []time.Duration{0, 100 * ms, 2 * time.Second} {
			for x := 0; x < total && !e.Stop(); x++ {
				e.Case(func() {
					e.Seq(vs.Options{}, func() {
						r := convergence.NewMonitor(w)
						r.SetTarget(target)
						m := newModel(w)
						what := fmt.Sprintf("window %d, every %v:", w, dt)
						if x == 0 {
							m.check(e, r, what)
						}
						y := x
						for i := 0; i < depth; i++ {
							if dt > 0 {
								vs.Sleep(dt)
							}
							if c := y % n; c < len(lv) {
								p := at(lv[c])
								m.record(dist(p), vs.Peek())
								r.RecordSample(p, p.Coherence)
								what += fmt.Sprint(" ", lv[c])
							} else {
								r.Reset()
								m.reset()
								what += " reset"
							}
							y /= n
							if y == 0 || i == depth-1 {
								m.check(e, r, what)
							}
						}
						e.Seen(fmt.Sprint(w, m.conv, m.stuck, len(m.h), m.progress()))
					})
				})
			}
		}
	}
}

// ramps cross the thresholds of trend and velocity and the trimming of the history
func ramps(e *vs.E) {
	slopes := []float64{-0.01, -0.0011, -0.0009, 0, 0.0009, 0.0011}
	e.Param("windows 3..12 x two-slope ramps with the change after 0..24 of 50 samples, then a reset and another ramp")
	ws := []int{3, 4, 5, 7, 10, 12}
	if e.Thorough() {
		ws = []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 25}
		slopes = append(slopes, -0.002, -0.0001, 0.004)
	}
	for _, w := range ws {
		for _, a := range slopes {
			for _, b := range slopes {
				for i := 0; i < 25 && !e.Stop(); i++ {
					e.Case(func() {
						e.Seq(vs.Options{}, func() {
							r := convergence.NewMonitor(w)
							r.SetTarget(target)
							m := newModel(w)
							for round := 0; round < 2; round++ {
								d := 0.2
								for t := 0; t < 50; t++ {
									if t < i {
										d += a
									} else {
										d += b
									}
									d = math.Max(0, math.Min(0.29, d))
									vs.Sleep(time.Second)
									p := at(d)
									m.record(dist(p), vs.Peek())
									r.RecordSample(p, p.Coherence)
									if math.Abs(math.Abs(d-0.2)) > 1e-12 {
										m.check(e, r, fmt.Sprintf("window %d slope %v, then %v after %d samples; round %d sample %d", w, a, b, i, round, t))
									}
								}
								r.Reset()
								m.reset()
								m.amb = false
								m.check(e, r, "after a reset")
							}
							e.Seen(fmt.Sprint(w, a, b, i))
						})
					})
				}
			}
		}
	}
}

// distances mixes phase and frequency too: the monitor measures with the documented pattern distance
func distances(e *vs.E) {
	for _, ph := range []float64{0, 0.5, 1, 3, 4.1, 6} {
		for _, f := range []time.Duration{0, 50 * ms, 100 * ms, 150 * ms, 500 * ms} {
			for _, c := range []float64{0, 0.4, 1} {
				for _, tc := range []float64{0.5, 1} {
					e.Case(func() {
						e.Seq(vs.Options{}, func() {
							r := convergence.NewMonitor(3)
							m := newModel(3)
							tg := &core.TargetPattern{Phase: 1, Frequency: 100 * ms, Coherence: tc}
							r.SetTarget(tg)
							ref := func(p *core.TargetPattern) float64 {
								return 0.4*hx.CD(p.Phase, tg.Phase)/math.Pi + 0.3*math.Min(1, math.Abs(float64(p.Frequency-tg.Frequency))/float64(tg.Frequency)) + 0.3*math.Abs(tc-p.Coherence)
							}
							for i, p := range []*core.TargetPattern{{Phase: 4, Frequency: 300 * ms, Coherence: 0.1}, {Phase: ph, Frequency: f, Coherence: c}, {Phase: 1.2, Frequency: 110 * ms, Coherence: 0.45}, {Phase: ph, Frequency: f, Coherence: c}} {
								vs.Sleep(time.Second)
								m.record(ref(p), vs.Peek())
								r.RecordSample(p, p.Coherence)
								m.check(e, r, fmt.Sprintf("phase %v frequency %v coherence %v target %v, sample %d", ph, f, c, tc, i))
							}
							e.Seen(fmt.Sprint(ph, f, c, tc))
						})
					})
				}
			}
		}
	}
}

type op struct {
	name string
	d    float64
}

func scen(name string, w int, init []float64, progs [][]op, pre, preT int) {
	body := func() {
		r := convergence.NewMonitor(w)
		r.SetTarget(target)
		m0 := newModel(w)
		for _, d := range init {
			m0.record(dist(at(d)), vs.Peek())
			r.RecordSample(at(d), 0.5)
		}
		logs := make([]*lin.Log, len(progs))
		var js []func()
		for i, p := range progs {
			logs[i] = &lin.Log{Thread: i}
			js = append(js, vs.GoJ(func() {
				for _, o := range p {
					logs[i].Do(o.name, o.d, func() any {
						switch o.name {
						case "record":
							r.RecordSample(at(o.d), 0.5)
						case "reset":
							r.Reset()
						case "target":
							r.SetTarget(target)
						case "progress":
							return r.GetProgress()
						case "switch":
							return r.ShouldSwitchStrategy()
						case "converging":
							return r.IsConverging()
						case "stuck":
							return r.IsStuck()
						}
						return nil
					})
				}
			}))
		}
		for _, j := range js {
			j()
		}
		fp, fs, fc, fk := r.GetProgress(), r.ShouldSwitchStrategy(), r.IsConverging(), r.IsStuck()
		vs.Outcome("%v %v %v %v", fp, fs, fc, fk)
		ops := lin.Merge(logs...)
		if !lin.Check(*m0, ops, func(m model, o lin.Op) (model, bool) {
			switch o.Name {
			case "record":
				m.record(dist(at(o.Arg.(float64))), vs.Peek())
			case "reset":
				m.reset()
			case "progress":
				return m, near(o.Out.(float64), m.progress())
			case "switch":
				return m, o.Out.(bool) == m.swtch()
			case "converging":
				return m, o.Out.(bool) == m.conv
			case "stuck":
				return m, o.Out.(bool) == (m.stuck > 5)
			}
			return m, true
		}, func(m model) string { return fmt.Sprint(m.h, m.conv, m.stuck) }, func(m model) bool {
			return near(fp, m.progress()) && fs == m.swtch() && fc == m.conv && fk == (m.stuck > 5)
		}) {
			vs.Fail("no sequential order explains these results; at the end progress %v switch %v converging %v stuck %v; %s", fp, fs, fc, fk, lin.String(ops))
		}
	}
	vs.Add(&vs.Scenario{Name: name, Opt: vs.Options{Preemptions: pre}, Thorough: &vs.Options{Preemptions: preT}, Body: body})
	vs.Add(&vs.Scenario{Name: "race/" + name, Race: true, Opt: vs.Options{Preemptions: 1}, Thorough: &vs.Options{Preemptions: 2}, Body: body})
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "sequences", Run: seqs})
	vs.AddEnum(&vs.Enum{Name: "ramps", Run: ramps})
	vs.AddEnum(&vs.Enum{Name: "distances", Run: distances})
	flat := []float64{0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1}
	scen("records", 3, []float64{0.3, 0.25}, [][]op{{{"record", 0.2}, {"record", 0.1}}, {{"record", 0.05}, {"progress", 0}}, {{"switch", 0}, {"converging", 0}}}, 2, 3)
	scen("reset", 3, []float64{0.3, 0.2, 0.1}, [][]op{{{"record", 0.2}, {"progress", 0}}, {{"reset", 0}, {"record", 0.1}}, {{"converging", 0}, {"progress", 0}}}, 2, 3)
	scen("stuck", 3, flat, [][]op{{{"record", 0.1}, {"stuck", 0}}, {{"reset", 0}, {"progress", 0}}, {{"record", 0.1}}}, 2, 3)
	scen("target", 2, []float64{0.3, 0.2, 0.1}, [][]op{{{"record", 0.2}, {"record", 0.1}}, {{"target", 0}, {"reset", 0}}, {{"target", 0}, {"progress", 0}}}, 2, 3)
	vs.Main()
}
