// C16: the convergence record tells the truth about the coherence history.
package main

import (
	"fmt"
	"math"
	"time"

	"MODULE/emerge/agent"
	"MODULE/emerge/core"
	"MODULE/emerge/monitoring"
	"MODULE/emerge/swarm"
	"MODULE/internal/config"
	iem "MODULE/internal/emerge"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/lin"
	context "MODULE/zzverif/vcontext"
	"MODULE/zzverif/vs"
)

const ms = time.Millisecond

type mon interface {
	Record(float64)
	Reset()
	IsConverged() bool
	ConvergenceTime() time.Duration
	CurrentCoherence() float64
	ConvergenceRate() float64
	Stability() float64
	PredictConvergenceTime() time.Duration
	History() []float64
	Statistics() map[string]any
}

var kinds = []struct {
	name string
	mk   func(thr float64) mon
}{
	{"monitoring", func(t float64) mon { return monitoring.NewConvergence(core.State{}, t) }},
	{"internal", func(t float64) mon { return iem.NewConvergenceMonitor(core.State{}, t) }},
}

// model is the reference: the samples since the last reset and when they were taken.
type model struct {
	thr   float64
	start time.Time
	h     []float64
	at    []time.Time
}

func (m *model) conv() (time.Duration, bool) {
	// the first sample of the trailing run at or above the threshold
	i := len(m.h)
	for i > 0 && m.h[i-1] >= m.thr {
		i--
	}
	if i == len(m.h) {
		return 0, false
	}
	return m.at[i].Sub(m.start), true
}

func mean(x []float64) float64 {
	s := 0.0
	for _, v := range x {
		s += v
	}
	return s / float64(len(x))
}

func std(x []float64) float64 {
	m, s := mean(x), 0.0
	for _, v := range x {
		s += (v - m) * (v - m)
	}
	return math.Sqrt(s / float64(len(x)))
}

func tail(x []float64, n int) []float64 {
	if len(x) > n {
		return x[len(x)-n:]
	}
	return x
}

// slope is the least-squares slope per sample.
func slope(y []float64) float64 {
	if len(y) < 2 {
		return 0
	}
	mx, my := float64(len(y)-1)/2, mean(y)
	a, b := 0.0, 0.0
	for i, v := range y {
		a += (float64(i) - mx) * (v - my)
		b += (float64(i) - mx) * (float64(i) - mx)
	}
	return a / b
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-7*math.Max(1, math.Abs(b)) }

func (m *model) check(e *vs.E, r mon, what string) {
	ct, cv := m.conv()
	e.Check(r.IsConverged() == cv, "%s: converged %v, want %v", what, r.IsConverged(), cv)
	e.Check(r.ConvergenceTime() == ct, "%s: convergence time %v, want %v", what, r.ConvergenceTime(), ct)
	cur := 0.0
	max, min := 0.0, 1.0
	for _, v := range m.h {
		cur = v
		max, min = math.Max(max, v), math.Min(min, v)
	}
	e.Check(r.CurrentCoherence() == cur, "%s: current coherence %v, want %v", what, r.CurrentCoherence(), cur)
	rate := slope(tail(m.h, 10))
	e.Check(near(r.ConvergenceRate(), rate), "%s: rate %v, want %v", what, r.ConvergenceRate(), rate)
	stab := 1.0
	if len(m.h) >= 2 {
		stab = math.Exp(-10 * std(tail(m.h, 20)))
	}
	e.Check(near(r.Stability(), stab), "%s: stability %v, want %v", what, r.Stability(), stab)
	pred := 0.0
	amb := math.Abs(rate) < 1e-9
	if !cv && rate > 0 && cur < m.thr {
		pred = (m.thr - cur) / rate * 1e8
	}
	p := r.PredictConvergenceTime()
	e.Check(amb || math.Abs(float64(p)-pred) <= 1e-6*pred+2, "%s: predicts %v to convergence, want %v", what, p, time.Duration(pred))
	hist := r.History()
	e.Check(fmt.Sprint(hist) == fmt.Sprint(append([]float64{}, m.h...)), "%s: history %v, want %v", what, hist, m.h)
	for i := range hist {
		hist[i] = 77 // the history handed out is the caller's own
	}
	st := r.Statistics()
	e.Check(st["samples"] == len(m.h) && st["current_coherence"] == cur && st["converged"] == cv && st["target_coherence"] == m.thr && st["max"] == max && st["min"] == min,
		"%s: statistics %v; want samples %d, current %v, converged %v, target %v, max %v, min %v", what, st, len(m.h), cur, cv, m.thr, max, min)
	f := func(k string, want float64, has bool) {
		v, ok := st[k].(float64)
		e.Check(ok == has && (!has || near(v, want)), "%s: statistics say %s = %v, want %v (present: %v)", what, k, st[k], want, has)
	}
	f("convergence_time", ct.Seconds(), cv)
	f("convergence_rate", rate, true)
	f("stability", stab, true)
	if len(m.h) > 0 {
		f("mean", mean(m.h), true)
		f("std_dev", std(m.h), true)
	} else {
		f("mean", 0, false)
		f("std_dev", 0, false)
	}
	if !amb {
		f("predicted_convergence_time", pred/1e9, pred >= 1)
	}
	e.Step(1)
}

func (m *model) rec(r mon, v float64, after time.Duration) {
	vs.Sleep(after)
	m.h = append(m.h, v)
	m.at = append(m.at, vs.Peek())
	r.Record(v)
}

func (m *model) reset(r mon, after time.Duration) {
	vs.Sleep(after)
	r.Reset()
	m.h, m.at, m.start = nil, nil, vs.Peek()
}

func seqs(e *vs.E) {
	depth := 6
	if e.Thorough() {
		depth = 7
	}
	vals := []float64{0, 0.25, 0.5, 0.75, 1}
	n := len(vals) + 1
	total := 1
	for i := 0; i < depth; i++ {
		total *= n
	}
	e.Param("2 monitors x 4 thresholds x all sequences of %d operations out of 5 values and a reset", depth)
	for _, k := range kinds {
		for _, thr := range []float64{0, 0.5, 0.7, 1} {
			for x := 0; x < total && !e.Stop(); x++ {
				e.Case(func() {
					e.Seq(vs.Options{}, func() {
						r := k.mk(thr)
						m := &model{thr: thr, start: vs.Peek()}
						what := fmt.Sprintf("%s threshold %v:", k.name, thr)
						if x == 0 {
							m.check(e, r, what)
						}
						y := x
						for i := 0; i < depth; i++ {
							d := time.Duration(7*(i+1)) * ms
							if c := y % n; c < len(vals) {
								m.rec(r, vals[c], d)
								what += fmt.Sprintf(" %v", vals[c])
							} else {
								m.reset(r, d)
								what += " reset"
							}
							y /= n
							// shorter prefixes are the cases whose remaining operations are all the first one
							if y == 0 || i == depth-1 {
								m.check(e, r, what)
							}
						}
						e.Seen(fmt.Sprint(thr, m.h, r.IsConverged()))
					})
				})
			}
		}
	}
}

// long histories reach past the windows of 10 and 20 samples and past the capacity of 1000
func long(e *vs.E) {
	top := 32
	if e.Thorough() {
		top = 60
	}
	e.Param("levels a, b, c with changes after i and j samples, up to %d samples, then a reset and more", top)
	vals := []float64{0.25, 0.5, 0.9}
	for _, k := range kinds {
		for _, a := range vals {
			for _, b := range vals {
				for _, c := range vals {
					for i := 0; i < top && !e.Stop(); i++ {
						e.Case(func() {
							e.Seq(vs.Options{}, func() {
								r := k.mk(0.9)
								m := &model{thr: 0.9, start: vs.Peek()}
								for round := 0; round < 2; round++ {
									for t := 0; t < top; t++ {
										v := a
										if t >= i {
											v = b
										}
										if t >= i+6 {
											v = c
										}
										m.rec(r, v, 100*ms)
										m.check(e, r, fmt.Sprintf("%s: %v, %v after %d, %v after %d more; round %d sample %d", k.name, a, b, i, c, 6, round, t))
									}
									m.reset(r, 50*ms)
								}
								m.check(e, r, k.name+": after a reset")
								e.Seen(fmt.Sprint(a, b, c, i))
							})
						})
					}
				}
			}
		}
		e.Case(func() {
			e.Seq(vs.Options{}, func() {
				r := k.mk(0.9)
				m := &model{thr: 0.9, start: vs.Peek()}
				for t := 0; t < 2100; t++ {
					m.rec(r, math.Mod(float64(t)*0.37, 1), ms)
					if t%50 == 0 || t > 995 && t < 1005 || t > 2090 {
						m.check(e, r, fmt.Sprintf("%s: %d samples", k.name, t+1))
					}
				}
				e.Seen("long")
			})
		})
	}
}

// a running swarm's own report follows every update of the run
func swarms(e *vs.E) {
	depth := 3
	if e.Thorough() {
		depth = 5
	}
	sizes := []int{1, 2, 4, 10, 101}
	e.Param("sizes %v x all %d-tuples of agent arrangements set between updates, target 0.8", sizes, depth)
	arr := []func(i, n int) float64{
		func(i, n int) float64 { return 2.5 },                                // aligned, away from the target phase
		func(i, n int) float64 { return float64(i) * hx.TwoPi / float64(n) }, // spread
		func(i, n int) float64 { return 2.5 + 2.2*float64(i)/float64(n) },    // in between
		func(i, n int) float64 { return 4 + 0.5*float64(i)/float64(n) },      // close together
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(arr) + 1
	}
	for _, n := range sizes {
		for x := 0; x < total && !e.Stop(); x++ {
			e.Case(func() {
				e.Seq(vs.Options{Rand: hx.Lcg(3), NumCPU: 2, MaxSteps: 20000000}, func() {
					i := 0
					var as []*agent.Agent
					thr := 0.8
					s, err := swarm.New(n, core.State{Phase: 0, Frequency: 100 * ms, Coherence: 0.8}, swarm.WithTopology(func(*swarm.Swarm) error { return nil }), swarm.WithAgentBuilder(func(id string, _ int, _ config.Swarm) *agent.Agent {
						a := agent.New(id, agent.WithPhase(arr[1](i, n)), agent.WithFrequency(300*ms), agent.WithEnergy(100))
						i++
						as = append(as, a)
						return a
					}))
					if err != nil {
						e.Fail("%v", err)
					}
					m := &model{thr: thr, start: vs.Peek()}
					check := func(what string) {
						ct, cv := m.conv()
						cur := 0.0
						if len(m.h) > 0 {
							cur = m.h[len(m.h)-1]
						}
						if math.Abs(cur-thr) < 1e-9 {
							return
						}
						e.Check(s.IsConverged() == cv && hx.Eq(s.CurrentCoherence(), cur), "size %d %s: the swarm reports converged %v coherence %v; the last measurement was %v", n, what, s.IsConverged(), s.CurrentCoherence(), cur)
						e.Check(s.ConvergenceTime() == ct, "size %d %s: convergence time %v, want %v", n, what, s.ConvergenceTime(), ct)
						e.Step(1)
					}
					check("new")
					vs.Sleep(13 * ms)
					ctx, cancel := context.WithCancel(context.Background())
					done := false
					j := vs.GoJ(func() { _ = s.Run(ctx); done = true })
					vs.Sleep(1 * ms)
					iv := swarm.For(99).Strategy.UpdateInterval
					vs.Sleep(iv / 2)
					base := vs.Peek()
					y := x
					for t := 0; t < depth && !done; t++ {
						c := y % (len(arr) + 1)
						y /= len(arr) + 1
						if c == len(arr) {
							s.DisruptAgents(0)
							m.h, m.at, m.start = nil, nil, vs.Peek()
							check("disrupted")
							c = 0
						}
						for i, a := range as {
							a.SetPhase(arr[c](i, n))
						}
						var ph []float64
						for _, a := range as {
							ph = append(ph, a.Phase())
						}
						m.h = append(m.h, hx.Coh(ph))
						m.at = append(m.at, base.Add(time.Duration(t)*iv+iv/2-1*ms))
						vs.Sleep(iv)
						check(fmt.Sprintf("after update %d (arrangement %d)", t+1, c))
					}
					cancel()
					j()
					check("stopped")
					e.Seen(fmt.Sprint(n, s.IsConverged()))
				})
			})
		}
	}
}

// ---- schedules ----

type op struct {
	name string
	v    float64
}

type lstate struct{ h string }

func apply(h []float64, o lin.Op, thr float64) ([]float64, bool) {
	conv := func() bool { return len(h) > 0 && h[len(h)-1] >= thr }
	switch o.Name {
	case "record":
		return append(append([]float64{}, h...), o.Arg.(float64)), true
	case "reset":
		return nil, true
	case "history":
		return h, fmt.Sprint(o.Out) == fmt.Sprint(append([]float64{}, h...))
	case "converged":
		return h, o.Out.(bool) == conv()
	case "current":
		c := 0.0
		if len(h) > 0 {
			c = h[len(h)-1]
		}
		return h, o.Out.(float64) == c
	case "rate":
		return h, near(o.Out.(float64), slope(tail(h, 10)))
	case "stability":
		w := 1.0
		if len(h) >= 2 {
			w = math.Exp(-10 * std(tail(h, 20)))
		}
		return h, near(o.Out.(float64), w)
	case "time":
		return h, conv() && o.Out.(time.Duration) >= 0 || o.Out.(time.Duration) == 0
	case "predict":
		r := slope(tail(h, 10))
		p := 0.0
		if !conv() && r > 0 {
			p = (thr - h[len(h)-1]) / r * 1e8
		}
		return h, math.Abs(float64(o.Out.(time.Duration))-p) < 100
	case "stats":
		st := o.Out.(map[string]any)
		c, max, min := 0.0, 0.0, 1.0
		for _, v := range h {
			c = v
			max, min = math.Max(max, v), math.Min(min, v)
		}
		ok := st["samples"] == len(h) && st["current_coherence"] == c && st["converged"] == conv() && st["max"] == max && st["min"] == min && near(st["convergence_rate"].(float64), slope(tail(h, 10)))
		if ok && len(h) > 0 {
			ok = near(st["mean"].(float64), mean(h))
		}
		return h, ok
	}
	panic(o.Name)
}

func scen(name string, mk func(float64) mon, progs [][]op, pre, preT int) {
	const thr = 0.7
	body := func() {
		r := mk(thr)
		r.Record(0.25)
		logs := make([]*lin.Log, len(progs))
		var js []func()
		for i, p := range progs {
			logs[i] = &lin.Log{Thread: i}
			js = append(js, vs.GoJ(func() {
				for _, o := range p {
					logs[i].Do(o.name, o.v, func() any {
						switch o.name {
						case "record":
							r.Record(o.v)
						case "reset":
							r.Reset()
						case "history":
							return r.History()
						case "converged":
							return r.IsConverged()
						case "current":
							return r.CurrentCoherence()
						case "rate":
							return r.ConvergenceRate()
						case "stability":
							return r.Stability()
						case "time":
							return r.ConvergenceTime()
						case "predict":
							return r.PredictConvergenceTime()
						case "stats":
							return r.Statistics()
						}
						return nil
					})
				}
			}))
		}
		for _, j := range js {
			j()
		}
		fin := r.History()
		vs.Outcome("%v", fin)
		ops := lin.Merge(logs...)
		if !lin.Check([]float64{0.25}, ops, func(h []float64, o lin.Op) ([]float64, bool) { return apply(h, o, thr) },
			func(h []float64) string { return fmt.Sprint(h) },
			func(h []float64) bool { return fmt.Sprint(h) == fmt.Sprint(fin) || len(h) == 0 && len(fin) == 0 }) {
			vs.Fail("no sequential order explains these results; the history ends as %v; %s", fin, lin.String(ops))
		}
	}
	vs.Add(&vs.Scenario{Name: name, Opt: vs.Options{Preemptions: pre}, Thorough: &vs.Options{Preemptions: preT}, Body: body})
	vs.Add(&vs.Scenario{Name: "race/" + name, Race: true, Opt: vs.Options{Preemptions: 1}, Thorough: &vs.Options{Preemptions: 2}, Body: body})
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "sequences", Run: seqs})
	vs.AddEnum(&vs.Enum{Name: "long histories", Run: long})
	vs.AddEnum(&vs.Enum{Name: "running swarm", Run: swarms})
	for _, k := range kinds {
		scen(k.name+"/records and statistics", k.mk, [][]op{{{"record", 0.5}, {"record", 0.75}}, {{"stats", 0}, {"stats", 0}}, {{"record", 1}, {"predict", 0}}}, 2, 3)
		scen(k.name+"/reset", k.mk, [][]op{{{"record", 0.5}, {"history", 0}}, {{"reset", 0}, {"record", 0.75}}, {{"stats", 0}, {"rate", 0}}}, 2, 3)
		scen(k.name+"/readers", k.mk, [][]op{{{"record", 0.75}, {"record", 0.5}}, {{"predict", 0}, {"stats", 0}, {"converged", 0}}, {{"predict", 0}, {"stats", 0}, {"current", 0}}}, 2, 3)
		scen(k.name+"/stability", k.mk, [][]op{{{"record", 0.75}, {"reset", 0}}, {{"stability", 0}, {"time", 0}}, {{"record", 0.5}, {"stability", 0}}}, 2, 3)
		scen(k.name+"/two resets", k.mk, [][]op{{{"reset", 0}, {"stats", 0}}, {{"record", 0.75}, {"reset", 0}}, {{"record", 0.5}, {"converged", 0}}}, 2, 3)
	}
	vs.Main()
}
