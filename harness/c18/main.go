// C18: the coherence monitor keeps exactly the latest 100 samples.
package main

import (
	"fmt"
	"math"

	"MODULE/emerge/monitoring"
	iem "MODULE/internal/emerge"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/lin"
	"MODULE/zzverif/vs"
)

type mon interface {
	RecordSample(float64)
	History() []float64
	Latest() float64
	Average() float64
}

var kinds = []struct {
	name string
	mk   func() mon
}{{"monitoring", func() mon { return monitoring.New() }}, {"internal", func() mon { return iem.NewMonitor() }}}

func rec(h []float64, v float64) []float64 {
	h = append(append([]float64{}, h...), v)
	if len(h) > 100 {
		h = h[len(h)-100:]
	}
	return h
}

func latest(h []float64) float64 {
	if len(h) == 0 {
		return 0
	}
	return h[len(h)-1]
}

func avg(h []float64) float64 {
	s := 0.0
	for _, v := range h {
		s += v / float64(len(h))
	}
	return s
}

func same(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func check(e *vs.E, r mon, h []float64, what string) {
	g := r.History()
	e.Check(same(g, h), "%s: history %v (%d samples), want %v (%d)", what, g, len(g), h, len(h))
	e.Check(r.Latest() == latest(h), "%s: latest %v, want %v", what, r.Latest(), latest(h))
	e.Check(math.Abs(r.Average()-avg(h)) < 1e-9, "%s: average %v, want %v", what, r.Average(), avg(h))
	for i := range g {
		g[i] = -7
	}
	e.Step(1)
}

type op struct {
	name string
	v    float64
}

func scen(name string, mk func() mon, pre int, progs [][]op, p, pt int) {
	body := func() {
		r := mk()
		var h0 []float64
		for i := 0; i < pre; i++ {
			v := float64(i) / 128
			r.RecordSample(v)
			h0 = rec(h0, v)
		}
		logs := make([]*lin.Log, len(progs))
		var js []func()
		for i, pr := range progs {
			logs[i] = &lin.Log{Thread: i}
			js = append(js, vs.GoJ(func() {
				for _, o := range pr {
					logs[i].Do(o.name, o.v, func() any {
						switch o.name {
						case "record":
							r.RecordSample(o.v)
						case "history":
							return r.History()
						case "latest":
							return r.Latest()
						case "average":
							return r.Average()
						}
						return nil
					})
				}
			}))
		}
		for _, j := range js {
			j()
		}
		fin := r.History()
		vs.Outcome("%d %v", len(fin), latest(fin))
		ops := lin.Merge(logs...)
		if !lin.Check(h0, ops, func(h []float64, o lin.Op) ([]float64, bool) {
			switch o.Name {
			case "record":
				return rec(h, o.Arg.(float64)), true
			case "history":
				return h, same(o.Out.([]float64), h)
			case "latest":
				return h, o.Out.(float64) == latest(h)
			}
			return h, math.Abs(o.Out.(float64)-avg(h)) < 1e-9
		}, func(h []float64) string { return fmt.Sprint(h) }, func(h []float64) bool { return same(h, fin) }) {
			vs.Fail("no sequential order explains these results; %d samples at the end: %v; %s", len(fin), fin, lin.String(ops))
		}
	}
	vs.Add(&vs.Scenario{Name: name, Opt: vs.Options{Preemptions: p}, Thorough: &vs.Options{Preemptions: pt}, Body: body})
	vs.Add(&vs.Scenario{Name: "race/" + name, Race: true, Opt: vs.Options{Preemptions: 1}, Thorough: &vs.Options{Preemptions: 2}, Body: body})
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "histories", Run: func(e *vs.E) {
		e.Param("every number of samples 0..450 of three series, observed after each; every observation mask over the first samples")
		for _, k := range kinds {
			for s := 0; s < 3; s++ {
				e.Case(func() {
					r := k.mk()
					var h []float64
					check(e, r, h, k.name+": empty")
					for i := 1; i <= 450; i++ {
						v := []float64{float64(i) / 512, float64((i*37)%101) / 101, float64(i%2) * 0.5}[s]
						r.RecordSample(v)
						h = rec(h, v)
						check(e, r, h, fmt.Sprintf("%s: series %d after %d samples", k.name, s, i))
						e.Seen(fmt.Sprint(k.name, s, i))
					}
				})
			}
			// all short value sequences, including repeats, zeros and negative or large values
			vals := []float64{0, 0.5, 1, -3, 1e9}
			d := 6
			n := 1
			for i := 0; i < d; i++ {
				n *= len(vals)
			}
			for x := 0; x < n; x++ {
				e.Case(func() {
					r := k.mk()
					var h []float64
					y := x
					for i := 0; i < d; i++ {
						v := vals[y%len(vals)]
						y /= len(vals)
						r.RecordSample(v)
						h = rec(h, v)
					}
					check2(e, r, h, k.name)
					e.Seen(fmt.Sprint(k.name, h))
				})
			}
		}
	}})
	for _, k := range kinds {
		for _, pre := range []int{0, 98, 99, 100} {
			scen(fmt.Sprintf("%s/%d samples", k.name, pre), k.mk, pre, [][]op{{{"record", 0.91}, {"average", 0}}, {{"record", 0.92}, {"history", 0}}, {{"record", 0.93}, {"latest", 0}}}, 2, 3)
		}
		scen(k.name+"/readers", k.mk, 99, [][]op{{{"record", 0.91}, {"record", 0.92}, {"record", 0.93}}, {{"history", 0}, {"average", 0}}, {{"latest", 0}, {"history", 0}}}, 2, 3)
	}
	vs.Main()
}

func check2(e *vs.E, r mon, h []float64, what string) {
	g := r.History()
	e.Check(same(g, h), "%s: history %v, want %v", what, g, h)
	e.Check(r.Latest() == latest(h), "%s: latest %v, want %v", what, r.Latest(), latest(h))
	e.Check(hx.Eq(r.Average(), avg(h)), "%s: average %v, want %v", what, r.Average(), avg(h))
}
