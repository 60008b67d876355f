// C03: energy and token budgets are never overspent and never leak, under any schedule.
package main

import (
	"fmt"
	"math"

	"MODULE/emerge/agent"
	"MODULE/emerge/core"
	"MODULE/emerge/strategy"
	"MODULE/internal/resource"
	"MODULE/zzverif/lin"
	"MODULE/zzverif/vs"
)

func eq(a, b float64) bool { return math.Abs(a-b) < 1e-9 }

// ---- sequential token manager: every sequence of requests and releases ----

type tm struct{ t, max float64 }

func (m *tm) request(x float64) float64 {
	if x <= 0 || m.t <= 0 {
		return 0
	}
	g := math.Min(x, m.t)
	m.t -= g
	return g
}

func (m *tm) release(x float64) {
	if x > 0 {
		m.t = math.Min(m.t+x, m.max)
	}
}

type tok struct {
	name string
	arg  float64
}

func tokenSeq(e *vs.E, mk func(float64) core.ResourceManager, max float64, depth int, amounts []float64) {
	n := 2 * len(amounts)
	total := 1
	for i := 0; i < depth; i++ {
		total *= n
	}
	for k := 0; k < total && !e.Stop(); k++ {
		e.Case(func() {
			r := mk(max)
			m := &tm{math.Max(0, max), math.Max(0, max)}
			e.Check(eq(r.Available(), m.t), "new manager of %v has %v available", max, r.Available())
			x := k
			h := fmt.Sprintf("max %v:", max)
			outstanding := 0.0
			for i := 0; i < depth; i++ {
				a := amounts[(x%n)/2]
				if x%2 == 0 {
					h += fmt.Sprintf(" request(%v)", a)
					got, want := r.Request(a), m.request(a)
					outstanding += got
					e.Check(eq(got, want), "%s granted %v, want %v", h, got, want)
					e.Check(got >= 0 && (a <= 0 && got == 0 || got <= a+1e-12), "%s granted %v of a request for %v", h, got, a)
				} else {
					h += fmt.Sprintf(" release(%v)", a)
					r.Release(a)
					m.release(a)
				}
				x /= n
				av := r.Available()
				e.Check(eq(av, m.t), "%s: available %v, want %v", h, av, m.t)
				e.Check(av >= 0 && av <= m.max+1e-9, "%s: available %v outside [0,%v]", h, av, m.max)
				e.Step(1)
			}
			e.Seen(fmt.Sprintf("%v/%v", m.t, m.max))
		})
	}
}

func makers() map[string]func(float64) core.ResourceManager {
	return map[string]func(float64) core.ResourceManager{
		"tokens":          func(x float64) core.ResourceManager { return resource.NewTokenManager(x) },
		"strategy-tokens": func(x float64) core.ResourceManager { return strategy.NewTokenResourceManager(x) },
	}
}

func lincheck(init, max float64, ops []lin.Op, fin float64) {
	if !lin.Check(tm{init, max}, ops, func(s tm, o lin.Op) (tm, bool) {
		switch o.Name {
		case "request":
			g := s.request(o.Arg.(float64))
			return s, eq(g, o.Out.(float64))
		case "release":
			s.release(o.Arg.(float64))
			return s, true
		}
		return s, eq(s.t, o.Out.(float64))
	}, func(s tm) string { return fmt.Sprintf("%.9f", s.t) }, func(s tm) bool { return eq(s.t, fin) }) {
		vs.Fail("no sequential order of these token operations explains the results; %v left of %v; %s", fin, max, lin.String(ops))
	}
}

func tokenScenario(name string, mk func(float64) core.ResourceManager, max float64, progs [][]tok, pre, preT int) {
	body := func() {
		r := mk(max)
		logs := make([]*lin.Log, len(progs))
		var js []func()
		for i, p := range progs {
			i, p := i, p
			logs[i] = &lin.Log{Thread: i}
			js = append(js, vs.GoJ(func() {
				for _, o := range p {
					o := o
					logs[i].Do(o.name, o.arg, func() any {
						switch o.name {
						case "request":
							return r.Request(o.arg)
						case "release":
							r.Release(o.arg)
							return nil
						}
						return r.Available()
					})
				}
			}))
		}
		for _, j := range js {
			j()
		}
		fin := r.Available()
		vs.Outcome("%v", fin)
		lincheck(max, max, lin.Merge(logs...), fin)
	}
	vs.Add(&vs.Scenario{Name: name, Opt: vs.Options{Preemptions: pre}, Thorough: &vs.Options{Preemptions: preT}, Body: body})
	vs.Add(&vs.Scenario{Name: "race/" + name, Race: true, Opt: vs.Options{Preemptions: 1}, Thorough: &vs.Options{Preemptions: 2}, Body: body})
}

// ---- agents spending energy concurrently ----

// budget accounts for every grant of a resource manager
type spend struct {
	typ  string
	cost float64
}

func energyScenario(name string, energy float64, progs [][]spend, pre, preT int) {
	body := func() {
		r := resource.NewTokenManager(energy)
		a := agent.New("a", agent.WithResourceManager(r), agent.WithPhase(0))
		type res struct {
			ok   bool
			cost float64
		}
		logs := make([]*lin.Log, len(progs))
		var js []func()
		for i, p := range progs {
			i, p := i, p
			logs[i] = &lin.Log{Thread: i}
			js = append(js, vs.GoJ(func() {
				for _, s := range p {
					s := s
					logs[i].Do(s.typ, s.cost, func() any {
						ok, c, err := a.ApplyAction(core.Action{Type: s.typ, Value: 0.5, Cost: s.cost})
						if ok != (err == nil) {
							vs.Fail("ok=%v err=%v", ok, err)
						}
						return res{ok, c}
					})
				}
			}))
		}
		// an observer must never see negative energy
		for i := 0; i < 3; i++ {
			vs.P()
			if en := a.Energy(); en < 0 || en > energy+1e-9 {
				vs.Fail("energy %v observed while spending %v", en, energy)
			}
		}
		for _, j := range js {
			j()
		}
		fin := a.Energy()
		ops := lin.Merge(logs...)
		spent, turns := 0.0, 0
		for _, o := range ops {
			if r := o.Out.(res); r.ok {
				spent += r.cost
				if o.Name != "maintain" {
					turns++
				}
			}
		}
		vs.Outcome("left %v spent %v", fin, spent)
		if spent > energy+1e-9 {
			vs.Fail("actions worth %v succeeded on a budget of %v", spent, energy)
		}
		if !eq(spent+fin, energy) {
			vs.Fail("spent %v and kept %v of %v", spent, fin, energy)
		}
		if !eq(r.Available(), fin) {
			vs.Fail("the actions that succeeded cost %v of %v, and %v were drawn from the resource manager", spent, energy, energy-r.Available())
		}
		if math.Abs(math.Sin(a.Phase()-float64(turns)*0.5)) > 1e-9 {
			vs.Fail("phase %v after %d applied turns", a.Phase(), turns)
		}
		if !lin.Check(energy, ops, func(s float64, o lin.Op) (float64, bool) {
			c := o.Arg.(float64)
			r := o.Out.(res)
			if r.ok != (c <= s+1e-12) {
				return s, false
			}
			if r.ok {
				return s - c, eq(r.cost, c)
			}
			return s, r.cost == 0
		}, func(s float64) string { return fmt.Sprintf("%.9f", s) }, func(s float64) bool { return eq(s, fin) }) {
			vs.Fail("no order of the actions explains which were refused; left %v; %s", fin, lin.String(ops))
		}
	}
	vs.Add(&vs.Scenario{Name: name, Opt: vs.Options{Preemptions: pre}, Thorough: &vs.Options{Preemptions: preT}, Body: body})
	vs.Add(&vs.Scenario{Name: "race/" + name, Race: true, Opt: vs.Options{Preemptions: 1}, Thorough: &vs.Options{Preemptions: 2}, Body: body})
}

func main() {
	for name, mk := range makers() {
		name, mk := name, mk
		vs.AddEnum(&vs.Enum{Name: "sequences/" + name, Run: func(e *vs.E) {
			d := 4
			if e.Thorough() {
				d = 5
			}
			amounts := []float64{-3, 0, 0.5, 2, 5, 7}
			e.Param("limits -2,0,5,10; amounts %v; depth %d", amounts, d)
			for _, max := range []float64{-2, 0, 5, 10} {
				tokenSeq(e, mk, max, d, amounts)
			}
			// big limits and exact boundaries
			tokenSeq(e, mk, 1e6, 3, []float64{1, 999999, 1e6, 1e6 + 1, 1e9})
		}})
		T := func(n string, a float64) tok { return tok{n, a} }
		tokenScenario(name+"/2 requests", mk, 5, [][]tok{{T("request", 3), T("available", 0)}, {T("request", 4)}}, 3, 6)
		tokenScenario(name+"/request+release", mk, 5, [][]tok{{T("request", 4), T("release", 4)}, {T("request", 3), T("available", 0)}}, 3, 5)
		tokenScenario(name+"/release cap", mk, 5, [][]tok{{T("request", 2), T("release", 4)}, {T("release", 3), T("request", 5)}}, 3, 5)
		tokenScenario(name+"/3 threads", mk, 6, [][]tok{{T("request", 4)}, {T("request", 3), T("release", 1)}, {T("request", 2), T("available", 0)}}, 2, 3)
		tokenScenario(name+"/negatives", mk, 3, [][]tok{{T("request", -1), T("request", 2)}, {T("release", -5), T("request", 2)}}, 3, 5)
		tokenScenario(name+"/drain", mk, 2, [][]tok{{T("request", 2), T("request", 1)}, {T("request", 2), T("release", 1)}, {T("available", 0)}}, 2, 3)
	}
	S := func(t string, c float64) spend { return spend{t, c} }
	kinds := []string{"adjust_phase", "pulse", "maintain", "energy_save", "phase_nudge", "frequency_lock"}
	for i, k1 := range kinds {
		k2 := kinds[(i+2)%len(kinds)]
		energyScenario("spend/"+k1+"+"+k2, 10, [][]spend{{S(k1, 6)}, {S(k2, 6)}}, 3, 6)
		energyScenario("spend-exact/"+k1+"+"+k2, 10, [][]spend{{S(k1, 4), S(k1, 2)}, {S(k2, 4), S(k2, 0)}}, 2, 4)
	}
	energyScenario("spend/3 threads", 10, [][]spend{{S("pulse", 4)}, {S("maintain", 4)}, {S("adjust_phase", 4)}}, 2, 3)
	energyScenario("spend/none left", 0, [][]spend{{S("pulse", 1)}, {S("maintain", 0)}}, 2, 4)
	vs.Main()
}
