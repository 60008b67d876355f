// C01: concurrent updates of one agent are atomic: none is lost, none is torn.
package main

import (
	"fmt"
	"math"
	"time"

	"MODULE/emerge/agent"
	"MODULE/emerge/core"
	"MODULE/zzverif/lin"
	"MODULE/zzverif/vs"
)

type st struct {
	phase, energy, goal, inf, stub float64
	freq                           time.Duration
}

func snap(a *agent.Agent) st {
	return st{a.Phase(), a.Energy(), a.LocalGoal(), a.Influence(), a.Stubbornness(), a.Frequency()}
}

func eq(a, b float64) bool { return math.Abs(a-b) < 1e-9 }

type op struct {
	name string
	// v distinguishes the values written by different threads
	run  func(a *agent.Agent, v int) any
	step func(s st, v int, out any) (st, bool)
}

func f(v int) float64 { return float64(v) * 0.125 }

var ops = []op{
	{"SetPhase", func(a *agent.Agent, v int) any { a.SetPhase(f(v)); return nil },
		func(s st, v int, _ any) (st, bool) { s.phase = f(v); return s, true }},
	{"SetEnergy", func(a *agent.Agent, v int) any { a.SetEnergy(f(v) + 40); return nil },
		func(s st, v int, _ any) (st, bool) { s.energy = f(v) + 40; return s, true }},
	{"SetLocalGoal", func(a *agent.Agent, v int) any { a.SetLocalGoal(f(v)); return nil },
		func(s st, v int, _ any) (st, bool) { s.goal = f(v); return s, true }},
	{"SetFrequency", func(a *agent.Agent, v int) any { a.SetFrequency(time.Duration(v)); return nil },
		func(s st, v int, _ any) (st, bool) { s.freq = time.Duration(v); return s, true }},
	{"SetInfluence", func(a *agent.Agent, v int) any { a.SetInfluence(f(v)); return nil },
		func(s st, v int, _ any) (st, bool) { s.inf = f(v); return s, true }},
	{"SetStubbornness", func(a *agent.Agent, v int) any { a.SetStubbornness(f(v)); return nil },
		func(s st, v int, _ any) (st, bool) { s.stub = f(v); return s, true }},
	{"Apply:adjust_phase", applyOp("adjust_phase"), applyStep(true)},
	{"Apply:maintain", applyOp("maintain"), applyStep(false)},
}

func applyOp(typ string) func(a *agent.Agent, v int) any {
	return func(a *agent.Agent, v int) any {
		ok, c, err := a.ApplyAction(core.Action{Type: typ, Value: 0.25, Cost: float64(v)})
		return [3]any{ok, c, err == nil}
	}
}

func applyStep(shift bool) func(s st, v int, out any) (st, bool) {
	return func(s st, v int, out any) (st, bool) {
		o := out.([3]any)
		ok := float64(v) <= s.energy
		if o[0] != ok || o[2] != ok {
			return s, false
		}
		if !ok {
			return s, o[1] == 0.0
		}
		if shift {
			s.phase += 0.25
		}
		s.energy -= float64(v)
		return s, eq(o[1].(float64), float64(v))
	}
}

func initial() *agent.Agent {
	return agent.New("a", agent.WithPhase(1), agent.WithEnergy(32), agent.WithLocalGoal(2), agent.WithFrequency(77),
		agent.WithInfluence(0.9), agent.WithStubbornness(0.8))
}

var init0 = st{1, 32, 2, 0.9, 0.8, 77}

type arg struct {
	op int
	v  int
}

func check(ops []lin.Op, fin st) {
	ok := lin.Check(init0, ops, func(s st, o lin.Op) (st, bool) {
		if o.Name == "snap" {
			got := o.Out.(st)
			// getters of one field each: only the field read last is checked by its own op
			return s, got == s
		}
		if o.Name[0] == '?' {
			switch o.Name {
			case "?phase":
				return s, eq(o.Out.(float64), s.phase)
			case "?energy":
				return s, eq(o.Out.(float64), s.energy)
			case "?goal":
				return s, eq(o.Out.(float64), s.goal)
			case "?freq":
				return s, o.Out.(time.Duration) == s.freq
			case "?inf":
				return s, eq(o.Out.(float64), s.inf)
			case "?stub":
				return s, eq(o.Out.(float64), s.stub)
			}
		}
		x := o.Arg.(arg)
		return opsTab[x.op].step(s, x.v, o.Out)
	}, func(s st) string { return fmt.Sprint(s) }, func(s st) bool {
		return eq(s.phase, fin.phase) && eq(s.energy, fin.energy) && eq(s.goal, fin.goal) && s.freq == fin.freq && eq(s.inf, fin.inf) && eq(s.stub, fin.stub)
	})
	if !ok {
		vs.Fail("no sequential order of the calls explains what was observed; final state %+v; history %s", fin, lin.String(ops))
	}
}

var opsTab = ops

func reader(a *agent.Agent, l *lin.Log, which ...string) {
	for _, w := range which {
		l.Do(w, nil, func() any {
			switch w {
			case "?phase":
				return a.Phase()
			case "?energy":
				return a.Energy()
			case "?goal":
				return a.LocalGoal()
			case "?freq":
				return a.Frequency()
			case "?inf":
				return a.Influence()
			}
			return a.Stubbornness()
		})
	}
}

func main() {
	// every pair of operations, on the same agent, with a concurrent reader
	for i := range ops {
		for j := i; j < len(ops); j++ {
			i, j := i, j
			body := func(rd bool, two bool) func() {
				return func() {
					a := initial()
					var l1, l2, l3 lin.Log
					l1.Thread, l2.Thread, l3.Thread = 1, 2, 3
					do := func(l *lin.Log, o, v int) {
						l.Do(ops[o].name, arg{o, v}, func() any { return ops[o].run(a, v) })
					}
					j1 := vs.GoJ(func() {
						do(&l1, i, 3)
						if two {
							do(&l1, j, 5)
						}
					})
					j2 := vs.GoJ(func() {
						do(&l2, j, 4)
						if two {
							do(&l2, i, 6)
						}
					})
					if rd {
						reader(a, &l3, "?phase", "?energy", "?goal", "?freq", "?inf", "?stub")
					}
					j1()
					j2()
					fin := snap(a)
					vs.Outcome("%v", fin)
					check(lin.Merge(&l1, &l2, &l3), fin)
				}
			}
			n := ops[i].name + "+" + ops[j].name
			vs.Add(&vs.Scenario{Name: "pair/" + n, Opt: vs.Options{Preemptions: 3}, Thorough: &vs.Options{Preemptions: 6}, Body: body(false, false)})
			vs.Add(&vs.Scenario{Name: "pair-reader/" + n, Opt: vs.Options{Preemptions: 2}, Thorough: &vs.Options{Preemptions: 3}, Body: body(true, false)})
			vs.Add(&vs.Scenario{Name: "two-each/" + n, Tier: 1, Opt: vs.Options{Preemptions: 3}, Body: body(false, true)})
			vs.Add(&vs.Scenario{Name: "race/" + n, Race: true, Opt: vs.Options{Preemptions: 1}, Thorough: &vs.Options{Preemptions: 2}, Body: body(true, false)})
		}
	}
	// three writers of three different fields
	for k := 0; k < 6; k++ {
		k := k
		vs.Add(&vs.Scenario{Name: fmt.Sprintf("triple/%d", k), Opt: vs.Options{Preemptions: 2}, Thorough: &vs.Options{Preemptions: 3}, Body: func() {
			a := initial()
			var ls [3]lin.Log
			var js []func()
			for t := 0; t < 3; t++ {
				t := t
				ls[t].Thread = t + 1
				js = append(js, vs.GoJ(func() {
					o := (k + t*2 + t/2) % len(ops)
					ls[t].Do(ops[o].name, arg{o, t + 2}, func() any { return ops[o].run(a, t+2) })
				}))
			}
			for _, w := range js {
				w()
			}
			fin := snap(a)
			vs.Outcome("%v", fin)
			check(lin.Merge(&ls[0], &ls[1], &ls[2]), fin)
		}})
	}
	// the sensing step runs concurrently with everything else: it may only move
	// the local goal, toward the neighbours' mean as seen from a phase the agent held
	for i := range ops {
		i := i
		body := func() {
			a := initial()
			b := agent.New("b", agent.WithPhase(2))
			a.ConnectTo("b", b)
			var l1 lin.Log
			j1 := vs.GoJ(func() {
				l1.Do(ops[i].name, arg{i, 3}, func() any { return ops[i].run(a, 3) })
			})
			j2 := vs.GoJ(func() { a.UpdateContext() })
			j3 := vs.GoJ(func() { a.ProposeAdjustment(core.State{Phase: 1, Frequency: 50, Coherence: 0.9}) })
			j1()
			j2()
			j3()
			fin := snap(a)
			vs.Outcome("%v", fin)
			want, ok := opsTab[i].step(init0, 3, l1.Ops[0].Out)
			if !ok {
				vs.Fail("%s returned %v", ops[i].name, l1.Ops[0].Out)
			}
			// one neighbour: coupling strength 1, so the goal is the neighbour's phase
			goals := []float64{2}
			if ops[i].name == "SetLocalGoal" {
				goals = append(goals, want.goal)
			}
			gok := false
			for _, g := range goals {
				gok = gok || eq(fin.goal, g)
			}
			want.goal = fin.goal
			if !gok || !(eq(fin.phase, want.phase) && eq(fin.energy, want.energy) && fin.freq == want.freq && eq(fin.inf, want.inf) && eq(fin.stub, want.stub)) {
				vs.Fail("after %s concurrent with sensing: final state %+v, want %+v with goal in %v", ops[i].name, fin, want, goals)
			}
		}
		vs.Add(&vs.Scenario{Name: "sensing/" + ops[i].name, Opt: vs.Options{Preemptions: 2}, Thorough: &vs.Options{Preemptions: 3}, Body: body})
		vs.Add(&vs.Scenario{Name: "sensing-race/" + ops[i].name, Race: true, Opt: vs.Options{Preemptions: 1}, Thorough: &vs.Options{Preemptions: 2}, Body: body})
	}
	vs.Main()
}
