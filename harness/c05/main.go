// C05: pooled agents are usable, clean, never shared, and accounted for.
package main

import (
	"fmt"
	"time"

	"MODULE/emerge/agent"
	"MODULE/emerge/core"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

func checkFresh(a *agent.Agent, id string, fail func(string, ...any)) {
	switch {
	case a == nil:
		fail("Get(%q) returned nothing", id)
		return
	case a.ID != id:
		fail("Get(%q) returned an agent called %q", id, a.ID)
	case a.NeighborCount() != 0:
		fail("a pooled agent arrives with %d connections", a.NeighborCount())
	case a.Energy() != 100:
		fail("a pooled agent arrives with energy %v", a.Energy())
	case a.Frequency() != 100*time.Millisecond:
		fail("a pooled agent arrives with frequency %v", a.Frequency())
	case !(a.Phase() >= 0 && a.Phase() <= hx.TwoPi) || !(a.LocalGoal() >= 0 && a.LocalGoal() <= hx.TwoPi):
		fail("a pooled agent arrives with phase %v, goal %v", a.Phase(), a.LocalGoal())
	case !(a.Influence() >= 0.1-1e-12 && a.Influence() <= 0.2+1e-12) || !(a.Stubbornness() >= 0 && a.Stubbornness() <= 0.3+1e-12):
		fail("a pooled agent arrives with influence %v, stubbornness %v", a.Influence(), a.Stubbornness())
	}
	for _, o := range []string{"p0", "p1", "p2", "x0", "x15", "x24"} {
		if a.IsConnectedTo(o) {
			fail("a pooled agent arrives connected to %s", o)
		}
	}
}

// use dirties an agent the way a swarm does
func use(a *agent.Agent, links int, fail func(string, ...any)) {
	for i := 0; i < links; i++ {
		id := fmt.Sprintf("x%d", i)
		a.ConnectTo(id, agent.New(id, agent.WithPhase(1)))
	}
	if a.NeighborCount() != links {
		fail("a pooled agent made %d connections but has %d", links, a.NeighborCount())
	}
	a.UpdateContext()
	a.ProposeAdjustment(core.State{Phase: 1, Frequency: time.Second, Coherence: 0.9})
	ok, _, err := a.ApplyAction(core.Action{Type: "adjust_phase", Value: 1, Cost: 30})
	if !ok || err != nil || !hx.Eq(a.Energy(), 70) {
		fail("a pooled agent cannot apply an action: %v %v, energy %v", ok, err, a.Energy())
	}
	a.SetPhase(2)
	a.SetLocalGoal(3)
	a.SetFrequency(5)
	a.SetInfluence(0.95)
	a.SetStubbornness(0.85)
	if a.Phase() != 2 || a.LocalGoal() != 3 || a.Frequency() != 5 || a.Influence() != 0.95 || a.Stubbornness() != 0.85 {
		fail("a pooled agent does not keep what it is set to")
	}
}

type stats struct {
	g, p, n uint64
	u       int64
}

func now() stats { g, p, n, u := agent.Pool.Stats(); return stats{g, p, n, u} }

func main() {
	// every get/put/put-foreign/put-nil sequence
	vs.AddEnum(&vs.Enum{Name: "get/put sequences", Run: func(e *vs.E) {
		depth := 6
		if e.Thorough() {
			depth = 7
		}
		e.Param("get, put first, put last, put nil, put a foreign agent, use lightly, use beyond capacity: all sequences of length %d; pool kept or emptied", depth)
		const n = 6
		total := 1
		for i := 0; i < depth; i++ {
			total *= n
		}
		for k := 0; k < 2*total && !e.Stop(); k++ {
			e.Case(func() {
				vs.SetPoolDrop(false)
				e.Seq(vs.Options{Rand: hx.Const([]float64{0, 0.5, 1}[k%3])}, func() {
					s0 := now()
					var held []*agent.Agent
					var gets, puts, fresh uint64
					met := map[*agent.Agent]bool{}
					x, h := k/2, ""
					var kept []any
					_ = kept
					fail := func(f string, a ...any) { e.Fail("%s: %s", h, fmt.Sprintf(f, a...)) }
					for i := 0; i < depth; i++ {
						o := x % n
						x /= n
						switch o {
						case 0:
							id := fmt.Sprintf("p%d", gets%3)
							h += " get(" + id + ")"
							a := agent.Pool.Get(id)
							gets++
							if !met[a] {
								met[a] = true
								fresh++
							}
							checkFresh(a, id, fail)
							for _, b := range held {
								if a == b {
									fail("the same agent was handed out twice")
								}
							}
							held = append(held, a)
						case 1, 2:
							if len(held) == 0 {
								continue
							}
							j := 0
							if o == 2 {
								j = len(held) - 1
							}
							h += fmt.Sprintf(" put(%d)", j)
							agent.Pool.Put(held[j])
							held = append(held[:j:j], held[j+1:]...)
							puts++
						case 3:
							h += " put(nil)"
							agent.Pool.Put(nil)
						case 4:
							h += " put(foreign)"
							f := agent.New("foreign", agent.WithEnergy(3), agent.WithStubbornness(1), agent.WithInfluence(1))
							f.ConnectTo("p1", agent.New("p1"))
							agent.Pool.Put(f)
							met[f] = true
							puts++
						case 5:
							if len(held) == 0 {
								continue
							}
							h += " use"
							links := 3
							if k%2 == 1 {
								links = 25
							}
							j := len(held) - 1
							for l := 0; l < links; l++ {
								held[j].DisconnectFrom(fmt.Sprintf("x%d", l))
							}
							held[j].SetEnergy(100)
							use(held[j], links, fail)
						}
						e.Step(1)
						s := now()
						if s.g-s0.g != gets || s.p-s0.p != puts || s.u-s0.u != int64(gets)-int64(puts) || s.n-s0.n > fresh {
							fail("statistics report +%d gets, +%d puts, +%d new, %+d in use after %d gets and %d puts of %d agents", s.g-s0.g, s.p-s0.p, s.n-s0.n, s.u-s0.u, gets, puts, fresh)
						}
					}
					e.Seen(fmt.Sprint(gets, puts, len(held), x))
				})
			})
		}
	}})
	body := func(threads, rounds int) func() {
		return func() {
			vs.SetPoolDrop(true)
			s0 := now()
			met := make([]map[*agent.Agent]bool, threads)
			var js []func()
			for t := 0; t < threads; t++ {
				t := t
				met[t] = map[*agent.Agent]bool{}
				js = append(js, vs.GoJ(func() {
					for r := 0; r < rounds; r++ {
						id := fmt.Sprintf("t%d-%d", t, r)
						a := agent.Pool.Get(id)
						checkFresh(a, id, vs.Fail)
						met[t][a] = true
						a.ConnectTo("o", agent.New("o"))
						a.SetEnergy(float64(10 + t))
						vs.P()
						if a.ID != id || a.Energy() != float64(10+t) || a.NeighborCount() != 1 {
							vs.Fail("an agent in use by one goroutine was changed by another: %q energy %v, %d connections", a.ID, a.Energy(), a.NeighborCount())
						}
						agent.Pool.Put(a)
					}
				}))
			}
			for _, j := range js {
				j()
			}
			all := map[*agent.Agent]bool{}
			for _, x := range met {
				for a := range x {
					all[a] = true
				}
			}
			s := now()
			n := uint64(threads * rounds)
			if s.g-s0.g != n || s.p-s0.p != n || s.u != s0.u || s.n-s0.n > uint64(len(all)) {
				vs.Fail("statistics report +%d gets, +%d puts, %+d in use, %d new after %d of each with %d agents", s.g-s0.g, s.p-s0.p, s.u-s0.u, s.n-s0.n, n, len(all))
			}
			vs.Outcome("new %d", s.n-s0.n)
			vs.SetPoolDrop(false)
		}
	}
	vs.Add(&vs.Scenario{Name: "2 goroutines", Opt: vs.Options{Preemptions: 2, EnvBound: 2}, Thorough: &vs.Options{Preemptions: 3, EnvBound: 3}, Body: body(2, 2)})
	vs.Add(&vs.Scenario{Name: "3 goroutines", Opt: vs.Options{Preemptions: 1, EnvBound: 1}, Thorough: &vs.Options{Preemptions: 2, EnvBound: 1}, Body: body(3, 1)})
	vs.Add(&vs.Scenario{Name: "race/2 goroutines", Race: true, Opt: vs.Options{Preemptions: 1, EnvBound: 1}, Body: body(2, 2)})
	vs.Main()
}
