// C33: ratings of request patterns, goals and sizes are consistent, and the advertised keys select what they name.
package main

import (
	"fmt"

	"github.com/mum4k/termdash/keyboard"
	"github.com/mum4k/termdash/terminal/terminalapi"

	"MODULE/emerge/goal"
	"MODULE/emerge/scale"
	"MODULE/simulations/display"
	"MODULE/simulations/emerge/simulation/pattern"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

var patterns = []pattern.Type{pattern.Unset, pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse}

// ratings of Unset, HighFrequency, Burst, Steady, Mixed, Sparse for swarms of 51-999 agents
var ratings = [8][6]float64{
	goal.MinimizeAPICalls:   {1, 1.3, 1.3, 1.0, 1.2, 0.7},
	goal.DistributeLoad:     {1, 1.3, 0.9, 1.3, 1.1, 0.6},
	goal.ReachConsensus:     {1, 1.0, 0.6, 1.3, 0.9, 0.6},
	goal.MinimizeLatency:    {1, 1.3, 0.8, 1.2, 0.9, 0.6},
	goal.SaveEnergy:         {1, 0.6, 1.2, 0.9, 0.8, 1.3},
	goal.MaintainRhythm:     {1, 1.1, 0.8, 1.3, 0.9, 0.7},
	goal.RecoverFromFailure: {1, 1.2, 1.1, 1.0, 1.3, 0.6},
	goal.AdaptToTraffic:     {1, 1.0, 1.3, 0.8, 1.2, 0.6},
}

func rating(g, n int, p pattern.Type) float64 {
	r := 1.0
	if g >= 0 && g < 8 && p >= 0 && int(p) < 6 {
		r = ratings[g][p]
	}
	if n >= 1000 && p == pattern.HighFrequency {
		r *= .9
	}
	if n <= 50 && p == pattern.Sparse {
		r *= .8
	}
	return max(.5, r)
}

func qualifier(r float64) string {
	switch {
	case r >= 1.3:
		return "optimal"
	case r >= 1.2:
		return "excellent"
	case r >= 1:
		return "good"
	case r >= .8:
		return "fair"
	}
	return "poor"
}

func rate(e *vs.E) {
	n := 3000
	if e.Thorough() {
		n = 100000
	}
	e.Param("goals -2..10, patterns -1..7, sizes -5..%d", n)
	for g := -2; g <= 10; g++ {
		for p := pattern.Type(-1); p <= 7; p++ {
			e.Case(func() {
				last := 0.0
				for k := -5; k <= n; k++ {
					m := pattern.GetCoherenceModifier(g, k, p)
					e.Check(m >= .5 && m <= 1.5, "goal %d, pattern %v, %d agents: modifier %v", g, p, k, m)
					e.Check(hx.Eq(m, rating(g, k, p)), "goal %d, pattern %v, %d agents: modifier %v, want %v", g, p, k, m, rating(g, k, p))
					q := pattern.GetQualifier(g, k, p)
					e.Check(q == qualifier(m), "goal %d, pattern %v, %d agents: %s with modifier %v", g, p, k, q, m)
					e.Check(pattern.IsRecommended(g, k, p) == (q == "optimal" || q == "excellent"), "goal %d, pattern %v, %d agents: %s, recommended: %v", g, p, k, q, pattern.IsRecommended(g, k, p))
					if k > -5 && m != last {
						e.Check(p == pattern.HighFrequency && k == 1000 && m < last || p == pattern.Sparse && k == 51 && m > last, "goal %d, pattern %v: modifier %v of %d agents, %v of %d", g, p, last, k-1, m, k)
					}
					last = m
				}
				e.Seen(fmt.Sprint(g, p))
			})
		}
	}
	for g := -2; g <= 10; g++ {
		e.Case(func() {
			best := pattern.BestPatternForGoal(g)
			e.Check(best > pattern.Unset && best <= pattern.Sparse, "best pattern for goal %d is %v", g, best)
			if g < 0 || g > 7 {
				e.Check(best == pattern.Steady, "best pattern for goal %d is %v", g, best)
				return
			}
			for k := 51; k < 1000; k++ {
				for _, p := range patterns {
					e.Check(pattern.GetCoherenceModifier(g, k, p) <= pattern.GetCoherenceModifier(g, k, best), "%v is better than %v for goal %d", p, best, g)
				}
				e.Check(pattern.GetQualifier(g, k, best) == "optimal", "the best pattern for goal %d is %s", g, pattern.GetQualifier(g, k, best))
			}
			e.Seen(fmt.Sprint("best", g))
		})
	}
}

// sizes: goals are recommended for their documented sizes
func sizes(e *vs.E) {
	n := 3000
	if e.Thorough() {
		n = 200000
	}
	e.Param("goals -2..10, sizes 0..%d", n)
	lo := map[goal.Type]int{goal.DistributeLoad: 20, goal.ReachConsensus: 50, goal.RecoverFromFailure: 20, goal.AdaptToTraffic: 20}
	hi := map[goal.Type]int{goal.ReachConsensus: 1000, goal.MinimizeLatency: 200, goal.SaveEnergy: 200, goal.AdaptToTraffic: 1000}
	for g := goal.Type(-2); g <= 10; g++ {
		e.Case(func() {
			for k := 0; k <= n; k++ {
				want := k >= lo[g] && (hi[g] == 0 || k <= hi[g])
				e.Check(g.IsRecommendedForSize(k) == want, "goal %v for %d agents: recommended: %v", g, k, !want)
			}
			e.Seen(fmt.Sprint(g))
		})
	}
	for s := scale.Tiny; s <= scale.Huge; s++ {
		e.Case(func() {
			rec := map[goal.Type]bool{}
			for g := goal.Type(0); g < 8; g++ {
				rec[g] = g.IsRecommendedForSize(s.DefaultAgentCount())
			}
			e.Check(rec[goal.MinimizeAPICalls] && rec[goal.MaintainRhythm], "%v", rec)
			e.Seen(fmt.Sprint(s))
		})
	}
}

// names: names and keys are unique and the keys select what they name
func names(e *vs.E) {
	e.Param("8 goals, 5 patterns")
	e.Case(func() {
		seen := map[string]string{}
		unique := func(kind, s, what string) {
			e.Check(s != "" && seen[kind+s] == "", "%s %q of %s is that of %s", kind, s, what, seen[kind+s])
			seen[kind+s] = what
		}
		events := map[display.EventType]bool{}
		selects := func(k string, what string, want display.EventType) {
			e.Check(len(k) == 1, "key %q", k)
			vs.RunOnce(nil, vs.Options{FreeSched: true, MaxSteps: 1000}, func() {
				c := display.NewKeyboardController()
				c.(*display.KeyboardController).ProcessKey(&terminalapi.Keyboard{Key: keyboard.Key(k[0])})
				r := vs.CaseRecv(c.Events())
				ok := vs.Select(true, r) == 0
				e.Check(ok && r.V.Type == want, "the key %q of %s selects %v, %v, want %v", k, what, ok, r.V.Type, want)
				events[r.V.Type] = true
			})
		}
		for g := goal.Type(0); g < 8; g++ {
			unique("name", g.String(), g.String())
			selects(g.ShortKey(), g.String(), display.GoalBatch+display.EventType(g))
		}
		for _, p := range patterns {
			unique("name", p.String(), p.String())
			unique("description", p.Description(), p.String())
			if p == pattern.Unset {
				e.Check(p.ShortKey() == "", "%v has the key %q", p, p.ShortKey())
				continue
			}
			selects(p.ShortKey(), p.String(), display.PatternHighFreq+display.EventType(p-pattern.HighFrequency))
		}
		e.Check(len(events) == 13, "%d events selected", len(events))
		for _, x := range []int{-1, 6, 8, 100} {
			p := pattern.Type(x)
			e.Check(p.String() == "Unknown" && p.ShortKey() == "" && p.Description() == "", "pattern %d: %q, %q, %q", x, p, p.ShortKey(), p.Description())
		}
		e.Seen("names")
	})
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "ratings", Run: rate})
	vs.AddEnum(&vs.Enum{Name: "sizes", Run: sizes})
	vs.AddEnum(&vs.Enum{Name: "names", Run: names, Single: true})
	vs.Main()
}
