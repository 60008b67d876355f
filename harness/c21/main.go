// C21: what a size can achieve: coherence limits, sizes, time factors, recovery thresholds and scale tables.
package main

import (
	"fmt"
	"math"
	"time"

	"MODULE/emerge/goal"
	"MODULE/emerge/scale"
	"MODULE/emerge/swarm"
	"MODULE/emerge/trait"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

type lim struct{ t, p, r float64 }

func limits(n int) lim {
	switch {
	case n <= 0:
		return lim{0, 0, 0}
	case n == 1:
		return lim{1, 1, 1}
	case n < 5:
		return lim{.95, .85, .75}
	case n < 10:
		return lim{.98, .92, .85}
	case n < 20:
		return lim{.99, .95, .90}
	case n < 50:
		return lim{.995, .97, .92}
	case n < 100:
		return lim{.998, .98, .95}
	}
	return lim{.999, .99, .97}
}

func targets(e *vs.E) []float64 {
	ts := []float64{-math.MaxFloat64, -1, -1e-9, 1 + 1e-12, 2, math.MaxFloat64}
	step := 200
	if e.Thorough() {
		step = 4000
	}
	for i := 0; i <= step; i++ {
		ts = append(ts, float64(i)/float64(step))
	}
	// every boundary with its neighbours
	for _, n := range []int{1, 2, 5, 10, 20, 50, 100} {
		l := limits(n)
		for _, b := range []float64{l.t, l.p, l.r, .8 * l.p, .9 * l.p, .95 * l.p, .99, .97, .95, .9, .85, .7, .5} {
			ts = append(ts, b, math.Nextafter(b, 0), math.Nextafter(b, 2), b-1e-9, b+1e-9)
		}
	}
	return ts
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "limits", Run: func(e *vs.E) {
		top := 2000
		if e.Thorough() {
			top = 200000
		}
		e.Param("every size -3..%d and larger", top)
		sizes := []int{math.MinInt}
		for n := -3; n <= top; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 1000000, math.MaxInt)
		for _, n := range sizes {
			e.Case(func() {
				g := swarm.GetCoherenceLimits(n)
				w := limits(n)
				e.Check(g.Theoretical == w.t && g.Practical == w.p && g.Recommended == w.r, "size %d: limits %+v, want %+v", n, g, w)
				e.Check(0 <= g.Recommended && g.Recommended <= g.Practical && g.Practical <= g.Theoretical && g.Theoretical <= 1, "size %d: limits out of order %+v", n, g)
				if n > 2 {
					prev := swarm.GetCoherenceLimits(n - 1)
					e.Check(g.Theoretical >= prev.Theoretical && g.Practical >= prev.Practical && g.Recommended >= prev.Recommended, "size %d: limits below those of a smaller swarm", n)
				}
				e.Seen(fmt.Sprint(n))
			})
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "targets", Run: func(e *vs.E) {
		ts := targets(e)
		sizes := []int{-1, 0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 19, 20, 21, 49, 50, 51, 99, 100, 101, 1000, 100000}
		e.Param("%d targets x %d sizes", len(ts), len(sizes))
		for _, t := range ts {
			e.Case(func() {
				w := 2
				switch {
				case t >= .99:
					w = 100
				case t >= .97:
					w = 50
				case t >= .95:
					w = 20
				case t >= .9:
					w = 10
				case t >= .85:
					w = 5
				}
				m := swarm.GetMinimumSwarmSize(t)
				e.Check(m == w, "minimum size for %v: %d, want %d", t, m, w)
				if t <= .99 {
					e.Check(swarm.GetCoherenceLimits(m).Practical >= t || t > limits(w).p, "the minimum size %d for %v cannot reach it", m, t)
				}
				for _, n := range sizes {
					l := limits(n)
					adj, warn := swarm.ValidateCoherenceTarget(n, t)
					switch {
					case t > l.t:
						e.Check(adj == l.t && warn != "", "size %d target %v: adjusted to %v with %q", n, t, adj, warn)
					case t > l.r:
						e.Check(adj == t && warn != "", "size %d target %v: adjusted to %v with %q", n, t, adj, warn)
					default:
						e.Check(adj == t && warn == "", "size %d target %v: adjusted to %v with %q", n, t, adj, warn)
					}
					var p string
					if t > l.p {
						_, p = swarm.ValidateCoherenceTarget(n, math.Nextafter(l.r, 2))
						e.Check(l.p == l.r || p != warn, "size %d: an unachievable target %v is only called ambitious", n, t)
					}
					if t > l.t && l.t > l.p {
						_, p = swarm.ValidateCoherenceTarget(n, math.Nextafter(l.p, 2))
						e.Check(p != warn, "size %d: the impossible target %v is only called hard", n, t)
					}
					f := swarm.GetConvergenceTimeFactor(n, t)
					u := 0.0
					if l.p > 0 {
						u = t / l.p
					}
					wf := 8.0
					switch {
					case t > l.p:
						wf = math.Inf(1)
					case l.p <= 0:
						wf = 1
					case u < .8:
						wf = 1
					case u < .9:
						wf = 2
					case u < .95:
						wf = 4
					}
					near := false
					for _, b := range []float64{.8, .9, .95} {
						near = near || math.Abs(u-b) < 1e-14
					}
					e.Check(f == wf || near, "size %d target %v: time factor %v, want %v", n, t, f, wf)
					e.Step(1)
				}
				r := swarm.DefaultRecoveryConfig(t)
				x := [4]float64{.2, .85, .10, .20}
				switch {
				case t >= .9:
					x = [4]float64{.5, .98, .03, .08}
				case t >= .7:
					x = [4]float64{.4, .95, .05, .12}
				case t >= .5:
					x = [4]float64{.3, .92, .08, .15}
				}
				e.Check(r.MinimumViableCoherence == x[0] && r.TargetMarginRatio == x[1] && r.SmallDropRatio == x[2] && r.LargeDropRatio == x[3] && r.StuckThreshold == 30 && r.CheckInterval == 100*time.Millisecond, "recovery for target %v: %+v, want %v", t, r, x)
				e.Check(r.SmallDropRatio < r.LargeDropRatio, "recovery for target %v: a small drop is larger than a large one", t)
				e.Seen(fmt.Sprint(t))
			})
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "scales and goals", Run: func(e *vs.E) {
		names := []string{"tiny", "small", "medium", "large", "huge"}
		cnt := []int{20, 50, 200, 1000, 2000}
		coh := []float64{.90, .85, .75, .65, .55}
		iv := []int{20, 50, 100, 150, 200}
		tf := []float64{1, 1.2, 1.5, 2, 3}
		nb := []int{9, 15, 20, 10, 5}
		for i := -2; i < 8; i++ {
			e.Case(func() {
				s := scale.Size(i)
				if i < 0 || i > 4 {
					e.Check(s.String() == "unknown" && s.DefaultAgentCount() == 50 && s.DefaultTargetCoherence() == .75 && s.DefaultUpdateIntervalMs() == 100 && s.DefaultConvergenceTimeFactor() == 1.5 && s.MaxNeighbors() == 3 && s.UpdateInterval() == 250, "unknown scale %d: %v", i, s)
					return
				}
				e.Check(s.String() == names[i] && s.DefaultAgentCount() == cnt[i] && s.DefaultTargetCoherence() == coh[i] && s.DefaultUpdateIntervalMs() == iv[i] && s.DefaultConvergenceTimeFactor() == tf[i] && s.MaxNeighbors() == nb[i] && s.UpdateInterval() == iv[i],
					"scale %d: %v %d %v %d %v %d %d", i, s, s.DefaultAgentCount(), s.DefaultTargetCoherence(), s.DefaultUpdateIntervalMs(), s.DefaultConvergenceTimeFactor(), s.MaxNeighbors(), s.UpdateInterval())
				e.Check(scale.FromCount(s.DefaultAgentCount()) == s, "scale %v has %d agents, which is scale %v", s, s.DefaultAgentCount(), scale.FromCount(s.DefaultAgentCount()))
				e.Check(s.DefaultTargetCoherence() <= swarm.GetCoherenceLimits(s.DefaultAgentCount()).Practical, "scale %v aims above its practical limit", s)
				e.Seen(s.String())
			})
		}
		for n := -5; n <= 3000; n++ {
			e.Case(func() {
				w := 4
				for k := 3; k >= 0; k-- {
					if n <= cnt[k] {
						w = k
					}
				}
				e.Check(int(scale.FromCount(n)) == w, "%d agents are scale %v", n, scale.FromCount(n))
				rec := []bool{true, n >= 20, n >= 50 && n <= 1000, n <= 200, n <= 200, true, n >= 20, n >= 20 && n <= 1000}
				for g, x := range rec {
					e.Check(goal.Type(g).IsRecommendedForSize(n) == x, "goal %v recommended for %d: %v", goal.Type(g), n, !x)
				}
				e.Step(1)
			})
		}
		e.Case(func() {
			seen, keys := map[string]bool{}, map[string]bool{}
			for g := 0; g < 8; g++ {
				t := goal.Type(g)
				e.Check(!seen[t.String()] && !keys[t.ShortKey()] && len(t.ShortKey()) == 1 && t.ShortKey() != "?", "goal %d: name %q or key %q is taken", g, t, t.ShortKey())
				seen[t.String()], keys[t.ShortKey()] = true, true
			}
			for _, g := range []int{-1, 8, 99} {
				t := goal.Type(g)
				e.Check(!seen[t.String()] && t.ShortKey() == "?" && t.IsRecommendedForSize(5), "unknown goal %d: %q %q", g, t, t.ShortKey())
			}
			tn := map[string]bool{}
			for t := trait.Stability; t <= trait.Precision; t++ {
				e.Check(!tn[t.String()] && t.String() != "unknown", "trait %d: name %q", t, t)
				tn[t.String()] = true
			}
			e.Check(trait.Target(6).String() == "unknown" && trait.Target(-1).String() == "unknown", "unknown trait")
			_ = hx.TwoPi
		})
	}})
	vs.Main()
}
