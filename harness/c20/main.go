// C20: goal configurations are valid, independent and tuned as documented.
package main

import (
	"fmt"
	"math"
	"reflect"
	"time"

	"MODULE/emerge/goal"
	"MODULE/emerge/swarm"
	"MODULE/emerge/trait"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

const ms = time.Millisecond

// table is the documented configuration of every goal; the last row is the default.
var table = []swarm.Config{
	{ // MinAPI
		Convergence: swarm.ConvergenceConfig{ToleranceSmall: 0.01, ToleranceMedium: 0.005, ToleranceLarge: 0.003, PhaseConvergenceGoal: 0.90, PatternDistanceThreshold: 0.05, BaseAdjustmentScale: 0.75},
		Thresholds:  swarm.ThresholdConfig{PhaseVariance: 0.3, HighCoherence: 0.85, VeryHighCoherence: 0.90, ModerateCoherence: 0.80},
		Variation:   swarm.VariationConfig{BaseRange: [2]float64{0.05, 0.15}, CoherenceFactor: 0.15, RandomWalkMagnitude: 0.05, PerturbationMagnitude: 0.04, PerturbationChance: 0.10},
		Strategy:    swarm.StrategyConfig{MaxIterationsFactor: 150.0, UpdateInterval: 200 * ms, ExplorationBonusMax: 0.2, ExplorationTimeWindow: 45 * time.Second, RandomExploration: 0.05},
		Resonance:   swarm.ResonanceConfig{NoiseMagnitude: 0.3, AffectedAgents: 0.05, ActivationRate: 0.05},
	},
	{ // DistLoad
		Convergence: swarm.ConvergenceConfig{ToleranceSmall: 0.025, ToleranceMedium: 0.015, ToleranceLarge: 0.010, PhaseConvergenceGoal: 0.30, PatternDistanceThreshold: 0.2, BaseAdjustmentScale: 0.55},
		Thresholds:  swarm.ThresholdConfig{PhaseVariance: 0.8, HighCoherence: 0.4, VeryHighCoherence: 0.5, ModerateCoherence: 0.3},
		Variation:   swarm.VariationConfig{BaseRange: [2]float64{0.25, 0.45}, CoherenceFactor: 0.3, RandomWalkMagnitude: 0.2, PerturbationMagnitude: 0.15, PerturbationChance: 0.25},
		Strategy:    swarm.StrategyConfig{MaxIterationsFactor: 100.0, UpdateInterval: 50 * ms, ExplorationBonusMax: 0.4, ExplorationTimeWindow: 30 * time.Second, RandomExploration: 0.15},
		Resonance:   swarm.ResonanceConfig{NoiseMagnitude: 0.6, AffectedAgents: 0.15, ActivationRate: 0.15},
	},
	{ // Consensus
		Convergence: swarm.ConvergenceConfig{ToleranceSmall: 0.008, ToleranceMedium: 0.004, ToleranceLarge: 0.002, PhaseConvergenceGoal: 0.95, PatternDistanceThreshold: 0.03, BaseAdjustmentScale: 0.80},
		Thresholds:  swarm.ThresholdConfig{PhaseVariance: 0.2, HighCoherence: 0.90, VeryHighCoherence: 0.95, ModerateCoherence: 0.85},
		Variation:   swarm.VariationConfig{BaseRange: [2]float64{0.03, 0.10}, CoherenceFactor: 0.10, RandomWalkMagnitude: 0.03, PerturbationMagnitude: 0.02, PerturbationChance: 0.05},
		Strategy:    swarm.StrategyConfig{MaxIterationsFactor: 250.0, UpdateInterval: 100 * ms, ExplorationBonusMax: 0.25, ExplorationTimeWindow: 60 * time.Second, RandomExploration: 0.08},
		Resonance:   swarm.ResonanceConfig{NoiseMagnitude: 0.2, AffectedAgents: 0.03, ActivationRate: 0.03},
	},
	{ // Latency
		Convergence: swarm.ConvergenceConfig{ToleranceSmall: 0.020, ToleranceMedium: 0.012, ToleranceLarge: 0.008, PhaseConvergenceGoal: 0.75, PatternDistanceThreshold: 0.15, BaseAdjustmentScale: 0.85},
		Thresholds:  swarm.ThresholdConfig{PhaseVariance: 0.4, HighCoherence: 0.80, VeryHighCoherence: 0.85, ModerateCoherence: 0.75},
		Variation:   swarm.VariationConfig{BaseRange: [2]float64{0.10, 0.20}, CoherenceFactor: 0.15, RandomWalkMagnitude: 0.08, PerturbationMagnitude: 0.06, PerturbationChance: 0.12},
		Strategy:    swarm.StrategyConfig{MaxIterationsFactor: 80.0, UpdateInterval: 25 * ms, ExplorationBonusMax: 0.35, ExplorationTimeWindow: 20 * time.Second, RandomExploration: 0.12},
		Resonance:   swarm.ResonanceConfig{NoiseMagnitude: 0.4, AffectedAgents: 0.08, ActivationRate: 0.10},
	},
	{ // Energy
		Convergence: swarm.ConvergenceConfig{ToleranceSmall: 0.030, ToleranceMedium: 0.020, ToleranceLarge: 0.015, PhaseConvergenceGoal: 0.70, PatternDistanceThreshold: 0.20, BaseAdjustmentScale: 0.40},
		Thresholds:  swarm.ThresholdConfig{PhaseVariance: 0.6, HighCoherence: 0.75, VeryHighCoherence: 0.80, ModerateCoherence: 0.70},
		Variation:   swarm.VariationConfig{BaseRange: [2]float64{0.08, 0.18}, CoherenceFactor: 0.12, RandomWalkMagnitude: 0.06, PerturbationMagnitude: 0.05, PerturbationChance: 0.08},
		Strategy:    swarm.StrategyConfig{MaxIterationsFactor: 300.0, UpdateInterval: 250 * ms, ExplorationBonusMax: 0.15, ExplorationTimeWindow: 90 * time.Second, RandomExploration: 0.05},
		Resonance:   swarm.ResonanceConfig{NoiseMagnitude: 0.25, AffectedAgents: 0.05, ActivationRate: 0.05},
	},
	{ // Rhythm
		Convergence: swarm.ConvergenceConfig{ToleranceSmall: 0.012, ToleranceMedium: 0.006, ToleranceLarge: 0.003, PhaseConvergenceGoal: 0.80, PatternDistanceThreshold: 0.08, BaseAdjustmentScale: 0.70},
		Thresholds:  swarm.ThresholdConfig{PhaseVariance: 0.4, HighCoherence: 0.85, VeryHighCoherence: 0.90, ModerateCoherence: 0.80},
		Variation:   swarm.VariationConfig{BaseRange: [2]float64{0.08, 0.16}, CoherenceFactor: 0.15, RandomWalkMagnitude: 0.06, PerturbationMagnitude: 0.05, PerturbationChance: 0.10},
		Strategy:    swarm.StrategyConfig{MaxIterationsFactor: 180.0, UpdateInterval: 100 * ms, ExplorationBonusMax: 0.25, ExplorationTimeWindow: 50 * time.Second, RandomExploration: 0.08},
		Resonance:   swarm.ResonanceConfig{NoiseMagnitude: 0.3, AffectedAgents: 0.06, ActivationRate: 0.08},
	},
	{ // Recovery
		Convergence: swarm.ConvergenceConfig{ToleranceSmall: 0.025, ToleranceMedium: 0.015, ToleranceLarge: 0.010, PhaseConvergenceGoal: 0.65, PatternDistanceThreshold: 0.18, BaseAdjustmentScale: 0.60},
		Thresholds:  swarm.ThresholdConfig{PhaseVariance: 0.7, HighCoherence: 0.70, VeryHighCoherence: 0.75, ModerateCoherence: 0.65},
		Variation:   swarm.VariationConfig{BaseRange: [2]float64{0.20, 0.40}, CoherenceFactor: 0.25, RandomWalkMagnitude: 0.15, PerturbationMagnitude: 0.12, PerturbationChance: 0.20},
		Strategy:    swarm.StrategyConfig{MaxIterationsFactor: 350.0, UpdateInterval: 75 * ms, ExplorationBonusMax: 0.40, ExplorationTimeWindow: 30 * time.Second, RandomExploration: 0.15},
		Resonance:   swarm.ResonanceConfig{NoiseMagnitude: 0.7, AffectedAgents: 0.15, ActivationRate: 0.20},
	},
	{ // Traffic
		Convergence: swarm.ConvergenceConfig{ToleranceSmall: 0.040, ToleranceMedium: 0.030, ToleranceLarge: 0.020, PhaseConvergenceGoal: 0.50, PatternDistanceThreshold: 0.25, BaseAdjustmentScale: 0.45},
		Thresholds:  swarm.ThresholdConfig{PhaseVariance: 0.9, HighCoherence: 0.60, VeryHighCoherence: 0.70, ModerateCoherence: 0.50},
		Variation:   swarm.VariationConfig{BaseRange: [2]float64{0.30, 0.50}, CoherenceFactor: 0.35, RandomWalkMagnitude: 0.25, PerturbationMagnitude: 0.20, PerturbationChance: 0.30},
		Strategy:    swarm.StrategyConfig{MaxIterationsFactor: 100.0, UpdateInterval: 50 * ms, ExplorationBonusMax: 0.50, ExplorationTimeWindow: 20 * time.Second, RandomExploration: 0.25},
		Resonance:   swarm.ResonanceConfig{NoiseMagnitude: 0.8, AffectedAgents: 0.20, ActivationRate: 0.25},
	},
	{ // Default
		Convergence: swarm.ConvergenceConfig{ToleranceSmall: 0.015, ToleranceMedium: 0.008, ToleranceLarge: 0.005, PhaseConvergenceGoal: 0.85, PatternDistanceThreshold: 0.1, BaseAdjustmentScale: 0.65},
		Thresholds:  swarm.ThresholdConfig{PhaseVariance: 0.5, HighCoherence: 0.9, VeryHighCoherence: 0.92, ModerateCoherence: 0.85},
		Variation:   swarm.VariationConfig{BaseRange: [2]float64{0.15, 0.30}, CoherenceFactor: 0.2, RandomWalkMagnitude: 0.1, PerturbationMagnitude: 0.08, PerturbationChance: 0.15},
		Strategy:    swarm.StrategyConfig{MaxIterationsFactor: 200.0, UpdateInterval: 100 * ms, ExplorationBonusMax: 0.3, ExplorationTimeWindow: 60 * time.Second, RandomExploration: 0.1},
		Resonance:   swarm.ResonanceConfig{NoiseMagnitude: 0.5, AffectedAgents: 0.1, ActivationRate: 0.1},
	},
}

func row(g int) swarm.Config {
	if g >= 0 && g < 8 {
		return table[g]
	}
	return table[8]
}

func scale(d time.Duration, f float64) time.Duration { return time.Duration(float64(d) * f) }

func tune(c swarm.Config, t trait.Target) swarm.Config {
	v, k, s, r, w := &c.Variation, &c.Convergence, &c.Strategy, &c.Resonance, &c.Strategy.UpdateInterval
	tol := func(f float64) {
		k.ToleranceSmall *= f
		k.ToleranceMedium *= f
		k.ToleranceLarge *= f
	}
	switch t {
	case trait.Stability:
		k.BaseAdjustmentScale *= 0.6
		v.BaseRange[0] *= 1.2
		v.BaseRange[1] *= 1.3
		v.PerturbationMagnitude *= 0.7
		*w = scale(*w, 1.5)
		r.NoiseMagnitude *= 0.6
	case trait.Speed:
		k.BaseAdjustmentScale = math.Min(1, 1.3*k.BaseAdjustmentScale)
		tol(1.5)
		*w = scale(*w, 0.5)
		s.MaxIterationsFactor *= 0.7
	case trait.Efficiency:
		*w = scale(*w, 2)
		v.PerturbationChance *= 0.5
		r.AffectedAgents *= 0.5
		s.ExplorationBonusMax *= 0.7
	case trait.Throughput:
		k.BaseAdjustmentScale = math.Min(1, 1.2*k.BaseAdjustmentScale)
		*w = scale(*w, 0.7)
		s.RandomExploration *= 1.5
	case trait.Resilience:
		v.BaseRange[0] *= 1.3
		v.BaseRange[1] *= 1.4
		r.NoiseMagnitude *= 1.5
		r.AffectedAgents = math.Min(1, 1.5*r.AffectedAgents)
		r.ActivationRate = math.Min(1, 1.8*r.ActivationRate)
	case trait.Precision:
		tol(0.5)
		k.PatternDistanceThreshold *= 0.5
		k.PhaseConvergenceGoal = math.Min(0.98, 1.1*k.PhaseConvergenceGoal)
	}
	return c
}

func sized(c swarm.Config, n int) swarm.Config {
	k, v, s := &c.Convergence, &c.Variation, &c.Strategy
	switch {
	case n <= 20:
		k.ToleranceSmall, k.ToleranceMedium, k.ToleranceLarge = 0.02, 0.02, 0.02
		v.BaseRange = [2]float64{0.05, 0.1}
		s.UpdateInterval = 20 * ms
	case n <= 50:
		k.ToleranceSmall, k.ToleranceMedium, k.ToleranceLarge = 0.015, 0.015, 0.015
		v.BaseRange[0] *= 0.8
		v.BaseRange[1] *= 0.9
		if s.UpdateInterval > 50*ms {
			s.UpdateInterval = 50 * ms
		}
	case n <= 200:
	case n <= 1000:
		k.ToleranceSmall *= 1.5
		k.ToleranceMedium *= 1.3
		k.ToleranceLarge *= 1.2
		v.BaseRange[0] *= 1.2
		v.BaseRange[1] *= 1.3
		if s.UpdateInterval < 150*ms {
			s.UpdateInterval = 150 * ms
		}
		s.MaxIterationsFactor *= 1.5
	default:
		k.ToleranceSmall *= 2
		k.ToleranceMedium *= 1.8
		k.ToleranceLarge *= 1.5
		v.BaseRange[0] *= 1.5
		v.BaseRange[1] *= 1.8
		if s.UpdateInterval < 200*ms {
			s.UpdateInterval = 200 * ms
		}
		s.MaxIterationsFactor *= 2
		c.Resonance.AffectedAgents = math.Min(0.05, c.Resonance.AffectedAgents)
	}
	return c
}

// same compares configurations field by field; whole milliseconds of the interval are enough.
func same(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		return same(a.Index(0), b.Index(0)) && same(a.Index(1), b.Index(1))
	case reflect.Float64:
		return hx.Eq(a.Float(), b.Float())
	case reflect.Int64:
		d := a.Int() - b.Int()
		return d < int64(ms) && d > -int64(ms)
	}
	return a.Interface() == b.Interface()
}

func eq(a, b swarm.Config) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b)) }

var sizes = []int{-1, 0, 1, 10, 20, 21, 50, 51, 100, 200, 201, 1000, 1001, 2000, 1000000}

func chains(e *vs.E) {
	depth := 4
	if e.Thorough() {
		depth = 6
	}
	e.Param("goals -1..9 x all chains of at most %d traits (and an unknown one) x %d sizes, before and after sizing", depth, len(sizes))
	for g := -1; g <= 9; g++ {
		var rec func(ts []trait.Target)
		rec = func(ts []trait.Target) {
			if e.Stop() {
				return
			}
			e.Case(func() {
				c := swarm.For(goal.Type(g))
				w := row(g)
				e.Check(eq(*c, w), "goal %d: %+v, want %+v", g, *c, w)
				for _, t := range ts {
					r := c.TuneFor(t)
					e.Check(r == c, "TuneFor returns another configuration")
					w = tune(w, t)
				}
				e.Check(eq(*c, w), "goal %d tuned for %v: %+v, want %+v", g, ts, *c, w)
				e.Check(c.Validate() == nil, "goal %d tuned for %v is invalid: %v", g, ts, c.Validate())
				e.Seen(fmt.Sprintf("%+v", *c))
				for _, n := range sizes {
					d := *c
					d.WithSize(n)
					x := sized(w, n)
					e.Check(eq(d, x), "goal %d tuned for %v, size %d: %+v, want %+v", g, ts, n, d, x)
					e.Check(d.Validate() == nil, "goal %d tuned for %v, size %d, is invalid: %v", g, ts, n, d.Validate())
					// sizing first, tuning afterwards
					f := swarm.For(goal.Type(g)).WithSize(n)
					y := sized(row(g), n)
					for _, t := range ts {
						f.TuneFor(t)
						y = tune(y, t)
					}
					e.Check(eq(*f, y) && f.Validate() == nil, "goal %d, size %d, tuned for %v: %+v (%v), want %+v", g, n, ts, *f, f.Validate(), y)
					e.Step(1)
				}
				// nothing of this leaks into a new configuration
				e.Check(eq(*swarm.For(goal.Type(g)), row(g)), "goal %d tuned for %v: tuning changed the defaults of later configurations", g, ts)
			})
			if len(ts) < depth {
				for t := trait.Stability; t <= trait.Precision; t++ {
					rec(append(append([]trait.Target{}, ts...), t))
				}
			}
		}
		rec(nil)
		for _, t := range []trait.Target{-1, 6, 100} {
			e.Case(func() {
				c := swarm.For(goal.Type(g)).TuneFor(t)
				e.Check(eq(*c, row(g)), "an unknown trait changes goal %d", g)
			})
		}
	}
}

func invalid(e *vs.E) {
	type dev struct {
		name string
		f    func(c *swarm.Config, v float64)
		vals []float64
		bad  func(c *swarm.Config) bool
	}
	out01 := func(x float64) bool { return x < 0 || x > 1 }
	p := []float64{-math.MaxFloat64, -1e-9, 0, 0.5, 1, 1 + 1e-9, math.MaxFloat64}
	ds := []dev{
		{"BaseAdjustmentScale", func(c *swarm.Config, v float64) { c.Convergence.BaseAdjustmentScale = v }, p, func(c *swarm.Config) bool { return out01(c.Convergence.BaseAdjustmentScale) }},
		{"PhaseConvergenceGoal", func(c *swarm.Config, v float64) { c.Convergence.PhaseConvergenceGoal = v }, p, func(c *swarm.Config) bool { return out01(c.Convergence.PhaseConvergenceGoal) }},
		{"PerturbationChance", func(c *swarm.Config, v float64) { c.Variation.PerturbationChance = v }, p, func(c *swarm.Config) bool { return out01(c.Variation.PerturbationChance) }},
		{"AffectedAgents", func(c *swarm.Config, v float64) { c.Resonance.AffectedAgents = v }, p, func(c *swarm.Config) bool { return out01(c.Resonance.AffectedAgents) }},
		{"ActivationRate", func(c *swarm.Config, v float64) { c.Resonance.ActivationRate = v }, p, func(c *swarm.Config) bool { return out01(c.Resonance.ActivationRate) }},
		{"variation minimum", func(c *swarm.Config, v float64) { c.Variation.BaseRange[0] = v }, []float64{-1, -1e-9, 0, 0.2, 0.5, 1}, func(c *swarm.Config) bool {
			return c.Variation.BaseRange[0] < 0 || c.Variation.BaseRange[0] > c.Variation.BaseRange[1]
		}},
		{"variation maximum", func(c *swarm.Config, v float64) { c.Variation.BaseRange[1] = v }, []float64{-1, -1e-9, 0, 0.2, 0.5, 1}, func(c *swarm.Config) bool { return c.Variation.BaseRange[1] < 0 }},
		{"UpdateInterval", func(c *swarm.Config, v float64) { c.Strategy.UpdateInterval = time.Duration(v) }, []float64{-1e9, -1, 0, 1, 1e12}, func(c *swarm.Config) bool { return c.Strategy.UpdateInterval <= 0 }},
		{"ExplorationTimeWindow", func(c *swarm.Config, v float64) { c.Strategy.ExplorationTimeWindow = time.Duration(v) }, []float64{-1e9, -1, 0, 1, 1e12}, func(c *swarm.Config) bool { return c.Strategy.ExplorationTimeWindow <= 0 }},
		{"ModerateCoherence", func(c *swarm.Config, v float64) { c.Thresholds.ModerateCoherence = v }, []float64{0, 0.5, 0.7, 0.9, 1}, func(c *swarm.Config) bool { return c.Thresholds.ModerateCoherence > c.Thresholds.HighCoherence }},
		{"HighCoherence", func(c *swarm.Config, v float64) { c.Thresholds.HighCoherence = v }, []float64{0, 0.5, 0.7, 0.9, 1}, func(c *swarm.Config) bool { return c.Thresholds.HighCoherence > c.Thresholds.VeryHighCoherence }},
		{"VeryHighCoherence", func(c *swarm.Config, v float64) { c.Thresholds.VeryHighCoherence = v }, []float64{0, 0.5, 0.7, 0.9, 1}, func(c *swarm.Config) bool { return false }},
	}
	e.Param("every combination of three of %d fields at their boundary values: rejected exactly if one is out of range", len(ds))
	for g := 0; g <= 8; g++ {
		for i := range ds {
			for j := i; j < len(ds); j++ {
				for k := j; k < len(ds); k++ {
					e.Case(func() {
						for _, a := range ds[i].vals {
							for _, b := range ds[j].vals {
								for _, d := range ds[k].vals {
									c := swarm.For(goal.Type(g))
									ds[i].f(c, a)
									ds[j].f(c, b)
									ds[k].f(c, d)
									bad := ""
									for _, x := range ds {
										if x.bad(c) {
											bad = x.name
										}
									}
									before := *c
									err := c.Validate()
									e.Check((err != nil) == (bad != ""), "goal %d with %s %v, %s %v, %s %v: Validate says %v", g, ds[i].name, a, ds[j].name, b, ds[k].name, d, err)
									e.Check(*c == before, "Validate changed the configuration")
									e.Step(1)
								}
							}
						}
						e.Seen(fmt.Sprint(g, i, j, k))
					})
				}
			}
		}
	}
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "goals, traits and sizes", Run: chains})
	vs.AddEnum(&vs.Enum{Name: "validation", Run: invalid})
	vs.Main()
}
