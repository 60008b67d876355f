// C19: every swarm configuration that is accepted is valid, and normalising changes only what has to change.
package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"MODULE/emerge/swarm"
	"MODULE/internal/config"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

const ms = time.Millisecond

var probs = []string{"ConnectionProbability", "CouplingStrength", "Stubbornness", "BasinStrength", "BaseConfidence", "InfluenceDefault"}
var counts = []string{"MaxConcurrentAgents", "BatchSize", "WorkerPoolSize", "ConnectionOptimThreshold"}

func base() config.Swarm {
	return config.Swarm{ConnectionProbability: 0.5, MaxNeighbors: 3, MinNeighbors: 2, CouplingStrength: 0.4, Stubbornness: 0.3, InitialEnergy: 70, AssumedMaxNeighbors: 9, BasinStrength: 0.6, BasinWidth: 2, BaseConfidence: 0.7, InfluenceDefault: 0.8,
		MaxSwarmSize: 5000, MaxConcurrentAgents: 11, UseBatchProcessing: true, BatchSize: 12, WorkerPoolSize: 13, AgentUpdateInterval: 14 * ms, MonitoringInterval: 15 * ms, ConnectionOptimThreshold: 16, EnableConnectionOptim: true, AutoScale: true}
}

type dev struct {
	field string
	v     any
}

func set(c *config.Swarm, d dev) {
	reflect.ValueOf(c).Elem().FieldByName(d.field).Set(reflect.ValueOf(d.v))
}

func get(c config.Swarm, f string) any { return reflect.ValueOf(c).FieldByName(f).Interface() }

func devs() [][]dev {
	var r [][]dev
	for _, p := range probs {
		var x []dev
		for _, v := range []float64{-math.MaxFloat64, -1, -1e-12, 0, 1e-12, 0.5, 1, 1 + 1e-12, 2, math.MaxFloat64} {
			x = append(x, dev{p, v})
		}
		r = append(r, x)
	}
	for _, p := range []string{"InitialEnergy", "BasinWidth"} {
		var x []dev
		for _, v := range []float64{-math.MaxFloat64, -1, 0, 1e-12, 3, math.MaxFloat64} {
			x = append(x, dev{p, v})
		}
		r = append(r, x)
	}
	for _, p := range []string{"AgentUpdateInterval", "MonitoringInterval"} {
		var x []dev
		for _, v := range []time.Duration{math.MinInt64, -1, 0, 1, time.Hour} {
			x = append(x, dev{p, v})
		}
		r = append(r, x)
	}
	for _, p := range counts {
		var x []dev
		for _, v := range []int{math.MinInt, -1, 0, 1, 1000000} {
			x = append(x, dev{p, v})
		}
		r = append(r, x)
	}
	for _, p := range []string{"MaxNeighbors", "MinNeighbors"} {
		var x []dev
		for _, v := range []int{math.MinInt, -1, 0, 1, 2, 3, 4, 5, 9, 10, 49, 99, 100, 1000} {
			x = append(x, dev{p, v})
		}
		r = append(r, x)
	}
	var x []dev
	for _, v := range []int{-1, 0, 1, 2, 49, 50, 51} {
		x = append(x, dev{"MaxSwarmSize", v})
	}
	r = append(r, x, []dev{{"UseBatchProcessing", false}, {"UseBatchProcessing", true}}, []dev{{"AssumedMaxNeighbors", 0}, {"AssumedMaxNeighbors", -1}})
	return r
}

// faults names the fields a valid configuration may not have so.
func faults(c config.Swarm, n int) map[string]bool {
	f := map[string]bool{}
	if n <= 0 {
		f["swarmSize"] = true
	}
	if c.MaxSwarmSize > 0 && n > c.MaxSwarmSize {
		f["MaxSwarmSize"] = true
	}
	for _, p := range probs {
		if v := get(c, p).(float64); v < 0 || v > 1 {
			f[p] = true
		}
	}
	if n == 1 && c.MaxNeighbors != 0 || n != 1 && c.MaxNeighbors < 1 || n > 0 && c.MaxNeighbors > n-1 {
		f["MaxNeighbors"] = true
	}
	if c.MinNeighbors < 0 || c.MinNeighbors > c.MaxNeighbors {
		f["MinNeighbors"] = true
	}
	if c.InitialEnergy <= 0 {
		f["InitialEnergy"] = true
	}
	if c.BasinWidth <= 0 {
		f["BasinWidth"] = true
	}
	if c.AgentUpdateInterval <= 0 {
		f["AgentUpdateInterval"] = true
	}
	if c.MonitoringInterval <= 0 {
		f["MonitoringInterval"] = true
	}
	for _, p := range counts {
		if get(c, p).(int) < 0 {
			f[p] = true
		}
	}
	return f
}

func clamp(v, lo, hi int) int {
	if v > hi {
		v = hi
	}
	if v < lo {
		v = lo
	}
	return v
}

// normal is what normalising has to give for a size n > 0.
func normal(c config.Swarm, n int) config.Swarm {
	for _, p := range probs {
		set(&c, dev{p, hx.Clamp01(get(c, p).(float64))})
	}
	if n == 1 {
		c.MaxNeighbors, c.MinNeighbors = 0, 0
	} else {
		c.MaxNeighbors = clamp(c.MaxNeighbors, 1, n-1)
		c.MinNeighbors = clamp(c.MinNeighbors, 0, c.MaxNeighbors)
	}
	if c.InitialEnergy <= 0 {
		c.InitialEnergy = 100
	}
	if c.BasinWidth <= 0 {
		c.BasinWidth = math.Pi
	}
	if c.AgentUpdateInterval <= 0 {
		c.AgentUpdateInterval = 50 * ms
	}
	if c.MonitoringInterval <= 0 {
		c.MonitoringInterval = 100 * ms
	}
	for _, p := range counts {
		if get(c, p).(int) < 0 {
			set(&c, dev{p, 0})
		}
	}
	if c.UseBatchProcessing {
		if c.BatchSize == 0 {
			c.BatchSize = clamp(n/50, 10, math.MaxInt)
		}
		if c.WorkerPoolSize == 0 {
			c.WorkerPoolSize = clamp(n/20, 4, 100)
		}
	}
	return c
}

func keys(m map[string]bool) string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return fmt.Sprint(r)
}

func one(e *vs.E, c config.Swarm, n int, what string) {
	want := faults(c, n)
	before := c
	err := c.Validate(n)
	e.Check(c == before, "%s: validating changed the configuration", what)
	got := map[string]bool{}
	if err != nil {
		var ve config.ValidationErrors
		if !errors.As(err, &ve) {
			e.Fail("%s: not a validation error: %v", what, err)
		}
		for _, x := range ve {
			got[x.Field] = true
		}
		// the message names every fault, with the value
		for _, x := range ve {
			e.Check(strings.Contains(err.Error(), x.Field) && strings.Contains(err.Error(), fmt.Sprint(x.Value)) && strings.Contains(err.Error(), x.Message), "%s: the message %q lacks %s, %v, %s", what, err, x.Field, x.Value, x.Message)
			e.Check(x.Message != "" && x.Error() != "", "%s: no message for %s", what, x.Field)
			if v := reflect.ValueOf(c).FieldByName(x.Field); v.IsValid() {
				e.Check(strings.Contains(fmt.Sprint(x.Value), fmt.Sprint(v.Interface())), "%s: %s is reported to be %v", what, x.Field, x.Value)
			}
		}
	}
	e.Check((err == nil) == (len(want) == 0) && keys(got) == keys(want), "%s: faulty fields reported %s, want %s", what, keys(got), keys(want))
	err = c.NormalizeAndValidate(n)
	fatal := want["swarmSize"] || want["MaxSwarmSize"]
	e.Check((err != nil) == fatal, "%s: normalising gives %v", what, err)
	if !fatal {
		w := normal(before, n)
		e.Check(c == w, "%s: normalised to %+v, want %+v", what, c, w)
		e.Check(c.Validate(n) == nil, "%s: normalised configuration is invalid: %v", what, c.Validate(n))
		again := c
		e.Check(again.NormalizeAndValidate(n) == nil && again == c, "%s: normalising twice changes it again", what)
	}
	e.Step(1)
}

// the presets, as documented
func defaultConfig() config.Swarm {
	return config.Swarm{ConnectionProbability: 0.3, MaxNeighbors: 5, MinNeighbors: 2, CouplingStrength: 0.5, Stubbornness: 0.2, InitialEnergy: 100.0, AssumedMaxNeighbors: 20, BasinStrength: 0.8, BasinWidth: math.Pi, BaseConfidence: 0.6, InfluenceDefault: 0.2, MaxSwarmSize: 1000000, MaxConcurrentAgents: 1000, UseBatchProcessing: true, BatchSize: 0, WorkerPoolSize: 0, AgentUpdateInterval: 50 * ms, MonitoringInterval: 100 * ms, ConnectionOptimThreshold: 50000, EnableConnectionOptim: true, AutoScale: false}
}
func smallSwarmConfig() config.Swarm {
	return config.Swarm{ConnectionProbability: 0.9, MaxNeighbors: 10, MinNeighbors: 2, CouplingStrength: 0.8, Stubbornness: 0.05, InitialEnergy: 100.0, AssumedMaxNeighbors: 0, BasinStrength: 0.9, BasinWidth: 2 * math.Pi, BaseConfidence: 0.8, InfluenceDefault: 0.1, MaxSwarmSize: 100, MaxConcurrentAgents: 0, UseBatchProcessing: false, BatchSize: 0, WorkerPoolSize: 0, AgentUpdateInterval: 25 * ms, MonitoringInterval: 50 * ms, ConnectionOptimThreshold: 1000, EnableConnectionOptim: false, AutoScale: false}
}
func mediumSwarmConfig() config.Swarm {
	return config.Swarm{ConnectionProbability: 0.5, MaxNeighbors: 8, MinNeighbors: 3, CouplingStrength: 0.6, Stubbornness: 0.1, InitialEnergy: 100.0, AssumedMaxNeighbors: 0, BasinStrength: 0.85, BasinWidth: 1.5 * math.Pi, BaseConfidence: 0.7, InfluenceDefault: 0.2, MaxSwarmSize: 1000, MaxConcurrentAgents: 100, UseBatchProcessing: false, BatchSize: 0, WorkerPoolSize: 0, AgentUpdateInterval: 40 * ms, MonitoringInterval: 75 * ms, ConnectionOptimThreshold: 5000, EnableConnectionOptim: false, AutoScale: false}
}

func auto(n int) config.Swarm {
	min := func(a, b int) int {
		if a < b {
			return a
		}
		return b
	}
	max := func(a, b int) int { return -min(-a, -b) }
	c := config.Swarm{InitialEnergy: 100}
	switch {
	case n < 10:
		c.ConnectionProbability, c.MaxNeighbors, c.MinNeighbors, c.CouplingStrength, c.Stubbornness, c.BasinStrength, c.BasinWidth, c.BaseConfidence, c.InfluenceDefault = 1, n-1, n-1, 0.9, 0.01, 0.95, 2.5*math.Pi, 0.9, 0.1
		c.MaxSwarmSize, c.AgentUpdateInterval, c.MonitoringInterval, c.ConnectionOptimThreshold = 50, 20*ms, 25*ms, 1000
	case n < 20:
		c = smallSwarmConfig()
		c.MaxNeighbors = min(10, n-1)
	case n < 100:
		c = mediumSwarmConfig()
		c.MaxNeighbors = min(15, n/5)
	case n < 1000:
		c = defaultConfig()
		c.MaxNeighbors = min(20, n/10)
		c.CouplingStrength, c.InfluenceDefault, c.Stubbornness = 0.7, 0.2, 0.1
		c.MaxConcurrentAgents, c.UseBatchProcessing, c.BatchSize, c.WorkerPoolSize = min(500, n/2), n > 200, max(10, n/50), min(50, n/20)
	default:
		c = defaultConfig()
		c.MaxNeighbors = min(10, n/100)
		c.MaxConcurrentAgents, c.UseBatchProcessing, c.BatchSize, c.WorkerPoolSize = 1000, true, max(50, n/100), 100
		c.AgentUpdateInterval, c.MonitoringInterval, c.ConnectionOptimThreshold, c.EnableConnectionOptim = 100*ms, 250*ms, 1000, true
	}
	c.AutoScale = true
	c.AssumedMaxNeighbors = 0
	if n > 100 {
		c.CouplingStrength *= 100 / float64(n)
	}
	return c
}

// eq compares two configurations, allowing rounding in the real-valued fields.
func eq(a, b config.Swarm) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	for i := 0; i < x.NumField(); i++ {
		if x.Field(i).Kind() == reflect.Float64 {
			if !hx.Eq(x.Field(i).Float(), y.Field(i).Float()) {
				return false
			}
		} else if x.Field(i).Interface() != y.Field(i).Interface() {
			return false
		}
	}
	return true
}

func batching(n int, w time.Duration) config.Swarm {
	min := math.Min
	var c config.Swarm
	if n <= 30 {
		c = config.Swarm{ConnectionProbability: 0.9, MaxNeighbors: int(min(float64(n-1), 15)), MinNeighbors: int(min(float64(n/2), 8)), CouplingStrength: 0.85, Stubbornness: 0.02, InitialEnergy: 100, BasinStrength: 0.95, BasinWidth: 2.5 * math.Pi, BaseConfidence: 0.9, InfluenceDefault: 0.85}
	} else {
		c = auto(n)
		c.ConnectionProbability = min(0.75, 1.5*c.ConnectionProbability)
		c.CouplingStrength = min(0.8, 1.3*c.CouplingStrength)
		c.Stubbornness *= 0.2
		c.BaseConfidence, c.InfluenceDefault, c.BasinStrength, c.BasinWidth = 0.85, 0.8, 0.9, 2*math.Pi
	}
	if w < 100*ms {
		c.CouplingStrength = min(0.95, 1.2*c.CouplingStrength)
		c.Stubbornness /= 2
	} else if w > 500*ms {
		c.CouplingStrength *= 0.95
	}
	return c
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "fields", Run: func(e *vs.E) {
		sizes := []int{math.MinInt, -1, 0, 1, 2, 3, 4, 10, 50, 100, 101, 500, 999, 2001, 5000, 5001}
		ds := devs()
		e.Param("%d sizes x every one and two (three: thorough) of %d fields at every boundary value", len(sizes), len(ds))
		for _, n := range sizes {
			e.Case(func() { one(e, base(), n, fmt.Sprintf("size %d", n)) })
			e.Case(func() { one(e, config.Swarm{}, n, fmt.Sprintf("size %d, zero configuration", n)) })
			for i := range ds {
				for j := i; j < len(ds) && !e.Stop(); j++ {
					for _, a := range ds[i] {
						for _, b := range ds[j] {
							e.Case(func() {
								c := base()
								set(&c, a)
								set(&c, b)
								one(e, c, n, fmt.Sprintf("size %d, %v, %v", n, a, b))
								e.Seen(fmt.Sprint(n, a.field, b.field, keys(faults(c, n))))
							})
							if e.Thorough() {
								for k := j + 1; k < len(ds); k++ {
									for _, d := range ds[k] {
										e.Case(func() {
											c := base()
											set(&c, a)
											set(&c, b)
											set(&c, d)
											one(e, c, n, fmt.Sprintf("size %d, %v, %v, %v", n, a, b, d))
										})
									}
								}
							}
						}
					}
				}
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "scaling", Run: func(e *vs.E) {
		top := 5000
		if e.Thorough() {
			top = 1000000
		}
		var sizes []int
		for n := 1; n <= top; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 9999, 10000, 10001, 50000, 100000, 999999, 1000000)
		e.Param("every size 1..%d and larger ones", top)
		for _, n := range sizes {
			e.Case(func() {
				c, w := config.AutoScaleConfig(n), auto(n)
				e.Check(eq(c, w), "size %d scales to %+v, want %+v", n, c, w)
				e.Check(c.Validate(n) == nil, "the scaled configuration for %d agents is invalid: %v", n, c.Validate(n))
				e.Check(swarm.AutoScaleConfig(n) == c, "the swarm package scales %d differently", n)
				e.Seen(fmt.Sprint(n))
				for _, bw := range []time.Duration{-1, 0, 1, 100*ms - 1, 100 * ms, 300 * ms, 500 * ms, 500*ms + 1, time.Hour} {
					c, w := config.ForBatching(n, bw), batching(n, bw)
					e.Check(eq(c, w), "batching %d agents every %v gives %+v, want %+v", n, bw, c, w)
					err := c.NormalizeAndValidate(n)
					e.Check(err == nil && c.Validate(n) == nil, "batching %d agents every %v: %v", n, bw, err)
					e.Check(c.CouplingStrength > 0 && c.CouplingStrength <= 0.95, "batching %d agents every %v: coupling %v", n, bw, c.CouplingStrength)
					e.Step(1)
				}
			})
		}
		for _, n := range []int{1000001, 5000000} {
			e.Case(func() {
				c := config.AutoScaleConfig(n)
				e.Check(c.NormalizeAndValidate(n) != nil, "%d agents exceed the limit of 1000000 but are accepted", n)
			})
		}
		for name, c := range map[string]config.Swarm{"small": config.SmallSwarmConfig(), "medium": config.MediumSwarmConfig(), "default": config.DefaultConfig()} {
			for n := 1; n < 120; n++ {
				e.Case(func() {
					want := map[string]config.Swarm{"small": smallSwarmConfig(), "medium": mediumSwarmConfig(), "default": defaultConfig()}[name]
					e.Check(eq(c, want), "the %s configuration is %+v", name, c)
					x := c
					err := x.NormalizeAndValidate(n)
					e.Check((err != nil) == (n > c.MaxSwarmSize), "%s configuration for %d agents: %v", name, n, err)
					if err == nil {
						e.Check(eq(x, normal(c, n)), "%s configuration for %d agents: %+v", name, n, x)
					}
				})
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "agents", Run: func(e *vs.E) {
		for n := 1; n < 1500; n++ {
			for k, c := range []config.Swarm{config.AutoScaleConfig(n), config.ForBatching(n, 50*ms), base()} {
				e.Case(func() {
					a := config.AgentFromSwarm(c)
					e.Check(a.MaxTokens == c.InitialEnergy && a.InitialEnergy == c.InitialEnergy && a.StrategyRate == c.CouplingStrength && a.Influence == c.InfluenceDefault && a.Stubbornness == c.Stubbornness && a.AssumedMaxNeighbors == c.AssumedMaxNeighbors && a.RandomizePhase && a.RandomizeLocalGoal && a.RandomizeFrequency,
						"agents of configuration %d for %d: %+v from %+v", k, n, a, c)
					e.Seen(fmt.Sprint(k, n))
				})
			}
		}
	}})
	vs.Main()
}
