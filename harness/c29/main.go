// C29: the metrics collector is the exact summary of what was recorded since the last reset.
package main

import (
	"fmt"
	"math"
	"sort"
	"time"

	sim "MODULE/simulations/emerge/simulation"
	"MODULE/zzverif/lin"
	"MODULE/zzverif/vs"
)

// ref is the reference: the list of what was recorded.
type ref struct {
	sizes    []int
	ind, bat []float64
	peak     float64
	start    time.Time
	conv     time.Time
}

func (r ref) record(n int, ind, bat float64) ref {
	r.sizes = append(r.sizes[:len(r.sizes):len(r.sizes)], n)
	r.ind = append(r.ind[:len(r.ind):len(r.ind)], ind)
	r.bat = append(r.bat[:len(r.bat):len(r.bat)], bat)
	return r
}

func (r ref) coherence(c float64, now time.Time) ref {
	if c > r.peak {
		r.peak = c
	}
	if c >= 0.7 && r.conv.IsZero() {
		r.conv = now
	}
	return r
}

func (r ref) want() sim.MetricsSnapshot {
	m := sim.MetricsSnapshot{TotalBatches: len(r.sizes), PeakCoherence: r.peak}
	for i, n := range r.sizes {
		m.TotalAPICalls += n
		m.CostWithoutSync += r.ind[i]
		m.CostWithSync += r.bat[i]
	}
	m.TotalSavings = m.CostWithoutSync - m.CostWithSync
	if len(r.sizes) > 0 {
		m.AverageBatchSize = float64(m.TotalAPICalls) / float64(len(r.sizes))
	}
	if m.CostWithoutSync > 0 {
		m.SavingsPercent = 100 * (1 - m.CostWithSync/m.CostWithoutSync)
	}
	if !r.conv.IsZero() {
		m.TimeToConverge = r.conv.Sub(r.start)
	}
	return m
}

func (r ref) dist() string {
	d := [5]int{}
	for _, n := range r.sizes {
		d[sort.SearchInts([]int{10, 25, 50, 75}, n)]++
	}
	return fmt.Sprint(map[string]int{"1-10": d[0], "11-25": d[1], "26-50": d[2], "51-75": d[3], "76-100": d[4]})
}

func same(a, b sim.MetricsSnapshot) bool {
	eq := func(x, y float64) bool { return math.Abs(x-y) <= 1e-9*(1+math.Abs(y)) }
	return a.TotalAPICalls == b.TotalAPICalls && a.TotalBatches == b.TotalBatches && eq(a.AverageBatchSize, b.AverageBatchSize) && eq(a.CostWithoutSync, b.CostWithoutSync) && eq(a.CostWithSync, b.CostWithSync) && eq(a.TotalSavings, b.TotalSavings) && eq(a.SavingsPercent, b.SavingsPercent) && a.PeakCoherence == b.PeakCoherence && a.TimeToConverge == b.TimeToConverge
}

var names = []string{"reset", "batch 1", "batch 10", "batch 26", "batch 100", "batch 7 (free)", "coherence 0", "coherence 0.4", "coherence 0.7", "coherence 0.69999", "coherence 1", "wait"}

// do applies operation k to both.
func do(k int, mc *sim.MetricsCollector, r ref) ref {
	rec := func(n int, ind, bat float64) {
		mc.RecordBatch(n, ind, bat, ind-bat)
		r = r.record(n, ind, bat)
	}
	coh := func(c float64) {
		mc.UpdateCoherence(c)
		r = r.coherence(c, vs.Now())
	}
	switch k {
	case 0:
		mc.Reset()
		r = ref{start: vs.Now()}
	case 1:
		rec(1, .03, .015)
	case 2:
		rec(10, .3, .015)
	case 3:
		rec(26, .78, .015)
	case 4:
		rec(100, 3, .015)
	case 5:
		rec(7, 0, 0)
	case 6:
		coh(0)
	case 7:
		coh(.4)
	case 8:
		coh(.7)
	case 9:
		coh(.69999)
	case 10:
		coh(1)
	case 11:
		vs.Sleep(1500 * time.Millisecond)
	}
	return r
}

func sequences(e *vs.E) {
	depth := 5
	if e.Thorough() {
		depth = 6
	}
	e.Param("every sequence of %d of the %d operations %v, checked after every one", depth, len(names), names)
	n := len(names)
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for c := 0; c < n; c++ {
				e.Case(func() {
					e.Label("%s, %s, %s, ...", names[a], names[b], names[c])
					e.Seq(vs.Options{MaxSteps: 1 << 30}, func() {
						total := 1
						for i := 3; i < depth; i++ {
							total *= n
						}
						for x := 0; x < total; x++ {
							ks := []int{a, b, c}
							for i, y := 3, x; i < depth; i, y = i+1, y/n {
								ks = append(ks, y%n)
							}
							mc := sim.NewMetricsCollector()
							r := ref{start: vs.Now()}
							for i, k := range ks {
								r = do(k, mc, r)
								if i < 2 && x > 0 {
									continue
								}
								got, want := mc.Current(), r.want()
								e.Check(same(got, want), "after %v: %+v, want %+v", ks[:i+1], got, want)
								e.Check(mc.Final() == got, "after %v: Final %+v, Current %+v", ks[:i+1], mc.Final(), got)
								d := mc.BatchSizeDistribution()
								e.Check(fmt.Sprint(d) == r.dist(), "after %v: distribution %v, want %v", ks[:i+1], d, r.dist())
								e.Step(1)
							}
							vs.Sleep(time.Millisecond)
						}
					})
					e.Seen(fmt.Sprint(a, b, c))
				})
			}
		}
	}
}

// sizes: every batch size falls into its band, and the averages of long series are right
func sizes(e *vs.E) {
	e.Param("every batch size 1-100; series of 1-100 batches")
	e.Seq(vs.Options{MaxSteps: 1 << 30}, func() {
		all := sim.NewMetricsCollector()
		r := ref{start: vs.Now()}
		for n := 1; n <= 100; n++ {
			mc := sim.NewMetricsCollector()
			mc.RecordBatch(n, .03*float64(n), .015, 0)
			one := ref{}.record(n, .03*float64(n), .015)
			e.Check(same(mc.Current(), one.want()), "a batch of %d: %+v, want %+v", n, mc.Current(), one.want())
			e.Check(fmt.Sprint(mc.BatchSizeDistribution()) == one.dist(), "a batch of %d is counted as %v", n, mc.BatchSizeDistribution())
			all.RecordBatch(n, .03*float64(n), .015, 0)
			r = r.record(n, .03*float64(n), .015)
			e.Check(same(all.Current(), r.want()), "batches of 1-%d: %+v, want %+v", n, all.Current(), r.want())
			e.Check(fmt.Sprint(all.BatchSizeDistribution()) == r.dist(), "batches of 1-%d are counted as %v, want %v", n, all.BatchSizeDistribution(), r.dist())
			d := all.BatchSizeDistribution()
			d["1-10"] = 1000
			e.Check(fmt.Sprint(all.BatchSizeDistribution()) == r.dist(), "the distribution is shared")
			e.Step(1)
		}
	})
	e.Seen("sizes")
}

// linearizable: the collector behaves as one atomic object
func linearizable(name string, threads [][]string, pre, preT int) {
	vs.Add(&vs.Scenario{Name: name, Both: true, Opt: vs.Options{Preemptions: pre, MaxSteps: 5000}, Thorough: &vs.Options{Preemptions: preT, MaxSteps: 5000}, Body: func() {
		mc := sim.NewMetricsCollector()
		t0 := vs.Now()
		logs := make([]*lin.Log, len(threads))
		show := func(m sim.MetricsSnapshot) string {
			return fmt.Sprintf("%d %d %.4f %.4f %.4f %.3f %.3f %.2f %v", m.TotalAPICalls, m.TotalBatches, m.CostWithoutSync, m.CostWithSync, m.TotalSavings, m.AverageBatchSize, m.SavingsPercent, m.PeakCoherence, m.TimeToConverge)
		}
		run := func(op string) string {
			switch op {
			case "r1":
				mc.RecordBatch(1, .03, .015, 0)
			case "r30":
				mc.RecordBatch(30, .9, .015, 0)
			case "reset":
				mc.Reset()
			case "c8":
				mc.UpdateCoherence(.8)
			case "c5":
				mc.UpdateCoherence(.5)
			case "get":
				return show(mc.Current())
			case "dist":
				return fmt.Sprint(mc.BatchSizeDistribution())
			}
			return ""
		}
		step := func(r ref, op string) (ref, string) {
			switch op {
			case "r1":
				return r.record(1, .03, .015), ""
			case "r30":
				return r.record(30, .9, .015), ""
			case "reset":
				return ref{start: t0}, ""
			case "c8":
				return r.coherence(.8, t0), ""
			case "c5":
				return r.coherence(.5, t0), ""
			case "get":
				return r, show(r.want())
			}
			return r, r.dist()
		}
		var js []func()
		for i, ops := range threads {
			l := &lin.Log{Thread: i}
			logs[i] = l
			js = append(js, vs.GoJ(func() {
				for _, op := range ops {
					l.Do(op, nil, func() any { return run(op) })
				}
			}))
		}
		for _, j := range js {
			j()
		}
		final := show(mc.Current()) + fmt.Sprint(mc.BatchSizeDistribution())
		vs.Outcome("%s %v", final, logs[len(logs)-1].Ops[0].Out)
		ops := lin.Merge(logs...)
		if !lin.Check(ref{start: t0}, ops, func(s ref, o lin.Op) (ref, bool) {
			n, out := step(s, o.Name)
			return n, out == o.Out.(string)
		}, func(s ref) string { return fmt.Sprint(s) }, func(s ref) bool { return show(s.want())+s.dist() == final }) {
			vs.Fail("no order of the operations explains %s and the final %s", lin.String(ops), final)
		}
	}})
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "operation sequences", Run: sequences})
	vs.AddEnum(&vs.Enum{Name: "sizes", Single: true, Run: sizes})
	linearizable("two recorders and a reader", [][]string{{"r1", "r30"}, {"r30", "r1"}, {"get", "get"}}, 3, 5)
	linearizable("recorder, coherence and reader", [][]string{{"r1", "r30"}, {"c5", "c8"}, {"get", "dist", "get"}}, 3, 5)
	linearizable("recorder, coherence, reset and reader", [][]string{{"r1", "r30"}, {"c8", "c5"}, {"reset"}, {"get", "get"}}, 2, 4)
	linearizable("two resets, recorder and reader", [][]string{{"r1", "reset"}, {"reset", "r30"}, {"get", "dist"}}, 3, 5)
	vs.Main()
}
