// C28: the batch manager processes every accepted task once, in windows, in API calls of at most 100.
package main

import (
	context "MODULE/zzverif/vcontext"
	"fmt"
	"math"
	"time"

	sim "MODULE/simulations/emerge/simulation"
	"MODULE/zzverif/vs"
)

const ms = time.Millisecond

func tasks(agent string, n int) []sim.Task {
	r := make([]sim.Task, n, n+200) // room that belongs to the submitter
	for i := range r {
		r[i] = sim.Task{ID: fmt.Sprint(agent, "-", i), AgentID: agent}
	}
	return r
}

type arrival struct {
	at time.Duration // multiples of 10 ms, plus 5 ms
	n  int
}

// call is one API call of the reference.
type call struct {
	at time.Duration
	n  int
}

// reference processes the arrivals; a window opens with a batch taken from the queue and closes after 50 ms, or at
// 100 tasks with what is immediately available; then each API call of up to 100 tasks takes 10 ms. ok: no ties.
func reference(as []arrival, stop time.Duration) (calls []call, ok bool) {
	now := time.Duration(0)
	i := 0
	for i < len(as) {
		if as[i].at > now {
			now = as[i].at
		} else if as[i].at == now && now > 0 {
			return nil, false
		}
		if stop > 0 && now >= stop {
			return calls, now > stop // both ready: either may be taken
		}
		end := now + 50*ms
		n := as[i].n
		i++
		for n < 100 && i < len(as) && as[i].at < end {
			if as[i].at > now {
				now = as[i].at
			}
			n += as[i].n
			i++
		}
		if n < 100 {
			if i < len(as) && as[i].at == end {
				return nil, false
			}
			now = end
		} else {
			for i < len(as) && as[i].at <= now {
				if as[i].at == now && as[i-1].at != now {
					return nil, false
				}
				n += as[i].n
				i++
			}
		}
		for n > 0 {
			c := n
			if c > 100 {
				c = 100
			}
			calls = append(calls, call{now, c})
			n -= c
			now += 10 * ms
		}
	}
	return calls, true
}

func costs(e func(bool, string, ...any), what string, m sim.MetricsSnapshot, calls []call) {
	n := 0
	for _, c := range calls {
		n += c.n
	}
	e(m.TotalAPICalls == n && m.TotalBatches == len(calls), "%s: %d tasks in %d API calls, want %d in %d", what, m.TotalAPICalls, m.TotalBatches, n, len(calls))
	w, b := 0.03*float64(n), 0.015*float64(len(calls))
	e(math.Abs(m.CostWithoutSync-w) < 1e-9 && math.Abs(m.CostWithSync-b) < 1e-9 && math.Abs(m.TotalSavings-(w-b)) < 1e-9, "%s: costs %v and %v, savings %v; want %v and %v", what, m.CostWithoutSync, m.CostWithSync, m.TotalSavings, w, b)
}

func buckets(calls []call) map[string]int {
	d := map[string]int{"1-10": 0, "11-25": 0, "26-50": 0, "51-75": 0, "76-100": 0}
	for _, c := range calls {
		switch {
		case c.n <= 10:
			d["1-10"]++
		case c.n <= 25:
			d["11-25"]++
		case c.n <= 50:
			d["26-50"]++
		case c.n <= 75:
			d["51-75"]++
		default:
			d["76-100"]++
		}
	}
	return d
}

// windows: every arrival pattern over the given gaps and sizes, observed every 10 ms
func windows(e *vs.E) {
	gaps := []time.Duration{0, 20 * ms, 40 * ms, 60 * ms, 90 * ms}
	sizes := []int{0, 1, 60, 99, 100, 101, 250}
	n := 3
	if e.Thorough() {
		n = 4
		sizes = []int{0, 1, 50, 99, 100, 101, 250}
	}
	e.Param("every pattern of 1..%d arrivals, gaps %v, sizes %v", n, gaps, sizes)
	var rec func(as []arrival)
	rec = func(as []arrival) {
		if len(as) > 0 {
			e.Case(func() {
				calls, ok := reference(as, 0)
				if !ok {
					return
				}
				what := fmt.Sprintf("arrivals %v", as)
				e.Label("%s", what)
				e.Seq(vs.Options{MaxSteps: 1_000_000}, func() {
					live := vs.LiveThreads()
					bm, mc := sim.NewBatchManager(), sim.NewMetricsCollector()
					ctx, cancel := context.WithCancel(context.Background())
					t0 := vs.Now()
					vs.Go(func() { bm.ProcessBatches(ctx, mc) })
					vs.Go(func() {
						for i, a := range as {
							vs.Sleep(t0.Add(a.at).Sub(vs.Now()))
							bm.SubmitBatch(fmt.Sprint(i), tasks(fmt.Sprint(i), a.n))
						}
					})
					vs.Sleep(2 * ms)
					for k := 0; k < 60; k++ {
						vs.Sleep(10 * ms)
						now := vs.Now().Sub(t0)
						var sofar []call
						for _, c := range calls {
							if c.at <= now {
								sofar = append(sofar, c)
							}
						}
						costs(e.Check, fmt.Sprintf("%s at %v", what, now), mc.Current(), sofar)
						at, sz := bm.LastBatchInfo()
						if len(sofar) > 0 {
							l := sofar[len(sofar)-1]
							e.Check(sz == l.n && at.Equal(t0.Add(l.at)), "%s at %v: the last batch had %d at %v, want %+v", what, now, sz, at.Sub(t0), l)
						} else {
							e.Check(sz == 0 && at.IsZero(), "%s at %v: the last batch had %d at %v, there was none", what, now, sz, at)
						}
						e.Step(1)
					}
					e.Check(fmt.Sprint(mc.BatchSizeDistribution()) == fmt.Sprint(buckets(calls)), "%s: distribution %v, want %v", what, mc.BatchSizeDistribution(), buckets(calls))
					e.Check(bm.PendingCount() == 0 && bm.CurrentBatchSize() == 0, "%s: %d pending, batch size %d at the end", what, bm.PendingCount(), bm.CurrentBatchSize())
					cancel()
					vs.Sleep(100 * ms)
					e.Check(vs.LiveThreads() == live, "%s: still processing after the cancellation", what)
				})
				e.Seen(fmt.Sprint(calls))
			})
		}
		if len(as) < n {
			for gi, g := range gaps {
				if len(as) == 0 && gi > 1 {
					break
				}
				for _, s := range sizes {
					at := 5 * ms
					if len(as) > 0 {
						at = as[len(as)-1].at
					}
					rec(append(as[:len(as):len(as)], arrival{at + g, s}))
				}
			}
		}
	}
	rec(nil)
}

// full: a queue without a consumer holds at least 100 batches, later ones are dropped without blocking
func full(e *vs.E) {
	e.Param("1-130 batches of distinct sizes before processing starts")
	for n := 1; n <= 130; n++ {
		e.Case(func() {
			e.Seq(vs.Options{MaxSteps: 5_000_000}, func() {
				bm, mc := sim.NewBatchManager(), sim.NewMetricsCollector()
				sum := 0
				var subs [][]sim.Task
				for i := 0; i < n; i++ {
					subs = append(subs, tasks("x", i+1))
					bm.SubmitBatch(fmt.Sprint(i), subs[i])
					if i < 100 {
						sum += i + 1
					}
				}
				e.Check(vs.PendingTimers() == 0, "submitting waits")
				ctx, cancel := context.WithCancel(context.Background())
				vs.Go(func() { bm.ProcessBatches(ctx, mc) })
				vs.Sleep(5 * time.Second)
				got := mc.Current().TotalAPICalls
				e.Check(got == sum || n > 100 && got > sum, "%d batches submitted, %d tasks processed, want %d", n, got, sum)
				for i, b := range subs {
					for k, t := range b[:cap(b)] {
						e.Check(k < i+1 && t.ID == fmt.Sprint("x-", k) || k > i && t.ID == "", "task %d of the submitted slice %d is now %q", k, i, t.ID)
					}
				}
				cancel()
				e.Step(n)
			})
			e.Seen(fmt.Sprint(n))
		})
	}
}

// cancel: processing ends at the cancellation, after the window it is in
func cancelling(e *vs.E) {
	e.Param("3 arrival patterns, cancelled every 10 ms from 0 to 300 ms")
	for pi, as := range [][]arrival{{{5 * ms, 3}, {25 * ms, 4}, {125 * ms, 8}}, {{5 * ms, 250}, {15 * ms, 7}}, {{5 * ms, 99}, {45 * ms, 99}, {105 * ms, 1}, {165 * ms, 5}, {225 * ms, 2}}} {
		for k := 0; k <= 30; k++ {
			e.Case(func() {
				stop := time.Duration(k)*10*ms + ms
				e.Label("pattern %d cancelled at %v", pi, stop)
				calls, ok := reference(as, stop)
				e.Seq(vs.Options{MaxSteps: 1_000_000}, func() {
					bm, mc := sim.NewBatchManager(), sim.NewMetricsCollector()
					ctx, cancel := context.WithCancel(context.Background())
					t0 := vs.Now()
					done := false
					j := vs.GoJ(func() { bm.ProcessBatches(ctx, mc); done = true })
					vs.Go(func() {
						for i, a := range as {
							vs.Sleep(t0.Add(a.at).Sub(vs.Now()))
							bm.SubmitBatch(fmt.Sprint(i), tasks("x", a.n))
						}
					})
					vs.Sleep(stop)
					cancel()
					vs.Sleep(90 * ms)
					e.Check(done, "still processing %v after the cancellation", 90*ms)
					j()
					vs.Sleep(time.Second)
					m := mc.Current()
					if ok {
						n := 0
						for _, c := range calls {
							n += c.n
						}
						// what is queued when both the queue and the cancellation are ready may go either way
						all := 0
						for _, a := range as {
							all += a.n
						}
						e.Check(m.TotalAPICalls >= n && m.TotalAPICalls <= all, "%d tasks processed, at least %d were due, %d arrived", m.TotalAPICalls, n, all)
					}
				})
				e.Step(1)
			})
		}
	}
}

// reset: at every 5 ms of a pattern, everything queued is forgotten, what arrives later is processed
func resetting(e *vs.E) {
	e.Param("4 arrival patterns, reset every 5 ms from 0 to 300 ms")
	for pi, as := range [][]arrival{{{5 * ms, 3}, {25 * ms, 4}, {125 * ms, 8}}, {{5 * ms, 250}, {15 * ms, 7}, {25 * ms, 11}}, {{5 * ms, 1000}, {15 * ms, 1}, {25 * ms, 2}, {35 * ms, 4}, {45 * ms, 8}}, {{5 * ms, 99}, {45 * ms, 99}, {125 * ms, 1}}} {
		for k := 0; k <= 60; k++ {
			e.Case(func() {
				e.Label("pattern %d reset at %v", pi, time.Duration(k)*5*ms+ms)
				e.Seq(vs.Options{MaxSteps: 1_000_000}, func() {
					bm, mc := sim.NewBatchManager(), sim.NewMetricsCollector()
					ctx, cancel := context.WithCancel(context.Background())
					t0 := vs.Now()
					vs.Go(func() { bm.ProcessBatches(ctx, mc) })
					vs.Go(func() {
						for i, a := range as {
							vs.Sleep(t0.Add(a.at).Sub(vs.Now()))
							bm.SubmitBatch(fmt.Sprint(i), tasks("x", a.n))
						}
					})
					reset := time.Duration(k)*5*ms + ms
					vs.Sleep(reset)
					before := mc.Current().TotalAPICalls
					bm.Reset()
					at, sz := bm.LastBatchInfo()
					e.Check(at.IsZero() && sz == 0 && bm.CurrentBatchSize() == 0 && bm.PendingCount() == 0, "after the reset the last batch had %d at %v, batch size %d, pending %d", sz, at, bm.CurrentBatchSize(), bm.PendingCount())
					e.Check(vs.Now().Sub(t0) == reset, "the reset took %v", vs.Now().Sub(t0)-reset)
					vs.Sleep(2 * time.Second)
					after := mc.Current().TotalAPICalls
					early, late := 0, 0
					for _, a := range as {
						if a.at > reset {
							late += a.n
						} else {
							early += a.n
						}
					}
					e.Check(after >= before && after >= late && after <= early+late, "%d tasks before, %d after the reset; %d arrived before, %d after", before, after, early, late)
					cancel()
				})
				e.Step(1)
			})
		}
	}
}

func concurrent(name string, subs [][]int, reset, read bool, pre, preT int) {
	vs.Add(&vs.Scenario{Name: name, Both: true, Opt: vs.Options{Preemptions: pre, DelayBound: true, MaxSteps: 20000}, Thorough: &vs.Options{Preemptions: preT, DelayBound: true, MaxSteps: 20000}, Body: func() {
		live := vs.LiveThreads()
		bm, mc := sim.NewBatchManager(), sim.NewMetricsCollector()
		ctx, cancel := context.WithCancel(context.Background())
		vs.Go(func() { bm.ProcessBatches(ctx, mc) })
		total := 0
		var js []func()
		for i, s := range subs {
			for _, n := range s {
				total += n
			}
			js = append(js, vs.GoJ(func() {
				for _, n := range s {
					bm.SubmitBatch(fmt.Sprint(i), tasks("x", n))
				}
			}))
		}
		if reset {
			js = append(js, vs.GoJ(func() { bm.Reset() }))
		}
		if read {
			js = append(js, vs.GoJ(func() {
				last := sim.MetricsSnapshot{}
				for k := 0; k < 2; k++ {
					m := mc.Current()
					if m.TotalAPICalls < last.TotalAPICalls || m.TotalBatches < last.TotalBatches || m.TotalAPICalls > 0 && m.TotalBatches == 0 {
						vs.Fail("metrics went from %+v to %+v", last, m)
					}
					if w, b := 0.03*float64(m.TotalAPICalls), 0.015*float64(m.TotalBatches); math.Abs(m.CostWithoutSync-w) > 1e-9 || math.Abs(m.CostWithSync-b) > 1e-9 || math.Abs(m.TotalSavings-(w-b)) > 1e-9 {
						vs.Fail("torn metrics %+v", m)
					}
					last = m
					_, sz := bm.LastBatchInfo()
					if sz < 0 || sz > 100 {
						vs.Fail("a batch of %d", sz)
					}
					bm.CurrentBatchSize()
					bm.PendingCount()
					vs.Sleep(40 * ms)
				}
			}))
		}
		for _, j := range js {
			j()
		}
		vs.Sleep(time.Second)
		m := mc.Current()
		vs.Outcome("%d tasks in %d", m.TotalAPICalls, m.TotalBatches)
		if m.TotalAPICalls > total || !reset && m.TotalAPICalls != total {
			vs.Fail("%d tasks submitted, %d processed", total, m.TotalAPICalls)
		}
		if w := 0.03 * float64(m.TotalAPICalls); math.Abs(m.CostWithoutSync-w) > 1e-9 || math.Abs(m.CostWithSync-0.015*float64(m.TotalBatches)) > 1e-9 {
			vs.Fail("costs %+v", m)
		}
		if reset { // every subset of the batches may have been cleared, nothing else
			ok := false
			var all []int
			for _, s := range subs {
				all = append(all, s...)
			}
			for mask := 0; mask < 1<<len(all); mask++ {
				n := 0
				for i, x := range all {
					if mask&(1<<i) != 0 {
						n += x
					}
				}
				ok = ok || n == m.TotalAPICalls
			}
			if !ok {
				vs.Fail("%d tasks processed of batches %v", m.TotalAPICalls, all)
			}
			bm.SubmitBatch("z", tasks("z", 5))
			vs.Sleep(time.Second)
			if mc.Current().TotalAPICalls != m.TotalAPICalls+5 {
				vs.Fail("nothing is processed after the reset")
			}
		}
		cancel()
		vs.Sleep(time.Second)
		if vs.LiveThreads() != live {
			vs.Fail("%d threads left", vs.LiveThreads()-live)
		}
	}})
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "arrival patterns", Run: windows})
	vs.AddEnum(&vs.Enum{Name: "full queue", Run: full})
	vs.AddEnum(&vs.Enum{Name: "cancellation", Run: cancelling})
	vs.AddEnum(&vs.Enum{Name: "reset", Run: resetting})
	concurrent("two submitters", [][]int{{1, 2}, {4, 100}}, false, false, 3, 5)
	concurrent("three submitters", [][]int{{1}, {60, 120}, {8}}, false, false, 3, 4)
	concurrent("submitting, observing", [][]int{{1, 2}, {4}}, false, false, 3, 4)
	concurrent("submitting and resetting", [][]int{{1, 2}, {4, 8}}, true, false, 3, 5)
	concurrent("submitting, resetting and observing", [][]int{{1, 2}, {4}}, true, true, 3, 4)
	vs.Main()
}
