// C30: workloads generate tasks as their request pattern says and send them, once, when their agent's phase is near 0.
package main

import (
	context "MODULE/zzverif/vcontext"
	"fmt"
	"math"
	"time"

	"MODULE/emerge/agent"
	"MODULE/emerge/goal"
	sim "MODULE/simulations/emerge/simulation"
	"MODULE/simulations/emerge/simulation/pattern"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

const ms = time.Millisecond

var patterns = []pattern.Type{pattern.Unset, pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse}

// sources of randomness: name, function, and the constant fraction (-1: varying)
type source struct {
	name string
	f    func(int, []byte)
	r    float64
}

// fraction answers 4-byte draws with the fraction r of 2^32 to within 2^-16, in either byte order,
// and others with the number k
func fraction(r float64, k uint64) func(int, []byte) {
	return func(c int, b []byte) {
		u := min(uint64(r*(1<<16)), 1<<16-1)
		if len(b) == 4 {
			b[0], b[1], b[2], b[3] = byte(u>>8), byte(u), byte(u), byte(u>>8)
			return
		}
		if len(b) != 8 {
			hx.Lcg(int(k))(c, b)
			return
		}
		for i := range b {
			b[i] = byte(k >> (8 * i))
		}
	}
}

func sources(n int) []source {
	var s []source
	for _, r := range []float64{0, .1, .199, .201, .25, .299, .301, .5, .699, .701, .9, 1} {
		for _, k := range []uint64{0, 1, 2, 49, 899, 1499, 1999, 799, 59999, 1 << 40} {
			s = append(s, source{fmt.Sprintf("fraction %v, number %d", r, k), fraction(r, k), r})
		}
	}
	for i := 0; i < n; i++ {
		s = append(s, source{fmt.Sprint("stream ", i), hx.Lcg(i), -1})
	}
	return s
}

// generation is what one workload generated: the time since the start, the number, and the snapshot after it.
type generation struct {
	at time.Duration
	n  int
}

// observe runs a workload for d at a phase that never sends and returns what it generates.
func observe(e *vs.E, p pattern.Type, d time.Duration, each func(at time.Duration, s sim.AgentSnapshot, n int)) []generation {
	var gs []generation
	a := agent.New("w")
	a.SetPhase(3)
	w := sim.NewWorkloadWithEmerge("w", 0, a, nil, p, goal.MinimizeAPICalls)
	ctx, cancel := context.WithCancel(context.Background())
	t0 := vs.Now()
	live := vs.LiveThreads()
	w.Start(ctx, sim.NewBatchManager())
	vs.Sleep(500 * time.Microsecond)
	last := 0
	for vs.Now().Sub(t0) < d {
		vs.Sleep(ms)
		s := w.Snapshot()
		at := vs.Now().Sub(t0) - 500*time.Microsecond
		n := s.PendingTasks - last
		if n > 0 {
			gs = append(gs, generation{at, n})
		}
		e.Check(n >= 0 && s.BatchesSent == 0, "at %v and phase 3: %d tasks pending, %d before, %d batches sent", at, s.PendingTasks, last, s.BatchesSent)
		if each != nil {
			each(at, s, n)
		}
		last = s.PendingTasks
	}
	cancel()
	vs.Sleep(10 * ms)
	e.Check(vs.LiveThreads() == live, "%d threads left after the cancellation", vs.LiveThreads()-live)
	last = w.Snapshot().PendingTasks
	vs.Sleep(5 * time.Second)
	e.Check(w.Snapshot().PendingTasks == last, "tasks are generated after the cancellation")
	return gs
}

func generating(e *vs.E) {
	n, d := 24, 12*time.Second
	if e.Thorough() {
		n, d = 400, 30*time.Second
	}
	srcs := sources(n)
	e.Param("6 patterns x %d sources of randomness, every ms of %v", len(srcs), d)
	for _, p := range patterns {
		for _, src := range srcs {
			e.Case(func() {
				e.Label("%s, %s", p, src.name)
				e.Seq(vs.Options{MaxSteps: 1 << 30, Rand: src.f}, func() {
					burst, began := false, time.Duration(0)
					lastGen := -time.Hour
					each := func(at time.Duration, s sim.AgentSnapshot, n int) {
						if n > 0 {
							lastGen = at
						}
						want := "steady"
						switch p {
						case pattern.HighFrequency:
							want = "active"
						case pattern.Sparse:
							want = "quiet"
							if s.PendingTasks > 0 {
								want = "active"
							}
						case pattern.Mixed:
							// since is half a millisecond more than a whole number
							if at-lastGen < 200*ms {
								want = "active"
							} else if at-lastGen >= 1000*ms {
								want = "quiet"
							}
						case pattern.Burst:
							want = "quiet"
							if s.InBurstMode {
								want = "burst"
							}
							if s.InBurstMode && !burst {
								began = at
								e.Check(n > 0, "the burst at %v begins without tasks", at)
							}
							if !s.InBurstMode && burst {
								l := at - began
								e.Check(l > 500*ms && l <= 2000*ms, "the burst from %v lasts %v", began, l)
								e.Check(n == 0, "tasks at the end of the burst")
							}
							burst = s.InBurstMode
							e.Check(at-began <= 2100*ms || !burst, "the burst from %v does not end", began)
							e.Check(burst == (n > 0) || at%(100*ms) != 0, "at %v: %d tasks generated, in a burst: %v", at, n, burst)
						}
						e.Check(s.ActivityLevel == want && s.InBurstMode == (want == "burst"), "at %v the activity is %q (in burst mode: %v), want %q", at, s.ActivityLevel, s.InBurstMode, want)
					}
					gs := observe(e, p, d, each)
					at := time.Duration(0)
					base := time.Duration(0)
					if len(gs) > 0 {
						base = gs[0].at
					}
					for i, g := range gs {
						gap := g.at - at
						at = g.at
						var ok bool
						switch p {
						case pattern.Unset, pattern.Steady:
							ok = gap == 500*ms && g.n == 1
						case pattern.HighFrequency:
							ok = gap == base && base >= 50*ms && base < 100*ms && g.n >= 2 && g.n <= 4
						case pattern.Burst:
							ok = gap%(100*ms) == 0 && g.n >= 3 && g.n <= 7
						case pattern.Mixed:
							ok = (gap >= 200*ms || i == 0 && gap == 300*ms) && g.n >= 1 && g.n <= 3
							if i == 0 {
								ok = ok && gap%(300*ms) == 0
							}
							if src.r >= 0 {
								ok = ok && gap < 1000*ms && (g.n > 1) == (src.r < .3)
							}
						case pattern.Sparse:
							ok = g.n == 1 && gap >= 2000*ms
							if src.r >= 0 {
								ok = ok && gap == base && base < 4000*ms
							}
						}
						e.Check(ok, "generation %d: %d tasks after %v at %v", i, g.n, gap, g.at)
					}
					// whether anything is generated, and how much, is exact for constant fractions
					switch {
					case p == pattern.Unset || p == pattern.Steady:
						e.Check(len(gs) == int((d)/(500*ms)), "%d generations in %v", len(gs), d)
					case p == pattern.HighFrequency:
						e.Check(base > 0 && len(gs) == int(d/base), "%d generations in %v, one every %v", len(gs), d, base)
					case src.r < 0:
					case p == pattern.Burst:
						e.Check((len(gs) > 0) == (src.r < .2), "%d generations", len(gs))
					case p == pattern.Sparse:
						e.Check(base > 0 == (src.r < .3) && (base == 0 || len(gs) == int(d/base)), "%d generations, one every %v", len(gs), base)
					case p == pattern.Mixed:
						e.Check((len(gs) > 0) == (src.r < .7), "%d generations", len(gs))
					}
				})
				e.Seen(fmt.Sprint(p, src.name))
			})
		}
	}
	// all intended values occur
	for _, p := range patterns {
		e.Case(func() {
			e.Label("%s, values", p)
			seen := map[int]bool{}
			lo, hi := time.Hour, time.Duration(0)
			var mlo, mhi [8]time.Duration // after a generation of that many tasks
			for i := range mlo {
				mlo[i] = time.Hour
			}
			for i := 0; i < 60; i++ {
				e.Seq(vs.Options{MaxSteps: 1 << 30, Rand: hx.Lcg(1000 + i)}, func() {
					at, n := time.Duration(0), 0
					for _, g := range observe(e, p, 12*time.Second, nil) {
						seen[g.n] = true
						lo, hi = min(lo, g.at-at), max(hi, g.at-at)
						if n > 0 && n < len(mlo) {
							mlo[n], mhi[n] = min(mlo[n], g.at-at), max(mhi[n], g.at-at)
						}
						at, n = g.at, g.n
					}
				})
			}
			want := map[pattern.Type][]int{pattern.Unset: {1}, pattern.Steady: {1}, pattern.Sparse: {1}, pattern.HighFrequency: {2, 3, 4}, pattern.Burst: {3, 4, 5, 6, 7}, pattern.Mixed: {1, 2, 3}}[p]
			for _, n := range want {
				e.Check(seen[n], "never %d tasks at once: %v", n, seen)
			}
			e.Check(len(seen) == len(want), "tasks at once: %v, want %v", seen, want)
			if p == pattern.HighFrequency {
				e.Check(lo < 60*ms && hi >= 90*ms, "intervals %v-%v", lo, hi)
			}
			if p == pattern.Mixed {
				e.Check(lo < 250*ms && hi >= 950*ms, "intervals %v-%v", lo, hi)
				for n := 1; n <= 3; n++ {
					e.Check(mlo[n] < 250*ms && mhi[n] >= 950*ms, "intervals %v-%v after %d tasks", mlo[n], mhi[n], n)
				}
			}
			e.Seen(fmt.Sprint(p))
		})
	}
}

// sending: at every tenth of a second, everything pending goes exactly when the phase is within 0.1 of 0
func sending(e *vs.E) {
	var phases []float64
	for _, x := range []float64{0, .05, .0999, .1001, .2, 1, math.Pi, 5, hx.TwoPi - .2, hx.TwoPi - .1001, hx.TwoPi - .0999, hx.TwoPi - .01} {
		phases = append(phases, x)
	}
	n := 3
	if e.Thorough() {
		n = 4
	}
	e.Param("6 patterns x every sequence of %d of %d phases, each for 250 ms, repeated", n, len(phases))
	near := func(x float64) bool { return hx.CD(x, 0) < .1 }
	total := 1
	for i := 0; i < n; i++ {
		total *= len(phases)
	}
	for _, p := range patterns {
		for x := 0; x < total; x++ {
			e.Case(func() {
				var seq []float64
				for i, y := 0, x; i < n; i, y = i+1, y/len(phases) {
					seq = append(seq, phases[y%len(phases)])
				}
				e.Label("%s, phases %.4f", p, seq)
				opt := vs.Options{MaxSteps: 1 << 30, Rand: hx.Lcg(x%7 + 1)}
				d := 6 * time.Second
				if p == pattern.HighFrequency {
					d = 2 * time.Second
				}
				var gs []generation
				e.Seq(opt, func() { gs = observe(e, p, d, nil) })
				e.Seq(opt, func() {
					a := agent.New("w")
					a.SetPhase(seq[0])
					w := sim.NewWorkloadWithEmerge("w", 0, a, nil, p, goal.MinimizeAPICalls)
					bm, mc := sim.NewBatchManager(), sim.NewMetricsCollector()
					ctx, cancel := context.WithCancel(context.Background())
					t0 := vs.Now()
					w.Start(ctx, bm)
					vs.Go(func() { bm.ProcessBatches(ctx, mc) })
					vs.Sleep(5 * ms)
					sent, batches := 0, 0
					prev := sim.AgentSnapshot{}
					for k := 0; ; k++ {
						vs.Sleep(10 * ms)
						at := vs.Now().Sub(t0)
						if at > d-30*ms {
							break
						}
						gen := 0
						for _, g := range gs {
							if g.at <= at {
								gen += g.n
							}
						}
						s := w.Snapshot()
						pending := prev.PendingTasks
						cur := gen - sent // not sent, if nothing is sent now
						now := at - 5*ms
						ph := seq[int((now/(250*ms)))%n] // set before the tick
						newly := cur - pending
						if now%(100*ms) == 0 && near(ph) && cur > 0 && (pending > 0 || s.PendingTasks != cur) {
							// a tick: everything that was pending before goes; what is generated in the same instant may or may not
							batches++
							e.Check(s.PendingTasks == 0 || s.PendingTasks <= newly && newly > 0, "at %v near 0: %d pending, %d before, %d newly generated", now, s.PendingTasks, pending, newly)
							sent = gen - s.PendingTasks
						}
						e.Check(s.PendingTasks == gen-sent && s.BatchesSent == batches, "at %v, phase %.4f: %d pending and %d batches sent, want %d and %d", now, ph, s.PendingTasks, s.BatchesSent, gen-sent, batches)
						e.Check(hx.CD(s.Phase, seq[int((now/(250*ms)))%n]) < 1e-9, "at %v the phase is %v", now, s.Phase)
						prev = s
						a.SetPhase(seq[int(((now+10*ms)/(250*ms)))%n])
						prev.Phase = 0
						e.Step(1)
					}
					a.SetPhase(3)
					vs.Sleep(95 * ms) // the last batch is through
					gen := 0
					for _, g := range gs {
						if g.at < d-20*ms {
							gen += g.n
						}
					}
					m := mc.Current()
					s := w.Snapshot()
					e.Check(m.TotalAPICalls == sent, "%d tasks sent, %d processed", sent, m.TotalAPICalls)
					e.Check(m.TotalAPICalls+s.PendingTasks >= gen, "%d generated, %d processed, %d pending", gen, m.TotalAPICalls, s.PendingTasks)
					cancel()
				})
				e.Seen(fmt.Sprint(p, x))
			})
		}
	}
}

// resetting: at every 50 ms, everything is as new, and generating goes on
func resetting(e *vs.E) {
	e.Param("6 patterns x 4 sources x reset every 50 ms up to 3 s")
	for _, p := range patterns {
		for si, f := range []func(int, []byte){fraction(0, 0), fraction(.1, 1499), hx.Lcg(1), hx.Lcg(2)} {
			for k := 1; k <= 60; k++ {
				e.Case(func() {
					e.Label("%s, source %d, reset after %d ms", p, si, k*50+5)
					e.Seq(vs.Options{MaxSteps: 1 << 30, Rand: f}, func() {
						a := agent.New("w")
						a.SetPhase(0)
						w := sim.NewWorkloadWithEmerge("w", 3, a, nil, p, goal.SaveEnergy)
						ctx, cancel := context.WithCancel(context.Background())
						w.Start(ctx, sim.NewBatchManager())
						vs.Sleep(time.Duration(k*50-95) * ms)
						a.SetPhase(2)
						vs.Sleep(100 * ms)
						w.Reset()
						s := w.Snapshot()
						e.Check(s.PendingTasks == 0 && s.BatchesSent == 0 && !s.InBurstMode && hx.Eq(s.Phase, 2) && s.ID == "w", "after the reset: %+v", s)
						if p == pattern.Burst || p == pattern.Mixed || p == pattern.Sparse {
							e.Check(s.ActivityLevel == "quiet", "after the reset the activity is %s", s.ActivityLevel)
						}
						if p != pattern.Burst && p != pattern.Sparse && p != pattern.Mixed {
							vs.Sleep(505 * ms)
							e.Check(w.Snapshot().PendingTasks > 0, "nothing is generated after the reset")
						} else if si < 2 {
							vs.Sleep(4005 * ms)
							e.Check(w.Snapshot().PendingTasks > 0, "nothing is generated after the reset")
						}
						cancel()
					})
					e.Step(1)
				})
			}
		}
	}
}

// types: every goal has its own distinct workloads, assigned round-robin
func types(e *vs.E) {
	e.Param("8 goals and unknown ones, indices 0-40")
	goals := []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic, goal.Type(-1), goal.Type(99)}
	e.Case(func() {
		e.Seq(vs.Options{MaxSteps: 1 << 30}, func() {
			of := map[string]int{}
			for gi, g := range goals {
				var names []string
				for i := 0; i <= 40; i++ {
					a := agent.New("x")
					s := sim.NewWorkloadWithEmerge(fmt.Sprint("id", i), i, a, nil, pattern.Steady, g).Snapshot()
					o := sim.NewWorkload(fmt.Sprint("id", i), i, g).Snapshot()
					e.Check(s.ID == fmt.Sprint("id", i) && s.Type != "" && s.Icon != "" && s.Type == o.Type && s.Icon == o.Icon, "goal %v, workload %d: %+v and %+v", g, i, s, o)
					e.Check(s.PendingTasks == 0 && s.BatchesSent == 0 && s.Phase == a.Phase(), "goal %v, workload %d: %+v", g, i, s)
					if i < 8 {
						for _, n := range names {
							e.Check(n != s.Type, "goal %v has two workloads %s", g, n)
						}
						names = append(names, s.Type)
						if gi < 8 {
							if o, ok := of[s.Type]; ok {
								e.Check(o == gi, "workload %s belongs to two goals", s.Type)
							}
							of[s.Type] = gi
						} else {
							e.Check(of[s.Type] == 0, "an unknown goal has %s", s.Type)
						}
					} else {
						e.Check(s.Type == names[i%8], "goal %v, workload %d is %s, want %s", g, i, s.Type, names[i%8])
					}
				}
			}
		})
		e.Seen("types")
	})
}

// concurrent: the workload's own goroutines, a reset and readers
func concurrent(name string, p pattern.Type, reset, read bool, pre, preT int) {
	vs.Add(&vs.Scenario{Name: name, Both: true, Opt: vs.Options{Preemptions: pre, DelayBound: true, MaxSteps: 20000, Rand: fraction(.1, 51)}, Thorough: &vs.Options{Preemptions: preT, DelayBound: true, MaxSteps: 20000, Rand: fraction(.1, 51)}, Body: func() {
		live := vs.LiveThreads()
		a := agent.New("w")
		a.SetPhase(0)
		w := sim.NewWorkloadWithEmerge("w", 0, a, nil, p, goal.MinimizeAPICalls)
		bm, mc := sim.NewBatchManager(), sim.NewMetricsCollector()
		ctx, cancel := context.WithCancel(context.Background())
		w.Start(ctx, bm)
		vs.Go(func() { bm.ProcessBatches(ctx, mc) })
		var js []func()
		if reset {
			js = append(js, vs.GoJ(func() {
				vs.Sleep(500 * ms)
				w.Reset()
			}))
		}
		if read {
			js = append(js, vs.GoJ(func() {
				vs.Sleep(500 * ms)
				for i := 0; i < 2; i++ {
					s := w.Snapshot()
					if s.PendingTasks < 0 || s.PendingTasks > 30 || s.BatchesSent < 0 || s.InBurstMode != (s.ActivityLevel == "burst") {
						vs.Fail("%+v", s)
					}
				}
			}))
		}
		vs.Sleep(1250 * ms)
		for _, j := range js {
			j()
		}
		cancel()
		vs.Sleep(100 * ms)
		if vs.LiveThreads() != live {
			vs.Fail("%d threads left", vs.LiveThreads()-live)
		}
		s, m := w.Snapshot(), mc.Current()
		got := s.PendingTasks + m.TotalAPICalls
		vs.Outcome("%d tasks in %d", got, m.TotalBatches)
		// with these random numbers: steady 1 at 500 and 1000 ms; high frequency 2 every 51 ms... (a multiple of 2)
		want := 2
		if p == pattern.HighFrequency {
			want = 2 * int(1250*ms/(51*ms))
		}
		if p == pattern.Steady || p == pattern.HighFrequency {
			if got > want || !reset && got != want {
				vs.Fail("%d tasks generated, %d processed, %d pending", want, m.TotalAPICalls, s.PendingTasks)
			}
			if reset && got < want/2-2 {
				vs.Fail("%d tasks generated, %d processed, %d pending after a reset", want, m.TotalAPICalls, s.PendingTasks)
			}
		}
	}})
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "generating", Run: generating})
	vs.AddEnum(&vs.Enum{Name: "sending", Run: sending})
	vs.AddEnum(&vs.Enum{Name: "resetting", Run: resetting})
	vs.AddEnum(&vs.Enum{Name: "workload types", Run: types})
	concurrent("generating and sending", pattern.Steady, false, false, 3, 4)
	concurrent("generating, sending and reading", pattern.Steady, false, true, 3, 4)
	concurrent("generating, sending and resetting", pattern.Steady, true, false, 3, 4)
	concurrent("bursts, resetting and reading", pattern.Burst, true, true, 2, 3)
	concurrent("mixed, resetting and reading", pattern.Mixed, true, true, 2, 3)
	vs.Main()
}
