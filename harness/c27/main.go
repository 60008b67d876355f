// C27: the worker pool runs every job once, on at most its workers, and stops.
package main

import (
	"fmt"

	"MODULE/emerge/swarm"
	"MODULE/zzverif/vs"
)

type tally struct {
	runs, active, peak int
	count              []int
}

func job(t *tally, i int, yields int) func() {
	return func() {
		t.count[i]++
		t.runs++
		t.active++
		if t.active > t.peak {
			t.peak = t.active
		}
		for k := 0; k < yields; k++ {
			vs.Yield()
		}
		t.active--
	}
}

// submit: every job runs exactly once, on at most the pool's workers
func submit(workers, subs, jobs, yields, pre, preT int) {
	n := subs * jobs
	body := func() {
		live := vs.LiveThreads()
		p := swarm.NewWorkerPool(workers)
		if vs.LiveThreads()-live != workers {
			vs.Fail("%d workers started for %d", vs.LiveThreads()-live, workers)
		}
		t := &tally{count: make([]int, n)}
		var js []func()
		for s := 0; s < subs; s++ {
			js = append(js, vs.GoJ(func() {
				for k := 0; k < jobs; k++ {
					p.Submit(job(t, s*jobs+k, yields))
				}
			}))
		}
		for _, j := range js {
			j()
		}
		vs.Quiesce()
		for i, c := range t.count {
			if c != 1 {
				vs.Fail("job %d of %d ran %d times", i, n, c)
			}
		}
		if t.peak > workers || t.active != 0 {
			vs.Fail("%d jobs at once on %d workers", t.peak, workers)
		}
		vs.Outcome("peak %d", t.peak)
		p.Stop()
		vs.Quiesce()
		if vs.LiveThreads() != live {
			vs.Fail("%d workers left after Stop", vs.LiveThreads()-live)
		}
	}
	o, t := vs.Options{Preemptions: pre}, vs.Options{Preemptions: preT}
	if pre < 0 { // bound every deviation from the default schedule
		o, t = vs.Options{Preemptions: -pre, DelayBound: true}, vs.Options{Preemptions: -preT, DelayBound: true}
	}
	vs.Add(&vs.Scenario{Name: fmt.Sprintf("%d workers, %d x %d jobs of %d steps", workers, subs, jobs, yields), Opt: o, Thorough: &t, Body: body})
}

// stopping: jobs queued at the stop run at most once, the running one ends, no worker stays
func stopping(workers, jobs, yields, pre, preT int) {
	body := func() {
		live := vs.LiveThreads()
		p := swarm.NewWorkerPool(workers)
		t := &tally{count: make([]int, jobs)}
		j := vs.GoJ(func() {
			for k := 0; k < jobs; k++ {
				p.Submit(job(t, k, yields))
			}
		})
		j2 := vs.GoJ(func() { p.Stop() })
		j()
		j2()
		vs.Quiesce()
		if vs.LiveThreads() != live {
			vs.Fail("%d workers left after Stop", vs.LiveThreads()-live)
		}
		for i, c := range t.count {
			if c > 1 {
				vs.Fail("job %d ran %d times", i, c)
			}
		}
		if t.active != 0 || t.peak > workers {
			vs.Fail("%d jobs unfinished, %d at once", t.active, t.peak)
		}
		vs.Outcome("ran %v", t.count)
	}
	vs.Add(&vs.Scenario{Name: fmt.Sprintf("stop during %d jobs on %d workers", jobs, workers), Opt: vs.Options{Preemptions: pre}, Thorough: &vs.Options{Preemptions: preT}, Body: body})
}

func main() {
	submit(1, 1, 3, 0, 3, 5)
	submit(1, 2, 2, 1, 2, 4)
	submit(2, 1, 3, 1, 2, 4)
	submit(2, 2, 2, 1, 2, 3)
	submit(3, 2, 2, 1, -2, -4)
	submit(2, 3, 3, 0, -2, -4)
	submit(1, 3, 4, 0, -2, -4) // more jobs than the queue holds
	stopping(1, 2, 1, 3, 5)
	stopping(2, 3, 1, 2, 4)
	stopping(2, 4, 0, 2, 3)
	// the race detector sees two jobs share nothing but what they synchronise, and a job's submission before its run
	vs.Add(&vs.Scenario{Name: "publication", Both: true, Opt: vs.Options{Preemptions: 2}, Thorough: &vs.Options{Preemptions: 4}, Body: func() {
		p := swarm.NewWorkerPool(2)
		x := [2]int{}
		for i := range x {
			x[i] = i + 1
			p.Submit(func() {
				if x[i] != i+1 {
					vs.Fail("job %d saw %v", i, x)
				}
			})
		}
		vs.Quiesce()
		p.Stop()
	}})
	// queueing does not block a submitter before twice the workers' number of jobs wait
	vs.AddEnum(&vs.Enum{Name: "queue room", Run: func(e *vs.E) {
		e.Param("1-40 workers")
		for w := 1; w <= 40; w++ {
			e.Case(func() {
				e.Seq(vs.Options{MaxSteps: 5_000_000}, func() {
					p := swarm.NewWorkerPool(w)
					n := 0
					for i := 0; i < 2*w; i++ {
						p.Submit(func() { n++ })
					}
					e.Step(2 * w)
					vs.Quiesce()
					e.Check(n == 2*w, "%d workers ran %d of %d jobs", w, n, 2*w)
					p.Stop()
				})
				e.Seen(fmt.Sprint(w))
			})
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "order on one worker", Run: func(e *vs.E) {
		e.Param("1-60 jobs")
		for n := 1; n <= 60; n++ {
			e.Case(func() {
				e.Seq(vs.Options{MaxSteps: 5_000_000}, func() {
					p := swarm.NewWorkerPool(1)
					var got []int
					j := vs.GoJ(func() {
						for i := 0; i < n; i++ {
							p.Submit(func() { got = append(got, i) })
						}
					})
					j()
					vs.Quiesce()
					e.Check(len(got) == n, "%d of %d jobs ran", len(got), n)
					for i, g := range got {
						e.Check(g == i, "job %d ran as number %d", g, i)
					}
					p.Stop()
				})
				e.Seen(fmt.Sprint(n))
			})
		}
	}})
	vs.Main()
}
