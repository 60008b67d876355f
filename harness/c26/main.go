// C26: the client is exactly the swarm its settings describe.
package main

import (
	context "MODULE/zzverif/vcontext"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"time"

	client "MODULE/client/emerge"
	"MODULE/emerge/core"
	"MODULE/emerge/goal"
	"MODULE/emerge/scale"
	"MODULE/emerge/swarm"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

var counts = []int{20, 50, 200, 1000, 2000}
var defCoh = []float64{.90, .85, .75, .65, .55}

type snap struct {
	id     string
	phase  float64
	freq   time.Duration
	goal   float64
	energy float64
	infl   float64
	stub   float64
	links  int
}

func snaps(s *swarm.Swarm) []snap {
	var r []snap
	for id, a := range s.Agents() {
		r = append(r, snap{id, a.Phase(), a.Frequency(), a.LocalGoal(), a.Energy(), a.Influence(), a.Stubbornness(), a.NeighborCount()})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func diff(a, b []snap) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d and %d agents", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("agent %s: %+v and %+v", a[i].id, a[i], b[i])
		}
	}
	return ""
}

// want is a client as its documentation describes it.
type want struct {
	g   goal.Type
	s   scale.Size
	coh float64
	err bool
}

func opts(k int) vs.Options {
	return vs.Options{Rand: hx.Lcg(k), NumCPU: 1, MaxSteps: 200_000_000}
}

// verify compares what mk builds (and what it does for d, if positive) with the swarm built by hand.
func verify(e *vs.E, k int, what string, w want, d time.Duration, mk func() (*client.Client, error)) {
	n := counts[w.s]
	coh := w.coh
	if coh <= 0 {
		coh = defCoh[w.s]
	}
	var c *client.Client
	var ref *swarm.Swarm
	var got, exp []snap
	var gerr, xerr error
	var gt, xt time.Duration
	var gconv, xconv bool
	e.Label("%s", what)
	e.Seq(opts(k), func() {
		var err error
		c, err = mk()
		if w.err {
			e.Check(err != nil && c == nil, "%s: accepted", what)
			return
		}
		e.Check(err == nil, "%s: %v", what, err)
		if err != nil {
			return
		}
		e.Check(c.Size() == n && len(c.Agents()) == n && c.Swarm().Size() == n, "%s: %d agents, %d listed, want %d", what, c.Size(), len(c.Agents()), n)
		for id, a := range c.Agents() {
			x, ok := c.Swarm().Agent(id)
			e.Check(ok && x == a, "%s: agent %s listed but not in the swarm", what, id)
		}
		e.Check(reflect.DeepEqual(c.Config(), swarm.For(w.g).WithSize(n)), "%s: configuration is %+v", what, c.Config())
		e.Check(!c.IsConverged() && c.Coherence() == 0, "%s: converged %v, coherence %v before the start", what, c.IsConverged(), c.Coherence())
		got = snaps(c.Swarm())
		if d > 0 {
			t0 := vs.Now()
			ctx, cancel := context.WithTimeout(context.Background(), d)
			gerr = c.Start(ctx)
			cancel()
			gt = vs.Now().Sub(t0)
			gconv = c.IsConverged()
			e.Check(c.Coherence() == c.Swarm().CurrentCoherence() && gconv == c.Swarm().IsConverged(), "%s: the client reports %v %v, the swarm %v %v", what, c.Coherence(), gconv, c.Swarm().CurrentCoherence(), c.Swarm().IsConverged())
			got = append(got, snaps(c.Swarm())...)
			c.Stop()
		}
	})
	if w.err || c == nil {
		return
	}
	e.Seq(opts(k), func() {
		var err error
		ref, err = swarm.New(n, core.State{Phase: 0, Frequency: time.Second, Coherence: coh}, swarm.WithGoalConfig(swarm.For(w.g).WithSize(n)))
		e.Check(err == nil, "%s: by hand: %v", what, err)
		if err != nil {
			return
		}
		exp = snaps(ref)
		if d > 0 {
			t0 := vs.Now()
			ctx, cancel := context.WithTimeout(context.Background(), d)
			xerr = ref.Run(ctx)
			cancel()
			xt = vs.Now().Sub(t0)
			xconv = ref.IsConverged()
			exp = append(exp, snaps(ref)...)
		}
	})
	e.Check(diff(got, exp) == "", "%s: differs from the swarm built by hand: %s", what, diff(got, exp))
	e.Check((gerr == nil) == (xerr == nil) && errors.Is(gerr, context.DeadlineExceeded) == errors.Is(xerr, context.DeadlineExceeded) && gt == xt && gconv == xconv, "%s: Start ended with %v after %v converged %v, the swarm by hand with %v after %v %v", what, gerr, gt, gconv, xerr, xt, xconv)
	e.Step(len(got))
	e.Seen(fmt.Sprint(what, gerr == nil, gt))
}

var cohs = []float64{-1, 0, math.SmallestNonzeroFloat64, 0.2, 0.5, 0.83, 0.9, 0.999, 1, math.Nextafter(1, 2), 2, math.Inf(1)}

// settings: every way to state goal, scale and coherence
func settings(e *vs.E) {
	top := 2
	if e.Thorough() {
		top = 4
	}
	e.Param("9 goals x %d scales x %d coherence targets, by methods, options and in every order of options; a run of 1 s to 8 s each", top+1, len(cohs))
	for g := goal.Type(0); g < 9; g++ {
		for s := scale.Size(0); int(s) <= top; s++ {
			if s > 2 && g%4 != 0 {
				continue
			}
			for ci, x := range cohs {
				e.Case(func() {
					d := []time.Duration{8 * time.Second, 4 * time.Second, time.Second, 500 * time.Millisecond, 500 * time.Millisecond}[s]
					if s > 0 && ci%3 != int(g)%3 && !e.Thorough() {
						d = 0
					}
					w := want{g, s, x, x > 1}
					what := fmt.Sprintf("goal %v scale %v coherence %v", g, s, x)
					k := int(g)*100 + int(s)*20 + ci
					verify(e, k, what+" by methods", w, d, func() (*client.Client, error) {
						return client.New().WithGoal(g).WithScale(s).WithTargetCoherence(x).Build()
					})
					wo := w
					wo.err = x <= 0 || x > 1
					o := []client.Option{client.WithGoalOption(g), client.WithScaleOption(s), client.WithCoherenceOption(x)}
					for pi, p := range [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}} {
						if pi > 0 && s > 1 {
							break
						}
						verify(e, k, fmt.Sprint(what, " by options in the order ", p), wo, 0, func() (*client.Client, error) {
							return client.NewWithOptions(o[p[0]], o[p[1]], o[p[2]])
						})
					}
				})
			}
		}
	}
}

// sequences: every sequence of builder calls; the last setting of each kind counts, and each Build is independent
func sequences(e *vs.E) {
	type call struct {
		name string
		do   func(b *client.Builder) *client.Builder
		set  func(w *want)
		opt  client.Option
	}
	var calls []call
	for _, g := range []goal.Type{goal.DistributeLoad, goal.SaveEnergy} {
		calls = append(calls, call{fmt.Sprint("goal ", g), func(b *client.Builder) *client.Builder { return b.WithGoal(g) }, func(w *want) { w.g = g }, client.WithGoalOption(g)})
	}
	for _, s := range []scale.Size{scale.Tiny, scale.Small} {
		calls = append(calls, call{fmt.Sprint("scale ", s), func(b *client.Builder) *client.Builder { return b.WithScale(s) }, func(w *want) { w.s = s }, client.WithScaleOption(s)})
	}
	for _, x := range []float64{0, 0.4, 1.5} {
		calls = append(calls, call{fmt.Sprint("coherence ", x), func(b *client.Builder) *client.Builder { return b.WithTargetCoherence(x) }, func(w *want) { w.coh, w.err = x, x > 1 }, client.WithCoherenceOption(x)})
	}
	n := 3
	if e.Thorough() {
		n = 4
	}
	e.Param("every sequence of up to %d of %d builder calls or options, with a build before each call", n, len(calls))
	var rec func(seq []int)
	rec = func(seq []int) {
		e.Case(func() {
			what := "new"
			w := want{g: goal.MinimizeAPICalls, s: scale.Tiny}
			bad := false
			for _, i := range seq {
				what += ", " + calls[i].name
				calls[i].set(&w)
				bad = bad || i == 4 || i == 6
			}
			for ctor := 0; ctor < 2; ctor++ {
				verify(e, len(seq), what, w, 0, func() (*client.Client, error) {
					b := client.New()
					if ctor == 1 {
						b = client.Custom()
					}
					for _, i := range seq {
						b = calls[i].do(b)
					}
					return b.Build()
				})
			}
			var used *client.Builder
			e.Seq(opts(9), func() {
				used = client.New()
				for _, i := range seq {
					used.Build()
					used = calls[i].do(used)
				}
				used.Build()
			})
			verify(e, len(seq), what+" (a build before each)", w, 8*time.Second, func() (*client.Client, error) { return used.Build() })
			wo := w
			wo.err = bad
			verify(e, len(seq), what+" as options", wo, 8*time.Second, func() (*client.Client, error) {
				var o []client.Option
				for _, i := range seq {
					o = append(o, calls[i].opt)
				}
				return client.NewWithOptions(o...)
			})
			// one builder, built before each further call: earlier clients stay as they were
			e.Seq(opts(7), func() {
				b := client.New()
				var cs []*client.Client
				var was [][]snap
				for i := 0; i <= len(seq); i++ {
					if c, err := b.Build(); err == nil {
						for _, o := range cs {
							e.Check(o != c && o.Swarm() != c.Swarm() && o.Config() != c.Config(), "%s: two builds share a swarm", what)
						}
						cs = append(cs, c)
						was = append(was, snaps(c.Swarm()))
						for _, a := range c.Agents() {
							if i == len(seq) {
								a.SetPhase(1)
							}
						}
					}
					if i < len(seq) {
						calls[seq[i]].do(b)
					}
				}
				for i := range cs {
					if i < len(seq) && i < len(cs)-1 {
						e.Check(diff(snaps(cs[i].Swarm()), was[i]) == "", "%s: client %d changed through a later build: %s", what, i, diff(snaps(cs[i].Swarm()), was[i]))
					}
				}
			})
		})
		if len(seq) < n {
			for i := range calls {
				rec(append(seq[:len(seq):len(seq)], i))
			}
		}
	}
	rec(nil)
}

func shortcuts(e *vs.E) {
	e.Param("the three ready-made clients at each scale up to medium")
	for s := scale.Tiny; s <= scale.Medium; s++ {
		e.Case(func() {
			verify(e, 1, fmt.Sprint("MinimizeAPICalls ", s), want{g: goal.MinimizeAPICalls, s: s}, 3*time.Second, func() (*client.Client, error) { return client.MinimizeAPICalls(s) })
			verify(e, 2, fmt.Sprint("DistributeLoad ", s), want{g: goal.DistributeLoad, s: s}, 3*time.Second, func() (*client.Client, error) { return client.DistributeLoad(s) })
			verify(e, 3, "Default", want{g: goal.MinimizeAPICalls, s: scale.Tiny}, 3*time.Second, client.Default)
			bad := errors.New("no")
			var c *client.Client
			var err error
			ran := false
			e.Seq(opts(1), func() {
				c, err = client.NewWithOptions(client.WithScaleOption(s), func(*client.Builder) error { return bad }, func(*client.Builder) error { ran = true; return nil })
			})
			e.Check(c == nil && errors.Is(err, bad) && !ran, "a failing option gave %v, %v", c, err)
		})
	}
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "settings", Run: settings})
	vs.AddEnum(&vs.Enum{Name: "call sequences", Run: sequences})
	vs.AddEnum(&vs.Enum{Name: "ready-made clients", Run: shortcuts})
	// readers while the client runs, and cancellation at any point
	vs.Add(&vs.Scenario{Name: "observing and cancelling a running client", Both: true, Opt: vs.Options{Preemptions: 1, EnvBound: 0, DelayBound: true, Rand: hx.Lcg(3), NumCPU: 1, MaxSteps: 2_000_000}, Body: func() {
		c, err := client.New().WithTargetCoherence(0.999).Build()
		if err != nil {
			vs.Fail("%v", err)
		}
		ctx, cancel := context.WithCancel(context.Background())
		live := vs.LiveThreads()
		var rerr error
		j := vs.GoJ(func() { rerr = c.Start(ctx) })
		vs.Sleep(10 * time.Millisecond)
		for i := 0; i < 2; i++ {
			x := c.Coherence()
			if x < 0 || x > 1+1e-9 || c.Size() != 20 || len(c.Agents()) != 20 || c.IsConverged() && x == 0 {
				vs.Fail("coherence %v size %d converged %v", x, c.Size(), c.IsConverged())
			}
			for _, a := range c.Agents() {
				if p := a.Phase(); p < 0 || p >= hx.TwoPi+1e-9 {
					vs.Fail("phase %v", p)
				}
				break
			}
			c.Stop()
			vs.Sleep(20 * time.Millisecond)
		}
		cancel()
		j()
		vs.Quiesce()
		if rerr != nil && !errors.Is(rerr, context.Canceled) || vs.LiveThreads() != live {
			vs.Fail("Start ended with %v, %d threads left", rerr, vs.LiveThreads()-live)
		}
	}})
	vs.Main()
}
