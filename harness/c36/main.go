// C36: the emerge command simulates what was asked for and what it shows, through every switch, and ends when told.
package main

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/mum4k/termdash"
	"github.com/mum4k/termdash/container"
	"github.com/mum4k/termdash/keyboard"
	"github.com/mum4k/termdash/terminal/tcell"
	"github.com/mum4k/termdash/terminal/terminalapi"
	"golang.org/x/term"

	"MODULE/emerge/goal"
	"MODULE/emerge/scale"
	"MODULE/simulations/display"
	zzmain "MODULE/simulations/emerge"
	"MODULE/simulations/emerge/simulation"
	"MODULE/simulations/emerge/simulation/pattern"
	"MODULE/simulations/emerge/ui"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
	"MODULE/zzverif/vsignal"
)

const (
	ms       = time.Millisecond
	hNew     = "simulations/emerge/simulation.New"
	hRunner  = "simulations/emerge/ui.NewRunner"
	hRun     = "simulations/emerge/ui.Runner.Run"
	allSteps = 1 << 30
)

// ---- what is asked for ----

type state struct {
	g goal.Type
	s scale.Size
	p pattern.Type // Unset: none chosen
}

func (st state) shown() pattern.Type {
	if st.p == pattern.Unset {
		return pattern.BestPatternForGoal(int(st.g))
	}
	return st.p
}

func (st state) target() float64 {
	switch st.g {
	case goal.DistributeLoad, goal.RecoverFromFailure:
		return .2
	case goal.ReachConsensus:
		return .6
	case goal.SaveEnergy:
		return .4
	}
	return st.s.DefaultTargetCoherence()
}

func (st state) String() string { return fmt.Sprintf("%v/%v/%v", st.g, st.s, st.p) }

var (
	scaleNames = []string{"tiny", "small", "medium", "large", "huge"}
	scales     = []scale.Size{scale.Tiny, scale.Small, scale.Medium, scale.Large, scale.Huge}
	titles     = []string{"TINY SWARM (20 workloads)", "SMALL SWARM (50 workloads)", "MEDIUM SWARM (200 workloads)", "LARGE SWARM (1000 workloads)", "HUGE SWARM (2000 workloads)"}
	agents     = []int{20, 50, 200, 1000, 2000}
)

type change struct {
	ev   display.EventType
	key  rune
	to   func(st *state)
	name string // what it switches to
}

var changes = []change{
	{display.ScaleTiny, '1', func(st *state) { st.s = scale.Tiny }, ""},
	{display.ScaleSmall, '2', func(st *state) { st.s = scale.Small }, ""},
	{display.ScaleMedium, '3', func(st *state) { st.s = scale.Medium }, ""},
	{display.ScaleLarge, '4', func(st *state) { st.s = scale.Large }, ""},
	{display.ScaleHuge, '5', func(st *state) { st.s = scale.Huge }, ""},
	{display.GoalBatch, 'b', func(st *state) { st.g = goal.MinimizeAPICalls }, ""},
	{display.GoalLoad, 'l', func(st *state) { st.g = goal.DistributeLoad }, ""},
	{display.GoalConsensus, 'c', func(st *state) { st.g = goal.ReachConsensus }, ""},
	{display.GoalLatency, 't', func(st *state) { st.g = goal.MinimizeLatency }, ""},
	{display.GoalEnergy, 'e', func(st *state) { st.g = goal.SaveEnergy }, ""},
	{display.GoalRhythm, 'm', func(st *state) { st.g = goal.MaintainRhythm }, ""},
	{display.GoalFailure, 'f', func(st *state) { st.g = goal.RecoverFromFailure }, ""},
	{display.GoalTraffic, 'a', func(st *state) { st.g = goal.AdaptToTraffic }, ""},
	{display.PatternHighFreq, 'h', func(st *state) { st.p = pattern.HighFrequency }, ""},
	{display.PatternBurst, 'u', func(st *state) { st.p = pattern.Burst }, ""},
	{display.PatternSteady, 'y', func(st *state) { st.p = pattern.Steady }, ""},
	{display.PatternMixed, 'x', func(st *state) { st.p = pattern.Mixed }, ""},
	{display.PatternSparse, 'z', func(st *state) { st.p = pattern.Sparse }, ""},
}

// after returns the state after a change, and whether it is one for what is shown.
func (c change) after(st state) (state, bool) {
	n := st
	c.to(&n)
	return n, n.g != st.g || n.s != st.s || n.p != st.p && n.p != st.shown()
}

// ---- one run of the command ----

type started struct {
	build simulation.BuildConfig
	sim   any
	cfg   ui.RunnerConfig
	disp  any
	ctx   context.Context
}

type command struct {
	what  string
	fail  func(format string, a ...any)
	runs  []started
	built []simulation.BuildConfig
	sims  []any
	sim   *simulation.Simulation // the latest real one
	exit  int
	over  bool
	out   *os.File
	o     *os.File
	// script
	buildErr func(k int) error
	run      func(k int, ctx context.Context) *ui.RunResult
}

func (c *command) check(ok bool, format string, a ...any) {
	if !ok {
		c.fail("%s: %s", c.what, fmt.Sprintf(format, a...))
	}
}

// start runs the command with stand-ins for what it builds and runs, or, with
// a nil run, the real thing.
func start(fail func(string, ...any), terminal bool, run func(k int, ctx context.Context) *ui.RunResult, args ...string) *command {
	c := &command{what: "command " + strings.Join(args, " "), fail: fail, exit: -1, run: run}
	os.Args = append([]string{"emerge"}, args...)
	flag.CommandLine = flag.NewFlagSet("emerge", flag.PanicOnError)
	term.Hook = func(int) bool { return terminal }
	f, err := os.CreateTemp("", "c36")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	c.out, c.o = f, os.Stdout
	os.Stdout = f
	vs.OnExit = func(code int) {
		if !c.over {
			c.over, c.exit = true, code
		}
	}
	vs.Hooks = map[string]func([]any) []any{
		hNew: func(a []any) []any {
			b, _ := a[0].(simulation.BuildConfig)
			k := len(c.built)
			c.built = append(c.built, b)
			if c.run == nil {
				return nil
			}
			if c.buildErr != nil {
				if err := c.buildErr(k); err != nil {
					return []any{(*simulation.Simulation)(nil), err}
				}
			}
			s := &simulation.Simulation{}
			c.sims = append(c.sims, s)
			return []any{s, nil}
		},
		hRunner: func(a []any) []any {
			cfg, _ := a[0].(ui.RunnerConfig)
			c.runs = append(c.runs, started{cfg: cfg, sim: a[1], disp: a[2]})
			c.check(len(c.built) == len(c.runs), "run %d has %d simulations built", len(c.runs), len(c.built))
			c.runs[len(c.runs)-1].build = c.built[len(c.built)-1]
			if s, ok := a[1].(*simulation.Simulation); ok {
				c.sim = s
			}
			_, isTerm := a[2].(*display.TerminalDisplay)
			_, isText := a[2].(*display.TextDisplay)
			c.check(isTerm == terminal && isText == !terminal, "run %d, on a terminal: %v, shown by %T", len(c.runs), terminal, a[2])
			if c.run != nil {
				c.check(a[1] == c.sims[len(c.sims)-1], "run %d of another simulation than the one built", len(c.runs))
			}
			return nil
		},
		hRun: func(a []any) []any {
			if c.run == nil {
				return nil
			}
			ctx := a[1].(context.Context)
			k := len(c.runs) - 1
			c.runs[k].ctx = ctx
			return []any{c.run(k, ctx)}
		},
	}
	vs.Go(func() {
		zzmain.ZZMain()
		if !c.over {
			c.over, c.exit = true, 0
		}
	})
	return c
}

func (c *command) printed() string {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/self/fd/%d", c.out.Fd()))
	return string(b)
}

// done ends the observation.
func (c *command) done() {
	os.Stdout = c.o
	c.out.Close()
	vs.Hooks, vs.OnExit = nil, nil
}

// ended: the command has ended with this code.
func (c *command) ended(code int) {
	c.check(c.over, "goes on, in run %d", len(c.runs))
	c.check(c.exit == code, "ends with %d, want %d", c.exit, code)
}

// is: the latest run is one of the state.
func (c *command) is(n int, st state, interval, timeout time.Duration) {
	c.check(len(c.runs) == n, "%d runs, want %d", len(c.runs), n)
	r := c.runs[n-1]
	b := r.build
	c.check(b.Goal == st.g && b.Scale == st.s && b.Pattern == st.shown(), "run %d simulates %v/%v/%v, want %v with pattern %v", n, b.Goal, b.Scale, b.Pattern, st, st.shown())
	c.check(math.Abs(b.TargetCoherence-st.target()) < 1e-12, "run %d of %v has target %v, want %v", n, st, b.TargetCoherence, st.target())
	g := r.cfg
	c.check(g.CurrentGoal == st.g && g.CurrentScale == st.s && g.CurrentPattern == st.shown(), "run %d compares keys with %v/%v/%v, want %v with pattern %v", n, g.CurrentGoal, g.CurrentScale, g.CurrentPattern, st, st.shown())
	c.check(g.UpdateInterval == interval && g.Timeout == timeout, "run %d updates every %v for %v, want %v and %v", n, g.UpdateInterval, g.Timeout, interval, timeout)
}

// ---- every sequence of switches ----

func seq(e *vs.E, body func()) {
	r := vs.RunOnce(nil, vs.Options{FreeSched: true, MaxSteps: allSteps, Rand: hx.Lcg(1)}, body)
	vs.Hooks, vs.OnExit = nil, nil
	e.Check(r.Failure == "", "%s: %s", r.Failure, r.Msg)
	e.Step(r.Steps)
}

func waitCtx(ctx context.Context) *ui.RunResult {
	vs.Recv(ctx.Done())
	return &ui.RunResult{}
}

var ends = []string{"quit", "ended", "SIGINT", "SIGTERM", "error", "cannot build"}

// play runs the command through switches and an end.
func play(e *vs.E, terminal bool, from int, evs []int, end int) {
	st := state{goal.MinimizeAPICalls, scales[from], pattern.Unset}
	var args []string
	interval, timeout := 100*ms, 5*time.Minute
	if from > 0 {
		args = []string{"-scale", scaleNames[from]}
	}
	if len(evs) > 0 {
		interval, timeout = 30*ms, time.Hour
		args = append(args, "-interval", "30ms", "-timeout", "1h")
	}
	var valid []int
	states := []state{st}
	for _, i := range evs {
		n, ok := changes[i].after(st)
		if !ok {
			return // the runner does not report these
		}
		st = n
		valid = append(valid, i)
		states = append(states, n)
	}
	stop := false
	seq(e, func() {
		var c *command
		c = start(e.Fail, terminal, func(k int, ctx context.Context) *ui.RunResult {
			if ctx.Err() != nil {
				e.Fail("%s: run %d starts cancelled", c.what, k+1)
			}
			c.is(k+1, states[k], interval, timeout)
			if k < len(evs) {
				vs.Sleep(time.Second)
				return &ui.RunResult{ScaleEvent: changes[evs[k]].ev}
			}
			switch ends[end] {
			case "quit":
				return &ui.RunResult{ScaleEvent: display.EventQuit}
			case "ended":
				return &ui.RunResult{}
			case "error":
				return &ui.RunResult{Error: errors.New("no screen")}
			}
			r := waitCtx(ctx)
			stop = true
			return r
		}, args...)
		for _, i := range evs {
			c.what += " " + string(changes[i].key)
		}
		c.what += ", " + ends[end]
		if ends[end] == "cannot build" {
			c.buildErr = func(k int) error {
				if k == len(evs) {
					return errors.New("no agents")
				}
				return nil
			}
		}
		vs.Sleep(time.Duration(len(evs))*time.Second + 500*ms)
		n, code := len(evs)+1, 0
		switch ends[end] {
		case "SIGINT", "SIGTERM":
			c.check(!c.over && len(c.runs) == n, "over: %v after %d runs", c.over, len(c.runs))
			sig := os.Signal(syscall.SIGTERM)
			if ends[end] == "SIGINT" {
				sig = os.Interrupt
			}
			c.check(vsignal.Raise(sig), "killed by %v", sig)
			vs.Sleep(100 * ms)
			c.check(stop, "%v does not stop run %d", sig, n)
		case "error":
			code = 1
		case "cannot build":
			code = 1
			n--
		}
		c.ended(code)
		c.check(len(c.runs) == n, "%d runs, want %d", len(c.runs), n)
		out := c.printed()
		if code == 1 {
			why := "no screen"
			if end == 5 {
				why = "no agents"
			}
			c.check(strings.Contains(out, "Error: ") && strings.Contains(out, why), "fails with %q", out)
		} else {
			c.check(!strings.Contains(out, "Error"), "prints %q", out)
		}
		e.Seen(fmt.Sprint(states[len(states)-1], end))
		c.done()
	})
}

func switches(e *vs.E) {
	depth := 3
	if !e.Thorough() {
		depth = 2
	}
	if e.Deep() {
		depth = 4
	}
	e.Param("every sequence of up to %d switches from every scale, 6 endings, on a terminal and not", depth)
	var rec func(from int, evs []int)
	rec = func(from int, evs []int) {
		if e.Stop() {
			return
		}
		for _, t := range []bool{true, false} {
			l := append([]int{}, evs...)
			e.Case(func() {
				e.Label("terminal %v, scale %s, switches %v", t, scaleNames[from], l)
				for end := range ends {
					play(e, t, from, l, end)
				}
			})
		}
		if len(evs) < depth {
			for i := range changes {
				rec(from, append(evs[:len(evs):len(evs)], i))
			}
		}
	}
	for from := range scales {
		rec(from, nil)
	}
}

// every state reached on a shortest path, every switch there, and every one after that
func transitions(e *vs.E) {
	e.Param("all 240 states on a path that ends with each of the three choices, then every switch, then every second one (thorough)")
	for g := 5; g < 13; g++ {
		for s := range 5 {
			for p := 12; p < 18; p++ {
				path := []int{s, g}
				if p > 12 {
					path = append(path, p)
				}
				for turn := range len(path) {
					var l []int
					st := state{goal.MinimizeAPICalls, scales[0], pattern.Unset}
					for k := range path {
						i := path[(k+turn)%len(path)]
						if n, ok := changes[i].after(st); ok {
							st = n
							l = append(l, i)
						}
					}
					for i := range changes {
						e.Case(func() {
							e.Label("switches %v then %d", l, i)
							play(e, true, 0, append(l[:len(l):len(l)], i), 2)
							if e.Thorough() {
								for j := range changes {
									play(e, true, 0, append(l[:len(l):len(l)], i, j), 0)
								}
							}
						})
					}
				}
			}
		}
	}
}

// events that are no switches end nothing but the run
func flags(e *vs.E) {
	e.Param("all scale names, 9 others, intervals and timeouts, -list")
	forever := func(_ int, ctx context.Context) *ui.RunResult { return waitCtx(ctx) }
	for i, n := range scaleNames {
		for _, iv := range []time.Duration{0, 5 * ms, 250 * ms, 2 * time.Second} {
			for _, to := range []time.Duration{0, time.Second, time.Hour} {
				for _, t := range []bool{true, false} {
					e.Case(func() {
						seq(e, func() {
							interval := iv
							args := []string{"-scale=" + n, "-timeout", to.String()}
							if iv > 0 {
								args = append(args, "--interval", iv.String())
							} else {
								interval = 100 * ms
							}
							c := start(e.Fail, t, forever, args...)
							vs.Sleep(time.Second)
							c.check(!c.over, "ends with %d", c.exit)
							c.is(1, state{goal.MinimizeAPICalls, scales[i], pattern.Unset}, interval, to)
							c.done()
						})
					})
				}
			}
		}
	}
	for _, n := range []string{"", "Tiny", "TINY", " tiny", "tinyy", "t", "enormous", "1", "20"} {
		e.Case(func() {
			seq(e, func() {
				c := start(e.Fail, true, forever, "-scale", n)
				vs.Sleep(time.Second)
				c.ended(1)
				c.check(len(c.built) == 0, "simulates something")
				out := c.printed()
				c.check(strings.Contains(out, "Unknown scale: "+n), "prints %q", out)
				for _, x := range scaleNames {
					c.check(strings.Contains(out, x), "does not offer %s: %q", x, out)
				}
				c.done()
			})
		})
	}
	for _, args := range [][]string{{"-list"}, {"-list", "-scale", "large"}, {"-scale", "nonsense", "--list=true"}} {
		e.Case(func() {
			seq(e, func() {
				c := start(e.Fail, true, forever, args...)
				vs.Sleep(time.Second)
				c.ended(0)
				c.check(len(c.built) == 0, "simulates something")
				at := 0
				lines := strings.Split(c.printed(), "\n")
				for i, x := range scaleNames {
					for at < len(lines) && !(strings.HasPrefix(strings.TrimSpace(lines[at]), x+" ") && strings.Contains(lines[at], fmt.Sprintf(" %d agents", agents[i]))) {
						at++
					}
					c.check(scales[i].DefaultAgentCount() == agents[i], "%s has %d agents", x, scales[i].DefaultAgentCount())
				}
				c.check(at < len(lines), "lists %q", lines)
				c.done()
			})
		})
	}
}

// ---- signals at any time ----

func signal(n int, sig os.Signal) func() {
	return func() {
		fail := func(f string, a ...any) { vs.Fail(f, a...) }
		entered := 0
		c := start(fail, true, func(k int, ctx context.Context) *ui.RunResult {
			entered++
			if k < n {
				if ctx.Err() != nil {
					return &ui.RunResult{}
				}
				return &ui.RunResult{ScaleEvent: changes[1+k].ev}
			}
			return waitCtx(ctx)
		})
		alive := true
		raised := vs.GoJ(func() { alive = vsignal.Raise(sig) })
		raised()
		vs.Sleep(time.Second)
		if alive {
			c.ended(0)
		}
		vs.Outcome("%v %d %v", alive, entered, c.over)
		c.done()
	}
}

// ---- the real thing ----

type tui struct {
	dash  *termdash.Dash
	cont  *container.Container
	term  *tcell.Terminal
	terms []*tcell.Terminal
	err   error
}

func newTUI(c func() *command) *tui {
	u := &tui{}
	tcell.Area.X, tcell.Area.Y = 360, 140
	tcell.Last, tcell.Fail = nil, nil
	termdash.RunHook = func(ctx context.Context, t terminalapi.Terminal, cont *container.Container, d *termdash.Dash) error {
		u.dash, u.cont = d, cont
		for i, x := range u.terms {
			c().check(x.Closed == 1, "terminal of run %d closed %d times at the next", i+1, x.Closed)
		}
		u.term = tcell.Last
		u.terms = append(u.terms, u.term)
		if u.err != nil {
			return u.err
		}
		vs.Recv(ctx.Done())
		return nil
	}
	return u
}

func (u *tui) text(c *command) string {
	u.term.Clear()
	if err := u.cont.Draw(); err != nil {
		c.fail("drawing: %v", err)
	}
	var b strings.Builder
	for _, row := range u.term.Cells {
		for _, x := range row {
			if x.R == 0 {
				b.WriteByte(' ')
			} else {
				b.WriteRune(x.R)
			}
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func (u *tui) press(k rune) {
	u.dash.Keys(&terminalapi.Keyboard{Key: keyboard.Key(k)})
}

// others are the keys that change nothing that is chosen
var others = []rune{'p', 'd', 'r', ' ', '?'}

var lasts = []string{"q", "esc", "SIGTERM", "timeout"}

func real(e *vs.E, from int, keys []rune, last int, check bool) {
	st := state{goal.MinimizeAPICalls, scales[from], pattern.Unset}
	seq(e, func() {
		var c *command
		u := newTUI(func() *command { return c })
		c = start(e.Fail, true, nil, "-scale", scaleNames[from], "-timeout", "2s")
		c.what += fmt.Sprintf(" %q, %s", string(keys), lasts[last])
		vs.Sleep(300 * ms)
		n := 1
		at := 300 * ms
		look := func() {
			c.is(n, st, 100*ms, 2*time.Second)
			c.check(!c.over, "ends with %d", c.exit)
			sn := c.sim.Snapshot()
			c.check(len(sn.Agents) == agents[st.s], "%d workloads at %v", len(sn.Agents), st.s)
			c.check(math.Abs(sn.TargetCoherence-st.target()) < 1e-12, "target %v of %v", sn.TargetCoherence, st)
			if check {
				t := u.text(c)
				for _, x := range []string{titles[st.s], st.g.String(), st.shown().String()} {
					c.check(strings.Contains(t, x), "%v: the screen does not show %q:\n%s", st, x, t)
				}
			}
		}
		look()
		for _, k := range keys {
			u.press(k)
			for _, ch := range changes {
				if ch.key == k {
					if s, ok := ch.after(st); ok {
						st = s
						n++
						at = 0
					}
				}
			}
			vs.Sleep(300 * ms)
			at += 300 * ms
			look()
		}
		switch lasts[last] {
		case "q":
			u.press('q')
		case "esc":
			u.press(rune(keyboard.KeyEsc))
		case "SIGTERM":
			c.check(vsignal.Raise(syscall.SIGTERM), "killed")
		case "timeout":
			vs.Sleep(2*time.Second - at - 50*ms)
			c.check(!c.over, "ends before its timeout")
			vs.Sleep(100 * ms)
		}
		vs.Sleep(100 * ms)
		c.ended(0)
		c.check(len(c.runs) == n, "%d runs, want %d", len(c.runs), n)
		for i, x := range u.terms {
			c.check(x.Closed == 1, "terminal of run %d closed %d times", i+1, x.Closed)
		}
		e.Seen(st.String())
		c.done()
	})
}

func keyboardKeys(e *vs.E) {
	var all []rune
	for _, c := range changes {
		if c.key != '3' && c.key != '4' && c.key != '5' {
			all = append(all, c.key)
		}
	}
	all = append(all, others...)
	e.Param("the whole program: every pair of keys of the tiny and small scale, the medium one alone; thorough: every triple")
	e.Case(func() {
		for last := range lasts {
			real(e, 0, nil, last, true)
		}
	})
	for i, a := range all {
		e.Case(func() {
			e.Label("key %q", a)
			for last := range lasts {
				real(e, i%2, []rune{a}, last, true)
			}
		})
		for j, b := range all {
			e.Case(func() {
				e.Label("keys %q %q", a, b)
				real(e, 0, []rune{a, b}, (i+j)%4, (i+j)%3 == 0)
			})
			if e.Thorough() {
				for k, d := range all {
					e.Case(func() {
						e.Label("keys %q %q %q", a, b, d)
						real(e, 0, []rune{a, b, d}, (i+j+k)%4, false)
					})
				}
			}
		}
	}
	e.Case(func() {
		e.Label("key 3") // larger scales have more threads than the scheduler
		real(e, 0, []rune{'3'}, 0, true)
	})
	// failures
	e.Case(func() {
		seq(e, func() {
			var c *command
			newTUI(func() *command { return c })
			tcell.Fail = errors.New("no terminal here")
			c = start(e.Fail, true, nil)
			vs.Sleep(time.Second)
			c.ended(1)
			c.check(strings.Contains(c.printed(), "Error: ") && strings.Contains(c.printed(), "no terminal here"), "prints %q", c.printed())
			tcell.Fail = nil
			c.done()
		})
	})
	// not on a terminal: runs to its timeout, or a signal, and sums up
	for i := range 2 {
		for _, sig := range []bool{true, false} {
			e.Case(func() {
				e.Label("text, scale %s, signal %v", scaleNames[i], sig)
				seq(e, func() {
					c := start(e.Fail, false, nil, "-scale", scaleNames[i], "-timeout", "3s")
					vs.Sleep(2500 * ms)
					c.is(1, state{goal.MinimizeAPICalls, scales[i], pattern.Unset}, 100*ms, 3*time.Second)
					c.check(!c.over, "ends early with %d", c.exit)
					if sig {
						c.check(vsignal.Raise(os.Interrupt), "killed")
					} else {
						vs.Sleep(500 * ms)
					}
					vs.Sleep(100 * ms)
					c.ended(0)
					out := c.printed()
					c.check(strings.Contains(out, titles[i]), "title missing: %q", out)
					c.check(strings.Count(out, "] Coherence: ") == 2 || strings.Count(out, "] Coherence: ") == 3, "prints %q", out)
					c.check(strings.Count(out, "SIMULATION COMPLETE") == 1, "no summary in %q", out)
					c.done()
				})
			})
		}
	}
}

func main() {
	debug.SetGCPercent(800)
	vs.AddEnum(&vs.Enum{Name: "flags", Run: flags})
	vs.AddEnum(&vs.Enum{Name: "switches", Run: switches, Deep: true})
	vs.AddEnum(&vs.Enum{Name: "transitions", Run: transitions})
	vs.AddEnum(&vs.Enum{Name: "whole program", Run: keyboardKeys})
	for n := range 3 {
		vs.Add(&vs.Scenario{Name: fmt.Sprintf("SIGTERM and %d switches", n), Opt: vs.Options{Preemptions: 2}, Body: signal(n, syscall.SIGTERM)})
	}
	vs.Main()
}
