// C32: controllers pass the users' keys on, and the runner applies them, shows the simulation and ends.
package main

import (
	context "MODULE/zzverif/vcontext"
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/mum4k/termdash/keyboard"
	"github.com/mum4k/termdash/terminal/terminalapi"

	"MODULE/emerge/goal"
	"MODULE/emerge/scale"
	"MODULE/simulations/display"
	sim "MODULE/simulations/emerge/simulation"
	"MODULE/simulations/emerge/simulation/pattern"
	"MODULE/simulations/emerge/ui"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

const ms = time.Millisecond

// keys of every event, as documented in the menu
var keys = map[display.EventType]string{
	display.EventQuit: "qQ", display.EventReset: "rR", display.EventDisrupt: "dD", display.EventPause: "pP", display.EventResume: " ",
	display.ScaleTiny: "1", display.ScaleSmall: "2", display.ScaleMedium: "3", display.ScaleLarge: "4", display.ScaleHuge: "5",
	display.GoalBatch: "bB", display.GoalLoad: "lL", display.GoalConsensus: "cC", display.GoalLatency: "tT",
	display.GoalEnergy: "eE", display.GoalRhythm: "mM", display.GoalFailure: "fF", display.GoalTraffic: "aA",
	display.PatternHighFreq: "hH", display.PatternBurst: "uU", display.PatternSteady: "yY", display.PatternMixed: "xX", display.PatternSparse: "zZ",
}

func event(k keyboard.Key) (display.EventType, bool) {
	if k == keyboard.KeyEsc {
		return display.EventQuit, true
	}
	for e, s := range keys {
		if k > 0 && strings.ContainsRune(s, rune(k)) {
			return e, true
		}
	}
	return 0, false
}

func press(c display.Controller, k keyboard.Key) {
	c.(*display.KeyboardController).ProcessKey(&terminalapi.Keyboard{Key: k})
}

// next is the next event of a controller, if there is one.
func next(c display.Controller) (display.EventType, bool) {
	r := vs.CaseRecv(c.Events())
	if vs.Select(true, r) != 0 {
		return 0, false
	}
	return r.V.Type, true
}

// keymap: every key, in every fill of the buffer
func keymap(e *vs.E) {
	e.Param("keys -100..4095, with 0-11 keys pressed before")
	before := []keyboard.Key{'r', 'd', 'p'}
	for k := keyboard.Key(-100); k < 4096; k++ {
		e.Case(func() {
			e.Seq(vs.Options{MaxSteps: 1 << 20}, func() {
				c := display.NewKeyboardController()
				want, ok := event(k)
				for i := 0; i < 12; i++ {
					for j := 0; j < i; j++ {
						press(c, before[j%3])
					}
					press(c, k)
					for j := 0; j < min(i, 10); j++ {
						x, got := next(c)
						e.Check(got && x == []display.EventType{display.EventReset, display.EventDisrupt, display.EventPause}[j%3], "key %d after %d keys: event %d is %v, %v", k, i, j, x, got)
					}
					x, got := next(c)
					e.Check(got == (ok && i < 10) && (!got || x == want), "key %d (%q) after %d keys: event %v, %v, want %v, %v", k, rune(max(k, 0)), i, x, got, want, ok)
					x, got = next(c)
					e.Check(!got, "key %d: another event %v", k, x)
					e.Step(1)
				}
			})
			e.Seen(fmt.Sprint(k))
		})
	}
}

// buffer: every sequence of keys and reads
func buffer(e *vs.E) {
	n := 8
	if e.Thorough() {
		n = 10
	}
	e.Param("every sequence of %d of two keys, an ignored key and a read, after 0, 4 and 8 keys", n)
	total := 1 << (2 * n)
	for x := 0; x < total; x++ {
		e.Case(func() {
			e.Seq(vs.Options{MaxSteps: 1 << 20}, func() {
				for pre := 0; pre <= 8; pre += 4 {
					c := display.NewKeyboardController()
					var q []display.EventType
					for i := 0; i < pre; i++ {
						press(c, 'a')
						q = append(q, display.GoalTraffic)
					}
					put := func(k keyboard.Key) {
						press(c, k)
						if v, ok := event(k); ok && len(q) < 10 {
							q = append(q, v)
						}
					}
					for i, y := 0, x; i < n; i, y = i+1, y>>2 {
						switch y & 3 {
						case 0:
							put('1')
						case 1:
							put('z')
						case 2:
							put('k')
						case 3:
							v, ok := next(c)
							e.Check(ok == (len(q) > 0) && (!ok || v == q[0]), "sequence %b after %d keys: event %v, %v, want %v", x, pre, v, ok, q)
							if ok {
								q = q[1:]
							}
						}
					}
				}
			})
			e.Seen(fmt.Sprint(x))
		})
	}
}

// automated: scripted events come in order, each after its delay, none is lost
func automated(e *vs.E) {
	ds := []time.Duration{0, 7 * ms, time.Second}
	e.Param("scripts of 0-4 events with every choice of 0-5 delays of %v, and of 25 events; consumed from 0, 0.5, 3.3 s on", ds)
	check := func(n int, delays []time.Duration, from time.Duration) {
		e.Seq(vs.Options{MaxSteps: 1 << 20}, func() {
			var script []display.ControlEvent
			for i := 0; i < n; i++ {
				script = append(script, display.ControlEvent{Type: display.EventType(i % 23), Data: i})
			}
			t0 := vs.Now()
			c := display.NewAutomatedController(script, delays)
			vs.Sleep(from)
			vs.Quiesce()
			at := time.Duration(0) // when the script sends
			var read []time.Duration
			for i := 0; i < n; i++ {
				if i < len(delays) {
					at += delays[i]
				}
				if i >= 10 && read[i-10] > at { // the buffer was full
					at = read[i-10]
				}
				v := vs.Recv(c.Events())
				now := vs.Now().Sub(t0)
				e.Check(v == script[i], "event %d of %v is %v", i, script, v)
				e.Check(now == max(at, from), "delays %v, consumed from %v: event %d at %v, want %v", delays, from, i, now, max(at, from))
				read = append(read, now)
			}
			vs.Sleep(10 * time.Second)
			_, ok := next(c)
			e.Check(!ok && vs.LiveThreads() == 0, "after a script of %d: %v, %s", n, ok, vs.LiveDesc())
		})
	}
	for n := 0; n <= 4; n++ {
		for nd := 0; nd <= 5; nd++ {
			total := 1
			for i := 0; i < nd; i++ {
				total *= 3
			}
			for x := 0; x < total; x++ {
				e.Case(func() {
					var delays []time.Duration
					for i, y := 0, x; i < nd; i, y = i+1, y/3 {
						delays = append(delays, ds[y%3])
					}
					for _, from := range []time.Duration{0, 500 * ms, 3300 * ms} {
						check(n, delays, from)
					}
					e.Seen(fmt.Sprint(n, delays))
				})
			}
		}
	}
	for nd := 0; nd <= 26; nd++ {
		e.Case(func() {
			var delays []time.Duration
			for i := 0; i < nd; i++ {
				delays = append(delays, ds[i%2])
			}
			for _, from := range []time.Duration{0, 5 * time.Second} {
				check(25, delays, from)
			}
			e.Seen(fmt.Sprint("long", nd))
		})
	}
}

// show is a display that checks what it is given.
type show struct {
	e        *vs.E
	s        *sim.Simulation
	t0       time.Time
	interval time.Duration
	log      string // W welcome, R run, S summary, C close
	updates  int
	init     error
	run      error // Run fails at once
	what     string
}

func (d *show) fail(f string, a ...any) {
	if d.e != nil {
		d.e.Fail("%s: %s", d.what, fmt.Sprintf(f, a...))
	}
	vs.Fail(f, a...)
}

func (d *show) Initialize() error {
	d.log += "I"
	return d.init
}

func (d *show) Close() error {
	d.log += "C"
	return errors.New("cannot close")
}

func (d *show) ShowWelcome() { d.log += "W" }

// equal compares the fields of two structures by name.
func equal(a, b reflect.Value) string {
	for i := 0; i < a.NumField(); i++ {
		n := a.Type().Field(i).Name
		x, y := a.Field(i), b.FieldByName(n)
		if n == "Agents" {
			if x.Len() != y.Len() {
				return fmt.Sprintf("%d agents, want %d", x.Len(), y.Len())
			}
			for k := 0; k < x.Len(); k++ {
				if m := equal(x.Index(k), y.Index(k)); m != "" {
					return fmt.Sprintf("agent %d: %s", k, m)
				}
			}
			continue
		}
		if !y.IsValid() {
			return "no " + n
		}
		if !reflect.DeepEqual(x.Interface(), y.Interface()) {
			return fmt.Sprintf("%s is %v, want %v", n, x.Interface(), y.Interface())
		}
	}
	return ""
}

func (d *show) Update(x display.SimulationSnapshot) {
	d.updates++
	if d.e == nil {
		return
	}
	if !strings.HasPrefix(d.log, "IW") {
		d.fail("update after %q", d.log)
	}
	at := vs.Now().Sub(d.t0)
	if at != time.Duration(d.updates)*d.interval {
		d.fail("update %d at %v", d.updates, at)
	}
	if m := equal(reflect.ValueOf(x), reflect.ValueOf(d.s.Snapshot())); m != "" {
		d.fail("update %d: %s", d.updates, m)
	}
}

func (d *show) ShowSummary(x display.Statistics) {
	d.log += "S"
	if m := equal(reflect.ValueOf(x), reflect.ValueOf(d.s.Statistics())); m != "" && d.e != nil {
		d.fail("summary: %s", m)
	}
}

func (d *show) Run(ctx context.Context, c *display.KeyboardController) error {
	d.log += "R"
	if d.run != nil {
		return d.run
	}
	if c == nil {
		d.fail("no controller")
	}
	vs.Recv(ctx.Done())
	vs.Quiet(true) // whoever ends the run is done: the rest does not need to be explored
	return nil
}

func tiny() *sim.Simulation {
	s, err := sim.New(sim.BuildConfig{Goal: goal.MinimizeAPICalls, Scale: scale.Tiny, Pattern: pattern.HighFrequency})
	if err != nil {
		vs.Fail("%v", err)
	}
	return s
}

// session runs a runner until it returns.
type session struct {
	d      *show
	s      *sim.Simulation
	c      display.Controller
	res    *ui.RunResult
	at     time.Duration // of its end
	cancel func()
	wait   func()
	done   chan struct{}
	idle   int
}

func begin(e *vs.E, what string, cfg ui.RunnerConfig, prepare func(*session)) *session {
	if cfg.UpdateInterval == 0 {
		cfg.UpdateInterval = 100 * ms
	}
	x := &session{s: tiny(), c: display.NewKeyboardController(), at: -1, done: make(chan struct{}, 1)}
	x.idle = vs.LiveThreads()
	x.d = &show{e: e, s: x.s, t0: vs.Now(), interval: cfg.UpdateInterval, what: what}
	if prepare != nil {
		prepare(x)
	}
	ctx, cancel := context.WithCancel(context.Background())
	x.cancel = cancel
	r := ui.NewRunner(cfg, x.s, x.d, x.c)
	x.wait = vs.GoJ(func() {
		x.res = r.Run(ctx)
		x.at = vs.Now().Sub(x.d.t0)
		vs.Send(x.done, struct{}{})
	})
	vs.Quiesce()
	return x
}

// end checks how a session ended.
func (x *session) end(e *vs.E, log string, ev display.EventType, err string, at time.Duration) {
	x.wait()
	e.Check(x.at == at, "%s: ends at %v, want %v", x.d.what, x.at, at)
	e.Check(x.res != nil && x.res.ScaleEvent == ev, "%s: result %+v, want event %v", x.d.what, x.res, ev)
	e.Check(err == "" && x.res.Error == nil || err != "" && x.res.Error != nil && strings.Contains(x.res.Error.Error(), err), "%s: error %v, want %q", x.d.what, x.res.Error, err)
	e.Check(x.d.log == log, "%s: the display did %q, want %q", x.d.what, x.d.log, log)
	if err == "" {
		n := int(at / x.d.interval)
		e.Check(x.d.updates == n || x.d.updates == n-1 && at%x.d.interval == 0, "%s: %d updates in %v", x.d.what, x.d.updates, at)
	}
	u := x.d.updates
	vs.Sleep(time.Second)
	e.Check(x.d.updates == u, "%s: updated after the end", x.d.what)
	vs.Sleep(2 * time.Second)
	if x.s.Snapshot().Disrupted {
		vs.Sleep(30 * time.Second)
	}
	e.Check(vs.LiveThreads() == x.idle, "%s: %d threads left: %s", x.d.what, vs.LiveThreads()-x.idle, vs.LiveDesc())
	x.cancel()
}

var goals = []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
var goalEvents = []display.EventType{display.GoalBatch, display.GoalLoad, display.GoalConsensus, display.GoalLatency, display.GoalEnergy, display.GoalRhythm, display.GoalFailure, display.GoalTraffic}
var scales = []scale.Size{scale.Tiny, scale.Small, scale.Medium, scale.Large, scale.Huge}
var scaleEvents = []display.EventType{display.ScaleTiny, display.ScaleSmall, display.ScaleMedium, display.ScaleLarge, display.ScaleHuge}
var patterns = []pattern.Type{pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse, pattern.Unset}
var patternEvents = []display.EventType{display.PatternHighFreq, display.PatternBurst, display.PatternSteady, display.PatternMixed, display.PatternSparse}

func key(ev display.EventType) keyboard.Key { return keyboard.Key(keys[ev][0]) }

const opts = 1 << 30

// changes: keys that change nothing are ignored, any other ends the run with its event
func changes(e *vs.E) {
	e.Param("every goal, scale and pattern, the keys of all of them, alone and after the three that change nothing")
	for g := range goals {
		for s := range scales {
			for p := range patterns {
				e.Case(func() {
					e.Seq(vs.Options{MaxSteps: opts, Rand: hx.Lcg(1)}, func() {
						cfg := ui.RunnerConfig{CurrentGoal: goals[g], CurrentScale: scales[s], CurrentPattern: patterns[p]}
						same := []display.EventType{goalEvents[g], scaleEvents[s]}
						if p < 5 {
							same = append(same, patternEvents[p])
						}
						all := append(append(append([]display.EventType{}, goalEvents...), scaleEvents...), patternEvents...)
						for i, ev := range all {
							what := fmt.Sprintf("goal %v, scale %v, pattern %v, key %q", goals[g], scales[s], patterns[p], rune(key(ev)))
							x := begin(e, what, cfg, nil)
							vs.Sleep(3 * ms)
							if i%2 == 0 {
								for _, y := range same {
									press(x.c, key(y))
								}
								vs.Sleep(15 * ms)
							}
							t := vs.Now().Sub(x.d.t0)
							press(x.c, key(ev))
							press(x.c, key(scaleEvents[(s+1)%5])) // too late, unless the first changes nothing
							vs.Quiesce()
							want := ev
							for _, y := range same {
								if y == ev {
									want = scaleEvents[(s+1)%5]
								}
							}
							x.end(e, "IWRC", want, "", t)
						}
					})
					e.Seen(fmt.Sprint(g, s, p))
				})
			}
		}
	}
}

// operations: every sequence of keys does to the simulation what it should
func operations(e *vs.E) {
	n := 4
	if e.Thorough() {
		n = 6
	}
	ks := []keyboard.Key{'p', ' ', 'r', 'd', '1', 'k', 0}
	e.Param("every sequence of %d of pause, resume, reset, disrupt, a key that changes nothing, an unused key, and waiting, 47 or 700 ms apart, then quit", n)
	total := 1
	for i := 0; i < n; i++ {
		total *= len(ks)
	}
	for v := 0; v < total; v++ {
		e.Case(func() {
			e.Seq(vs.Options{MaxSteps: opts, Rand: hx.Lcg(v % 7)}, func() {
				x := begin(e, "", ui.RunnerConfig{}, nil)
				vs.Sleep(13 * ms)
				start, paused, reset, disrupted := x.d.t0, false, time.Time{}, false
				for i, y := 0, v; i < n; i, y = i+1, y/len(ks) {
					k := ks[y%len(ks)]
					x.d.what += fmt.Sprintf("%q", rune(k))
					if k != 0 {
						press(x.c, k)
					}
					vs.Quiesce()
					switch k {
					case 'p':
						paused = !paused
					case ' ':
						paused = false
					case 'r':
						if !paused {
							reset, start = vs.Now(), vs.Now()
						}
					case 'd':
						if !paused {
							disrupted = true
							e.Check(x.s.Snapshot().Disrupted, "%s: not disrupted", x.d.what)
						}
					}
					d := []time.Duration{47 * ms, 700 * ms}[v%2]
					for k := 0; k < 2; k++ {
						z := x.s.Snapshot()
						now := vs.Now()
						e.Check(z.Paused == paused, "%s: paused: %v", x.d.what, z.Paused)
						e.Check(z.ElapsedTime == now.Sub(start), "%s: elapsed %v, want %v", x.d.what, z.ElapsedTime, now.Sub(start))
						e.Check(z.Reset == (!reset.IsZero() && now.Sub(reset) < 2*time.Second), "%s: reset: %v", x.d.what, z.Reset)
						e.Check(!z.Disrupted || disrupted, "%s: disrupted: %v", x.d.what, z.Disrupted)
						vs.Sleep(d / 2)
					}
				}
				press(x.c, []keyboard.Key{'q', 'Q', keyboard.KeyEsc}[v%3])
				x.end(e, "IWRSC", 0, "", vs.Now().Sub(x.d.t0))
			})
			e.Seen(fmt.Sprint(v))
		})
	}
}

type network struct{ display.Controller }

// ends: the timeout, the context, keys and errors end a run
func ends(e *vs.E) {
	e.Param("quit, a change and cancellation at 7 moments with 5 timeouts and 3 update intervals, failing displays and other controllers")
	times := []time.Duration{0, 1 * ms, 9 * ms, 99 * ms, 101 * ms, 250 * ms, 1234 * ms}
	for _, to := range []time.Duration{0, -1, 55 * ms, 700 * ms, 3 * time.Second} {
		for _, iv := range []time.Duration{7 * ms, 100 * ms, 400 * ms} {
			for _, at := range times {
				for how := 0; how < 5; how++ {
					e.Case(func() {
						e.Seq(vs.Options{MaxSteps: opts, Rand: hx.Lcg(1)}, func() {
							x := begin(e, fmt.Sprintf("timeout %v, interval %v, way %d at %v", to, iv, how, at), ui.RunnerConfig{Timeout: to, UpdateInterval: iv}, nil)
							vs.Sleep(at)
							log, ev, t := "IWRSC", display.EventType(0), at
							if at > 0 && iv > 0 && at%iv == 0 {
								return
							}
							switch how {
							case 0:
								press(x.c, 'q')
							case 1:
								press(x.c, '3')
								ev, log = display.ScaleMedium, "IWRC"
							case 2:
								x.cancel()
							case 3: // pause, then the key
								press(x.c, 'p')
								press(x.c, 'x')
								press(x.c, 'q')
								ev, log = display.PatternMixed, "IWRC"
							case 4: // quit first
								press(x.c, 'q')
								press(x.c, '2')
							}
							if to > 0 && at > to {
								log, ev, t = "IWRSC", 0, to
							}
							if to > 0 && at == to {
								return
							}
							x.end(e, log, ev, "", t)
						})
						e.Seen(fmt.Sprint(to, iv, at, how))
					})
				}
			}
			if to > 0 {
				e.Case(func() {
					e.Seq(vs.Options{MaxSteps: opts, Rand: hx.Lcg(1)}, func() {
						x := begin(e, fmt.Sprintf("timeout %v", to), ui.RunnerConfig{Timeout: to, UpdateInterval: iv}, nil)
						vs.Sleep(to + ms)
						x.end(e, "IWRSC", 0, "", to)
					})
				})
			}
		}
	}
	for how := 0; how < 6; how++ {
		e.Case(func() {
			e.Seq(vs.Options{MaxSteps: opts, Rand: hx.Lcg(1)}, func() {
				log, err, t := "", "", time.Duration(0)
				x := begin(e, fmt.Sprint("failure ", how), ui.RunnerConfig{Timeout: []time.Duration{0, time.Second}[how%2]}, func(x *session) {
					switch how / 2 {
					case 0:
						x.d.init = errors.New("no screen")
						log, err = "I", "no screen"
					case 1:
						x.d.run = errors.New("lost the screen")
						log, err = "IWRC", "lost the screen"
					case 2:
						x.c = network{x.c}
						log, err = "IWC", "KeyboardController"
					}
				})
				x.end(e, log, 0, err, t)
				if how/2 < 2 {
					e.Check(how/2 == 1 || errors.Is(x.res.Error, x.d.init), "error %v does not wrap", x.res.Error)
					e.Check(how/2 == 0 || errors.Is(x.res.Error, x.d.run), "error %v does not wrap", x.res.Error)
				}
				e.Check(math.Abs(float64(x.s.Snapshot().BatchesProcessed)) == 0, "batches processed after failing at once")
			})
			e.Seen(fmt.Sprint(how))
		})
	}
}

// text: the text display prints a status at most once a second, and the summary
func text(e *vs.E) {
	gaps := []time.Duration{0, 300 * ms, 999 * ms, time.Second, 1001 * ms}
	e.Param("every sequence of 5 updates %v apart", gaps)
	total := 5 * 5 * 5 * 5
	for v := 0; v < total; v++ {
		e.Case(func() {
			out, err := os.CreateTemp(".", "out")
			e.Check(err == nil, "%v", err)
			std := os.Stdout
			os.Stdout = out
			defer func() {
				os.Stdout = std
				out.Close()
				os.Remove(out.Name())
			}()
			printed := func() []string {
				b, err := os.ReadFile(out.Name())
				e.Check(err == nil, "%v", err)
				return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
			}
			e.Seq(vs.Options{MaxSteps: 1 << 20}, func() {
				d := display.NewTextDisplay()
				e.Check(d.Initialize() == nil, "Initialize fails")
				n := 0
				last := time.Time{}
				for i, y := 0, v; i < 5; i, y = i+1, y/5 {
					vs.Sleep(gaps[y%5])
					c := float64(v)/700 + float64(i)/100
					d.Update(display.SimulationSnapshot{Coherence: c, Savings: float64(v), SavingsPercent: 12.5 + float64(i), BatchesProcessed: v*10 + i, ElapsedTime: time.Duration(i) * time.Second})
					if last.IsZero() || vs.Now().Sub(last) >= time.Second {
						n++
						last = vs.Now()
						l := printed()
						e.Check(len(l) == n, "%d lines after %d updates: %q", len(l), n, l)
						for _, s := range []string{fmt.Sprintf("Coherence: %.1f%%", c*100), fmt.Sprintf("Savings: $%.2f (%.1f%%)", float64(v), 12.5+float64(i)), fmt.Sprintf("Batches: %d", v*10+i), fmt.Sprintf("[%02ds]", i)} {
							e.Check(strings.Contains(l[n-1], s), "%q without %q", l[n-1], s)
						}
					} else {
						e.Check(len(printed()) == n, "%d lines printed, want %d: update %v after the last", len(printed()), n, vs.Now().Sub(last))
					}
				}
				st := display.Statistics{TotalAPICalls: v, TotalBatches: v / 3, AverageBatchSize: float64(v) / 7, TotalSavings: float64(v) / 9, SavingsPercent: float64(v % 100), PeakCoherence: float64(v) / 700}
				d.ShowSummary(st)
				all := strings.Join(printed()[n:], "\n")
				for _, s := range []string{fmt.Sprintf(" %d\n", v), fmt.Sprintf(" %d\n", v/3), fmt.Sprintf(" %.1f\n", float64(v)/7), fmt.Sprintf("$%.2f (%.1f%%)", float64(v)/9, float64(v%100)), fmt.Sprintf(" %.1f%%\n", float64(v)/7)} {
					e.Check(strings.Contains(all, s), "summary %q without %q", all, s)
				}
				ctx, cancel := context.WithCancel(context.Background())
				done := false
				j := vs.GoJ(func() {
					e.Check(d.Run(ctx, nil) == nil, "Run fails")
					done = true
				})
				vs.Sleep(time.Minute)
				e.Check(!done, "Run returns")
				cancel()
				j()
				e.Check(d.Close() == nil, "Close fails")
			})
			e.Seen(fmt.Sprint(v))
		})
	}
}

// pressing: several goroutines press keys while one reads
func pressing(name string, pre int, threads []string, reads int) {
	vs.Add(&vs.Scenario{Name: name, Both: true, Opt: vs.Options{Preemptions: 3}, Thorough: &vs.Options{Preemptions: 5}, MustEnd: true, Body: func() {
		c := display.NewKeyboardController()
		for i := 0; i < pre; i++ {
			press(c, 'a')
		}
		var js []func()
		total := pre
		for _, th := range threads {
			total += len(th)
			js = append(js, vs.GoJ(func() {
				for _, k := range th {
					press(c, keyboard.Key(k))
				}
			}))
		}
		var got []display.EventType
		js = append(js, vs.GoJ(func() {
			for i := 0; i < reads; i++ {
				if ev, ok := next(c); ok {
					got = append(got, ev)
				}
			}
		}))
		for _, j := range js {
			j()
		}
		early := len(got)
		for {
			ev, ok := next(c)
			if !ok {
				break
			}
			got = append(got, ev)
		}
		if len(got) > total || len(got) < min(total, 10) || len(got) > 10+early {
			vs.Fail("%d events of %d keys, %d read meanwhile", len(got), total, early)
		}
		if total <= 10 && len(got) != total {
			vs.Fail("%d events of %d keys", len(got), total)
		}
		s := ""
		for i, ev := range got {
			if (ev == display.GoalTraffic) != (i < pre) {
				vs.Fail("events %v after %d keys", got, pre)
			}
			s += keys[ev][:1]
		}
		for _, th := range threads { // the events of a goroutine are a subsequence of its keys
			i := 0
			for _, k := range s[pre:] {
				if !strings.ContainsRune(th, k) {
					continue
				}
				for i < len(th) && rune(th[i]) != k {
					i++
				}
				if i == len(th) {
					vs.Fail("events %q of the keys %q", s, threads)
				}
				i++
			}
		}
		vs.Outcome("%s", s)
	}})
}

// running: keys, cancellation and the timeout meet
func running(name string, timeout time.Duration, race bool, n int, threads []string, allowed map[string]bool) {
	o := vs.Options{Preemptions: n, DelayBound: true, MaxSteps: 1 << 20, Rand: hx.Lcg(3)}
	t := o
	t.Preemptions++
	vs.Add(&vs.Scenario{Name: name, Race: race, Opt: o, Thorough: &t, Body: func() {
		vs.Quiet(true)
		x := begin(nil, name, ui.RunnerConfig{Timeout: timeout, CurrentPattern: pattern.Burst}, nil)
		vs.Sleep(43 * ms)
		var js []func()
		vs.Quiet(false)
		for _, th := range threads {
			js = append(js, vs.GoJ(func() {
				for _, k := range th {
					if k == '!' {
						x.cancel()
					} else {
						press(x.c, keyboard.Key(k))
					}
				}
			}))
		}
		for _, j := range js {
			j()
		}
		over := false
		for i := 0; !over && i < 8; i++ {
			vs.Sleep(ms)
			over = vs.Select(true, vs.CaseRecv(x.done)) == 0
		}
		vs.Quiet(true)
		if timeout == 0 && !over {
			p := x.s.Snapshot().Paused
			r := fmt.Sprintf("paused: %v", p)
			if !allowed[r] {
				vs.Fail("after %v: %s", threads, r)
			}
			vs.Outcome("%s", r)
			press(x.c, 'q')
		}
		x.wait()
		r := fmt.Sprint(x.d.log, int(x.res.ScaleEvent))
		if x.res.Error != nil || !allowed[r] {
			vs.Fail("after %v: %s, %v", threads, r, x.res.Error)
		}
		vs.Outcome("%s", r)
		vs.Sleep(2500 * ms)
		if vs.LiveThreads() != x.idle {
			vs.Fail("%d threads left: %s", vs.LiveThreads()-x.idle, vs.LiveDesc())
		}
	}})
}

func main() {
	pressing("two goroutines press keys", 0, []string{"12", "pd"}, 2)
	pressing("two goroutines fill the buffer", 8, []string{"12", "pd"}, 1)
	pressing("three goroutines fill the buffer", 9, []string{"1", "p", "z"}, 1)
	quit, medium := fmt.Sprint("IWRSC", 0), fmt.Sprint("IWRC", int(display.ScaleMedium))
	mixed := fmt.Sprint("IWRC", int(display.PatternMixed))
	for _, race := range []bool{false, true} {
		n := 1
		if race {
			n = 0
		}
		running("change, then quit", 0, race, n, []string{"3q"}, map[string]bool{medium: true})
		running("change and quit", 0, race, n, []string{"3", "q"}, map[string]bool{medium: true, quit: true})
		running("two changes and cancellation", 0, race, n, []string{"3", "x", "!"}, map[string]bool{medium: true, mixed: true, quit: true})
		running("pause, resume, change that changes nothing", 0, race, n, []string{"pp", "u"}, map[string]bool{"paused: false": true, quit: true})
		running("pause, resume, by two", 0, race, n, []string{"p", " "}, map[string]bool{"paused: false": true, "paused: true": true, quit: true})
		running("a change at the timeout", 43*ms, race, n, []string{"3"}, map[string]bool{medium: true, quit: true})
	}
	vs.AddEnum(&vs.Enum{Name: "keys", Run: keymap})
	vs.AddEnum(&vs.Enum{Name: "key sequences", Run: buffer})
	vs.AddEnum(&vs.Enum{Name: "scripts", Run: automated})
	vs.AddEnum(&vs.Enum{Name: "changes", Run: changes})
	vs.AddEnum(&vs.Enum{Name: "operations", Run: operations})
	vs.AddEnum(&vs.Enum{Name: "ends", Run: ends})
	vs.AddEnum(&vs.Enum{Name: "text display", Run: text})
	vs.Main()
}
