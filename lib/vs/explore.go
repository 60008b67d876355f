package vs

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

// Scenario is a closed driver whose executions are enumerated: every schedule
// within the preemption bound and every environment answer within its bound.
type Scenario struct {
	Name      string
	Tier      int  // 0: quick and thorough, 1: thorough only
	Race      bool // explored by the race-detector build (otherwise by the plain build)
	Both      bool // explored by both builds
	Opt       Options
	Thorough  *Options
	MustEnd   bool // an execution cut by the step horizon is a violation (livelock)
	AllowDead bool // deadlock is reported to the body's Outcome only
	Body      func()
}

// Enum is an exhaustive enumeration of inputs or operation sequences on the real
// code against a reference model; Run partitions its cases with e.Case.
type Enum struct {
	Name   string
	Tier   int
	Single bool // not sharded: one worker runs all of it
	Deep   bool // has more to explore in the deep tier than in the thorough one
	Run    func(e *E)
}

type Violation struct {
	Scenario string   `json:"scenario"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Choices  []int32  `json:"choices,omitempty"`
	Case     int64    `json:"case,omitempty"`
	Mode     string   `json:"mode"`
	Tier     string   `json:"tier"`
	Key      string   `json:"key,omitempty"`
	Devs     int      `json:"deviations"`
	Trace    []string `json:"trace,omitempty"`
}

type ScenStat struct {
	Name       string         `json:"name"`
	Kind       string         `json:"kind"`
	Executions int64          `json:"executions"`
	Steps      int64          `json:"steps"`
	States     int64          `json:"states"`
	Points     int64          `json:"choice_points"`
	Truncated  int64          `json:"truncated"`
	MaxCase    float64        `json:"max_case_s,omitempty"`
	Bound      int            `json:"bound_completed"`
	Complete   bool           `json:"complete"`
	Outcomes   map[string]int `json:"outcomes,omitempty"`
	Params     string         `json:"params,omitempty"`
	Seconds    float64        `json:"seconds"`
}

type Report struct {
	Violations []Violation `json:"violations"`
	Known      []string    `json:"known"`
	Stats      []ScenStat  `json:"stats"`
}

var (
	scenarios []*Scenario
	enums     []*Enum
	order     []any

	outcomes map[string]int
	curScen  string
	progress int64 // incremented by every execution or case; read by the watchdog
	known    map[string]bool
)

func Add(s *Scenario) { scenarios = append(scenarios, s); order = append(order, s) }
func AddEnum(e *Enum) { enums = append(enums, e); order = append(order, e) }

// Outcome records an observed outcome class of the current execution (call it
// from thread 0 after joining).
func Outcome(format string, a ...any) {
	if len(outcomes) < 4000 {
		outcomes[fmt.Sprintf(format, a...)]++
	}
}

//go:norace
func bump() { progress++ }

//go:norace
func readProgress() int64 { return progress }

func modeName() string {
	if RaceBuild {
		return "race"
	}
	return "plain"
}

type explorer struct {
	sc       *Scenario
	opt      Options
	st       *ScenStat
	shard, n int
	deadline time.Time
	out      bool
	bound    int
	child    int
	viol     *Violation
	counting bool
}

func (x *explorer) within(sched, env int) bool {
	if sched+env > x.bound {
		return false
	}
	if x.opt.EnvBound < 0 {
		return sched+env <= x.opt.Preemptions
	}
	return sched <= x.opt.Preemptions && env <= x.opt.EnvBound
}

func (x *explorer) run(prefix []int32) *Result {
	bump()
	setHang("schedule", prefix, -1)
	r := RunOnce(prefix, x.opt, x.sc.Body)
	return &r
}

func classify(sc *Scenario, r *Result) (string, string) {
	if r.Failure != "" {
		return r.Failure, r.Msg
	}
	if r.Truncated && sc.MustEnd {
		return "livelock", fmt.Sprintf("execution did not finish within %d scheduling steps / the time horizon", r.Steps)
	}
	return "", ""
}

func (x *explorer) record(r *Result, depth int) bool {
	if x.counting && (depth > 0 || x.shard == 0) {
		x.st.Executions++
		x.st.Steps += int64(r.Steps)
		x.st.Points += int64(len(r.Points))
		if r.Truncated {
			x.st.Truncated++
		}
	}
	if k, m := classify(x.sc, r); k != "" {
		ch := choicesOf(r.Points)
		for len(ch) > 0 && ch[len(ch)-1] == 0 {
			ch = ch[:len(ch)-1]
		}
		d := 0
		for _, c := range ch {
			if c != 0 {
				d++
			}
		}
		x.viol = &Violation{Scenario: x.sc.Name, Kind: k, Msg: m, Choices: ch, Mode: modeName(), Devs: d}
		return false
	}
	return true
}

func choicesOf(p []ChoicePoint) []int32 {
	out := make([]int32, len(p))
	for i := range p {
		out[i] = p[i].Choice
	}
	return out
}

func (x *explorer) explore(prefix []int32, sched, env, depth int) {
	if x.viol != nil || x.out {
		return
	}
	if time.Now().After(x.deadline) {
		x.out = true
		return
	}
	r := x.run(prefix)
	if !x.record(r, depth) {
		return
	}
	pts := r.Points
	for i := len(prefix); i < len(pts); i++ {
		p := pts[i]
		s, e := sched, env
		if p.Env {
			e += int(p.Cost)
		} else if p.Running || p.Cost > 0 {
			s++
		}
		if !x.within(s, e) {
			continue
		}
		for alt := int32(1); alt < p.N; alt++ {
			if depth == 0 {
				x.child++
				if x.child%x.n != x.shard {
					continue
				}
			}
			np := make([]int32, i+1)
			for j := 0; j < i; j++ {
				np[j] = pts[j].Choice
			}
			np[i] = alt
			x.explore(np, s, e, depth+1)
			if x.viol != nil || x.out {
				return
			}
		}
	}
}

func stateHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// ---- package-level state ----

var (
	resetFns []func()
	inCase   bool
)

// OnReset registers the re-initialization of a package's variables; packages
// register in dependency order.
func OnReset(f func()) { resetFns = append(resetFns, f) }

// resetGlobals brings all package-level variables of the code under test into
// the state of a fresh process.
func resetGlobals() {
	if !inCase {
		for _, f := range resetFns {
			f()
		}
	}
}

// ---- enumeration context ----

type E struct {
	Tier     string
	name     string
	shard, n int
	idx      int64
	only     int64
	st       *ScenStat
	viol     *Violation
	states   map[uint64]struct{}
	deadline time.Time
	out      bool
	allShard bool
	label    string
	params   []string
}

func (e *E) Thorough() bool { return e.Tier != "quick" }

// Deep reports the deepest tier: what is explored with the time the thorough tier leaves.
func (e *E) Deep() bool { return e.Tier == "deep" }

// Param records a bound for the evidence file.
func (e *E) Param(format string, a ...any) { e.params = append(e.params, fmt.Sprintf(format, a...)) }

// Stop reports whether the enumeration should end (violation found or deadline).
func (e *E) Stop() bool { return e.viol != nil || e.out }

// Case runs f for this case if it belongs to this worker. It returns false when
// the enumeration should stop.
func (e *E) Case(f func()) bool {
	i := e.idx
	e.idx++
	if e.viol != nil || e.out {
		return false
	}
	if e.only >= 0 {
		if i != e.only {
			return i < e.only
		}
	} else if !e.allShard && int(i%int64(e.n)) != e.shard {
		return true
	}
	t0 := time.Now()
	if t0.After(e.deadline) {
		e.out = true
		return false
	}
	defer func() { e.st.MaxCase = max(e.st.MaxCase, time.Since(t0).Seconds()) }()
	bump()
	setHang("case", nil, i)
	e.st.Executions++
	resetGlobals()
	inCase = true
	func() {
		defer func() {
			inCase = false
			if p := recover(); p != nil {
				if p == errStop {
					return
				}
				e.set(i, FailPanic, fmt.Sprintf("panic: %v\n%s", p, trimStack(debug.Stack())))
			}
		}()
		f()
	}()
	return e.viol == nil
}

var errStop = new(int)

func (e *E) set(i int64, kind, msg string) {
	if e.viol == nil {
		if e.label != "" {
			msg = e.label + ": " + msg
		}
		e.viol = &Violation{Scenario: e.name, Kind: kind, Msg: msg, Case: max(i, 0), Mode: modeName()}
	}
}

// Label describes the current case for the violation message.
func (e *E) Label(format string, a ...any) { e.label = fmt.Sprintf(format, a...) }

// Fail reports a violation of the current case and aborts it.
func (e *E) Fail(format string, a ...any) {
	e.set(e.idx-1, FailAssert, fmt.Sprintf(format, a...))
	panic(errStop)
}

// Check fails the case unless ok.
func (e *E) Check(ok bool, format string, a ...any) {
	if !ok {
		e.Fail(format, a...)
	}
}

// Seen counts a state; it reports whether the state is new.
func (e *E) Seen(canon string) bool {
	h := stateHash(canon)
	if _, ok := e.states[h]; ok {
		return false
	}
	e.states[h] = struct{}{}
	return true
}

// Step counts transitions.
func (e *E) Step(n int) { e.st.Steps += int64(n) }

// Seq runs body as a single-threaded execution under virtual time and
// controlled randomness; threads it starts run only when it blocks.
func (e *E) Seq(opt Options, body func()) Result {
	opt.FreeSched = true
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 5000000
	}
	r := RunOnce(nil, opt, body)
	e.st.Steps += int64(r.Steps)
	if r.Failure == "" && r.Truncated && opt.Horizon == 0 {
		r.Failure, r.Msg = "livelock", fmt.Sprintf("the execution does not end (%d steps)", r.Steps)
	}
	if r.Failure != "" {
		e.set(e.idx-1, r.Failure, r.Msg)
		panic(errStop)
	}
	return r
}

// All explores every environment choice (vs.Choose) of a single-threaded body.
func (e *E) All(opt Options, body func()) int {
	opt.FreeSched = true
	return e.all(opt, nil, body)
}

func (e *E) all(opt Options, prefix []int32, body func()) int {
	bump()
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 5000000
	}
	r := RunOnce(prefix, opt, body)
	e.st.Steps += int64(r.Steps)
	n := 1
	if r.Failure == "" && r.Truncated && opt.Horizon == 0 {
		r.Failure, r.Msg = "livelock", fmt.Sprintf("the execution does not end (%d steps)", r.Steps)
	}
	if r.Failure != "" {
		e.set(e.idx-1, r.Failure, fmt.Sprintf("choices %v: %s", choicesOf(r.Points), r.Msg))
		panic(errStop)
	}
	for i := len(prefix); i < len(r.Points); i++ {
		for alt := int32(1); alt < r.Points[i].N; alt++ {
			np := make([]int32, i+1)
			for j := 0; j < i; j++ {
				np[j] = r.Points[j].Choice
			}
			np[i] = alt
			n += e.all(opt, np, body)
		}
	}
	return n
}

// ---- watchdog ----

var hang struct {
	scen   string
	kind   string
	prefix []int32
	cs     int64
}

//go:norace
func setHang(kind string, prefix []int32, cs int64) {
	hang.kind, hang.prefix, hang.cs = kind, prefix, cs
}

//go:norace
func getHang() (string, string, []int32, int64) {
	return hang.scen, hang.kind, hang.prefix, hang.cs
}

//go:norace
func setHangScen(s string) { hang.scen = s }

//go:norace
func stepsNow() int64 { return int64(ex.steps) + int64(ex.nAdv) }

func watchdog(limit time.Duration, write func(Violation)) {
	go func() {
		var last int64 = -1
		var lastSteps int64 = -1
		at := time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			p, s := readProgress(), stepsNow()
			if p != last || s != lastSteps {
				last, lastSteps, at = p, s, time.Now()
				continue
			}
			if time.Since(at) > limit {
				sc, kind, prefix, cs := getHang()
				write(Violation{Scenario: sc, Kind: "hang", Msg: fmt.Sprintf("one %s made no progress for %s (normally microseconds)\n%s", kind, limit, stacks()),
					Choices: prefix, Case: cs, Mode: modeName()})
				os.Exit(0)
			}
		}
	}()
}

func stacks() string {
	b := make([]byte, 8000)
	return string(b[:runtime.Stack(b, true)])
}

// ---- main ----

// Main is the entry point of every harness.
func Main() {
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	n := flag.Int("n", 1, "")
	secs := flag.Float64("secs", 60, "")
	outF := flag.String("out", "", "")
	only := flag.String("only", "", "")
	replay := flag.String("replay", "", "")
	knownF := flag.String("known", "", "comma separated keys of known findings")
	after := flag.Bool("after", false, "skip what the tier before this one explored with the same bounds")
	hangS := flag.Float64("hang", 100, "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	known = map[string]bool{}
	for _, k := range strings.Split(*knownF, "\x1f") {
		if k != "" {
			known[k] = true
		}
	}
	rep := &Report{}
	write := func() {
		b, _ := json.MarshalIndent(rep, "", " ")
		if *outF == "" {
			os.Stdout.Write(append(b, '\n'))
			return
		}
		if err := os.WriteFile(*outF, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
	}
	watchdog(time.Duration(*hangS*float64(time.Second)), func(v Violation) {
		v.Tier = *tier
		rep.Violations = append(rep.Violations, v)
		write()
	})
	if *replay != "" {
		doReplay(*replay, rep)
		write()
		return
	}
	start := time.Now()
	total := time.Duration(*secs * float64(time.Second))
	// items of this build
	var items []any
	for _, o := range order {
		switch o := o.(type) {
		case *Scenario:
			if (o.Race != RaceBuild && !o.Both) || (o.Tier > 0 && *tier == "quick") || (*after && *tier == "thorough" && o.Thorough == nil && o.Tier == 0) {
				continue
			}
			if *only != "" && !strings.Contains(o.Name, *only) {
				continue
			}
		case *Enum:
			if RaceBuild || (o.Tier > 0 && *tier == "quick") || (*after && *tier == "deep" && !o.Deep) {
				continue
			}
			if *only != "" && !strings.Contains(o.Name, *only) {
				continue
			}
		}
		items = append(items, o)
	}
	for i, o := range items {
		left := total - time.Since(start)
		share := left / time.Duration(len(items)-i)
		if i < len(items)-1 {
			share = share * 2 // unused time of cheap scenarios flows to later ones
			if share > left {
				share = left
			}
		}
		dl := time.Now().Add(share)
		switch o := o.(type) {
		case *Scenario:
			rep.Stats = append(rep.Stats, exploreScenario(o, *tier, *shard, *n, dl, rep))
		case *Enum:
			if st := runEnum(o, *tier, *shard, *n, dl, rep, -1); st != nil {
				rep.Stats = append(rep.Stats, *st)
			}
		}
		if len(rep.Violations) > 0 {
			break
		}
	}
	write()
}

func optsFor(s *Scenario, tier string) Options {
	o := s.Opt
	if tier != "quick" && s.Thorough != nil {
		o = *s.Thorough
	}
	if tier == "deep" {
		o.Preemptions++
		if o.EnvBound > 0 {
			o.EnvBound++
		}
	}
	return o
}

func exploreScenario(s *Scenario, tier string, shard, n int, dl time.Time, rep *Report) ScenStat {
	t0 := time.Now()
	st := ScenStat{Name: s.Name, Kind: "schedules", Bound: -1}
	setHangScen(s.Name)
	outcomes = map[string]int{}
	x := &explorer{sc: s, opt: optsFor(s, tier), st: &st, shard: shard, n: n, deadline: dl}
	maxB := x.opt.Preemptions
	if x.opt.EnvBound > 0 {
		maxB += x.opt.EnvBound
	}
	// determinism: the default execution twice must observe the same thing
	r1 := x.run(nil)
	o1 := outKey()
	outcomes = map[string]int{}
	r2 := x.run(nil)
	o2 := outKey()
	if r1.Failure == "" && r2.Failure == "" && (r1.Steps != r2.Steps || len(r1.Points) != len(r2.Points) || o1 != o2) {
		fmt.Fprintf(os.Stderr, "vs: scenario %s is not deterministic: steps %d/%d points %d/%d outcomes %q/%q\n", s.Name, r1.Steps, r2.Steps, len(r1.Points), len(r2.Points), o1, o2)
		os.Exit(5)
	}
	// (a race is reported once per process, so these executions count, too)
	if x.record(r1, 0) {
		x.record(r2, 0)
	}
	for b := 0; b <= maxB && x.viol == nil; b++ {
		x.bound = b
		x.child = 0
		outcomes = map[string]int{}
		save := st
		st.Executions, st.Steps, st.Points, st.Truncated = 0, 0, 0, 0
		x.counting = true
		x.explore(nil, 0, 0, 0)
		if x.viol != nil {
			break
		}
		if x.out {
			if save.Executions > st.Executions {
				st.Executions, st.Steps, st.Points, st.Truncated = save.Executions, save.Steps, save.Points, save.Truncated
			}
			break
		}
		st.Bound = b
	}
	st.Complete = !x.out && x.viol == nil
	st.Params = fmt.Sprintf("preemptions<=%d env<=%d delay=%v earlyTimers=%v race=%v", x.opt.Preemptions, x.opt.EnvBound, x.opt.DelayBound, x.opt.EarlyTimers, RaceBuild)
	st.Outcomes = trimOutcomes(outcomes)
	st.States = int64(len(outcomes))
	st.Seconds = time.Since(t0).Seconds()
	if x.viol != nil {
		x.viol.Tier = tier
		rep.Violations = append(rep.Violations, *x.viol)
	}
	return st
}

func trimOutcomes(m map[string]int) map[string]int {
	if len(m) <= 40 {
		return m
	}
	out := map[string]int{}
	for k, v := range m {
		out[k] = v
		if len(out) >= 40 {
			break
		}
	}
	return out
}

func outKey() string {
	b, _ := json.Marshal(outcomes)
	return string(b)
}

func runEnum(o *Enum, tier string, shard, n int, dl time.Time, rep *Report, only int64) *ScenStat {
	if o.Single && only < 0 && int(stateHash(o.Name)%uint64(n)) != shard {
		return nil
	}
	t0 := time.Now()
	st := ScenStat{Name: o.Name, Kind: "enumeration"}
	setHangScen(o.Name)
	outcomes = map[string]int{}
	e := &E{Tier: tier, name: o.Name, shard: shard, n: n, only: only, st: &st, states: map[uint64]struct{}{}, deadline: dl, allShard: o.Single}
	func() {
		defer func() {
			if p := recover(); p != nil && p != errStop {
				e.set(e.idx-1, FailPanic, fmt.Sprintf("panic: %v\n%s", p, trimStack(debug.Stack())))
			}
		}()
		o.Run(e)
	}()
	st.States = int64(len(e.states))
	if st.States == 0 {
		st.States = st.Executions
	}
	st.Complete = !e.out && e.viol == nil
	st.Params = strings.Join(e.params, "; ")
	st.Outcomes = trimOutcomes(outcomes)
	st.Seconds = time.Since(t0).Seconds()
	if e.viol != nil {
		e.viol.Tier = tier
		rep.Violations = append(rep.Violations, *e.viol)
	}
	return &st
}

func doReplay(file string, rep *Report) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	outcomes = map[string]int{}
	for _, s := range scenarios {
		if s.Name == v.Scenario {
			setHangScen(s.Name)
			setHang("schedule", v.Choices, -1)
			bump()
			r := RunOnce(v.Choices, optsFor(s, v.Tier), s.Body)
			if k, m := classify(s, &r); k != "" {
				rep.Violations = append(rep.Violations, Violation{Scenario: s.Name, Kind: k, Msg: m, Choices: v.Choices, Mode: modeName(), Tier: v.Tier})
			}
			return
		}
	}
	for _, o := range enums {
		if o.Name == v.Scenario {
			runEnum(o, v.Tier, 0, 1, time.Now().Add(time.Hour), rep, v.Case)
			return
		}
	}
	fmt.Fprintln(os.Stderr, "no scenario", strconv.Quote(v.Scenario))
	os.Exit(4)
}

// Known reports whether a finding key is listed as known; the caller then skips
// that specific failure and the report mentions it.
func (e *E) Known(key string) bool {
	return known[key]
}
