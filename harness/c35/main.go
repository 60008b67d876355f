// C35: the terminal display shows every snapshot truthfully, for every goal.
package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/mum4k/termdash"
	"github.com/mum4k/termdash/cell"
	"github.com/mum4k/termdash/container"
	"github.com/mum4k/termdash/keyboard"
	"github.com/mum4k/termdash/terminal/tcell"
	"github.com/mum4k/termdash/terminal/terminalapi"

	"MODULE/emerge/goal"
	"MODULE/emerge/scale"
	"MODULE/simulations/display"
	"MODULE/simulations/emerge/simulation/pattern"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vcontext"
	"MODULE/zzverif/vs"
)

// ---- a display on a recording terminal ----

type screen struct {
	e    *vs.E
	d    *display.TerminalDisplay
	term *tcell.Terminal
	c    *container.Container
	out  *os.File // everything printed besides drawing
	o, r *os.File
	dash *termdash.Dash
}

func newScreen(e *vs.E, setup func(d *display.TerminalDisplay)) *screen {
	s := &screen{e: e, d: display.NewTerminalDisplay().(*display.TerminalDisplay)}
	f, err := os.CreateTemp("", "c35")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	s.out, s.o, s.r = f, os.Stdout, os.Stderr
	os.Stdout, os.Stderr = f, f
	tcell.Area.X, tcell.Area.Y = 360, 140
	tcell.Last, tcell.Fail = nil, nil
	if setup != nil {
		setup(s.d)
	}
	if err := s.d.Initialize(); err != nil {
		e.Fail("Initialize: %v", err)
	}
	s.term = tcell.Last
	// the event loop's stand-in hands over the container
	termdash.RunHook = func(_ context.Context, t terminalapi.Terminal, c *container.Container, d *termdash.Dash) error {
		s.c, s.dash = c, d
		e.Check(t == terminalapi.Terminal(s.term), "Run on another terminal")
		return nil
	}
	if err := s.d.Run(context.Background(), nil); err != nil {
		e.Fail("Run: %v", err)
	}
	return s
}

func (s *screen) draw() {
	s.term.Clear()
	if err := s.c.Draw(); err != nil {
		s.e.Fail("drawing: %v", err)
	}
	s.warned("drawing")
}

func (s *screen) warned(what string) {
	if st, err := s.out.Stat(); err == nil && st.Size() > 0 {
		b := make([]byte, 300)
		n, _ := s.out.ReadAt(b, 0)
		os.Stdout, os.Stderr = s.o, s.r
		s.e.Fail("%s printed: %s", what, b[:n])
	}
}

func (s *screen) end() {
	s.warned("the display")
	os.Stdout, os.Stderr = s.o, s.r
	s.out.Close()
}

type line struct {
	text  string
	cells []tcell.Cell
}

// panel returns the inside of the box with a title.
func (s *screen) panel(title string) []line {
	want := []rune(" " + title + " ")
	at := func(x, y int) rune {
		if x < 0 || y < 0 || x >= s.term.W || y >= s.term.H {
			return 0
		}
		return s.term.Cells[y][x].R
	}
	for y := range s.term.Cells {
	next:
		for x := range s.term.Cells[y] {
			for i, r := range want {
				if at(x+i, y) != r {
					continue next
				}
			}
			l, r, b := x, x+len(want), y
			for l >= 0 && at(l, y) != '┌' && at(l, y) != '╭' {
				l--
			}
			for r < s.term.W && at(r, y) != '┐' && at(r, y) != '╮' {
				r++
			}
			for b < s.term.H && at(l, b) != '└' && at(l, b) != '╰' {
				b++
			}
			if l < 0 || r >= s.term.W || b >= s.term.H {
				continue
			}
			var ls []line
			for yy := y + 1; yy < b; yy++ {
				var sb strings.Builder
				var cs []tcell.Cell
				for xx := l + 1; xx < r; xx++ {
					c := s.term.Cells[yy][xx]
					cs = append(cs, c)
					if c.R != 0 {
						sb.WriteRune(c.R)
					} else if c.O.BgColor != 0 {
						sb.WriteRune(' ')
					}
				}
				ls = append(ls, line{strings.TrimRight(sb.String(), " "), cs})
			}
			for len(ls) > 0 && ls[len(ls)-1].text == "" {
				ls = ls[:len(ls)-1]
			}
			return ls
		}
	}
	s.e.Fail("no panel %q", title)
	return nil
}

func texts(ls []line) string {
	var o []string
	for _, l := range ls {
		o = append(o, norm(l.text))
	}
	return strings.Join(o, "\n")
}

// norm drops variation selectors, which have no width, and trailing blanks.
func norm(t string) string { return strings.TrimRight(strings.ReplaceAll(t, "\ufe0f", ""), " ") }

func (s *screen) want(title, text string) {
	var o []string
	for _, l := range strings.Split(text, "\n") {
		o = append(o, norm(l))
	}
	for len(o) > 0 && o[len(o)-1] == "" {
		o = o[:len(o)-1]
	}
	w, g := strings.Join(o, "\n"), texts(s.panel(title))
	s.e.Check(g == w, "%s shows\n%s\nwant\n%s", title, g, w)
}

// gauge returns the percentage, label and bar colour shown (colour 0 without a bar).
func (s *screen) gauge(title string) (pct int, label string, col cell.Color) {
	pct = -1
	for _, l := range s.panel(title) {
		t := strings.TrimSpace(l.text)
		if i := strings.Index(t, "% ("); i > 0 {
			fmt.Sscanf(t[:i], "%d", &pct)
			label = strings.TrimSuffix(t[i+3:], ")")
		}
		for _, c := range l.cells {
			if c.O.BgColor != 0 {
				col = c.O.BgColor
			}
		}
	}
	return
}

// ---- what must be shown ----

const rule20 = "────────────────────\n"

func yn(b bool) string {
	if b {
		return "YES"
	}
	return "NO"
}

func pick(v float64, bounds []float64, names ...string) string {
	for i, b := range bounds {
		if v >= b {
			return names[i]
		}
	}
	return names[len(names)-1]
}

func count(as []display.AgentSnapshot, f func(display.AgentSnapshot) bool) (n int) {
	for _, a := range as {
		if f(a) {
			n++
		}
	}
	return
}

func level(names ...string) func(display.AgentSnapshot) bool {
	return func(a display.AgentSnapshot) bool {
		for _, n := range names {
			if a.ActivityLevel == n {
				return true
			}
		}
		return false
	}
}

func dist(a display.AgentSnapshot, to float64) float64 { return math.Abs(hx.CD(a.Phase, to)) }

func metricsText(g goal.Type, sn display.SimulationSnapshot) string {
	t := "STATUS INDICATORS\n" + rule20 + "Paused:    " + yn(sn.Paused) + "\nDisrupted: " + yn(sn.Disrupted) + "\nResetting: " + yn(sn.Reset) + "\n\n"
	c, n := sn.Coherence, len(sn.Agents)
	switch g {
	case goal.DistributeLoad:
		st := "BALANCED"
		if c > .5 {
			st = "IMBALANCED"
		} else if c > .3 {
			st = "FAIR"
		}
		t += "LOAD DISTRIBUTION\n" + rule20 + fmt.Sprintf("Distribution: %s\nPhase Spread: %.1f%%\nLoad/Server: %.1f%%\n", st, math.Max(0, 100-100*c), 100/float64(n))
	case goal.ReachConsensus:
		t += "CONSENSUS STATUS\n" + rule20 + fmt.Sprintf("Status: %s\nAgreement: %.1f%%\nVoting Rounds: %d\n",
			pick(c, []float64{.95, .8}, "CONSENSUS!", "CONVERGING", "NO CONSENSUS"), 100*c, int(sn.ElapsedTime/(500*time.Millisecond)))
	case goal.MinimizeLatency:
		j := math.Max(0, 20*(1-c))
		t += "LATENCY METRICS\n" + rule20 + fmt.Sprintf("Timing: %s\nP50 Latency: 10.0ms\nP95 Latency: %.1fms\nJitter: ±%.1fms\n",
			pick(c, []float64{.9, .7}, "PREDICTABLE", "FAIR", "UNPREDICTABLE"), 10+j, j/2)
	case goal.SaveEnergy:
		idle := 100 * float64(count(sn.Agents, level("quiet"))) / float64(n)
		st := "HIGH DRAIN"
		if idle > 70 {
			st = "EFFICIENT"
		} else if idle > 50 {
			st = "MODERATE"
		}
		t += "ENERGY METRICS\n" + rule20 + fmt.Sprintf("Energy Use: %s\nSensors Idle: %.0f%%\nEst. Battery: %.0fh\n", st, idle, 12+.24*idle)
	case goal.MaintainRhythm:
		t += "RHYTHM METRICS\n" + rule20 + fmt.Sprintf("Status: %s\nPhase Lock: %.1f%%\nTiming Drift: ±%.0fms\n",
			pick(c, []float64{.9, .7}, "ON SCHEDULE", "DRIFTING", "OFF SCHEDULE"), 100*c, math.Max(0, 1000-1000*c))
	case goal.RecoverFromFailure:
		st := pick(c, []float64{.8, .6}, "RESILIENT", "PARTIAL", "VULNERABLE")
		rec := pick(c, []float64{.8, .6}, "<1s", "~2s", "N/A")
		if sn.Disrupted {
			st, rec = "RECOVERING", "N/A"
			if !sn.LastBatchTime.IsZero() {
				rec = fmt.Sprintf("%.1fs", vs.Now().Sub(sn.LastBatchTime).Seconds())
			}
		}
		t += "RESILIENCE METRICS\n" + rule20 + fmt.Sprintf("Status: %s\nSync Health: %.1f%%\nRecovery Time: %s\n", st, 100*c, rec)
	case goal.AdaptToTraffic:
		act := count(sn.Agents, level("burst", "active"))
		load := 100 * float64(act) / float64(n)
		st := "SLOW"
		if c >= .8 && load > 30 {
			st = "RESPONSIVE"
		} else if c >= .6 {
			st = "ADAPTING"
		}
		t += "TRAFFIC ADAPTATION\n" + rule20 + fmt.Sprintf("Adaptation: %s\nCurrent Load: %.0f%%\nScaled Units: %d/%d\n", st, load, act, n)
	default:
		t += "WHAT'S HAPPENING\n" + rule20 +
			fmt.Sprintf("%s %.0f%%\n  %s\n\n", pick(c, []float64{.9, .7}, "🟢 In sync!", "🟡 Syncing...", "🔴 Not synced"), 100*c,
				pick(c, []float64{.9, .7}, "(sending together)", "(getting aligned)", "(sending separately)")) +
			"BATCH ACTIVITY\n" + rule20
		if sn.CurrentBatchSize > 0 {
			t += fmt.Sprintf("📦 Collecting: %d tasks\n   (waiting for beat)\n", sn.CurrentBatchSize)
		} else {
			t += "⏳ Waiting for tasks...\n"
		}
		t += fmt.Sprintf("✅ Sent: %d batches\n", sn.BatchesProcessed)
		if sn.BatchJustSent {
			t += fmt.Sprintf("\n✨ BATCH SENT! (%d items)\n", sn.LastBatchSize)
		}
	}
	return t
}

func light(g goal.Type, a display.AgentSnapshot) string {
	const red, green, yellow = "🔴", "🟢", "🟡"
	z := dist(a, 0)
	switch g {
	case goal.DistributeLoad, goal.RecoverFromFailure:
		if z < .5 {
			return red
		}
		if dist(a, math.Pi) < .5 || dist(a, math.Pi/2) < .5 || dist(a, 3*math.Pi/2) < .5 {
			return green
		}
	case goal.SaveEnergy:
		if z < .3 {
			return yellow
		}
		if dist(a, math.Pi) < .5 {
			return green
		}
		return red
	case goal.ReachConsensus:
		if z < .5 || dist(a, 2) < .5 || dist(a, 4) < .5 {
			return green
		}
	case goal.MinimizeAPICalls, goal.MinimizeLatency, goal.MaintainRhythm, goal.AdaptToTraffic:
		if z < .5 {
			return green
		}
		if z >= 1 {
			return red
		}
	}
	return yellow
}

// rows are the lines of the workloads panel below its header.
func rows(g goal.Type, as []display.AgentSnapshot) string {
	var sb strings.Builder
	for i, a := range as {
		if i == 10 {
			fmt.Fprintf(&sb, "\n... and %d more\n", len(as)-10)
			break
		}
		t := []rune(a.Type)
		if len(t) > 11 {
			t = t[:11]
		}
		mark := ""
		if a.PendingTasks > 10 {
			mark = "!"
		}
		fmt.Fprintf(&sb, "%s %-11s %s   %4d%s  %4d\n", a.Icon, string(t), light(g, a), a.PendingTasks, mark, a.BatchesSent)
	}
	return sb.String()
}

func costText(sn display.SimulationSnapshot) string {
	return fmt.Sprintf("💰 COST ANALYSIS\n\nWithout Synchronization:\n  $%.2f (individual calls)\n\nWith Synchronization:\n  $%.2f (batched calls)\n\n💎 SAVINGS: $%.2f (%.1f%%)\n",
		sn.CostWithoutSync, sn.CostWithSync, sn.Savings, sn.SavingsPercent)
}

func bar(ch string, n int) string { return strings.Repeat(ch, n) }

func meter(p float64) string {
	n := int(p/5 + 1e-9)
	return "[" + bar("█", n) + bar("░", 20-n) + fmt.Sprintf("] %.0f%%\n\n", p)
}

func part(k, n, width int) int { return k * width / n }

// dynamics is the swarm dynamics panel.
func dynamics(g goal.Type, sn display.SimulationSnapshot) string {
	as, n, c := sn.Agents, len(sn.Agents), sn.Coherence
	switch g {
	case goal.DistributeLoad:
		var load [4]int
		for _, a := range as {
			p := math.Mod(math.Mod(a.Phase, hx.TwoPi)+hx.TwoPi, hx.TwoPi)
			load[min(3, int(p/(math.Pi/2)))]++
		}
		t := "⚖️ LOAD DISTRIBUTION\n\n"
		mx := n/4 + 1
		mean, v := float64(n)/4, 0.
		for i, l := range load {
			t += fmt.Sprintf("Server%d: %s %d\n", i+1, bar("█", part(l, mx, 20)), l)
			v += (float64(l) - mean) * (float64(l) - mean) / 4
		}
		st := "BALANCED"
		if math.Sqrt(v) > 2 {
			st = "IMBALANCED"
		}
		return t + "\nStatus: " + st
	case goal.ReachConsensus:
		votes, mx := map[int]int{}, 0
		for _, a := range as {
			k := int(math.Floor(a.Phase * 2))
			votes[k]++
			mx = max(mx, votes[k])
		}
		p := 100 * float64(mx) / float64(n)
		st := "⟳ Voting in progress..."
		if p >= 95 {
			st = "✓ CONSENSUS REACHED!"
		}
		return "🗳️ CONSENSUS PROGRESS\n\nAgreement: " + meter(p) + st
	case goal.MinimizeLatency:
		var bins [5]int
		for _, a := range as {
			bins[min(4, int((10+5*dist(a, 0))/10))]++
		}
		t := "⚡ LATENCY DISTRIBUTION\n\n"
		for i, l := range []string{"0-10ms", "10-20ms", "20-30ms", "30-40ms", "40ms+"} {
			t += fmt.Sprintf("%-8s: %s %d\n", l, bar("█", part(bins[i], n, 30)), bins[i])
		}
		return t
	case goal.SaveEnergy:
		q := count(as, level("quiet"))
		p := 100 * float64(q) / float64(n)
		st := "⚠ HIGH DRAIN"
		if p > 70 {
			st = "✓ EFFICIENT"
		}
		return "🔋 ENERGY PATTERN\n\nBattery: " + meter(p) + fmt.Sprintf("💤 Sleeping: %d sensors\n📡 Active: %d sensors\n\n%s\n", q, n-q, st)
	case goal.MaintainRhythm:
		on := count(as, func(a display.AgentSnapshot) bool { return dist(a, 0) < .1 })
		early := count(as, func(a display.AgentSnapshot) bool { return dist(a, 0) >= .1 && hx.Signed(a.Phase, 0) < 0 })
		late := n - on - early
		mx := max(on, early, late)
		return "⏰ SCHEDULE ALIGNMENT\n\nEarly    On-Time    Late\n" +
			bar("◀", part(early, mx, 15)) + " " + bar("█", part(on, mx, 15)) + " " + bar("▶", part(late, mx, 15)) +
			fmt.Sprintf("\n\nOn Schedule: %d/%d\n", on, n)
	case goal.RecoverFromFailure:
		failed := 0
		if sn.Disrupted {
			failed = count(as, func(a display.AgentSnapshot) bool { return dist(a, 0) > 2 })
		}
		healthy := count(as, func(a display.AgentSnapshot) bool { return dist(a, 0) <= 1 })
		deg := n - failed - healthy
		t := "🛡️ SYSTEM HEALTH\n\n" + fmt.Sprintf("Healthy:  %s %d\n", bar("█", part(healthy, n, 20)), healthy)
		if deg > 0 {
			t += fmt.Sprintf("Degraded: %s %d\n", bar("█", part(deg, n, 20)), deg)
		}
		if failed > 0 {
			t += fmt.Sprintf("Failed:   %s %d\n", bar("█", part(failed, n, 20)), failed)
		}
		if sn.Disrupted {
			t += "\n⚠ RECOVERING..."
		} else if healthy == n {
			t += "\n✓ FULLY RESILIENT"
		}
		return t
	case goal.AdaptToTraffic:
		idle, busy := count(as, level("quiet")), count(as, level("burst"))
		u := 100 * float64(n-idle) / float64(n)
		st := "✓ OPTIMAL"
		if u > 80 {
			st = "⬆ SCALE UP"
		} else if u < 30 {
			st = "⬇ SCALE DOWN"
		}
		in := "Agents scattered.\nMostly individual calls."
		if c >= sn.TargetCoherence {
			in = "Agents synchronized!\nBatching effective."
		} else if c >= sn.TargetCoherence*.9 {
			in = "Agents learning...\nBatching improving."
		}
		return "📈 TRAFFIC LOAD\n\nCapacity: " + meter(u) +
			fmt.Sprintf("🟢 Idle: %d units\n🟡 Normal: %d units\n🔴 Busy: %d units\n\n%s\n\n📊 KEY INSIGHTS:\n%s", idle, n-idle-busy, busy, st, in)
	}
	t := "🌊 PHASE CONVERGENCE\n\n"
	for row := 8; row > 0; row-- {
		for i := 0; i < n && i < 35; i++ {
			if 4*(math.Sin(as[i].Phase)+1) >= float64(row) {
				t += "█"
			} else {
				t += " "
			}
		}
		t += "\n"
	}
	t += bar("─", 35) + fmt.Sprintf("\nSync: %.1f%% ", 100*c)
	if c >= .9 {
		t += "✓ BATCHING"
	}
	return t
}

// measure is the goal's gauge: value, target (both in percent) and label.
func measure(g goal.Type, sn display.SimulationSnapshot) (v, t float64, label, tlabel string) {
	n := float64(len(sn.Agents))
	c, ct := 100*sn.Coherence, 100*sn.TargetCoherence
	switch g {
	case goal.MinimizeAPICalls:
		return c, ct, "Sync Level", "Target"
	case goal.DistributeLoad:
		return 100 - c, 100 - ct, "Distribution", "Target Spread"
	case goal.ReachConsensus:
		return c, 95, "Agreement", "Consensus"
	case goal.MinimizeLatency:
		return c, ct, "Predictability", "Target"
	case goal.SaveEnergy:
		return 100 * float64(count(sn.Agents, level("quiet"))) / n, 70, "Idle %", "Target Idle"
	case goal.MaintainRhythm:
		return c, ct, "Phase Lock", "Target"
	case goal.RecoverFromFailure:
		if sn.Disrupted {
			c /= 2
		}
		return c, 80, "System Health", "Healthy"
	case goal.AdaptToTraffic:
		return 100 * float64(count(sn.Agents, level("burst", "active"))) / n, 60, "Utilization", "Optimal"
	}
	return c, ct, "Coherence", "Target"
}

// colors allowed for the bar of the gauge (more than one within rounding of a threshold).
func colors(g goal.Type, sn display.SimulationSnapshot) []cell.Color {
	v, t, _, _ := measure(g, sn)
	f := func(v float64) cell.Color {
		v = math.Floor(v)
		t := math.Floor(t + 1e-9)
		switch g {
		case goal.ReachConsensus:
			return pickc(v, 95, 80)
		case goal.SaveEnergy:
			return pickc(v, 70, 50)
		case goal.RecoverFromFailure:
			if sn.Disrupted {
				return pickc(v, 1000, 60)
			}
			return pickc(v, 80, 60)
		case goal.AdaptToTraffic:
			if v > 90 {
				return cell.ColorRed
			}
			if v >= 40 && v <= 80 {
				return cell.ColorGreen
			}
			return cell.ColorYellow
		}
		if v >= t {
			return cell.ColorGreen
		}
		return cell.ColorRed
	}
	switch g {
	case goal.DistributeLoad:
		if sn.Coherence > .5 {
			return []cell.Color{cell.ColorRed}
		}
		return []cell.Color{cell.ColorGreen}
	case goal.MinimizeLatency, goal.MaintainRhythm, goal.ReachConsensus, goal.SaveEnergy, goal.RecoverFromFailure, goal.AdaptToTraffic:
		return []cell.Color{f(v - 1e-9), f(v + 1e-9)}
	}
	if sn.Coherence >= sn.TargetCoherence {
		return []cell.Color{cell.ColorGreen}
	}
	return []cell.Color{cell.ColorRed}
}

func pickc(v, green, yellow float64) cell.Color {
	if v >= green {
		return cell.ColorGreen
	}
	if v >= yellow {
		return cell.ColorYellow
	}
	return cell.ColorRed
}

func clampPct(v float64) float64 { return math.Max(0, math.Min(100, v)) }

// movement is the grid of the swarm movement panel, false near a rounding boundary.
func movement(sn display.SimulationSnapshot) ([]string, bool) {
	g := make([][]rune, 13)
	for y := range g {
		g[y] = []rune(strings.Repeat(" ", 25))
	}
	g[6][12] = '⊕'
	ok := true
	for i, a := range sn.Agents {
		if i >= 20 {
			break
		}
		d := 5.
		if sn.Coherence > .5 {
			d = 5 - 3*sn.Coherence
		}
		ang := a.Phase + float64(i)*math.Pi/10
		fx, fy := d*math.Cos(ang), d*math.Sin(ang)/2
		for _, f := range []float64{fx, fy} {
			if r := math.Round(f); r != 0 && math.Abs(f-r) < 1e-9 {
				ok = false
			}
		}
		ch := '∙'
		if z := dist(a, 0); z < .5 {
			ch = '●'
		} else if z < 1 {
			ch = 'o'
		}
		x, y := 12+int(fx), 6+int(fy)
		if x != 12 || y != 6 {
			g[y][x] = ch
		}
	}
	var o []string
	for _, r := range g {
		o = append(o, strings.TrimRight(string(r), " "))
	}
	return o, ok
}

func elapsed(d time.Duration) string {
	if d < time.Minute {
		return fmt.Sprintf("%.1fs", d.Seconds())
	}
	return fmt.Sprintf("%.1fm", d.Minutes())
}

func (s *screen) verify(g goal.Type, goalName, patName, simName string, sn display.SimulationSnapshot) {
	e := s.e
	s.draw()
	s.want("CONFIGURATION", "⏱️  Elapsed:  "+elapsed(sn.ElapsedTime)+"\n"+bar("─", 25)+"\n🚀 Goal:     "+goalName+"\n📊 Pattern:  "+patName+"\n📈 Scale:    "+simName)
	s.want("METRICS", metricsText(g, sn))
	s.want("ECONOMICS", costText(sn))
	s.want("SWARM DYNAMICS", dynamics(g, sn))
	wl := texts(s.panel("WORKLOADS"))
	i := strings.Index(wl, bar("─", 39))
	e.Check(i >= 0, "no header in %s", wl)
	got := strings.TrimLeft(wl[i+len(bar("─", 39)):], "\n")
	want := ""
	for _, l := range strings.Split(rows(g, sn.Agents), "\n") {
		want += norm(l) + "\n"
	}
	e.Check(got == strings.TrimRight(want, "\n"), "workloads\n%s\nwant\n%s", got, want)
	v, t, l, tl := measure(g, sn)
	p, pl, pc := s.gauge("CURRENT COHERENCE")
	e.Check(pl == l && (p == int(clampPct(v-1e-9)) || p == int(clampPct(v+1e-9))), "gauge %d %q, want %v %q", p, pl, v, l)
	if p >= 1 {
		cs := colors(g, sn)
		e.Check(pc == cs[0] || pc == cs[len(cs)-1], "gauge at %d of %v is coloured %v, want %v", p, t, pc, cs)
	}
	p, pl, _ = s.gauge("TARGET COHERENCE")
	e.Check(pl == tl && (p == int(clampPct(t-1e-9)) || p == int(clampPct(t+1e-9))), "target gauge %d %q, want %v %q", p, pl, t, tl)
	if want, ok := movement(sn); ok {
		gotl := s.panel("SWARM MOVEMENT")
		for y, w := range want {
			e.Check(norm(gotl[y].text) == w, "movement row %d: %q want %q", y, gotl[y].text, w)
		}
	}
}

// ---- snapshots ----

func agents(k int) []display.AgentSnapshot {
	mk := func(n int, f func(i int, a *display.AgentSnapshot)) []display.AgentSnapshot {
		as := make([]display.AgentSnapshot, n)
		for i := range as {
			as[i] = display.AgentSnapshot{ID: fmt.Sprint("a", i), Type: fmt.Sprint("Type", i), Icon: "*", ActivityLevel: "steady"}
			f(i, &as[i])
		}
		return as
	}
	lv := []string{"quiet", "burst", "active", "steady", ""}
	switch k {
	case 0:
		return mk(1, func(i int, a *display.AgentSnapshot) { a.Phase = 6.2; a.Icon = "🔄" })
	case 1:
		return mk(9, func(i int, a *display.AgentSnapshot) {
			a.Phase = float64(i) * .7
			a.PendingTasks = i + 5
			a.ActivityLevel = lv[i%5]
		})
	case 2:
		return mk(10, func(i int, a *display.AgentSnapshot) {
			a.Phase = 5 + float64(i)*.14
			a.Type = "LongTypeName" + fmt.Sprint(i)
			a.BatchesSent = i * 777
			a.ActivityLevel = lv[min(4, i/7)]
		})
	case 3:
		return mk(11, func(i int, a *display.AgentSnapshot) { a.Phase = .05 * float64(i); a.ActivityLevel = lv[min(4, i/8)] })
	case 4: // evenly spread
		return mk(40, func(i int, a *display.AgentSnapshot) {
			a.Phase = hx.TwoPi * (float64(i) + .5) / 40
			a.ActivityLevel = lv[i%2]
		})
	case 5: // around 0, on both sides
		return mk(20, func(i int, a *display.AgentSnapshot) {
			a.Phase = math.Mod(hx.TwoPi+(float64(i)-9.5)*.11, hx.TwoPi)
			a.ActivityLevel = "quiet"
		})
	case 6:
		return mk(20, func(i int, a *display.AgentSnapshot) {
			a.Phase = 3.3
			a.ActivityLevel = "active"
			a.Type = "ElevenChars"
		})
	case 7:
		return mk(200, func(i int, a *display.AgentSnapshot) {
			a.Phase = math.Mod(float64(i)*float64(i)*.37, hx.TwoPi)
			a.ActivityLevel = lv[i%3]
		})
	}
	// one agent per boundary of every classification
	ph := []float64{0, .0999, .1001, .2999, .3001, .4999, .5001, .9999, 1.0001, 1.0707, 1.0709, 1.4999, 1.5001, 1.9999, 2.0001, 2.0707, 2.0709, 2.4999, 2.5001, 2.6415, 2.6417, 3.1, 3.2,
		3.4999, 3.5001, 3.6415, 3.6417, 4.2123, 4.2125, 4.2830, 4.2834, 4.4999, 4.5001, 4.7, 5.2123, 5.2125, 5.2830, 5.2834, 5.7830, 5.7834, 5.9830, 5.9834, 6.1830, 6.1834, 6.28}
	if k-8 < len(ph) {
		return mk(1, func(i int, a *display.AgentSnapshot) { a.Phase = ph[k-8] })
	}
	return nil
}

const nSets = 8 + 45

var cohs = []float64{0, .123, .29, .2999, .3, .3001, .4999, .5, .5001, .5999, .6, .6001, .6999, .7, .7101, .7999, .8, .8999, .9, .9499, .95, .9999, 1}

func name(g goal.Type) string { return "the " + g.String() + " goal" }

func setup(g goal.Type, p pattern.Type, sc scale.Size) func(d *display.TerminalDisplay) {
	return func(d *display.TerminalDisplay) {
		d.SetSimulationName("sim " + sc.String())
		d.SetGoalName(name(g))
		d.SetGoalAndScale(g, sc)
		d.SetPattern(p)
	}
}

func snapshots(e *vs.E) {
	for g := goal.Type(0); g < 9; g++ {
		for ti, target := range []float64{.7, .85, .9, .3, 1} {
			if ti > 2 && !e.Thorough() {
				continue
			}
			parts := 4
			if e.Thorough() {
				parts = 23
			}
			for part := range parts {
				e.Case(func() {
					e.Label("%v target %v part %d", g, target, part)
					s := newScreen(e, setup(g, pattern.Steady, scale.Small))
					defer s.end()
					el := []time.Duration{0, 123 * time.Millisecond, 59940 * time.Millisecond, time.Minute, 3 * time.Hour, 499 * time.Millisecond, 500 * time.Millisecond}
					k := 0
					do := func(c float64, set int) {
						sn := display.SimulationSnapshot{
							Agents: agents(set), Coherence: c, TargetCoherence: target, ElapsedTime: el[k%len(el)],
							Paused: k&1 == 0, Disrupted: k&2 == 0, Reset: k&4 == 0, BatchJustSent: k&8 == 0, LastBatchSize: k,
							CurrentBatchSize: k % 3, BatchesProcessed: 100 * k, PendingTasks: k,
							CostWithoutSync: 1.37 * float64(k), CostWithSync: .31 * float64(k), Savings: 1.06 * float64(k), SavingsPercent: float64(k%7)*16.66 + .01,
						}
						if k%5 != 0 {
							sn.LastBatchTime = vs.Now().Add(-time.Duration(k) * 330 * time.Millisecond)
						}
						k++
						s.d.Update(sn)
						s.verify(g, name(g), "Steady", "sim "+scale.Small.String(), sn)
					}
					for i, c := range cohs {
						if i%parts != part {
							continue
						}
						if e.Thorough() {
							for set := range nSets {
								do(c, set)
							}
						} else {
							do(c, i%8)
							do(c, (i+3)%8)
						}
					}
					for set := range nSets {
						if set%parts == part {
							do(.77, set)
							do(.33, set)
						}
					}
					e.Seen(fmt.Sprint(g, target, part, k))
				})
			}
		}
	}
}

var flagSets = 32

// flags: every combination of the indicators, for every goal.
func flags(e *vs.E) {
	for g := goal.Type(0); g < 9; g++ {
		e.Case(func() {
			e.Label("%v", g)
			s := newScreen(e, setup(g, pattern.Burst, scale.Tiny))
			defer s.end()
			for k := range flagSets {
				sn := display.SimulationSnapshot{Agents: agents(k % 6), Coherence: .65 + .01*float64(k), TargetCoherence: .8,
					Paused: k&1 != 0, Disrupted: k&2 != 0, Reset: k&4 != 0, BatchJustSent: k&8 != 0, LastBatchSize: 7 + k}
				if k&16 != 0 {
					sn.CurrentBatchSize = 12
				}
				s.d.Update(sn)
				s.verify(g, name(g), "Burst", "sim "+scale.Tiny.String(), sn)
				e.Seen(fmt.Sprint(g, k))
			}
		})
	}
}

// ---- configuration, menu, assessment ----

var goalNames = []string{"Batch", "Load", "Consensus", "Latency", "Energy", "Rhythm", "Failure", "Traffic"}
var goalKeys = "BLCTEMFA"
var patNames = []string{"High-Freq", "Burst", "Steady", "Mixed", "Sparse"}
var pats = []pattern.Type{pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse}
var patKeys = "HUYXZ"
var scales = []scale.Size{scale.Tiny, scale.Small, scale.Medium, scale.Large, scale.Huge}

// bold says whether the item of the menu is marked; its key must stand before it.
func (s *screen) bold(menu []line, key byte, item string) bool {
	found, marked := 0, false
	for _, l := range menu {
		var rs []rune
		for _, c := range l.cells {
			rs = append(rs, c.R)
		}
		w := []rune(fmt.Sprintf("[%c] %s", key, item))
	next:
		for i := 0; i+len(w) < len(rs); i++ {
			for j, r := range w {
				if rs[i+j] != r {
					continue next
				}
			}
			if r := rs[i+len(w)]; r != 0 && r != ' ' {
				continue
			}
			found++
			marked = true
			for j := 4; j < len(w); j++ {
				marked = marked && l.cells[i+j].O.Bold && l.cells[i+j].O.FgColor == cell.ColorWhite
			}
		}
	}
	s.e.Check(found == 1, "menu shows [%c] %s %d times", key, item, found)
	return marked
}

func good(g goal.Type, p pattern.Type, n int) bool {
	q := pattern.GetQualifier(int(g), n, p)
	return q == pattern.QualifierOptimal || q == pattern.QualifierExcellent || q == pattern.QualifierGood
}

func (s *screen) menu(g goal.Type, sc scale.Size) {
	m := s.panel("MENU")
	for i, n := range goalNames {
		b := s.bold(m, goalKeys[i], n)
		s.e.Check(b == (int(g) == i), "goal %v: menu marks %s: %v", g, n, b)
	}
	for i, n := range patNames {
		b := s.bold(m, patKeys[i], n)
		s.e.Check(b == good(g, pats[i], sc.DefaultAgentCount()), "goal %v, scale %v: menu marks %s: %v", g, sc, n, b)
	}
	for i, z := range scales {
		b := s.bold(m, byte('1'+i), []string{"Tiny", "Small", "Medium", "Large", "Huge"}[i])
		s.e.Check(b == g.IsRecommendedForSize(z.DefaultAgentCount()), "goal %v: menu marks scale %v: %v", g, z, b)
	}
	t := texts(m)
	s.e.Check(strings.Contains(t, "[D] Disrupt  [R] Reset  [P] Pause  [Q] Quit"), "menu: %s", t)
}

func (s *screen) welcome(g goal.Type, p pattern.Type, sc scale.Size) {
	e := s.e
	s.d.ShowWelcome()
	s.draw()
	s.menu(g, sc)
	n := sc.DefaultAgentCount()
	q := pattern.GetQualifier(int(g), n, p)
	mark := map[string]string{pattern.QualifierFair: "⚠", pattern.QualifierPoor: "✗"}[q]
	status := map[string]string{pattern.QualifierOptimal: "Optimal", pattern.QualifierFair: "Fair", pattern.QualifierPoor: "Poor"}[q]
	if good(g, p, n) {
		mark = "✓"
	}
	if status == "" {
		status = "Good"
	}
	smark, sstatus := "✗", "Poor"
	if g.IsRecommendedForSize(n) {
		smark, sstatus = "✓", "Good"
	}
	cfg := "🚀 Goal:     " + name(g)
	cfg += "\n📊 Pattern:  " + p.String() + "  " + mark
	s.want("CONFIGURATION", cfg+"\n⚡ Scale:    sim "+sc.String()+"  "+smark)
	d := texts(s.panel("SCENARIO"))
	e.Check(strings.HasPrefix(d, "🎯 Configuration Assessment:\n   • Pattern: "+status), "assessment of %v %v %v: %s", g, p, sc, d)
	e.Check(strings.Contains(d, "\n   • Scale: "+sstatus+"\n") || strings.Contains(d, "\n   • Scale: "+sstatus+" ("), "assessment of %v at %v: %s", g, sc, d)
	for _, x := range []string{"\n✅ Best:  ", "\n❌ Worst: ", "HOW IT WORKS:"} {
		e.Check(strings.Count(d, x) == 1, "%q in %s", x, d)
	}
}

func configuration(e *vs.E) {
	for g := goal.Type(0); g < 8; g++ {
		for first := 0; first < 2; first++ { // settings made before and after initialising
			e.Case(func() {
				e.Label("%v %d", g, first)
				s := newScreen(e, func(d *display.TerminalDisplay) {
					if first == 0 {
						setup(g, pattern.Burst, scale.Tiny)(d)
					}
				})
				for _, sc := range scales {
					for _, p := range append([]pattern.Type{pattern.Unset}, pats...) {
						d := s.d
						switch (int(sc) + int(p)) % 3 { // the order of settings does not matter
						case 0:
							setup(g, p, sc)(d)
						case 1:
							d.SetPattern(p)
							d.SetGoalAndScale(g, sc)
							d.SetGoalName(name(g))
							d.SetSimulationName("sim " + sc.String())
						case 2:
							d.SetPattern(pattern.Sparse)
							d.SetGoalAndScale((g+1)%8, scale.Large)
							d.SetGoalAndScale(g, sc)
							d.SetSimulationName("sim " + sc.String())
							d.SetPattern(p)
							d.SetGoalName(name(g))
						}
						s.draw()
						s.menu(g, sc)
						s.welcome(g, p, sc)
						sn := display.SimulationSnapshot{Agents: agents(1), Coherence: .66, TargetCoherence: .8}
						d.Update(sn)
						s.verify(g, name(g), p.String(), "sim "+sc.String(), sn)
						s.menu(g, sc)
						e.Seen(fmt.Sprint(g, sc, p))
					}
				}
				s.end()
			})
		}
	}
}

// nothing set: a display with its defaults shows what it is given.
func unset(e *vs.E) {
	e.Case(func() {
		s := newScreen(e, nil)
		defer s.end()
		s.d.ShowWelcome()
		s.draw()
		sn := display.SimulationSnapshot{Agents: agents(3), Coherence: .5, TargetCoherence: .8}
		s.d.Update(sn)
		s.verify(goal.MinimizeAPICalls, "", "", "MINIMIZE API CALLS", sn)
	})
}

// ---- chart ----

func chart(s *screen) string {
	s.draw()
	var sb strings.Builder
	for _, l := range s.panel("SYNCHRONIZATION COHERENCE") {
		for _, c := range l.cells {
			fmt.Fprintf(&sb, "%c%d;", c.R, c.O.FgColor)
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

func series(k, i int) float64 {
	switch k {
	case 0:
		return float64(i%100) / 100
	case 1:
		return .8 + .1*math.Sin(float64(i))
	case 2:
		return []float64{.2, .9}[i%2]
	case 3:
		return .8
	}
	return math.Mod(float64(i*i)*.013, 1)
}

func history(e *vs.E) {
	lens := []int{1, 2, 3, 10, 49, 50, 51, 52, 75, 100, 101, 130}
	for k := range 5 {
		for _, n := range lens {
			e.Case(func() {
				e.Label("series %d of %d", k, n)
				up := func(s *screen, c float64, paused bool, target float64) {
					s.d.Update(display.SimulationSnapshot{Agents: agents(1), Coherence: c, TargetCoherence: target, Paused: paused})
				}
				tgt := func(i int) float64 { // the target changes at most now and then
					return []float64{.8, .8 + .1*float64(i/37%2), .5 + .4*float64(min(i/60, 1))}[(k+n)%3]
				}
				s := newScreen(e, nil)
				for i := range n {
					up(s, series(k, i), false, tgt(i))
				}
				got := chart(s)
				// paused: nothing moves
				for i := range 3 {
					up(s, .05*float64(i), true, tgt(n-1))
					e.Check(chart(s) == got, "the curve moved while paused")
				}
				up(s, .99, false, tgt(n))
				after := chart(s)
				s.end()
				// only the latest 50 are shown
				f := newScreen(e, nil)
				for i := max(0, n-50); i < n; i++ {
					up(f, series(k, i), false, tgt(i))
				}
				e.Check(chart(f) == got, "the curve of %d updates differs from that of the latest 50", n)
				f.end()
				f = newScreen(e, nil)
				for i := max(0, n-49); i < n; i++ {
					up(f, series(k, i), false, tgt(i))
				}
				up(f, .99, false, tgt(n))
				e.Check(chart(f) == after, "the curve after a pause differs from that of the same updates without")
				f.end()
				e.Seen(fmt.Sprint(k, n))
			})
		}
	}
	e.Case(func() {
		e.Label("colours")
		// all above the target: a green curve and the target line, no red; below: red, no green
		for _, c := range []float64{.79, .8, .95, .3} { // at .8 the target line hides the curve
			s := newScreen(e, nil)
			for range 20 {
				s.d.Update(display.SimulationSnapshot{Agents: agents(1), Coherence: c, TargetCoherence: .8})
			}
			t := chart(s)
			has := func(col cell.Color) bool { return strings.Contains(t, fmt.Sprintf("%d;", col)) && colored(s, col) }
			e.Check((c == .8 || has(cell.ColorGreen) == (c > .8)) && has(cell.ColorRed) == (c < .8), "coherence %v of .8: green %v red %v", c, has(cell.ColorGreen), has(cell.ColorRed))
			if c != .8 {
				e.Check(has(cell.ColorYellow), "no target line at %v", c)
			}
			s.end()
		}
		// exactly at the target is not below it: the target was higher at first, so its line does not hide the curve
		s := newScreen(e, nil)
		for range 20 {
			s.d.Update(display.SimulationSnapshot{Agents: agents(1), Coherence: .5, TargetCoherence: .9})
		}
		chart(s)
		e.Check(!colored(s, cell.ColorGreen) && colored(s, cell.ColorRed), "a curve below the target is not red")
		s.d.Update(display.SimulationSnapshot{Agents: agents(1), Coherence: .5, TargetCoherence: .5})
		chart(s)
		e.Check(colored(s, cell.ColorGreen) && !colored(s, cell.ColorRed), "a curve at the target is not green")
		s.end()
	})
}

func colored(s *screen, col cell.Color) bool {
	for _, l := range s.panel("SYNCHRONIZATION COHERENCE") {
		for _, c := range l.cells {
			if c.O.FgColor == col && c.R != 0 && c.R != ' ' {
				return true
			}
		}
	}
	return false
}

// ---- summary, Run, Close ----

func whole(s *screen) string {
	s.draw()
	var sb strings.Builder
	for _, r := range s.term.Cells {
		for _, c := range r {
			if c.R != 0 {
				sb.WriteRune(c.R)
			}
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

func summary(e *vs.E) {
	for k := range 6 {
		for before := range 3 {
			e.Case(func() {
				e.Label("%d after %d", k, before)
				s := newScreen(e, setup(goal.Type(k), pattern.Mixed, scale.Medium))
				defer s.end()
				if before > 0 {
					s.d.ShowWelcome()
				}
				for i := range before * 2 {
					s.d.Update(display.SimulationSnapshot{Agents: agents(i), Coherence: .5, TargetCoherence: .8, CostWithSync: 55.55})
				}
				st := display.Statistics{TotalAPICalls: 100 + k, TotalBatches: 7 * k, AverageBatchSize: 1.23 * float64(k), TotalSavings: 9.87 * float64(k), SavingsPercent: 11.32 * float64(k),
					PeakCoherence: .1637 * float64(k), TimeToConverge: time.Duration(k) * 14300 * time.Millisecond}
				s.d.ShowSummary(st)
				t := whole(s)
				for _, w := range []string{
					"SIMULATION COMPLETE",
					fmt.Sprintf("Total Savings: $%.2f (%.1f%%)", st.TotalSavings, st.SavingsPercent),
					fmt.Sprintf("API Calls (individual): %d ", st.TotalAPICalls),
					fmt.Sprintf("API Calls (batched):    %d ", st.TotalBatches),
					fmt.Sprintf("Average Batch Size:     %.1f ", st.AverageBatchSize),
					fmt.Sprintf("Peak Coherence:         %.1f%%", st.PeakCoherence*100),
					"Time to Converge:       " + elapsed(st.TimeToConverge) + " ",
				} {
					e.Check(strings.Contains(strings.ReplaceAll(t, "│", " │"), w), "the summary lacks %q", w)
				}
				e.Check(!strings.Contains(t, "55.55"), "the summary shows costs of the run")
				e.Seen(fmt.Sprint(k, before))
			})
		}
	}
}

func running(e *vs.E) {
	for k := range 4 {
		e.Case(func() {
			e.Label("run %d", k)
			r := vs.RunOnce(nil, vs.Options{FreeSched: true, MaxSteps: 10000}, func() {
				s := newScreen(e, nil)
				ctx, cancel := vcontext.WithCancel(vcontext.Background())
				defer cancel()
				ctrl := display.NewKeyboardController().(*display.KeyboardController)
				boom := errors.New("boom")
				termdash.RunHook = func(c context.Context, t terminalapi.Terminal, _ *container.Container, d *termdash.Dash) error {
					e.Check(c == ctx && t == terminalapi.Terminal(s.term), "Run: other context or terminal")
					e.Check(d.Interval > 0 && d.Interval <= time.Second, "redrawn every %v", d.Interval)
					if k == 3 {
						return boom
					}
					if d.Keys != nil {
						for _, r := range "drp" {
							d.Keys(&terminalapi.Keyboard{Key: keyboard.Key(r)})
						}
					}
					vs.Recv(c.Done())
					return nil
				}
				if k == 0 {
					ctrl = nil
				}
				var err error
				done := false
				vs.Go(func() { err = s.d.Run(ctx, ctrl); done = true })
				vs.Sleep(time.Second)
				e.Check(done == (k == 3), "Run ended: %v", done)
				if k == 1 || k == 2 {
					for _, want := range []display.EventType{display.EventDisrupt, display.EventReset, display.EventPause} {
						r := vs.CaseRecv(ctrl.Events())
						i := vs.Select(true, r)
						e.Check(i == 0 && r.V.Type == want, "key event %v, want %v", r.V, want)
					}
				}
				cancel()
				vs.Sleep(time.Second)
				e.Check(done && (err == nil) == (k != 3) && (k != 3 || errors.Is(err, boom)), "after cancelling: ended %v with %v", done, err)
				e.Check(s.term.Closed == 0, "closed by Run")
				if err := s.d.Close(); err != nil || s.term.Closed != 1 {
					e.Fail("Close: %v, closed %d times", err, s.term.Closed)
				}
				s.end()
			})
			e.Check(r.Failure == "", "%s: %s", r.Failure, r.Msg)
		})
	}
	e.Case(func() {
		e.Label("failing terminal")
		d := display.NewTerminalDisplay()
		tcell.Fail = errors.New("no terminal")
		err := d.Initialize()
		e.Check(errors.Is(err, tcell.Fail), "Initialize without a terminal: %v", err)
		tcell.Fail = nil
		e.Check(d.Close() == nil, "Close without a terminal fails")
	})
}

func main() {
	debug.SetGCPercent(800)
	vs.AddEnum(&vs.Enum{Name: "snapshots", Run: snapshots})
	vs.AddEnum(&vs.Enum{Name: "flags", Run: flags})
	vs.AddEnum(&vs.Enum{Name: "configuration", Run: configuration})
	vs.AddEnum(&vs.Enum{Name: "unset", Run: unset})
	vs.AddEnum(&vs.Enum{Name: "history", Run: history})
	vs.AddEnum(&vs.Enum{Name: "summary", Run: summary})
	vs.AddEnum(&vs.Enum{Name: "running", Run: running})
	vs.Main()
}
