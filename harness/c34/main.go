// C34: the analysis of a run is the documented one for every coherence, count and target.
package main

import (
	"fmt"
	"math"
	"os"
	"strings"

	"MODULE/internal/analysis"
	"MODULE/zzverif/vs"
)

func bands(e *vs.E) {
	var cs []float64
	n := 2000
	if e.Thorough() {
		n = 200000
	}
	for i := -n / 2; i <= 2*n; i++ {
		cs = append(cs, float64(i)/float64(n))
	}
	for _, b := range []float64{0, .2, .4, .6, .8, 1} {
		cs = append(cs, b, math.Nextafter(b, -1), math.Nextafter(b, 2))
	}
	cs = append(cs, math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64)
	e.Param("%d coherences, modes sync, batch, none and an unknown one, with and without emoji", len(cs))
	names := map[string][]string{
		"sync":  {"Chaos - no coordination", "Groups forming - multiple rhythms", "Partial coordination - groups merging", "Good sync - single dominant rhythm", "Excellent sync - unified rhythm"},
		"batch": {"Chaos - no batching", "Weak batching emerging", "Moderate batching", "Good batching", "Excellent batching"},
	}
	levels := []string{"Very Low", "Low", "Moderate", "Good", "Excellent"}
	for _, mode := range []string{"sync", "batch", "", "other", "Batch"} {
		for emoji := 0; emoji < 3; emoji++ {
			e.Case(func() {
				os.Setenv("EMOJI", []string{"", "1", "0"}[emoji])
				defer os.Unsetenv("EMOJI")
				m := mode
				if names[m] == nil {
					m = "sync"
				}
				marks := map[string]bool{}
				for _, c := range cs {
					i := 0
					for i < 4 && c >= []float64{.2, .4, .6, .8}[i] {
						i++
					}
					got := analysis.DescribeSyncQuality(c, mode)
					plain := strings.TrimFunc(got, func(r rune) bool { return r == '(' || r == ')' || r == '!' || r > 255 || r == ' ' })
					e.Check(plain == names[m][i] && strings.HasPrefix(got, "(") && strings.HasSuffix(got, ")"), "%s, coherence %v: %q, want %q", mode, c, got, names[m][i])
					mark := strings.TrimSpace(strings.SplitN(got[1:], names[m][i], 2)[0])
					e.Check((mark != "") == (emoji == 1), "EMOJI=%s: %q", os.Getenv("EMOJI"), got)
					marks[mark] = true
					e.Check(analysis.InterpretCoherenceLevel(c) == levels[i], "coherence %v: level %q, want %q", c, analysis.InterpretCoherenceLevel(c), levels[i])
				}
				e.Check(len(marks) == map[bool]int{false: 1, true: 5}[emoji == 1], "marks %v", marks)
				e.Seen(fmt.Sprint(mode, emoji))
			})
		}
	}
}

// diagnoses: what is reported, and when
func diagnoses(e *vs.E) {
	d := 40
	if e.Thorough() {
		d = 125
	}
	e.Param("initial, final and target coherence in steps of 1/%d, 12 stuck counts around a third of the iterations, modes sync and batch, with and without emoji", d)
	stuck := []string{"Increase swarm size", "Reduce target coherence", "Adjust frequency"}
	batch := append(append([]string{}, stuck...), "Check network topology", "Consider partial sync")
	little := []string{"Check agent connectivity", "Increase influence", "Reduce stubbornness"}
	near := []string{"Increase iterations", "Fine-tune coupling"}
	failed := []string{"Start with smaller swarm", "Lower target", "Increase frequency", "Check for competing attractors"}
	marks := [2][5]string{{"[OK] ", "[!!] ", "[!!] ", "[~] ", "[X] "}, {"✅ ", "⚠️  ", "⚠️  ", "🔶 ", "❌ "}}
	for emoji := 0; emoji < 2; emoji++ {
		for i := 0; i <= d; i++ {
			e.Case(func() {
				os.Setenv("EMOJI", []string{"", "1"}[emoji])
				defer os.Unsetenv("EMOJI")
				for f := 0; f <= d; f++ {
					for t := 0; t <= d; t++ {
						for _, max := range []int{0, 3, 10, 100} {
							for s := max/3 - 1; s <= max/3+1; s++ {
								for _, mode := range []string{"sync", "batch"} {
									ini, fin, tgt := float64(i)/float64(d), float64(f)/float64(d), float64(t)/float64(d)
									sum, sug := analysis.Diagnose(analysis.RunStats{Initial: ini, Final: fin, Iter: max * (1 + (i+f+s)%2) / 2, MaxIter: max, StuckCount: s}, tgt, mode)
									k, want, about := 4, failed, fmt.Sprintf("Convergence failed: %.1f%% (target: %.1f%%)", fin*100, tgt*100)
									switch {
									case fin >= tgt:
										k, want, about = 0, nil, fmt.Sprintf("Success! Reached %.1f%% coherence", fin*100)
									case s > max/3:
										k, want, about = 1, stuck, fmt.Sprintf("Stuck at %.1f%% (target: %.1f%%)", fin*100, tgt*100)
										if mode == "batch" {
											want = batch
										}
									case fin-ini < .1:
										k, want, about = 2, little, fmt.Sprintf("Minimal progress: %.1f%% → %.1f%%", ini*100, fin*100)
									case tgt-fin < .1:
										k, want, about = 3, near, fmt.Sprintf("Close! Reached %.1f%% (target: %.1f%%)", fin*100, tgt*100)
									}
									what := fmt.Sprintf("from %v to %v, target %v, stuck %d of %d, %s", ini, fin, tgt, s, max, mode)
									e.Check(sum == marks[emoji][k]+about, "%s: %q, want %q", what, sum, marks[emoji][k]+about)
									e.Check(len(sug) == len(want), "%s: suggestions %q, want %q", what, sug, want)
									for j := range want {
										e.Check(strings.HasPrefix(sug[j], want[j]), "%s: suggestions %q, want %q", what, sug, want)
									}
									e.Step(1)
								}
							}
						}
					}
				}
				e.Seen(fmt.Sprint(emoji, i))
			})
		}
	}
}

func rates(e *vs.E) {
	n := 200
	if e.Thorough() {
		n = 2000
	}
	e.Param("every number of iterations out of every maximum up to %d", n)
	for m := 1; m <= n; m++ {
		e.Case(func() {
			for i := 0; i <= m+5; i++ {
				want := "Very slow convergence"
				switch {
				case 10*i < 3*m:
					want = "Fast convergence"
				case 10*i < 6*m:
					want = "Normal convergence"
				case 10*i < 9*m:
					want = "Slow convergence"
				}
				e.Check(analysis.AnalyzeConvergenceRate(i, m) == want, "%d of %d iterations: %q, want %q", i, m, analysis.AnalyzeConvergenceRate(i, m), want)
			}
			e.Seen(fmt.Sprint(m))
		})
	}
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "quality", Run: bands})
	vs.AddEnum(&vs.Enum{Name: "diagnoses", Run: diagnoses})
	vs.AddEnum(&vs.Enum{Name: "rates", Run: rates})
	vs.Main()
}
