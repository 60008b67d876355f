// C25: the random source: ranges, resolution, unbiased integers, safe concurrent use.
package main

import (
	"fmt"
	"math"

	"MODULE/internal/random"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

func src(u uint64) func(int, []byte) {
	return func(_ int, b []byte) {
		for i := range b {
			b[i] = byte(u >> (8 * (i % 8)))
		}
	}
}

// ranges: every 8-byte draw built from these byte values
func ranges(e *vs.E) {
	bs := []uint64{0, 1, 0x7f, 0x80, 0xff}
	if e.Thorough() {
		bs = []uint64{0, 1, 0x55, 0x7f, 0x80, 0xfe, 0xff}
	}
	e.Param("every 8-byte draw over the byte values %x", bs)
	n := 1
	for i := 0; i < 5; i++ {
		n *= len(bs)
	}
	rest := len(bs) * len(bs) * len(bs)
	for c := 0; c < n; c++ {
		e.Case(func() {
			var hi uint64
			for i, k := 0, c; i < 5; i++ {
				hi = hi<<8 | bs[k%len(bs)]
				k /= len(bs)
			}
			draws := make([]uint64, rest)
			for j := range draws {
				u := hi
				for i, k := 0, j; i < 3; i++ {
					u = u<<8 | bs[k%len(bs)]
					k /= len(bs)
				}
				draws[j] = u
			}
			e.Seq(vs.Options{MaxSteps: 50_000_000, Rand: func(ctr int, b []byte) { src(draws[ctr/3%rest])(0, b) }}, func() {
				for _, u := range draws {
					f := random.Float64()
					e.Check(f >= 0 && f < 1, "Float64 is %v from %x", f, u)
					p := random.Phase()
					e.Check(p >= 0 && p < hx.TwoPi, "Phase is %v from %x", p, u)
					i := (&random.SecureRandom{}).Int31n()
					e.Check(i >= 0, "Int31n is %v from %x", i, u)
				}
			})
			e.Step(rest)
		})
	}
}

// resolution: each of the 53 bits of a fraction comes from one bit of the source
func resolution(e *vs.E) {
	e.Param("every draw with one bit set")
	e.Case(func() {
		f := map[float64]int{}
		p := map[float64]int{}
		n := map[int32]int{}
		for i := 0; i < 64; i++ {
			e.Seq(vs.Options{Rand: src(1 << i)}, func() {
				f[random.Float64()]++
				p[random.Phase()]++
				if i < 32 {
					n[(&random.SecureRandom{}).Int31n()]++
				}
			})
		}
		for k := 1; k <= 53; k++ {
			x := math.Ldexp(1, -k)
			e.Check(f[x] == 1, "2^-%d as Float64 from %d bits", k, f[x])
			e.Check(p[x*hx.TwoPi] == 1, "2^-%d of a turn as Phase from %d bits", k, p[x*hx.TwoPi])
		}
		for k := 0; k < 31; k++ {
			e.Check(n[1<<k] == 1, "2^%d as Int31n from %d bits", k, n[1<<k])
		}
	})
}

func ns() []int {
	var r []int
	for n := 1; n <= 200; n++ {
		r = append(r, n)
	}
	for k := 8; k < 31; k++ {
		r = append(r, 1<<k-1, 1<<k, 1<<k+1, 3<<(k-2))
	}
	return append(r, math.MaxInt32-1, math.MaxInt32)
}

// bounded: Intn stays below n for draws at every boundary, and terminates however often it retries
func bounded(e *vs.E) {
	e.Param("%d values of n, draws around 0, every 2^k and the rejection boundary, both byte orders", len(ns()))
	for _, n := range ns() {
		e.Case(func() {
			m := int64(math.MaxInt32) / int64(n) * int64(n)
			var vals []int64
			for d := int64(-2); d <= 2; d++ {
				vals = append(vals, d, m+d, m-int64(n)+d, int64(n)+d, 1<<30+d, 1<<31+d)
			}
			for _, v := range vals {
				u := uint32(v) // any 32 bits are a legal draw
				for order := 0; order < 2; order++ {
					left := 3
					e.Seq(vs.Options{Rand: func(ctr int, b []byte) {
						w := u
						if left--; left < 0 { // then any acceptable value
							w = 0
						}
						for i := range b {
							b[i] = byte(w >> (8 * (3 - i%4)))
							if order == 1 {
								b[i] = byte(w >> (8 * (i % 4)))
							}
						}
					}}, func() {
						x := random.Intn(n)
						e.Check(x >= 0 && x < n, "Intn(%d) is %d from %x", n, x, u)
					})
					e.Step(1)
				}
			}
			e.Seen(fmt.Sprint(n))
		})
	}
	e.Case(func() {
		for _, n := range []int{0, -1, math.MinInt32, math.MinInt64} {
			func() {
				defer func() { e.Check(recover() != nil, "Intn(%d) did not panic", n) }()
				random.Intn(n)
			}()
		}
		for _, n := range []int{1 << 31, 1 << 40, math.MaxInt64} {
			func() {
				defer func() { recover() }()
				x := random.Intn(n)
				e.Check(x >= 0 && x < n, "Intn(%d) is %d", n, x)
			}()
		}
	})
	for n := 1; n <= 64; n++ { // every value is possible
		e.Case(func() {
			seen := map[int]bool{}
			e.Seq(vs.Options{MaxSteps: 50_000_000, Rand: hx.Lcg(n)}, func() {
				for i := 0; i < 40*n; i++ {
					seen[random.Intn(n)] = true
				}
			})
			e.Check(len(seen) == n, "Intn(%d) took %d values", n, len(seen))
		})
	}
}

// uniform: over an evenly spaced stream of draws every k-th of the range is drawn equally often
func uniform(e *vs.E) {
	lv := 16
	e.Param("n = k*2^28 for k = 1..7: all %d draws of four bytes at %d evenly spaced levels", lv*lv*lv*lv, lv)
	for k := 1; k <= 7; k++ {
		e.Case(func() {
			parts, n := k, k<<28
			cnt := make([]int, parts)
			total := lv * lv * lv * lv
			pos := 0
			e.Seq(vs.Options{MaxSteps: 50_000_000, Rand: func(ctr int, b []byte) {
				x := pos
				pos++
				for i := range b {
					b[i] = byte(8 + 16*(x%lv))
					x /= lv
				}
			}}, func() {
				for pos < total {
					v := random.Intn(n)
					if pos <= total {
						cnt[v/(n/parts)]++
					}
				}
			})
			for i, c := range cnt {
				e.Check(c >= cnt[0]-1 && c <= cnt[0]+1, "n=%d: part %d was drawn %d times, part 0 %d times (%v)", n, i, c, cnt[0], cnt)
			}
			e.Seen(fmt.Sprint(cnt))
		})
	}
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "ranges", Run: ranges})
	vs.AddEnum(&vs.Enum{Name: "resolution", Run: resolution})
	vs.AddEnum(&vs.Enum{Name: "Intn below n", Run: bounded})
	vs.AddEnum(&vs.Enum{Name: "Intn unbiased", Run: uniform})
	for _, p := range []int{2, 3} {
		vs.Add(&vs.Scenario{Name: fmt.Sprintf("%d concurrent users", p), Both: true, Opt: vs.Options{Preemptions: 2, Rand: hx.Lcg(p)}, Body: func() {
			var js []func()
			var got [3][3]float64
			for t := 0; t < p; t++ {
				js = append(js, vs.GoJ(func() {
					got[t][0] = random.Float64()
					got[t][1] = float64(random.Intn(1000))
					got[t][2] = random.Phase()
				}))
			}
			for _, j := range js {
				j()
			}
			seen := map[float64]bool{}
			for t := 0; t < p; t++ {
				if seen[got[t][0]] || got[t][0] < 0 || got[t][0] >= 1 || got[t][1] < 0 || got[t][1] >= 1000 || got[t][2] < 0 || got[t][2] >= hx.TwoPi {
					vs.Fail("drawn %v", got)
				}
				seen[got[t][0]] = true
			}
		}})
	}
	vs.Main()
}
