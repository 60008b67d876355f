// Package hx has small helpers shared by the harnesses.
package hx

import (
	"encoding/binary"
	"math"

	"MODULE/internal/random"
	"MODULE/zzverif/vs"
)

const TwoPi = 2 * math.Pi

// Wrap maps an angle to [0, 2pi).
func Wrap(x float64) float64 {
	x = math.Mod(x, TwoPi)
	if x < 0 {
		x += TwoPi
	}
	if x >= TwoPi {
		x = 0
	}
	return x
}

// CD is the circular distance of two angles.
func CD(a, b float64) float64 {
	d := math.Abs(Wrap(a) - Wrap(b))
	return math.Min(d, TwoPi-d)
}

// Signed is the signed shortest turn from b to a, in (-pi, pi].
func Signed(a, b float64) float64 {
	d := Wrap(a - b)
	if d > math.Pi {
		d -= TwoPi
	}
	return d
}

func Eq(a, b float64) bool {
	return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// Coh is the Kuramoto order parameter.
func Coh(ph []float64) float64 {
	if len(ph) == 0 {
		return 0
	}
	c, s := 0.0, 0.0
	for _, p := range ph {
		c += math.Cos(p)
		s += math.Sin(p)
	}
	return math.Hypot(c, s) / float64(len(ph))
}

func Clamp01(x float64) float64 { return math.Max(0, math.Min(1, x)) }

// bits8[k] is the bit (of byte bit/8) that is worth 2^-(k+1) in a drawn
// fraction, bits4[k] the one worth 2^(30-k) in a drawn integer: learnt from
// the generators themselves, so that the order in which they use the bytes of
// their source does not matter.
var bits8, bits4 []int

func init() {
	defer func() { recover(); vs.ProbeRand = nil }()
	learn := func(n, want int, draw func() int) []int {
		r := make([]int, want)
		for k := range r {
			r[k] = -1
		}
		for i := 0; i < 8*n; i++ {
			calls := 0
			vs.ProbeRand = func(b []byte) {
				clear(b)
				if calls++; len(b) == n && calls == 1 {
					b[i/8] = 1 << (i % 8)
				}
			}
			if k := draw(); k >= 0 && k < want && calls == 1 {
				if r[k] >= 0 {
					return nil
				}
				r[k] = i
			}
		}
		for _, i := range r {
			if i < 0 {
				return nil
			}
		}
		return r
	}
	place := func(x float64) int { // x is 2^-(k+1)
		f, e := math.Frexp(x)
		if f != .5 {
			return -1
		}
		return -e
	}
	r8 := learn(8, 53, func() int { return place(random.Float64()) })
	r4 := learn(4, 31, func() int { return place(float64((&random.SecureRandom{}).Int31n()) / (1 << 31)) })
	bits8, bits4 = r8, r4
}

// Fill writes bytes that every generator of the repository turns into the
// fraction r of its range (8-byte reads: 53-bit floats; 4-byte reads: 31-bit
// integers).
func Fill(b []byte, r float64) {
	r = math.Max(0, math.Min(r, 1))
	for len(b) > 0 {
		if len(b) >= 8 {
			u := uint64(r * (1 << 53))
			if u >= 1<<53 {
				u = 1<<53 - 1
			}
			if bits8 != nil {
				spread(b[:8], bits8, u)
			} else {
				binary.BigEndian.PutUint64(b, u)
			}
			b = b[8:]
			continue
		}
		var t [4]byte
		u := uint32(r * (1 << 31))
		if u >= 1<<31-4096 {
			u = 1<<31 - 4097 // stay clear of the values rejection sampling retries
		}
		if bits4 != nil {
			spread(t[:], bits4, uint64(u))
		} else {
			binary.BigEndian.PutUint32(t[:], u)
		}
		n := copy(b, t[:])
		b = b[n:]
	}
}

// spread writes the bits of u where they are read.
func spread(b []byte, bits []int, u uint64) {
	clear(b)
	for k, i := range bits {
		if u>>(len(bits)-1-k)&1 == 1 {
			b[i/8] |= 1 << (i % 8)
		}
	}
}

// Const answers every random draw with the fraction r of its range.
func Const(r float64) func(int, []byte) {
	return func(_ int, b []byte) { Fill(b, r) }
}

// Cycle answers the i-th draw with rs[i % len(rs)].
func Cycle(rs ...float64) func(int, []byte) {
	return func(i int, b []byte) { Fill(b, rs[i%len(rs)]) }
}

// Lcg is a fixed pseudo-random answer stream number k.
func Lcg(k int) func(int, []byte) {
	return func(i int, b []byte) {
		x := uint64(k)*0x9E3779B97F4A7C15 + uint64(i+1)*0xD1B54A32D192ED03
		for j := range b {
			x ^= x >> 27
			x *= 0x94D049BB133111EB
			x ^= x >> 31
			b[j] = byte(x >> 24)
		}
	}
}
