// Package vmrand2 mirrors math/rand/v2 with a controlled source.
package vmrand2

import (
	"encoding/binary"
	real "math/rand/v2"

	"MODULE/zzverif/vs"
)

type source struct{}

func (source) Uint64() uint64 {
	var b [8]byte
	vs.FillRandom(b[:])
	return binary.LittleEndian.Uint64(b[:])
}

var global = real.New(source{})

type ChaCha8 = real.ChaCha8

var ExpFloat64 = global.ExpFloat64
var Float32 = global.Float32
var Float64 = global.Float64
var Int = global.Int
var Int32 = global.Int32
var Int32N = global.Int32N
var Int64 = global.Int64
var Int64N = global.Int64N
var IntN = global.IntN
var New = real.New
var NewChaCha8 = real.NewChaCha8
var NewPCG = real.NewPCG
var NewZipf = real.NewZipf
var NormFloat64 = global.NormFloat64

type PCG = real.PCG

var Perm = global.Perm

type Rand = real.Rand

var Shuffle = global.Shuffle

type Source = real.Source

var Uint = global.Uint
var Uint32 = global.Uint32
var Uint32N = global.Uint32N
var Uint64 = global.Uint64
var Uint64N = global.Uint64N
var UintN = global.UintN

type Zipf = real.Zipf

type intType interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func N[T intType](n T) T { return T(global.Uint64N(uint64(n))) }
