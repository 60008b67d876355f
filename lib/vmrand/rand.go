// Package vmrand mirrors math/rand with a controlled source.
package vmrand

import (
	"encoding/binary"
	real "math/rand"

	"MODULE/zzverif/vs"
)

type source struct{}

func (source) Uint64() uint64 {
	var b [8]byte
	vs.FillRandom(b[:])
	return binary.LittleEndian.Uint64(b[:])
}

func (s source) Int63() int64 { return int64(s.Uint64() >> 1) }
func (source) Seed(int64)     {}

var global = real.New(source{})

var ExpFloat64 = global.ExpFloat64
var Float32 = global.Float32
var Float64 = global.Float64
var Int = global.Int
var Int31 = global.Int31
var Int31n = global.Int31n
var Int63 = global.Int63
var Int63n = global.Int63n
var Intn = global.Intn
var New = real.New
var NewSource = real.NewSource
var NewZipf = real.NewZipf
var NormFloat64 = global.NormFloat64
var Perm = global.Perm

type Rand = real.Rand

var Read = global.Read

func Seed(int64) {}

var Shuffle = global.Shuffle

type Source = real.Source
type Source64 = real.Source64

var Uint32 = global.Uint32
var Uint64 = global.Uint64

type Zipf = real.Zipf
