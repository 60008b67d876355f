// Package vrand mirrors crypto/rand with a controlled byte source.
package vrand

import (
	"io"
	"math/big"

	"MODULE/zzverif/vs"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { vs.FillRandom(b); return len(b), nil }

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	var b [16]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return nil, err
	}
	n := new(big.Int).SetBytes(b[:])
	return n.Mod(n, max), nil
}

func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	var b [26]byte
	vs.FillRandom(b[:])
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b[:])
}
