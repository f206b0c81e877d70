// Package zcrand stands in for crypto/rand.
package zcrand

import (
	"crypto/rand"
	"io"
	"math/big"

	"robpike.io/ivy/zzsim"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(zzsim.SeamRNG().Uint64() >> 56)
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return Reader.Read(p) }

// Int avoids rand.Int, whose reading of the stream is deliberately unpredictable.
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	b := make([]byte, len(max.Bytes())+8)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	x := new(big.Int).SetBytes(b)
	return x.Mod(x, max), nil
}

func Text() string {
	const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = alphabet[b[i]%32]
	}
	return string(b)
}

var _ = rand.Reader
