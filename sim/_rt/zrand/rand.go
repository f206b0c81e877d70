// Package zrand stands in for the global generator of math/rand.
package zrand

import "robpike.io/ivy/zzsim"

func u() uint64            { return zzsim.SeamRNG().Uint64() }
func Seed(int64)           {}
func Int63() int64         { return int64(u() >> 1) }
func Uint32() uint32       { return uint32(u() >> 32) }
func Uint64() uint64       { return u() }
func Int31() int32         { return int32(u() >> 33) }
func Int() int             { return int(u() >> 1) }
func Int63n(n int64) int64 { return int64(u()>>1) % n }
func Int31n(n int32) int32 { return Int31() % n }
func Intn(n int) int       { return zzsim.SeamRNG().Intn(n) }
func Float64() float64     { return float64(u()>>11) / (1 << 53) }
func Float32() float32     { return float32(u()>>40) / (1 << 24) }
func Shuffle(n int, f func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		f(i, Intn(i+1))
	}
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
