// Package rand takes its numbers from the harness.
package rand

import (
	orig "math/rand"

	"github.com/ftl/sdrainer/zzverif/vsched"
)

// Next is asked for a number in [0,n); without it the answer is 0.
var Next func(n int) int

func next(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if Next == nil || vsched.Killing() {
		return 0
	}
	return Next(n)
}

func Intn(n int) int       { return next(n) }
func Int31n(n int32) int32 { return int32(next(int(n))) }
func Int63n(n int64) int64 { return int64(next(int(n))) }
func Int() int             { return next(1 << 30) }
func Int31() int32         { return int32(next(1 << 30)) }
func Int63() int64         { return int64(next(1 << 30)) }
func Uint32() uint32       { return uint32(next(1 << 30)) }
func Float64() float64     { return float64(next(1<<20)) / (1 << 20) }
func Float32() float32     { return float32(next(1<<20)) / (1 << 20) }
func Seed(int64)           {}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, next(i+1))
	}
}

type Rand struct{}

func New(orig.Source) *Rand                   { return &Rand{} }
func (*Rand) Intn(n int) int                  { return next(n) }
func (*Rand) Int31n(n int32) int32            { return int32(next(int(n))) }
func (*Rand) Int63n(n int64) int64            { return int64(next(int(n))) }
func (*Rand) Int() int                        { return next(1 << 30) }
func (*Rand) Float64() float64                { return Float64() }
func (*Rand) Perm(n int) []int                { return Perm(n) }
func (*Rand) Shuffle(n int, f func(i, j int)) { Shuffle(n, f) }
