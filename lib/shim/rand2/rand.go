// Package rand (v2) takes its numbers from the harness.
package rand

import (
	orig "math/rand/v2"

	"github.com/ftl/sdrainer/zzverif/shim/rand"
)

func IntN(n int) int          { return rand.Intn(n) }
func Int32N(n int32) int32    { return rand.Int31n(n) }
func Int64N(n int64) int64    { return rand.Int63n(n) }
func UintN(n uint) uint       { return uint(rand.Intn(int(n))) }
func Uint32N(n uint32) uint32 { return uint32(rand.Intn(int(n))) }
func Uint64N(n uint64) uint64 { return uint64(rand.Intn(int(n))) }
func Int() int                { return rand.Int() }
func Int32() int32            { return rand.Int31() }
func Int64() int64            { return rand.Int63() }
func Uint32() uint32          { return rand.Uint32() }
func Uint64() uint64          { return uint64(rand.Uint32()) }
func Float64() float64        { return rand.Float64() }
func Float32() float32        { return rand.Float32() }
func Perm(n int) []int        { return rand.Perm(n) }

func Shuffle(n int, swap func(i, j int)) { rand.Shuffle(n, swap) }

func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	return T(rand.Intn(int(n)))
}

type Rand struct{}

func New(orig.Source) *Rand                   { return &Rand{} }
func (*Rand) IntN(n int) int                  { return IntN(n) }
func (*Rand) Int32N(n int32) int32            { return Int32N(n) }
func (*Rand) Int64N(n int64) int64            { return Int64N(n) }
func (*Rand) Int() int                        { return Int() }
func (*Rand) Float64() float64                { return Float64() }
func (*Rand) Perm(n int) []int                { return Perm(n) }
func (*Rand) Shuffle(n int, f func(i, j int)) { Shuffle(n, f) }
