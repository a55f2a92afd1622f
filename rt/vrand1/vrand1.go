// Package rand replaces math/rand in the instrumented copy (see vrand).
package rand

import (
	rr "math/rand"

	v2 "github.com/rmera/boo/zzverif/vrand"
)

type Source = rr.Source

func NewSource(s int64) Source { return rr.NewSource(s) }

type Rand struct{ r *v2.Rand }

func New(Source) *Rand { return &Rand{v2.New(nil)} }

func (r *Rand) Seed(int64)                         {}
func (r *Rand) Float64() float64                   { return r.r.Float64() }
func (r *Rand) Float32() float32                   { return r.r.Float32() }
func (r *Rand) Intn(n int) int                     { return r.r.IntN(n) }
func (r *Rand) Int31n(n int32) int32               { return r.r.Int32N(n) }
func (r *Rand) Int63n(n int64) int64               { return r.r.Int64N(n) }
func (r *Rand) Int() int                           { return r.r.Int() }
func (r *Rand) Int31() int32                       { return r.r.Int32() }
func (r *Rand) Int63() int64                       { return r.r.Int64() }
func (r *Rand) Uint32() uint32                     { return r.r.Uint32() }
func (r *Rand) Uint64() uint64                     { return r.r.Uint64() }
func (r *Rand) NormFloat64() float64               { return r.r.NormFloat64() }
func (r *Rand) ExpFloat64() float64                { return r.r.ExpFloat64() }
func (r *Rand) Shuffle(n int, swap func(i, j int)) { r.r.Shuffle(n, swap) }
func (r *Rand) Perm(n int) []int                   { return r.r.Perm(n) }

var g = New(nil)

func Seed(int64)                         {}
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Intn(n int) int                     { return g.Intn(n) }
func Int31n(n int32) int32               { return g.Int31n(n) }
func Int63n(n int64) int64               { return g.Int63n(n) }
func Int() int                           { return g.Int() }
func Int31() int32                       { return g.Int31() }
func Int63() int64                       { return g.Int63() }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func Perm(n int) []int                   { return g.Perm(n) }
