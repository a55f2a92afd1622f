// Package rand replaces math/rand/v2 in the instrumented copy: the values drawn are answers of the
// environment, given by the harness through Provider (ordinary randomness without one).
package rand

import (
	"math"
	rr "math/rand/v2"
)

// Source of the answers.
type Answers interface {
	Float64() float64 // in [0,1)
	IntN(n int) int   // in [0,n)
	Uint64() uint64
}

// Provider, if set, answers every draw.
var Provider Answers

// Draws counts the draws made.
var Draws int

func prov() Answers {
	if Provider != nil {
		return Provider
	}
	return native{}
}

type native struct{}

func (native) Float64() float64 { return rr.Float64() }
func (native) IntN(n int) int   { return rr.IntN(n) }
func (native) Uint64() uint64   { return rr.Uint64() }

type Source = rr.Source
type PCG = rr.PCG
type ChaCha8 = rr.ChaCha8

func NewPCG(a, b uint64) *PCG        { return rr.NewPCG(a, b) }
func NewChaCha8(s [32]byte) *ChaCha8 { return rr.NewChaCha8(s) }

// Rand draws from the same answers, whatever its source.
type Rand struct{}

func New(Source) *Rand { return &Rand{} }

func chk(ok bool, f string) {
	if !ok {
		panic("invalid argument to " + f)
	}
}
func intN(n int) int {
	Draws++
	return prov().IntN(n)
}

func (*Rand) Float64() float64 { Draws++; return prov().Float64() }
func (r *Rand) Float32() float32 {
	f := float32(r.Float64())
	if f >= 1 {
		f = math.Nextafter32(1, 0)
	}
	return f
}
func (*Rand) IntN(n int) int          { chk(n > 0, "IntN"); return intN(n) }
func (*Rand) Int64N(n int64) int64    { chk(n > 0, "Int64N"); return int64(intN(int(n))) }
func (*Rand) Int32N(n int32) int32    { chk(n > 0, "Int32N"); return int32(intN(int(n))) }
func (*Rand) UintN(n uint) uint       { chk(n > 0, "UintN"); return uint(intN(int(n))) }
func (*Rand) Uint64N(n uint64) uint64 { chk(n > 0, "Uint64N"); return uint64(intN(int(n))) }
func (*Rand) Uint32N(n uint32) uint32 { chk(n > 0, "Uint32N"); return uint32(intN(int(n))) }
func (*Rand) Uint64() uint64          { Draws++; return prov().Uint64() }
func (r *Rand) Uint32() uint32        { return uint32(r.Uint64() >> 32) }
func (r *Rand) Uint() uint            { return uint(r.Uint64()) }
func (r *Rand) Int() int              { return int(uint(r.Uint64()) << 1 >> 1) }
func (r *Rand) Int64() int64          { return int64(r.Uint64() &^ (1 << 63)) }
func (r *Rand) Int32() int32          { return int32(r.Uint64() >> 33) }
func (r *Rand) NormFloat64() float64  { return math.Sqrt2 * math.Erfinv(2*mid(r.Float64())-1) }
func (r *Rand) ExpFloat64() float64   { return -math.Log(mid(r.Float64())) }
func mid(f float64) float64           { return math.Min(math.Max(f, 1e-12), 1-1e-12) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	chk(n >= 0, "Shuffle")
	for i := n - 1; i > 0; i-- {
		swap(i, r.IntN(i+1))
	}
}
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

var g = &Rand{}

func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func IntN(n int) int                     { return g.IntN(n) }
func Int64N(n int64) int64               { return g.Int64N(n) }
func Int32N(n int32) int32               { return g.Int32N(n) }
func UintN(n uint) uint                  { return g.UintN(n) }
func Uint64N(n uint64) uint64            { return g.Uint64N(n) }
func Uint32N(n uint32) uint32            { return g.Uint32N(n) }
func Uint64() uint64                     { return g.Uint64() }
func Uint32() uint32                     { return g.Uint32() }
func Uint() uint                         { return g.Uint() }
func Int() int                           { return g.Int() }
func Int64() int64                       { return g.Int64() }
func Int32() int32                       { return g.Int32() }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func Perm(n int) []int                   { return g.Perm(n) }

type intType interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func N[Int intType](n Int) Int {
	chk(n > 0, "N")
	return Int(intN(int(n)))
}
