// Package rand replaces math/rand in simulated code; the simulator's decisions are the source.
package rand

import "gevsim/core"

func u() uint64 {
	return uint64(core.Choose("rand", 1000, 1<<62))
}
func Seed(int64)     {}
func Int() int       { return int(u()) }
func Int63() int64   { return int64(u()) }
func Int31() int32   { return int32(u() >> 31) }
func Uint32() uint32 { return uint32(u()) }
func Uint64() uint64 { return u()<<2 ^ u() }
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(u() % uint64(n))
}
func Int63n(n int64) int64 { return int64(u() % uint64(n)) }
func Int31n(n int32) int32 { return int32(u() % uint64(n)) }
func Float64() float64     { return float64(u()>>9) / (1 << 53) }
func Float32() float32     { return float32(u()>>38) / (1 << 24) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
func Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(u())
	}
	return len(b), nil
}

type Source interface {
	Int63() int64
	Seed(int64)
}
type src struct{}

func (src) Int63() int64     { return Int63() }
func (src) Seed(int64)       {}
func NewSource(int64) Source { return src{} }

type Rand struct{}

func New(Source) *Rand                   { return &Rand{} }
func (*Rand) Int() int                   { return Int() }
func (*Rand) Intn(n int) int             { return Intn(n) }
func (*Rand) Int63() int64               { return Int63() }
func (*Rand) Int63n(n int64) int64       { return Int63n(n) }
func (*Rand) Int31n(n int32) int32       { return Int31n(n) }
func (*Rand) Uint32() uint32             { return Uint32() }
func (*Rand) Float64() float64           { return Float64() }
func (*Rand) Perm(n int) []int           { return Perm(n) }
func (*Rand) Read(b []byte) (int, error) { return Read(b) }
