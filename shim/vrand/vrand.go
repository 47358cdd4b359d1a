// Package vrand replaces the global random sources by a seeded generator.
package vrand

import (
	"encoding/binary"
	"errors"
	"io"
	"math/rand"
	"os"
	"strconv"

	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

type src struct{}

func (src) Int63() int64   { return int64(sched.Rand64() >> 1) }
func (src) Uint64() uint64 { return sched.Rand64() }
func (src) Seed(int64)     {}

func r() *rand.Rand { return rand.New(src{}) }

func Int63() int64                       { return int64(sched.Rand64() >> 1) }
func Int() int                           { return int(sched.Rand64() >> 1) }
func Int31() int32                       { return int32(sched.Rand64() >> 33) }
func Uint32() uint32                     { return uint32(sched.Rand64() >> 32) }
func Uint64() uint64                     { return sched.Rand64() }
func Int64() int64                       { return Int63() }
func Int32() int32                       { return Int31() }
func Int63n(n int64) int64               { return r().Int63n(n) }
func Int31n(n int32) int32               { return r().Int31n(n) }
func Int64N(n int64) int64               { return r().Int63n(n) }
func Int32N(n int32) int32               { return r().Int31n(n) }
func Uint64N(n uint64) uint64            { return sched.Rand64() % n }
func Uint32N(n uint32) uint32            { return uint32(sched.Rand64()>>32) % n }
func Intn(n int) int                     { return r().Intn(n) }
func IntN(n int) int                     { return r().Intn(n) }
func Float64() float64                   { return r().Float64() }
func Float32() float32                   { return r().Float32() }
func ExpFloat64() float64                { return r().ExpFloat64() }
func NormFloat64() float64               { return r().NormFloat64() }
func Perm(n int) []int                   { return r().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r().Shuffle(n, swap) }
func Seed(int64)                         {}

// Read is math/rand.Read.
func Read(p []byte) (int, error) {
	fill(p)
	return len(p), nil
}

func fill(p []byte) {
	for len(p) >= 8 {
		binary.BigEndian.PutUint64(p, sched.Rand64())
		p = p[8:]
	}
	for i := range p {
		p[i] = byte(sched.Rand64())
	}
}

// CryptoRead is crypto/rand.Read. VERIF_CSEED picks its answers: a pattern
// byte, a seed, or failure.
func CryptoRead(p []byte) (int, error) {
	switch s := os.Getenv("VERIF_CSEED"); {
	case s == "":
		fill(p)
	case s == "fail":
		return 0, errors.New("no entropy")
	case s[0] == 'x':
		n, _ := strconv.ParseUint(s[1:], 16, 8)
		for i := range p {
			p[i] = byte(n)
		}
	default:
		n, _ := strconv.ParseUint(s, 10, 64)
		for i := uint64(0); i < n; i++ {
			sched.Rand64()
		}
		fill(p)
	}
	return len(p), nil
}

type reader struct{}

func (reader) Read(p []byte) (int, error) { return CryptoRead(p) }

var Reader io.Reader = reader{}
