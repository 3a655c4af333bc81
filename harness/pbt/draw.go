// Package pbt is a small property-based testing engine: tape-driven generation, out-of-process
// execution of cases, tape shrinking, replay and evidence accounting.
package pbt

import (
	"fmt"
	"math/rand/v2"
)

// D is the source of every random choice of a case. Drawn values are recorded on a tape;
// a tape can be replayed, and shrinking edits the tape. Zero is always the simplest choice.
type D struct {
	tape   []uint64
	replay bool
	pos    int
	rng    *rand.Rand
	Rec    []uint64
}

// NewD returns a generator of fresh choices for (seed, stream, index).
func NewD(seed uint64, stream string, index uint64) *D {
	h := uint64(1469598103934665603)
	for _, c := range []byte(stream) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return &D{rng: rand.New(rand.NewPCG(seed*0x9e3779b97f4a7c15+h, index*0xd1342543de82ef95+1))}
}

// ReplayD returns a generator that replays a tape; choices beyond its end are zero.
func ReplayD(tape []uint64) *D { return &D{tape: tape, replay: true} }

// N draws from [0,n).
func (d *D) N(n int) int {
	if n <= 1 {
		d.Rec = append(d.Rec, 0)
		d.pos++
		return 0
	}
	var v uint64
	if d.replay {
		if d.pos < len(d.tape) {
			v = d.tape[d.pos] % uint64(n)
		}
	} else {
		v = d.rng.Uint64N(uint64(n))
	}
	d.pos++
	d.Rec = append(d.Rec, v)
	return int(v)
}

// U64 draws any 64-bit value (as a seed or as data).
func (d *D) U64() uint64 {
	var v uint64
	if d.replay {
		if d.pos < len(d.tape) {
			v = d.tape[d.pos]
		}
	} else {
		v = d.rng.Uint64()
	}
	d.pos++
	d.Rec = append(d.Rec, v)
	return v
}

// Int draws from [lo,hi]; lo is simplest.
func (d *D) Int(lo, hi int) int { return lo + d.N(hi-lo+1) }

// P is true with probability num/den; false is simplest.
func (d *D) P(num, den int) bool { return d.N(den) >= den-num }

// Bool is a fair coin.
func (d *D) Bool() bool { return d.N(2) == 1 }

// W draws an index by weight; index 0 is simplest.
func (d *D) W(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	v := d.N(t)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Pick draws one of the options; the first is simplest.
func Pick[T any](d *D, xs ...T) T { return xs[d.N(len(xs))] }

// Skew draws from [0,max], small values much more likely.
func (d *D) Skew(max int) int {
	if max <= 0 {
		d.N(1)
		return 0
	}
	switch d.W(5, 3, 1) {
	case 0:
		return d.N(min(max, 4) + 1)
	case 1:
		return d.N(min(max, 24) + 1)
	}
	return d.N(max + 1)
}

// Bytes draws a byte string of length up to max with skewed length; contents from a sub-seed.
func (d *D) Bytes(max int) []byte { return d.BytesN(d.Skew(max)) }

// BytesN draws n bytes; small n draw a pattern, content is derived from one choice.
func (d *D) BytesN(n int) []byte {
	b := make([]byte, n)
	mode := d.W(3, 2, 1)
	s := d.N(1 << 30)
	r := rand.New(rand.NewPCG(uint64(s), 7))
	switch mode {
	case 0: // letters
		for i := range b {
			b[i] = 'a' + byte((s+i*7)%26)
		}
	case 1: // random
		for i := range b {
			b[i] = byte(r.Uint32())
		}
	case 2: // extreme bytes
		for i := range b {
			b[i] = []byte{0, 0xff, 0x80, 0x7f}[r.IntN(4)]
		}
	}
	return b
}

// Str draws a printable string of length up to max (may be empty).
func (d *D) Str(max int) string {
	var s []rune
	for _, b := range d.Bytes(max) {
		if b < 250 {
			s = append(s, rune(' '+b%95))
		} else {
			s = append(s, []rune("é主😀ßñ\u00a0")[b-250])
		}
	}
	return string(s)
}

// Name draws a Kafka-legal non-empty name.
func (d *D) Name(max int) string {
	const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-"
	n := 1 + d.Skew(max-1)
	s := d.N(1 << 30)
	r := rand.New(rand.NewPCG(uint64(s), 9))
	b := make([]byte, n)
	for i := range b {
		b[i] = al[r.IntN(len(al))]
	}
	if s == 0 {
		for i := range b {
			b[i] = 'a'
		}
	}
	if string(b) == "." || string(b) == ".." {
		return fmt.Sprintf("t%d", s)
	}
	return string(b)
}

// Rng derives a run-time random stream from one choice.
func (d *D) Rng() *rand.Rand { return rand.New(rand.NewPCG(uint64(d.N(1<<30)), 3)) }

// Perm draws a permutation.
func (d *D) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + d.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
