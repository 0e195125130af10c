package main

import (
	crand "crypto/rand"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// recorder collects per-shard statistics.
type recorder struct {
	id, sub    string
	evals      int
	nontrivial map[uint64]bool
	classes    map[string]int
	samples    []string
	max        map[string]float64
	frozen     bool
	began      atomic.Int64 // when the running case began
}

func newRecorder(id, sub string) *recorder {
	return &recorder{id: id, sub: sub, nontrivial: map[uint64]bool{}, classes: map[string]int{}, max: map[string]float64{}}
}

func (r *recorder) result() result {
	res := result{Evals: r.evals, Classes: r.classes, Samples: r.samples, Max: r.max}
	for h := range r.nontrivial {
		res.Nontrivial = append(res.Nontrivial, h)
	}
	return res
}

// C is the per-case handle: a rapid.T plus a description of the case.
type C struct {
	*rapid.T
	desc    strings.Builder
	classes []string
	nontriv bool
	max     map[string]float64
	rec     *recorder
	evict   []func()
	skipped bool
	small   bool // the ring is small: many parties are affordable
	atLeast int  // least ring degree (log) of the case: in a ring of degree 16 encryption randomness is zero, or repeats, often enough to be seen
	kept    map[string]interface{}
}

func (r *recorder) wrap(prop func(*C)) func(*rapid.T) {
	return func(t *rapid.T) {
		c := &C{T: t, max: map[string]float64{}, rec: r}
		r.began.Store(time.Now().UnixNano())
		defer r.began.Store(0)
		ok := false
		defer func() {
			if !ok || t.Failed() {
				// drop cached contexts so that a damaged one cannot leak into the next run
				for _, f := range c.evict {
					f()
				}
				if !c.skipped {
					r.frozen = true
				}
			}
		}()
		prop(c)
		ok = true
		if r.frozen || t.Failed() {
			return
		}
		r.evals++
		for _, k := range c.classes {
			r.classes[k]++
		}
		for k, v := range c.max {
			if v > r.max[k] {
				r.max[k] = v
			}
		}
		if c.nontriv {
			d := c.desc.String()
			r.nontrivial[hash64(d)] = true
			if len(r.samples) < 4 {
				if len(d) > 600 {
					d = d[:600] + "..."
				}
				r.samples = append(r.samples, d)
			}
		}
	}
}

// harnessBug is set when the harness itself (not the code under test) is at fault.
var harnessBug string

// Harness aborts the worker with an infrastructure error (never a violation).
func Harness(f string, a ...any) {
	harnessBug = fmt.Sprintf(f, a...)
	panic("harness: " + harnessBug)
}

// Discard drops the case as out of domain.
func (c *C) Discard(why string) {
	c.skipped = true
	c.T.Skip(why)
}

func (c *C) Note(f string, a ...any)  { fmt.Fprintf(&c.desc, f+" ", a...) }
func (c *C) Class(f string, a ...any) { c.classes = append(c.classes, fmt.Sprintf(f, a...)) }
func (c *C) Nontrivial(b bool)        { c.nontriv = c.nontriv || b }
func (c *C) Max(k string, v float64) {
	if v > c.max[k] {
		c.max[k] = v
	}
}

func (c *C) Int(label string, lo, hi int) int {
	v := rapid.IntRange(lo, hi).Draw(c.T, label)
	c.Note("%s=%d", label, v)
	return v
}

// Idx draws without noting it.
func (c *C) Idx(label string, n int) int { return rapid.IntRange(0, n-1).Draw(c.T, label) }

func (c *C) Bool(label string) bool {
	v := rapid.Bool().Draw(c.T, label)
	if v {
		c.Note("%s", label)
	}
	return v
}

// OneIn is true with probability about 1/n.
func (c *C) OneIn(label string, n int) bool {
	v := rapid.IntRange(0, n-1).Draw(c.T, label) == n-1
	if v {
		c.Note("%s", label)
	}
	return v
}

func (c *C) Seed(label string) uint64 {
	v := rapid.Uint64().Draw(c.T, label)
	c.Note("%s=%x", label, v)
	return v
}

func pick[V any](c *C, label string, vs []V) V {
	i := rapid.IntRange(0, len(vs)-1).Draw(c.T, label)
	c.Note("%s=%v", label, vs[i])
	return vs[i]
}

func (c *C) Float(label string, lo, hi float64) float64 {
	v := rapid.Float64Range(lo, hi).Draw(c.T, label)
	c.Note("%s=%g", label, v)
	return v
}

// seedCrypto makes all library randomness a function of the given values.
func seedCrypto(parts ...interface{}) {
	var k [32]byte
	h := mixSeed(parts...)
	binary.LittleEndian.PutUint64(k[:], h)
	copy(k[8:], fmt.Sprint(parts...))
	crand.Reader = rand.NewChaCha8(k)
}

// prng is a deterministic generator for bulk data (message vectors) keyed by drawn values.
func prng(parts ...interface{}) *rand.Rand {
	h := mixSeed(parts...)
	return rand.New(rand.NewPCG(h, h^0xdeadbeefcafef00d))
}

// mustPanic reports whether f panicked, and with what.
func panics(f func()) (p bool, v any) {
	defer func() {
		if e := recover(); e != nil {
			p, v = true, e
		}
	}()
	f()
	return
}
