package main

import (
	"fmt"
	"math/big"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"

	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

// ---------------------------------------------------------------- primes and rings

type primeKey struct{ bits, n int }

var primeCache = map[primeKey][]uint64{}

// primesOf lists NTT-friendly primes of about the given size for degree n.
func primesOf(bits, n int) []uint64 {
	k := primeKey{bits, n}
	if p := primeCache[k]; p != nil {
		return p
	}
	p := ring.GenerateNTTPrimes(bits, 2*n, 24)
	primeCache[k] = p
	return p
}

// primeCount is usually small, now and then as large as real parameter sets have it.
func primeCount(c *C, label string) int {
	if c.Idx(label+".many", 16) == 15 {
		return 7 + c.Idx(label, 18)
	}
	return 1 + c.Idx(label, 6)
}

// sigmaOf is the error deviation of a configuration: the part of its name after "~", else the default.
func sigmaOf(name string) float64 {
	if _, s, ok := strings.Cut(name, "~"); ok {
		v, err := strconv.ParseFloat(s, 64)
		if err != nil {
			Harness("configuration %s", name)
		}
		return v
	}
	return rlwe.DefaultSigma
}

var primeSizes = []int{22, 30, 36, 45, 50, 55, 58, 60}

// drawPrimes draws distinct primes, none of them in used (which is updated).
func drawPrimes(c *C, label string, cnt, n int, used map[uint64]bool) []uint64 {
	uniform := c.Bool(label + ".uniform")
	bits := pick(c, label+".bits", primeSizes)
	var r []uint64
	for len(r) < cnt {
		if !uniform && len(r) > 0 {
			bits = pick(c, label+".bits", primeSizes)
		}
		list := primesOf(bits, n)
		i := c.Idx(label+".p", len(list))
		for k := 0; ; k++ {
			if k == len(list) {
				bits = primeSizes[(sort.SearchInts(primeSizes, bits)+1)%len(primeSizes)]
				break
			}
			p := list[(i+k)%len(list)]
			if !used[p] {
				used[p] = true
				r = append(r, p)
				break
			}
		}
	}
	c.Note("%s=%d", label, r)
	return r
}

var ringCache = map[string]*ring.Ring{}

func ringOf(n int, q []uint64) *ring.Ring {
	k := fmt.Sprint(n, q)
	if r := ringCache[k]; r != nil {
		return r
	}
	r, err := ring.NewRing(n, q)
	if err != nil {
		Harness("ring %d %v: %v", n, q, err)
	}
	if len(ringCache) > 500 {
		ringCache = map[string]*ring.Ring{}
	}
	ringCache[k] = r
	return r
}

var crtCache = map[string]*crt{}

func crtOf(q []uint64) *crt {
	k := fmt.Sprint(q)
	if r := crtCache[k]; r != nil {
		return r
	}
	if len(crtCache) > 2000 {
		crtCache = map[string]*crt{}
	}
	r := newCRT(q)
	crtCache[k] = r
	return r
}

// bigRand is uniform in [0, m).
func bigRand(r *rand.Rand, m *big.Int) *big.Int {
	words := make([]big.Word, len(m.Bits())+1)
	for i := range words {
		words[i] = big.Word(r.Uint64())
	}
	v := new(big.Int).SetBits(words)
	return v.Mod(v, m)
}

// edgeInts draws n integers in [0, m): random ones and ones at the edges of the range.
func edgeInts(c *C, label string, n int, m *big.Int, primes []uint64) []*big.Int {
	kind := pick(c, label+".kind", []string{"uniform", "edges", "mixed", "zero", "const", "small"})
	r := prng(label, c.Seed(label+".seed"))
	out := make([]*big.Int, n)
	edge := func() *big.Int {
		v := new(big.Int)
		switch r.IntN(9) {
		case 0:
		case 1:
			v.SetInt64(int64(r.IntN(4)))
		case 2:
			v.Sub(m, big.NewInt(int64(1+r.IntN(4))))
		case 3:
			v.Rsh(m, 1)
			v.Add(v, big.NewInt(int64(r.IntN(5))-2))
		case 4: // multiples of a prime
			p := new(big.Int).SetUint64(primes[r.IntN(len(primes))])
			v.Mul(bigRand(r, m), p)
		case 5: // one less than a multiple of a prime
			p := new(big.Int).SetUint64(primes[r.IntN(len(primes))])
			v.Mul(bigRand(r, m), p).Sub(v, big.NewInt(1))
		case 6: // about k/len of the range
			v.Div(m, big.NewInt(int64(2+r.IntN(6))))
		case 7:
			v.Lsh(big.NewInt(1), uint(r.IntN(m.BitLen())))
		default: // within 2^-60..2^-1 of either end
			v.Rsh(bigRand(r, m), uint(r.IntN(70)))
			if r.IntN(2) == 0 {
				v.Sub(m, v)
			}
		}
		return v.Mod(v, m)
	}
	k := bigRand(r, m)
	for i := range out {
		switch {
		case kind == "zero":
			out[i] = new(big.Int)
		case kind == "const":
			out[i] = new(big.Int).Set(k)
		case kind == "small":
			out[i] = new(big.Int).SetUint64(uint64(r.IntN(1000)))
			out[i].Mod(out[i], m)
		case kind == "edges" || kind == "mixed" && r.IntN(2) == 0:
			out[i] = edge()
		default:
			out[i] = bigRand(r, m)
		}
	}
	return out
}

func setPoly(p *ring.Poly, v []*big.Int, q []uint64) {
	for i, qi := range q {
		b := new(big.Int).SetUint64(qi)
		t := new(big.Int)
		for j := range v {
			p.Coeffs[i][j] = t.Mod(v[j], b).Uint64()
		}
	}
}

// rows of a polynomial, fully reduced.
func rowsOf(p *ring.Poly, q []uint64) [][]uint64 {
	out := make([][]uint64, len(q))
	for i, qi := range q {
		out[i] = make([]uint64, len(p.Coeffs[i]))
		for j, v := range p.Coeffs[i] {
			out[i][j] = v % qi
		}
	}
	return out
}

func polyEq(a, b *ring.Poly, q []uint64) bool {
	x, y := rowsOf(a, q), rowsOf(b, q)
	for i := range x {
		for j := range x[i] {
			if x[i][j] != y[i][j] {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- generic parameter sets

type rCfg struct {
	name  string
	logN  int
	bQ    []int
	bP    []int
	gamma int
}

func (c rCfg) String() string { return c.name }

// generic parameter sets; special primes are at least as large as ciphertext primes.
var rCfgs = []rCfg{
	{"r4", 4, []int{50, 40, 40}, []int{50, 50}, 2},
	{"r4q1", 4, []int{55}, []int{55, 55}, 2},
	{"r5p4", 5, rep(6, 45), rep(4, 50), 2},
	{"r5p4q7", 5, rep(7, 45), rep(4, 50), 2}, // partial last block
	{"r4p3", 4, rep(5, 45), rep(3, 55), 2},
	{"r5p5", 5, rep(5, 45), rep(5, 55), 2},
	{"r4p6", 4, rep(7, 40), rep(6, 45), 2},
	{"r4p8", 4, rep(6, 45), rep(8, 50), 2},
	{"r6", 6, cat([]int{60}, rep(4, 36)), rep(2, 60), 2},
	{"r4g1", 4, rep(4, 45), rep(2, 55), 1},
	{"r4g1p1", 4, rep(3, 45), []int{55}, 1},
	{"r5g3", 5, rep(5, 40), rep(6, 45), 3},
	{"r4mix", 4, []int{60, 30, 45, 30, 50, 36}, rep(4, 60), 2},
	{"r7", 7, rep(4, 50), rep(4, 55), 2},
	{"r4p2q8", 4, rep(8, 55), rep(2, 60), 2},
	{"r4q13", 4, rep(13, 45), rep(2, 60), 2},
	{"r4q20p6", 4, rep(20, 40), rep(6, 45), 2},
	{"r4q20p16", 4, rep(20, 36), rep(16, 40), 2},
	{"r4q21", 4, rep(21, 60), rep(2, 60), 2},
	{"r4~11.5", 4, []int{50, 40, 40}, []int{50, 50}, 2},
	{"r5p4~1", 5, rep(6, 45), rep(4, 50), 2},
}

var rCfgsMid = []rCfg{
	{"r9", 9, rep(5, 45), rep(4, 50), 2},
	{"r10", 10, rep(4, 50), rep(2, 55), 2},
}

type rctx struct {
	cfg    rCfg
	params mkrlwe.Parameters
	Q, P   []uint64
	n      int
	sks    map[string]*mkrlwe.SecretKey
	pks    map[string]*mkrlwe.PublicKey
	swks   map[string]*mkrlwe.SwitchingKey
	keys   *rKeys
}

var rCache = map[string]*rctx{}

func rParamsOf(cfg rCfg) rlwe.Parameters {
	n := 1 << cfg.logN
	used := map[uint64]bool{}
	take := func(bits []int) []uint64 {
		var r []uint64
		for _, b := range bits {
			for _, p := range primesOf(b, n) {
				if !used[p] {
					used[p] = true
					r = append(r, p)
					break
				}
			}
		}
		return r
	}
	P := take(cfg.bP)
	Q := take(cfg.bQ)
	p, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: cfg.logN, Q: Q, P: P, Sigma: sigmaOf(cfg.name)})
	if err != nil {
		Harness("parameters %s: %v", cfg.name, err)
	}
	return p
}

func newR(cfg rCfg, tag string) *rctx {
	x := &rctx{cfg: cfg, sks: map[string]*mkrlwe.SecretKey{}, pks: map[string]*mkrlwe.PublicKey{}, swks: map[string]*mkrlwe.SwitchingKey{}}
	seedCrypto("r-params", cfg.name, tag)
	x.params = mkrlwe.NewParameters(rParamsOf(cfg), cfg.gamma)
	x.Q, x.P, x.n = x.params.Q(), x.params.P(), x.params.N()
	return x
}

func getR(c *C, cfg rCfg) *rctx {
	if cfg.logN < c.atLeast {
		cfg.name, cfg.logN = fmt.Sprintf("%d^%s", c.atLeast, cfg.name), c.atLeast
	}
	c.evict = append(c.evict, func() { delete(rCache, cfg.name) })
	c.small = cfg.logN <= 6
	if x := rCache[cfg.name]; x != nil {
		return x
	}
	x := newR(cfg, "")
	if len(rCache) > 100 {
		rCache = map[string]*rctx{}
	}
	rCache[cfg.name] = x
	return x
}

func drawR(c *C) *rctx {
	if useFamily(c) {
		return getR(c, genR(drawFamily(c)))
	}
	if c.Idx("mid", 80) == 79 {
		return getR(c, pick(c, "cfg", rCfgsMid))
	}
	return getR(c, pick(c, "cfg", rCfgs))
}

func (x *rctx) sk(name string) *mkrlwe.SecretKey {
	if x.sks[name] == nil {
		seedCrypto("r-party", x.cfg.name, name)
		x.sks[name], x.pks[name] = mkrlwe.NewKeyGenerator(x.params).GenKeyPair(name)
	}
	return x.sks[name]
}

func (x *rctx) pk(name string) *mkrlwe.PublicKey { x.sk(name); return x.pks[name] }

// block is the list of primes of gadget component i at a level.
func (x *rctx) block(i, level int) []uint64 {
	a := x.params.PCount() / x.cfg.gamma
	hi := (i + 1) * a
	if hi > level+1 {
		hi = level + 1
	}
	return x.Q[i*a : hi]
}

func (x *rctx) beta(level int) int {
	a := x.params.PCount() / x.cfg.gamma
	return (level + a) / a
}

// ternary or other small secret as integers, from its representation (Montgomery, NTT) modulo q_0.
func skInts(n int, Q, P []uint64, sk *mkrlwe.SecretKey) ([]*big.Int, string) {
	return smallInts(n, Q, P, sk.Value.Q, sk.Value.P, true, true)
}

// smallInts undoes NTT and Montgomery form modulo every prime and returns the centred integers;
// the message is non-empty if the residues do not belong to one integer polynomial that is small
// against half of the smallest prime.
func smallInts(n int, Q, P []uint64, pq, pp *ring.Poly, ntt, mform bool) ([]*big.Int, string) {
	all := append(append([]uint64(nil), Q...), P...)
	rows := plainRows(n, Q, P, pq, pp, ntt, mform)
	v := crtOf(all).polyCentered(rows)
	for j := range v {
		for i, q := range all {
			// a small integer looks the same modulo each single prime
			w := int64(rows[i][j])
			if rows[i][j] > q/2 {
				w -= int64(q)
			}
			if !v[j].IsInt64() || v[j].Int64() != w {
				return v, fmt.Sprintf("coefficient %d is %v over all primes but %d modulo %d", j, v[j], w, q)
			}
		}
	}
	return v, ""
}

// plainRows undoes NTT and Montgomery form; P may be empty.
func plainRows(n int, Q, P []uint64, pq, pp *ring.Poly, ntt, mform bool) [][]uint64 {
	do := func(p *ring.Poly, q []uint64) [][]uint64 {
		r := ringOf(n, q)
		t := r.NewPoly()
		for i := range q {
			copy(t.Coeffs[i], p.Coeffs[i])
		}
		r.Reduce(t, t)
		if mform {
			r.InvMForm(t, t)
		}
		if ntt {
			r.InvNTT(t, t)
		}
		return t.Coeffs
	}
	out := do(pq, Q)
	if len(P) > 0 {
		out = append(append([][]uint64(nil), out...), do(pp, P)...)
	}
	return out
}

func maxAbsBig(v []*big.Int) *big.Int {
	m := new(big.Int)
	for _, x := range v {
		if x.CmpAbs(m) > 0 {
			m.Abs(x)
		}
	}
	return m
}

func bigF(v *big.Int) float64 { f, _ := new(big.Float).SetInt(v).Float64(); return f }
