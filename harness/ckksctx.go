package main

import (
	"fmt"
	"math"
	"math/cmplx"
	"sort"
	"strings"

	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
)

// ---------------------------------------------------------------- configurations

type ckksCfg struct {
	name     string
	logN     int
	logQ     []int
	logP     []int
	logSlots int
	logScale int
}

func (c ckksCfg) String() string { return c.name }

func rep(n, v int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = v
	}
	return r
}

func cat(a ...[]int) []int {
	var r []int
	for _, x := range a {
		r = append(r, x...)
	}
	return r
}

// small rings, chosen so that every shape of the gadget occurs: alpha 1..4, full and partial last
// block, odd number of special primes, one-prime and two-prime ciphertext moduli, sparse packing,
// rescaling by several primes at once.
var ckksSmall = []ckksCfg{
	{"n4", 4, []int{50, 40, 40}, []int{50, 50}, 3, 40},
	{"n5", 5, cat([]int{55}, rep(5, 40)), []int{45, 45}, 4, 40},
	{"n5p4", 5, cat([]int{60}, rep(6, 45)), rep(4, 50), 4, 45},
	{"n6sp", 6, cat([]int{55}, rep(3, 40)), []int{50, 50}, 2, 40},
	{"n5p3", 5, cat([]int{55}, rep(4, 45)), []int{55, 55, 55}, 4, 45},
	{"n4multi", 4, cat([]int{60}, rep(7, 30)), []int{60, 60}, 3, 60},
	{"n6p6", 6, cat([]int{55}, rep(6, 45)), rep(6, 50), 5, 45},
	{"n4q2", 4, []int{60, 45}, []int{60, 60}, 3, 45},
	{"n4q1", 4, []int{60}, []int{60, 60}, 3, 40},
	{"n5p5", 5, cat([]int{55}, rep(4, 45)), rep(5, 55), 4, 45},
	{"n4p8", 4, cat([]int{55}, rep(5, 45)), rep(8, 50), 1, 45},
	{"n7", 7, cat([]int{55}, rep(4, 45)), rep(4, 50), 6, 45},
	{"n4q15", 4, cat([]int{55}, rep(14, 40)), []int{55, 55}, 3, 40},
	{"n4q22", 4, cat([]int{50}, rep(21, 30)), []int{60, 60}, 3, 35},
	{"n4q11", 4, rep(11, 60), []int{60, 60}, 3, 45},
	{"n5p4~9", 5, cat([]int{60}, rep(5, 45)), rep(4, 50), 4, 45},
}

var ckksMid = []ckksCfg{
	{"n9", 9, cat([]int{55}, rep(4, 45)), rep(4, 50), 8, 45},
	{"n10", 10, cat([]int{55}, rep(3, 45)), rep(2, 50), 9, 45},
}

var ckksLarge = []ckksCfg{
	{"n12", 12, cat([]int{55}, rep(4, 45)), rep(4, 50), 11, 45},
	{"n13", 13, cat([]int{55}, rep(3, 45)), rep(2, 50), 12, 45},
	{"n14sp", 14, cat([]int{55}, rep(4, 50)), rep(4, 55), 5, 50},
	{"n16", 16, []int{55, 45}, []int{55, 55}, 15, 45},
}

// ---------------------------------------------------------------- contexts

type ckksParty struct {
	name string
	sk   *mkrlwe.SecretKey
	pk   *mkrlwe.PublicKey
	r    *mkrlwe.SecretKey
	rlk  *mkrlwe.RelinearizationKey
	cjk  *mkrlwe.ConjugationKey
	rot  map[int]*mkrlwe.RotationKey
}

type ckksCtx struct {
	cfg     ckksCfg
	variant int
	params  mkckks.Parameters
	extra   []int // additional rotation amounts with their own CRS
	parties map[string]*ckksParty
	svar    float64
	encPar  ckks.Parameters
	encoder ckks.Encoder
}

var ckksCache = map[string]*ckksCtx{}

func ckksParamsOf(cfg ckksCfg) ckks.Parameters {
	p, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{
		LogN: cfg.logN, LogQ: cfg.logQ, LogP: cfg.logP, Sigma: sigmaOf(cfg.name),
		LogSlots: cfg.logSlots, Scale: math.Exp2(float64(cfg.logScale)),
	})
	if err != nil {
		Harness("parameters %s: %v", cfg.name, err)
	}
	return p
}

// extraRots are the dedicated rotation amounts of variant 1.
func extraRots(n2 int) []int {
	set := map[int]bool{}
	for _, k := range []int{3, n2 - 1, n2 / 2, 5, 6, n2/2 + 1} {
		k %= n2
		if k > 0 && k&(k-1) != 0 {
			set[k] = true
		}
	}
	var r []int
	for k := range set {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func getCkks(c *C, cfg ckksCfg, variant int) *ckksCtx {
	if cfg.logN < c.atLeast {
		cfg.name, cfg.logN = fmt.Sprintf("%d^%s", c.atLeast, cfg.name), c.atLeast
	}
	key := fmt.Sprintf("%s/%d", cfg.name, variant)
	c.small = cfg.logN <= 6
	c.evict = append(c.evict, func() { delete(ckksCache, key) })
	if x := ckksCache[key]; x != nil {
		return x
	}
	x := newCkks(cfg, variant)
	if len(ckksCache) > 80 {
		ckksCache = map[string]*ckksCtx{}
	}
	ckksCache[key] = x
	return x
}

func newCkks(cfg ckksCfg, variant int) *ckksCtx {
	x := &ckksCtx{cfg: cfg, variant: variant, parties: map[string]*ckksParty{}, svar: 0.5}
	x.encPar = ckksParamsOf(cfg)
	seedCrypto("ckks-params", cfg.name, variant)
	x.params = mkckks.NewParameters(x.encPar)
	if variant >= 1 {
		x.extra = extraRots(x.params.N() / 2)
		if variant == 2 {
			x.extra = cnnRots(x.params.N() / 2)
		}
		for _, k := range x.extra {
			x.params.AddCRS(k)
		}
	}
	x.encoder = ckks.NewEncoder(x.encPar)
	return x
}

// party returns the named party; its keys depend only on (configuration, variant, name).
func (x *ckksCtx) party(name string) *ckksParty {
	if p := x.parties[name]; p != nil {
		return p
	}
	seedCrypto("ckks-party", x.cfg.name, x.variant, name)
	kg := mkckks.NewKeyGenerator(x.params)
	p := &ckksParty{name: name, rot: map[int]*mkrlwe.RotationKey{}}
	p.sk, p.pk = kg.GenKeyPair(name)
	p.r = kg.GenSecretKey(name)
	x.parties[name] = p
	return p
}

func (x *ckksCtx) rlk(name string) *mkrlwe.RelinearizationKey {
	p := x.party(name)
	if p.rlk == nil {
		seedCrypto("ckks-rlk", x.cfg.name, x.variant, name)
		p.rlk = mkckks.NewKeyGenerator(x.params).GenRelinearizationKey(p.sk, p.r)
	}
	return p.rlk
}

func (x *ckksCtx) cjk(name string) *mkrlwe.ConjugationKey {
	p := x.party(name)
	if p.cjk == nil {
		seedCrypto("ckks-cjk", x.cfg.name, x.variant, name)
		p.cjk = mkckks.NewKeyGenerator(x.params).GenConjugationKey(p.sk)
	}
	return p.cjk
}

func (x *ckksCtx) rotKey(name string, k int) *mkrlwe.RotationKey {
	p := x.party(name)
	if p.rot[k] == nil {
		seedCrypto("ckks-rot", x.cfg.name, x.variant, name, k)
		p.rot[k] = mkckks.NewKeyGenerator(x.params).GenRotationKey(k, p.sk)
	}
	return p.rot[k]
}

func (x *ckksCtx) skSet(names ...string) *mkrlwe.SecretKeySet {
	s := mkrlwe.NewSecretKeySet()
	for _, n := range names {
		s.AddSecretKey(x.party(n).sk)
	}
	return s
}

func (x *ckksCtx) rlkSet(names ...string) *mkrlwe.RelinearizationKeySet {
	s := mkrlwe.NewRelinearizationKeyKeySet(x.params.Parameters)
	for _, n := range names {
		s.AddRelinearizationKey(x.rlk(n))
	}
	return s
}

func (x *ckksCtx) cjkSet(names ...string) *mkrlwe.ConjugationKeySet {
	s := mkrlwe.NewConjugationKeySet()
	for _, n := range names {
		s.AddConjugationKey(x.cjk(n))
	}
	return s
}

// rotSet holds the power-of-two keys and the dedicated keys of the context's extra amounts.
func (x *ckksCtx) rotSet(names ...string) *mkrlwe.RotationKeySet {
	s := mkrlwe.NewRotationKeySet()
	for _, n := range names {
		for k := 1; k < x.params.N()/2; k *= 2 {
			s.AddRotationKey(x.rotKey(n, k))
		}
		for _, k := range x.extra {
			s.AddRotationKey(x.rotKey(n, k))
		}
	}
	return s
}

// party names used by all generators: ordinary ones and ones that resemble internal names.
var longName = "alice@example.org/" + strings.Repeat("long name ", 60)

var partyPool = []string{"user0", "a", "", "00", "1", "β", "-1", " 0", "user1", "user10", "A", "0x0", "user00", longName, "\x00", "b",
	longName + "2", "\u00e9", "e\u0301", "a\x00", "\xff\xfe", "user2", "user3", "USER0"}

// drawParties draws a set of at most max parties (at least min), in random order.
func drawParties(c *C, label string, min, max int) []string {
	n := c.Idx(label+".n", max-min+1) + min
	if c.small && max > 0 && c.Idx(label+".crowd", 24) == 23 {
		n = 4 + c.Idx(label+".crowdn", 9)
		if n == 12 {
			n += c.Idx(label+".throng", 9)
		}
		c.Class("more than three parties")
	}
	perm := make([]string, len(partyPool))
	copy(perm, partyPool)
	var r []string
	for i := 0; i < n; i++ {
		j := i + c.Idx(label+".i", len(perm)-i)
		perm[i], perm[j] = perm[j], perm[i]
		r = append(r, perm[i])
	}
	c.Note("%s=%q", label, r)
	return r
}

func union(a ...[]string) []string {
	m := map[string]bool{}
	for _, x := range a {
		for _, s := range x {
			m[s] = true
		}
	}
	r := make([]string, 0, len(m))
	for s := range m {
		r = append(r, s)
	}
	sort.Strings(r)
	return r
}

func sameSet(a, b []string) bool {
	x, y := union(a), union(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func idsOf(s *mkrlwe.IDSet) []string {
	var r []string
	for k := range s.Value {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func idset(names ...string) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for _, n := range names {
		s.Add(n)
	}
	return s
}

// ---------------------------------------------------------------- error model (slot domain)

type ckksNoise struct {
	N, sigma, svar float64
	P              float64
	q              []float64
	alpha          int
}

func (x *ckksCtx) noise() ckksNoise {
	nz := ckksNoise{N: float64(x.params.N()), sigma: x.params.Sigma(), svar: x.svar, P: 1, alpha: x.params.PCount() / 2}
	for _, p := range x.params.P() {
		nz.P *= float64(p)
	}
	for _, q := range x.params.Q() {
		nz.q = append(nz.q, float64(q))
	}
	return nz
}

func (z ckksNoise) es() float64 { return 7 * z.sigma * math.Sqrt(z.N) } // an error polynomial
func (z ckksNoise) ss() float64 { return 6 * math.Sqrt(z.N*z.svar) }    // a secret
func (z ckksNoise) rs() float64 { return z.N }                          // a rounding polynomial
func (z ckksNoise) digit(level int) (d float64, beta float64) {
	for i := 0; i <= level; i += z.alpha {
		m := 1.0
		for j := i; j < i+z.alpha && j <= level; j++ {
			m *= z.q[j]
		}
		d = math.Max(d, m)
		beta++
	}
	return
}

// fresh is the error of a public-key encryption (unscaled).
func (z ckksNoise) fresh() float64 {
	u := 6 * math.Sqrt(z.N/2)
	return z.es()*(u+1+z.ss()) + 4*math.Sqrt(z.N)
}

func (z ckksNoise) round(k int) float64 { return z.rs() * (1 + float64(k)*z.ss()) }

// ks is the error of one key switch of k components.
func (z ckksNoise) ks(level, k int) float64 {
	d, beta := z.digit(level)
	return float64(k)*(d*z.N/z.P)*z.es()*math.Sqrt(beta)*2 + z.round(k)
}

// mul is the error of a relinearised product of ciphertexts of k0 and k1 parties; level is that of
// the operands (the higher one: the decomposition may be taken there).
func (z ckksNoise) mul(level, k0, k1 int) float64 {
	d, beta := z.digit(level)
	pairs := float64((k0 + 1) * (k1 + 1))
	gad := (d * z.N) * (d * z.N) / z.P * z.es() * math.Sqrt(beta) * z.ss() * 2
	one := z.rs()*(1+z.ss())*(1+z.ss()) + (d*z.N/z.P)*z.es()*math.Sqrt(beta)*2
	return pairs * (gad/2 + 2*one)
}

// ---------------------------------------------------------------- tracked ciphertexts

type tct struct {
	ct    *mkckks.Ciphertext
	val   []complex128
	eps   float64
	scale float64
	level int
	ids   []string
}

func maxAbs(v []complex128) float64 {
	m := 0.0
	for _, x := range v {
		m = math.Max(m, cmplx.Abs(x))
	}
	return m
}

func (x *ckksCtx) flt(m float64) float64 {
	return m * math.Exp2(-44) * math.Sqrt(float64(x.params.N()))
}

func (x *ckksCtx) logQ(level int) float64 {
	s := 0.0
	for _, q := range x.params.Q()[:level+1] {
		s += math.Log2(float64(q))
	}
	return s
}

// cap is the largest slot magnitude that safely fits at the given level and scale.
func (x *ckksCtx) cap(level int, scale float64) float64 {
	return math.Exp2(x.logQ(level) - 3 - math.Log2(scale))
}

func (x *ckksCtx) fits(level int, scale, m float64) bool {
	if math.IsNaN(m) || math.IsInf(m, 0) || scale < 1 {
		return false
	}
	return m < x.cap(level, scale)
}

func (t *tct) fits(x *ckksCtx) bool {
	return x.fits(t.level, t.scale, maxAbs(t.val)+t.eps)
}

// ---------------------------------------------------------------- messages

var msgKinds = []string{"zero", "one", "unit", "real", "imag", "complex", "ramp", "big", "tiny", "mixed"}

func genMsg(c *C, label string, slots int, max float64) []complex128 {
	kind := pick(c, label+".kind", msgKinds)
	return msgOf(c, label, kind, slots, max)
}

func msgOf(c *C, label, kind string, slots int, max float64) []complex128 {
	v := make([]complex128, slots)
	one := math.Min(1, max)
	switch kind {
	case "zero":
		return v
	case "one":
		for i := range v {
			v[i] = complex(one, 0)
		}
		return v
	case "unit":
		v[c.Idx(label+".pos", slots)] = complex(one, 0)
		return v
	case "ramp":
		for i := range v {
			v[i] = complex(one*float64(i+1)/float64(slots), -one*float64(i)/float64(slots))
		}
		return v
	}
	r := prng(label, c.Seed(label+".seed"))
	u := func() float64 { return 2*r.Float64() - 1 }
	for i := range v {
		switch kind {
		case "real":
			v[i] = complex(one*u(), 0)
		case "imag":
			v[i] = complex(0, one*u())
		case "complex":
			v[i] = complex(one*u(), one*u()) / 2
		case "big":
			v[i] = complex(max*u(), max*u()) / 2
		case "tiny":
			v[i] = complex(one*u(), one*u()) * complex(math.Exp2(-float64(r.IntN(60))), 0) / 2
		case "mixed":
			if r.IntN(2) == 0 {
				v[i] = complex(max*u(), max*u()) / 2 * complex(math.Pow(r.Float64(), 8), 0)
			} else {
				v[i] = complex(float64(r.IntN(3)-1)*one, 0)
			}
		}
	}
	return v
}

func clone(v []complex128) []complex128 { return append([]complex128(nil), v...) }

// ---------------------------------------------------------------- making ciphertexts without the evaluator

// encode is the trusted encoder of the underlying library.
func (x *ckksCtx) encode(v []complex128, level int, scale float64, ntt bool) *ckks.Plaintext {
	pt := ckks.NewPlaintext(x.encPar, level, scale)
	if ntt {
		x.encoder.EncodeNTT(pt, v, x.cfg.logSlots)
	} else {
		x.encoder.Encode(pt, v, x.cfg.logSlots)
	}
	return pt
}

// fresh encrypts v for the given parties (each holding a random share) at a level and scale.
// It uses the library's encryptor for the shares and adds them up itself.
func (x *ckksCtx) fresh(enc *mkckks.Encryptor, v []complex128, names []string, level int, scale float64, shareSeed uint64) *tct {
	t := &tct{val: clone(v), scale: scale, level: level, ids: union(names)}
	slots := len(v)
	acc := mkckks.NewCiphertext(x.params, idset(names...), level, scale)
	rest := clone(v)
	m := math.Max(maxAbs(v), 1e-9)
	r := prng("share", shareSeed)
	z := x.noise()
	if len(names) == 0 {
		pt := x.encode(v, level, scale, false)
		addTo(x.params, acc.Value["0"], pt.Value, level)
		t.eps = 4*math.Sqrt(z.N)/scale + x.flt(m)
		t.ct = acc
		return t
	}
	var pt *ckks.Plaintext
	for i, n := range names {
		share := rest
		if i < len(names)-1 {
			share = make([]complex128, slots)
			for j := range share {
				share[j] = complex(m*(2*r.Float64()-1), m*(2*r.Float64()-1)) / 4
				rest[j] -= share[j]
			}
		}
		ct := mkckks.NewCiphertext(x.params, idset(n), level, scale)
		if p := x.encode(share, level, scale, false); pt == nil || shareSeed&1 == 0 {
			pt = p
		} else {
			overwritePtxt(pt, p) // the same plaintext object for every share
		}
		enc.EncryptPtxt(pt, x.party(n).pk, ct)
		addTo(x.params, acc.Value["0"], ct.Value["0"], level)
		addTo(x.params, acc.Value[n], ct.Value[n], level)
	}
	t.eps = z.fresh()/scale*float64(len(names)) + x.flt(m*float64(len(names)))
	t.ct = acc
	return t
}

func addTo(p interface{ Q() []uint64 }, dst, src *ring.Poly, level int) {
	for i := 0; i <= level; i++ {
		q := p.Q()[i]
		for j := range dst.Coeffs[i] {
			dst.Coeffs[i][j] = (dst.Coeffs[i][j] + src.Coeffs[i][j]) % q
		}
	}
}

// ---------------------------------------------------------------- checking

// wellFormed checks shape, level, scale and party set of a result.
func (x *ckksCtx) wellFormed(c *C, what string, t *tct) {
	ct := t.ct
	if ct.Level() != t.level {
		c.Fatalf("%s: level %d, want %d", what, ct.Level(), t.level)
	}
	if rel := math.Abs(ct.Scale/t.scale - 1); !(rel < 1e-9) {
		c.Fatalf("%s: scale %g (2^%.4f), want %g (2^%.4f)", what, ct.Scale, math.Log2(ct.Scale), t.scale, math.Log2(t.scale))
	}
	if got := idsOf(ct.IDSet()); !sameSet(got, t.ids) {
		c.Fatalf("%s: involves parties %q, want %q", what, got, t.ids)
	}
	for id, p := range ct.Value {
		if len(p.Coeffs) != t.level+1 {
			c.Fatalf("%s: component %q has %d residue rows, want %d", what, id, len(p.Coeffs), t.level+1)
		}
		for i := range p.Coeffs {
			if len(p.Coeffs[i]) != x.params.N() {
				c.Fatalf("%s: component %q has %d coefficients", what, id, len(p.Coeffs[i]))
			}
		}
	}
}

// compare checks a decrypted message against the tracked value.
func (x *ckksCtx) compare(c *C, what string, t *tct, got []complex128) {
	if len(got) != len(t.val) {
		c.Fatalf("%s: decrypts to %d slots, want %d", what, len(got), len(t.val))
	}
	bound := t.eps + 2*x.flt(maxAbs(t.val)+t.eps)
	worst, at := 0.0, 0
	for i := range got {
		d := cmplx.Abs(got[i] - t.val[i])
		if !(d <= worst) {
			worst, at = d, i
		}
	}
	if !(worst <= bound) {
		c.Fatalf("%s: slot %d decrypts to %v, want %v (error %.3g, allowed %.3g) [%s level=%d scale=2^%.2f parties=%q]",
			what, at, got[at], t.val[at], worst, bound, x.cfg.name, t.level, math.Log2(t.scale), t.ids)
	}
	if bound > 0 {
		c.Max("ckks "+strings.SplitN(what, " ", 2)[0], worst/bound)
	}
}

// verify checks metadata and value, decrypting with a new decryptor.
func (x *ckksCtx) verify(c *C, what string, t *tct) {
	x.verifyWith(c, what, t, mkckks.NewDecryptor(x.params), x.skSet(t.ids...))
}

func (x *ckksCtx) verifyWith(c *C, what string, t *tct, dec *mkckks.Decryptor, sks *mkrlwe.SecretKeySet) {
	x.wellFormed(c, what, t)
	x.compare(c, what, t, dec.Decrypt(t.ct, sks).Value)
}

// precise reports whether the tracked value is known well enough to be a meaningful test.
func (t *tct) precise() bool {
	m := maxAbs(t.val)
	return m > 0 && t.eps < m/16
}
