package main

import (
	"fmt"
	"math"
	"math/big"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
)

type bfvCfg struct {
	name string
	logN int
	nQ   int // primes in Q (and as many in QMul)
	bQ   int
	nP   int
	bP   int
	T    uint64
}

func (c bfvCfg) String() string { return c.name }

// alpha is nP/2; the library needs nQ to be a multiple of alpha.
var bfvSmall = []bfvCfg{
	{"b4", 4, 3, 50, 2, 60, 65537},
	{"b5", 5, 4, 45, 4, 55, 65537},
	{"b4t97", 4, 3, 45, 2, 50, 97},
	{"b5p3", 5, 5, 50, 3, 55, 12289},
	{"b6", 6, 6, 50, 2, 60, 257},
	{"b5p6", 5, 6, 45, 6, 50, 65537},
	{"b4q1", 4, 1, 58, 2, 60, 97},
	{"b4t40", 4, 4, 55, 2, 58, 0}, // a 40-bit plaintext modulus
	{"b5p5", 5, 4, 45, 5, 55, 65537},
	{"b7", 7, 4, 54, 2, 60, 65537},
	{"b4p8", 4, 8, 50, 8, 56, 65537},
	{"b4q11", 4, 11, 45, 2, 60, 65537},
	{"b4q17", 4, 17, 59, 2, 60, 65537},
	{"b5~9", 5, 4, 45, 4, 55, 65537},
}

var bfvMid = []bfvCfg{
	{"b9", 9, 4, 54, 2, 60, 65537},
	{"b10", 10, 6, 53, 4, 60, 65537},
}

var bfvLarge = []bfvCfg{
	{"b12", 12, 4, 53, 2, 60, 65537},
	{"b13", 13, 6, 53, 2, 60, 65537},
	{"b16", 16, 3, 55, 2, 60, 786433},
}

type bfvParty struct {
	sk  *mkrlwe.SecretKey
	pk  *mkrlwe.PublicKey
	r   *mkrlwe.SecretKey
	rlk *mkbfv.RelinearizationKey
	cjk *mkrlwe.ConjugationKey
	rot map[int]*mkrlwe.RotationKey
}

type bfvCtx struct {
	cfg     bfvCfg
	variant int
	lit     mkbfv.ParametersLiteral
	params  mkbfv.Parameters
	extra   []int
	parties map[string]*bfvParty
	T       uint64
	n2      int
	bigQ    *big.Int
	crt     *crt
}

var bfvCache = map[string]*bfvCtx{}

func bfvLiteral(cfg bfvCfg) mkbfv.ParametersLiteral {
	n := 2 << cfg.logN
	lit := mkbfv.ParametersLiteral{LogN: cfg.logN, Sigma: sigmaOf(cfg.name), T: cfg.T}
	var qs []uint64
	if cfg.bP == cfg.bQ {
		Harness("bad configuration")
	}
	qs = ring.GenerateNTTPrimes(cfg.bQ, n, 2*cfg.nQ)
	lit.P = ring.GenerateNTTPrimes(cfg.bP, n, cfg.nP)
	for i, q := range qs {
		if i%2 == 0 {
			lit.Q = append(lit.Q, q)
		} else {
			lit.QMul = append(lit.QMul, q)
		}
	}
	if cfg.T == 0 {
		lit.T = ring.GenerateNTTPrimes(40, n, 1)[0]
	}
	return lit
}

func getBfv(c *C, cfg bfvCfg, variant int) *bfvCtx {
	if cfg.logN < c.atLeast {
		cfg.name, cfg.logN = fmt.Sprintf("%d^%s", c.atLeast, cfg.name), c.atLeast
		if cfg.T == 97 {
			cfg.T = 193
		}
	}
	key := fmt.Sprintf("%s/%d", cfg.name, variant)
	c.small = cfg.logN <= 6
	c.evict = append(c.evict, func() { delete(bfvCache, key) })
	if x := bfvCache[key]; x != nil {
		return x
	}
	x := newBfv(cfg, variant)
	if len(bfvCache) > 80 {
		bfvCache = map[string]*bfvCtx{}
	}
	bfvCache[key] = x
	return x
}

func newBfv(cfg bfvCfg, variant int) *bfvCtx {
	x := &bfvCtx{cfg: cfg, variant: variant, parties: map[string]*bfvParty{}, lit: bfvLiteral(cfg)}
	seedCrypto("bfv-params", cfg.name, variant)
	x.params = mkbfv.NewParametersFromLiteral(x.lit)
	x.T = x.params.T()
	x.n2 = x.params.N() / 2
	if variant == 1 {
		x.extra = extraRots(x.n2)
		for _, k := range x.extra {
			x.params.AddCRS(k)
		}
	}
	x.crt = newCRT(x.lit.Q)
	x.bigQ = x.crt.M
	return x
}

func (x *bfvCtx) party(name string) *bfvParty {
	if p := x.parties[name]; p != nil {
		return p
	}
	seedCrypto("bfv-party", x.cfg.name, x.variant, name)
	kg := mkbfv.NewKeyGenerator(x.params)
	p := &bfvParty{rot: map[int]*mkrlwe.RotationKey{}}
	p.sk, p.pk = kg.GenKeyPair(name)
	p.r = kg.GenSecretKey(name)
	x.parties[name] = p
	return p
}

func (x *bfvCtx) rlk(name string) *mkbfv.RelinearizationKey {
	p := x.party(name)
	if p.rlk == nil {
		seedCrypto("bfv-rlk", x.cfg.name, x.variant, name)
		p.rlk = mkbfv.NewKeyGenerator(x.params).GenRelinearizationKey(p.sk, p.r)
	}
	return p.rlk
}

func (x *bfvCtx) cjk(name string) *mkrlwe.ConjugationKey {
	p := x.party(name)
	if p.cjk == nil {
		seedCrypto("bfv-cjk", x.cfg.name, x.variant, name)
		p.cjk = mkbfv.NewKeyGenerator(x.params).GenConjugationKey(p.sk)
	}
	return p.cjk
}

func (x *bfvCtx) rotKey(name string, k int) *mkrlwe.RotationKey {
	p := x.party(name)
	if p.rot[k] == nil {
		seedCrypto("bfv-rot", x.cfg.name, x.variant, name, k)
		p.rot[k] = mkbfv.NewKeyGenerator(x.params).GenRotationKey(k, p.sk)
	}
	return p.rot[k]
}

func (x *bfvCtx) skSet(names ...string) *mkrlwe.SecretKeySet {
	s := mkrlwe.NewSecretKeySet()
	for _, n := range names {
		s.AddSecretKey(x.party(n).sk)
	}
	return s
}

func (x *bfvCtx) rlkSet(names ...string) *mkbfv.RelinearizationKeySet {
	s := mkbfv.NewRelinearizationKeyKeySet(x.params)
	for _, n := range names {
		s.AddRelinearizationKey(x.rlk(n))
	}
	return s
}

func (x *bfvCtx) cjkSet(names ...string) *mkrlwe.ConjugationKeySet {
	s := mkrlwe.NewConjugationKeySet()
	for _, n := range names {
		s.AddConjugationKey(x.cjk(n))
	}
	return s
}

func (x *bfvCtx) rots() []int {
	var r []int
	for k := 1; k < x.n2; k *= 2 {
		r = append(r, k)
	}
	return append(r, x.extra...)
}

func (x *bfvCtx) rotSet(names ...string) *mkrlwe.RotationKeySet {
	s := mkrlwe.NewRotationKeySet()
	for _, n := range names {
		for _, k := range x.rots() {
			s.AddRotationKey(x.rotKey(n, k))
		}
	}
	return s
}

// ---------------------------------------------------------------- arithmetic mod T

func (x *bfvCtx) center(v *big.Int) int64 {
	t := new(big.Int).SetUint64(x.T)
	r := new(big.Int).Mod(v, t)
	if new(big.Int).Lsh(r, 1).Cmp(t) > 0 {
		r.Sub(r, t)
	}
	return r.Int64()
}

func (x *bfvCtx) cent(v int64) int64 {
	t := int64(x.T)
	v %= t
	if v < 0 {
		v += t
	}
	if v > t/2 {
		v -= t
	}
	return v
}

func (x *bfvCtx) mulT(a, b int64) int64 {
	return x.center(new(big.Int).Mul(big.NewInt(a), big.NewInt(b)))
}

// ---------------------------------------------------------------- tracked ciphertexts

// bct is a ciphertext with the value it must decrypt to and a bound on its noise.
type bct struct {
	ct    *mkbfv.Ciphertext
	val   []int64
	noise float64
	ids   []string
}

func (x *bfvCtx) N() float64 { return float64(x.params.N()) }

// sq is the growth of a product of a bounded polynomial with a small random one (nine sigma).
func (x *bfvCtx) sq() float64 { return math.Min(x.N(), 9*math.Sqrt(x.N())) }

func (x *bfvCtx) nFresh() float64 {
	return 6*x.params.Sigma()*(1+2*x.sq()) + 2
}

func (x *bfvCtx) budget() float64 {
	f, _ := new(big.Float).SetInt(x.bigQ).Float64()
	return f / float64(x.T) / 2
}

// fits: decryption is certain to be exact.
func (x *bfvCtx) fits(noise float64) bool { return noise*2 < x.budget() }

func (x *bfvCtx) nAdd(a, b *bct) float64 { return a.noise + b.noise + 1 }

func (x *bfvCtx) digit() (d, beta, P float64) {
	alpha := x.params.PCount() / 2
	d = 1
	for i := 0; i < alpha; i++ {
		d *= float64(x.lit.Q[0]) * 1.001
	}
	beta = math.Ceil(float64(len(x.lit.Q)) / float64(alpha))
	P = 1
	for _, p := range x.lit.P {
		P *= float64(p)
	}
	return
}

func (x *bfvCtx) nKs(k int) float64 {
	d, beta, P := x.digit()
	s := x.sq()
	return float64(k) * (d*s*beta*6*x.params.Sigma()/P + 2 + 2*s)
}

func (x *bfvCtx) nMul(a, b *bct) float64 {
	d, beta, P := x.digit()
	T, s := float64(x.T), x.sq()
	pa, pb := float64(len(a.ids)), float64(len(b.ids))
	if pa == 0 {
		pa = 0.1
	}
	if pb == 0 {
		pb = 0.1
	}
	n := T * s * ((pa*s+2)*b.noise + (pb*s+2)*a.noise)
	n += T * s * (pa*s + 2) * (pb*s + 2) * 2
	gad := 6 * x.params.Sigma() * 2 * beta * (d * s) * (d * s) / P * 2 * beta * s
	n += (pa + 1) * (pb + 1) * (gad + (1+s)*(1+s)*4 + T*s*s*s*2)
	n /= 4 // the worst case needs every term aligned; repeated squaring comes near a sixteenth of it
	return n
}

// ---------------------------------------------------------------- messages

var bfvMsgKinds = []string{"zero", "one", "unit", "extreme", "small", "random", "wide", "ramp"}

// genMsg returns a message with entries of absolute value below T.
func (x *bfvCtx) genMsg(c *C, label string) []int64 {
	v := make([]int64, x.params.N())
	T := int64(x.T)
	switch kind := pick(c, label+".kind", bfvMsgKinds); kind {
	case "zero":
	case "one":
		for i := range v {
			v[i] = 1
		}
	case "unit":
		v[c.Idx(label+".pos", len(v))] = 1
	case "ramp":
		for i := range v {
			v[i] = int64(i) % T
		}
	default:
		r := prng(label, c.Seed(label+".seed"))
		for i := range v {
			switch kind {
			case "extreme":
				v[i] = []int64{T / 2, -(T / 2), T/2 + 1, T - 1, -(T - 1), 0, 1, -1}[r.IntN(8)]
			case "small":
				v[i] = int64(r.IntN(7)) - 3
			case "random":
				v[i] = r.Int64N(T) - T/2
			case "wide":
				v[i] = r.Int64N(2*T-1) - (T - 1)
			}
		}
	}
	return v
}

func (x *bfvCtx) encryptor(c *C) *mkbfv.Encryptor {
	seedCrypto("enc", c.Seed("encseed"))
	return mkbfv.NewEncryptor(x.params)
}

// fresh encrypts v for the given parties, each holding a random additive share.
func (x *bfvCtx) fresh(c *C, enc *mkbfv.Encryptor, v []int64, names []string, seed uint64) *bct {
	t := &bct{val: make([]int64, len(v)), ids: union(names)}
	for i := range v {
		t.val[i] = x.cent(v[i])
	}
	r := prng("bshare", seed)
	T := int64(x.T)
	t.ct = mkbfv.NewCiphertext(x.params, idset(names...))
	rest := append([]int64(nil), t.val...)
	lvl := x.params.MaxLevel()
	shares := names
	if len(names) == 0 { // a throw-away encryption gives the encoding
		pool := newBfvEncoding(x, rest)
		addTo(x.params, t.ct.Value["0"], pool, lvl)
		t.noise = 2
		return t
	}
	var msg *mkbfv.Message
	for i, n := range shares {
		if msg == nil || seed&1 == 0 {
			msg = mkbfv.NewMessage(x.params)
		}
		copy(msg.Value, rest)
		if i < len(shares)-1 {
			for j := range msg.Value {
				msg.Value[j] = r.Int64N(T) - T/2
				rest[j] = x.cent(rest[j] - msg.Value[j])
			}
		}
		ct := enc.EncryptMsgNew(msg, x.party(n).pk)
		addTo(x.params, t.ct.Value["0"], ct.Value["0"], lvl)
		addTo(x.params, t.ct.Value[n], ct.Value[n], lvl)
	}
	t.noise = float64(len(names)) * (x.nFresh() + 2)
	return t
}

// phase decrypts by hand: the value of the ciphertext at the secrets, as big integers mod Q.
func (x *bfvCtx) phase(ct *mkbfv.Ciphertext) []*big.Int {
	rq := x.params.RingQ()
	lvl := x.params.MaxLevel()
	acc := ct.Value["0"].CopyNew()
	tmp := rq.NewPoly()
	for id, p := range ct.Value {
		if id == "0" {
			continue
		}
		rq.NTTLvl(lvl, p, tmp)
		rq.MulCoeffsMontgomeryLvl(lvl, tmp, x.party(id).sk.Value.Q, tmp)
		rq.InvNTTLvl(lvl, tmp, tmp)
		rq.AddLvl(lvl, acc, tmp, acc)
	}
	return x.crt.polyBig(acc.Coeffs)
}

// noiseOf is the distance of the phase to the nearest encoding.
func (x *bfvCtx) noiseOf(ct *mkbfv.Ciphertext) float64 {
	T := new(big.Int).SetUint64(x.T)
	half := new(big.Int).Rsh(x.bigQ, 1)
	worst := new(big.Int)
	for _, v := range x.phase(ct) {
		v.Mul(v, T).Mod(v, x.bigQ)
		if v.Cmp(half) > 0 {
			v.Sub(v, x.bigQ)
		}
		v.Abs(v)
		if v.Cmp(worst) > 0 {
			worst.Set(v)
		}
	}
	f, _ := new(big.Float).SetInt(worst).Float64()
	return f / float64(x.T)
}

func (x *bfvCtx) verify(c *C, what string, t *bct) {
	x.verifyWith(c, what, t, mkbfv.NewDecryptor(x.params), x.skSet(t.ids...))
}

func (x *bfvCtx) verifyWith(c *C, what string, t *bct, dec *mkbfv.Decryptor, sks *mkrlwe.SecretKeySet) {
	if got := idsOf(t.ct.IDSet()); !sameSet(got, t.ids) {
		c.Fatalf("%s: involves parties %q, want %q", what, got, t.ids)
	}
	for id, p := range t.ct.Value {
		if len(p.Coeffs) != x.params.QCount() {
			c.Fatalf("%s: component %q has %d residue rows, want %d", what, id, len(p.Coeffs), x.params.QCount())
		}
	}
	got := dec.Decrypt(t.ct, sks).Value
	if len(got) != len(t.val) {
		c.Fatalf("%s: decrypts to %d slots, want %d", what, len(got), len(t.val))
	}
	n := x.noiseOf(t.ct)
	for i := range got {
		if a := got[i]; a > int64(x.T+1)/2 || -a > int64(x.T+1)/2 {
			c.Fatalf("%s: slot %d decrypts to %d, which is not a centred residue mod %d", what, i, a, x.T)
		}
		if x.cent(got[i]) != t.val[i] {
			c.Fatalf("%s: slot %d decrypts to %d, want %d (mod %d) [%s parties=%q, noise 2^%.1f, allowed 2^%.1f, limit 2^%.1f]", what, i, got[i], t.val[i], x.T,
				x.cfg.name, t.ids, math.Log2(n), math.Log2(t.noise), math.Log2(x.budget()))
		}
	}
	if n > t.noise*2 {
		c.Fatalf("%s: noise 2^%.2f, allowed 2^%.2f (limit 2^%.1f) [%s parties=%q]", what, math.Log2(n), math.Log2(t.noise*2), math.Log2(x.budget()), x.cfg.name, t.ids)
	}
	c.Max("bfv noise "+firstWord(what), n/(2*t.noise))
}
