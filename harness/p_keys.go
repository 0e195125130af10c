package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

func init() {
	register(&Check{ID: "K01", Assumptions: rAssume, Rule: "a case is non-trivial if the secret key is not zero and at least one key of the kind under test was recomputed in every gadget component modulo every prime",
		Subs: []Sub{
			{Name: "public", Prop: k01Public, Quick: 18000, Thorough: 200000},
			{Name: "relin", Prop: k01Relin, Quick: 15000, Thorough: 150000},
			{Name: "rotation", Prop: k01Rot, Quick: 18000, Thorough: 200000},
			{Name: "conjugation", Prop: k01Conj, Quick: 15000, Thorough: 150000},
			{Name: "switching", Prop: k01Swk, Quick: 15000, Thorough: 150000},
			{Name: "bfv", Prop: k01Bfv, Quick: 9000, Thorough: 90000},
			{Name: "history", Prop: k01History, Quick: 5600, Thorough: 50000},
			{Name: "historybfv", Prop: k01HistoryBfv, Quick: 3500, Thorough: 35000},
		}})
	register(&Check{ID: "K02", Assumptions: append(append([]string(nil), rAssume...), "distribution tests allow eight standard deviations of the estimate"), Rule: "a case is non-trivial if the secret key is not constant; statistics are taken over at least 1024 coefficients",
		Subs: []Sub{
			{Name: "structure", Prop: k02Structure, Quick: 56000, Thorough: 400000},
			{Name: "distribution", Prop: k02Distribution, Quick: 8000, Thorough: 60000},
			{Name: "positions", Prop: k02Positions, Quick: 1400, Thorough: 14000},
			{Name: "pairs", Prop: k02Pairs, Quick: 32000, Thorough: 250000},
		}})
}

// ---------------------------------------------------------------- key equations

// keyEq evaluates key equations in integers.
type keyEq struct {
	n    int
	Q, P []uint64
	all  []uint64
	r    *ring.Ring
	cr   *crt
}

func newKeyEq(n int, Q, P []uint64) *keyEq {
	k := &keyEq{n: n, Q: Q, P: P, all: append(append([]uint64(nil), Q...), P...)}
	k.r = ringOf(n, k.all)
	k.cr = crtOf(k.all)
	return k
}

func (x *rctx) eq() *keyEq { return newKeyEq(x.n, x.Q, x.P) }

func (k *keyEq) flat(v rlwe.PolyQP) *ring.Poly {
	p := k.r.NewPoly()
	for i := range k.Q {
		copy(p.Coeffs[i], v.Q.Coeffs[i])
	}
	for i := range k.P {
		copy(p.Coeffs[len(k.Q)+i], v.P.Coeffs[i])
	}
	k.r.Reduce(p, p)
	return p
}

// secret is the NTT and Montgomery representation of integers.
func (k *keyEq) secret(v []*big.Int) *ring.Poly {
	p := k.r.NewPoly()
	setPoly(p, v, k.all)
	k.r.NTT(p, p)
	k.r.MForm(p, p)
	return p
}

// term is sign * poly * secret, poly given as stored.
type term struct {
	p     rlwe.PolyQP
	mform bool
	s     *ring.Poly
	sign  int
}

// errorOf is key + sum of terms - sum of gad[i] * secret (all integers modulo QP), centred; the message
// is non-empty if it is not one small integer polynomial over all the primes.
func (k *keyEq) errorOf(key rlwe.PolyQP, mform bool, terms []term, gad func(prime int) uint64, gs *ring.Poly) ([]*big.Int, string) {
	acc := k.flat(key)
	if mform {
		k.r.InvMForm(acc, acc)
	}
	t := k.r.NewPoly()
	for _, m := range terms {
		f := k.flat(m.p)
		if m.mform {
			k.r.InvMForm(f, f)
		}
		k.r.MulCoeffsMontgomery(f, m.s, t)
		if m.sign > 0 {
			k.r.Add(acc, t, acc)
		} else {
			k.r.Sub(acc, t, acc)
		}
	}
	if gad != nil {
		g := k.r.NewPoly()
		for i := range k.all {
			v := gad(i)
			for j := range g.Coeffs[i] {
				g.Coeffs[i][j] = v
			}
		}
		k.r.MulCoeffsMontgomery(g, gs, t)
		k.r.Sub(acc, t, acc)
	}
	k.r.InvNTT(acc, acc)
	return k.small(acc)
}

func (k *keyEq) small(p *ring.Poly) ([]*big.Int, string) {
	out := make([]*big.Int, k.n)
	for j := range out {
		for i, q := range k.all {
			v := p.Coeffs[i][j] % q
			w := int64(v)
			if v > q/2 {
				w -= int64(q)
			}
			if i == 0 {
				out[j] = big.NewInt(w)
			} else if out[j].Int64() != w {
				return out, fmt.Sprintf("coefficient %d is %d modulo %d but %d modulo %d", j, out[j].Int64(), k.all[0], w, q)
			}
		}
	}
	return out, ""
}

func (k *keyEq) sizeOK(e []*big.Int, bound float64) string {
	zero := true
	for j, v := range e {
		if f := math.Abs(bigF(v)); f > bound {
			return fmt.Sprintf("coefficient %d is %v, the bound is %g", j, v, bound)
		}
		zero = zero && v.Sign() == 0
	}
	if zero {
		return "is zero"
	}
	return ""
}

// auto applies X -> X^g to integers.
func auto(v []*big.Int, g uint64) []*big.Int {
	n := len(v)
	out := make([]*big.Int, n)
	for j := range v {
		k := int(uint64(j) * g % uint64(2*n))
		if k >= n {
			out[k-n] = new(big.Int).Neg(v[j])
		} else {
			out[k] = v[j]
		}
	}
	return out
}

// galois is 5^k mod 2n, for any integer k.
func galois(k, n int) uint64 {
	m := uint64(2 * n)
	k = ((k % (n / 2)) + n/2) % (n / 2)
	g := uint64(1)
	for ; k > 0; k-- {
		g = g * 5 % m
	}
	return g
}

// pg is P*g_i modulo each prime of Q then P.
func (x *rctx) pg(i int) func(int) uint64 {
	P := crtOf(x.P).M
	blk := map[uint64]bool{}
	for _, q := range x.block(i, len(x.Q)-1) {
		blk[q] = true
	}
	return func(p int) uint64 {
		if p >= len(x.Q) || !blk[x.Q[p]] {
			return 0
		}
		return modU(P, x.Q[p])
	}
}

// errs collects the recovered errors of a key.
type errs struct {
	what []string
	e    [][]*big.Int
}

func (r *errs) add(c *C, k *keyEq, bound float64, what string, e []*big.Int, msg string) {
	if msg == "" {
		msg = k.sizeOK(e, bound)
	}
	if msg != "" {
		c.Fatalf("%s: error %s (N=%d, Q=%d, P=%d)", what, msg, k.n, k.Q, k.P)
	}
	r.what = append(r.what, what)
	r.e = append(r.e, e)
}

func (x *rctx) crs(c *C, k int) *mkrlwe.SwitchingKey {
	s := x.params.CRS[k]
	if s == nil || len(s.Value) < x.beta(len(x.Q)-1) {
		c.Fatalf("the common reference string %d is missing or too short", k)
	}
	return s
}

func (x *rctx) lenOK(c *C, what string, k *mkrlwe.SwitchingKey) {
	if len(k.Value) != x.beta(len(x.Q)-1) {
		c.Fatalf("%s has %d components, want %d", what, len(k.Value), x.beta(len(x.Q)-1))
	}
}

func (x *rctx) pkErr(c *C, r *errs, pk *mkrlwe.PublicKey, s []*big.Int) {
	k := x.eq()
	a := x.crs(c, 0).Value[0]
	if !k.flat(pk.Value[1]).Equals(k.flat(a)) {
		c.Fatalf("the second component of the public key is not the common reference string")
	}
	e, m := k.errorOf(pk.Value[0], false, []term{{a, false, k.secret(s), 1}}, nil, nil)
	r.add(c, k, x.errMax(), "public key", e, m)
}

func (x *rctx) rlkErr(c *C, r *errs, rlk *mkrlwe.RelinearizationKey, s, rr []*big.Int) {
	k := x.eq()
	S, R := k.secret(s), k.secret(rr)
	a, u := x.crs(c, 0), x.crs(c, -1)
	for i, name := range []string{"b", "d", "v"} {
		x.lenOK(c, "relinearisation key "+name, rlk.Value[i])
	}
	for i := 0; i < x.beta(len(x.Q)-1); i++ {
		e, m := k.errorOf(rlk.Value[0].Value[i], true, []term{{a.Value[i], true, S, 1}}, nil, nil)
		r.add(c, k, x.errMax(), fmt.Sprintf("relinearisation key b[%d]", i), e, m)
		e, m = k.errorOf(rlk.Value[1].Value[i], true, []term{{a.Value[i], true, R, 1}}, x.pg(i), S)
		r.add(c, k, x.errMax(), fmt.Sprintf("relinearisation key d[%d]", i), e, m)
		nR := k.r.NewPoly()
		k.r.Neg(R, nR)
		e, m = k.errorOf(rlk.Value[2].Value[i], true, []term{{u.Value[i], true, S, 1}}, x.pg(i), nR)
		r.add(c, k, x.errMax(), fmt.Sprintf("relinearisation key v[%d]", i), e, m)
	}
}

func (x *rctx) rotErr(c *C, r *errs, rk *mkrlwe.RotationKey, amount int, s []*big.Int) {
	k := x.eq()
	S := k.secret(s)
	inv := k.secret(auto(s, galois(-amount, x.n)))
	a := x.crs(c, amount)
	x.lenOK(c, "rotation key", rk.Value)
	for i := range rk.Value.Value {
		e, m := k.errorOf(rk.Value.Value[i], true, []term{{a.Value[i], true, inv, 1}}, x.pg(i), S)
		r.add(c, k, x.errMax(), fmt.Sprintf("rotation key for %d, component %d", amount, i), e, m)
	}
}

func (x *rctx) conjErr(c *C, r *errs, ck *mkrlwe.ConjugationKey, s []*big.Int) {
	k := x.eq()
	S := k.secret(s)
	cj := k.secret(auto(s, uint64(2*x.n-1)))
	a := x.crs(c, -2)
	x.lenOK(c, "conjugation key", ck.Value)
	for i := range ck.Value.Value {
		e, m := k.errorOf(ck.Value.Value[i], true, []term{{a.Value[i], true, S, 1}}, x.pg(i), cj)
		r.add(c, k, x.errMax(), fmt.Sprintf("conjugation key, component %d", i), e, m)
	}
}

func (x *rctx) swkErr(c *C, r *errs, swk *mkrlwe.SwitchingKey, s []*big.Int) {
	k := x.eq()
	S := k.secret(s)
	for i := range swk.Value {
		e, m := k.errorOf(swk.Value[i], true, nil, x.pg(i), S)
		r.add(c, k, x.errMax(), fmt.Sprintf("switching key, component %d", i), e, m)
	}
}

// bfvErr checks a BFV relinearisation key.
func (x *bfvCtx) eq() *keyEq { return newKeyEq(x.params.N(), x.lit.Q, x.lit.P) }

func (x *bfvCtx) bfvErr(c *C, r *errs, rlk *mkbfv.RelinearizationKey, s, rr []*big.Int) {
	k := x.eq()
	bound := math.Floor(6 * x.params.Sigma())
	S, R := k.secret(s), k.secret(rr)
	nR := k.r.NewPoly()
	k.r.Neg(R, nR)
	u := x.params.CRS[-1]
	alpha := len(x.lit.P) / 2
	beta := (len(x.lit.Q) + alpha - 1) / alpha
	P := crtOf(x.lit.P).M
	QM := crtOf(x.lit.QMul).M
	QQM := new(big.Int).Mul(crtOf(x.lit.Q).M, QM)
	T := new(big.Int).SetUint64(x.T)
	for h, a := range []*mkrlwe.SwitchingKey{x.params.CRS[0], x.params.CRS[-3]} {
		key := rlk.Value[h]
		prim := [][]uint64{x.lit.Q, x.lit.QMul}[h]
		for i, name := range []string{"b", "d"} {
			if len(key.Value[i].Value) != beta {
				c.Fatalf("BFV relinearisation key %s%d has %d components, want %d", name, h+1, len(key.Value[i].Value), beta)
			}
		}
		for i := 0; i < beta; i++ {
			e, m := k.errorOf(key.Value[0].Value[i], true, []term{{a.Value[i], true, S, 1}}, nil, nil)
			r.add(c, k, bound, fmt.Sprintf("BFV relinearisation key b%d[%d]", h+1, i), e, m)
			// floor(G_i * T * P / QMul), G_i = 1 modulo block i of Q (or QMul), 0 modulo the others
			blk := crtOf(prim[i*alpha : min((i+1)*alpha, len(prim))]).M
			g := new(big.Int).Div(QQM, blk)
			ti := new(big.Int).ModInverse(g, blk)
			g.Mul(g, ti).Mul(g, T).Mul(g, P).Div(g, QM)
			e, m = k.errorOf(key.Value[1].Value[i], true, []term{{a.Value[i], true, R, 1}}, func(p int) uint64 { return modU(g, k.all[p]) }, S)
			r.add(c, k, bound, fmt.Sprintf("BFV relinearisation key d%d[%d]", h+1, i), e, m)
		}
	}
	v := rlk.Value[0].Value[2]
	if len(v.Value) != beta {
		c.Fatalf("BFV relinearisation key v has %d components, want %d", len(v.Value), beta)
	}
	for i := 0; i < beta; i++ {
		gad := func(p int) uint64 {
			if p < i*alpha || p >= (i+1)*alpha || p >= len(x.lit.Q) {
				return 0
			}
			return modU(P, k.all[p])
		}
		e, m := k.errorOf(v.Value[i], true, []term{{u.Value[i], true, S, 1}}, gad, nR)
		r.add(c, k, bound, fmt.Sprintf("BFV relinearisation key v[%d]", i), e, m)
	}
}

// ---------------------------------------------------------------- K01

var skKinds = []string{"ternary", "ternary", "density", "sparse", "gaussian"}

// drawSk generates a secret key of a drawn kind and returns its integers.
func drawSk(c *C, label string, kg *mkrlwe.KeyGenerator, n int, Q, P []uint64, id string) (*mkrlwe.SecretKey, []*big.Int) {
	var sk *mkrlwe.SecretKey
	kind := pick(c, label+".kind", skKinds)
	switch kind {
	case "ternary":
		sk = kg.GenSecretKey(id)
	case "density":
		sk = kg.GenSecretKeyWithDistrib(c.Float(label+".p", 0.05, 0.95), id)
	case "sparse":
		sk = kg.GenSecretKeySparse(c.Int(label+".hw", 1, n), id)
	default:
		sk = kg.GenSecretKeyGaussian(id)
	}
	if sk.ID != id {
		c.Fatalf("the secret key of %q carries the name %q", id, sk.ID)
	}
	v, m := skInts(n, Q, P, sk)
	if m != "" {
		c.Fatalf("secret key (%s): %s", kind, m)
	}
	c.Class("sk %s", kind)
	return sk, v
}

func anyNonzero(v []*big.Int) bool {
	for _, z := range v {
		if z.Sign() != 0 {
			return true
		}
	}
	return false
}

// onKeys runs gen with snapshots of the secret keys and the common reference strings.
func (x *rctx) onKeys(c *C, what string, gen func(), sks ...*mkrlwe.SecretKey) {
	s := &snap{}
	for _, sk := range sks {
		s.addQP("secret key", sk.Value)
	}
	s.addCRS(x.params)
	n := len(x.params.CRS)
	ids := make([]string, len(sks))
	for i := range sks {
		ids[i] = sks[i].ID
	}
	gen()
	if d := s.diff(); d != "" {
		c.Fatalf("%s: %s", what, d)
	}
	if len(x.params.CRS) != n {
		c.Fatalf("%s: the number of common reference strings changes from %d to %d", what, n, len(x.params.CRS))
	}
	for i := range sks {
		if sks[i].ID != ids[i] {
			c.Fatalf("%s: the secret key's name changes", what)
		}
	}
}

func (x *rctx) keygen(c *C) *mkrlwe.KeyGenerator {
	seedCrypto("keygen", c.Seed("keyseed"))
	return mkrlwe.NewKeyGenerator(x.params)
}

func nameIs(c *C, what, got, want string) {
	if got != want {
		c.Fatalf("the %s of %q carries the name %q", what, want, got)
	}
}

func k01Public(c *C) {
	x := drawR(c)
	kg := x.keygen(c)
	var r errs
	for k := 1 + c.Idx("again", 2); k > 0; k-- {
		id := pick(c, "party", partyPool)
		sk, s := drawSk(c, "sk", kg, x.n, x.Q, x.P, id)
		var pk *mkrlwe.PublicKey
		x.onKeys(c, "public key generation", func() { pk = kg.GenPublicKey(sk) }, sk)
		nameIs(c, "public key", pk.ID, id)
		x.pkErr(c, &r, pk, s)
		c.Nontrivial(anyNonzero(s))
	}
	c.Class("cfg %s", x.cfg.name)
}

func k01Relin(c *C) {
	x := drawR(c)
	kg := x.keygen(c)
	id := pick(c, "party", partyPool)
	sk, s := drawSk(c, "sk", kg, x.n, x.Q, x.P, id)
	rs, rr := drawSk(c, "r", kg, x.n, x.Q, x.P, pick(c, "rname", []string{id, "other"}))
	var rlk *mkrlwe.RelinearizationKey
	x.onKeys(c, "relinearisation key generation", func() { rlk = kg.GenRelinearizationKey(sk, rs) }, sk, rs)
	nameIs(c, "relinearisation key", rlk.ID, id)
	var r errs
	x.rlkErr(c, &r, rlk, s, rr)
	c.Class("cfg %s", x.cfg.name)
	c.Nontrivial(anyNonzero(s))
}

// rotAmount draws an amount in [1, N/2) that has (or gets) a common reference string.
func (x *rctx) rotAmount(c *C) int {
	n2 := x.n / 2
	k := c.Int("amount", 1, n2-1)
	if c.Bool("pow2") {
		for k&(k-1) != 0 {
			k &= k - 1
		}
	}
	if x.params.CRS[k] == nil {
		seedCrypto("r-crs", x.cfg.name, k)
		x.params.AddCRS(k)
	}
	return k
}

func k01Rot(c *C) {
	x := drawR(c)
	kg := x.keygen(c)
	id := pick(c, "party", partyPool)
	sk, s := drawSk(c, "sk", kg, x.n, x.Q, x.P, id)
	var r errs
	if c.OneIn("all", 5) { // the default keys
		set := mkrlwe.NewRotationKeySet()
		had := c.Bool("used")
		if had {
			set.AddRotationKey(kg.GenRotationKey(1, x.sk("elsewhere")))
		}
		x.onKeys(c, "default rotation keys", func() { kg.GenDefaultRotationKeys(sk, set) }, sk)
		cnt := 0
		for k := 1; k < x.n/2; k *= 2 {
			rk := set.GetRotationKey(id, uint(k))
			nameIs(c, "rotation key", rk.ID, id)
			if int(rk.RotIdx) != k {
				c.Fatalf("the rotation key for %d carries the amount %d", k, rk.RotIdx)
			}
			x.rotErr(c, &r, rk, k, s)
			cnt++
		}
		if got := len(set.Value[id]); got != cnt {
			c.Fatalf("%d default rotation keys, want %d", got, cnt)
		}
		if had && len(set.Value["elsewhere"]) != 1 {
			c.Fatalf("another party's rotation keys are affected")
		}
		c.Class("default set")
		c.Nontrivial(anyNonzero(s))
		return
	}
	k := x.rotAmount(c)
	arg := k
	if c.OneIn("negative", 3) {
		arg = k - x.n/2*(1+c.Idx("turns", 3))
		c.Class("negative")
	}
	var rk *mkrlwe.RotationKey
	x.onKeys(c, "rotation key generation", func() { rk = kg.GenRotationKey(arg, sk) }, sk)
	nameIs(c, "rotation key", rk.ID, id)
	if int(rk.RotIdx) != k {
		c.Fatalf("the rotation key for %d (N=%d) carries the amount %d, want %d", arg, x.n, rk.RotIdx, k)
	}
	x.rotErr(c, &r, rk, k, s)
	c.Class("cfg %s", x.cfg.name)
	c.Nontrivial(anyNonzero(s))
}

func k01Conj(c *C) {
	x := drawR(c)
	kg := x.keygen(c)
	id := pick(c, "party", partyPool)
	sk, s := drawSk(c, "sk", kg, x.n, x.Q, x.P, id)
	var ck *mkrlwe.ConjugationKey
	x.onKeys(c, "conjugation key generation", func() { ck = kg.GenConjugationKey(sk) }, sk)
	nameIs(c, "conjugation key", ck.ID, id)
	var r errs
	x.conjErr(c, &r, ck, s)
	c.Class("cfg %s", x.cfg.name)
	c.Nontrivial(anyNonzero(s))
}

func k01Swk(c *C) {
	x := drawR(c)
	kg := x.keygen(c)
	sk, s := drawSk(c, "sk", kg, x.n, x.Q, x.P, "a")
	swk := mkrlwe.NewSwitchingKey(x.params)
	x.lenOK(c, "switching key", swk)
	for k := 1 + c.Idx("again", 2); k > 0; k-- { // into a fresh or used receiver
		x.onKeys(c, "switching key generation", func() { kg.GenSwitchingKey(sk, swk) }, sk)
		var r errs
		x.swkErr(c, &r, swk, s)
	}
	e := x.params.RingQP().NewPoly()
	kg.GenGaussianError(e)
	eq := x.eq()
	v, m := eq.errorOf(e, false, nil, nil, nil)
	var r errs
	r.add(c, eq, x.errMax(), "error polynomial", v, m)
	c.Class("cfg %s", x.cfg.name)
	c.Nontrivial(anyNonzero(s))
}

func k01Bfv(c *C) {
	list := bfvSmall
	if c.OneIn("mid", 60) {
		list = bfvMid
	}
	cfg := pick(c, "cfg", list)
	if useFamily(c) {
		cfg = genBfv(drawFamily(c))
	}
	x := getBfv(c, cfg, 0)
	seedCrypto("keygen", c.Seed("keyseed"))
	kg := mkbfv.NewKeyGenerator(x.params)
	id := pick(c, "party", partyPool)
	sk, s := drawSk(c, "sk", kg.KeyGenerator, x.params.N(), x.lit.Q, x.lit.P, id)
	rs, rr := drawSk(c, "r", kg.KeyGenerator, x.params.N(), x.lit.Q, x.lit.P, pick(c, "rname", []string{id, "other"}))
	sn := &snap{}
	sn.addQP("secret key", sk.Value)
	sn.addQP("second secret key", rs.Value)
	sn.addCRS(x.params.Parameters)
	if c.Bool("before") {
		kg.GenConjugationKey(sk)
	}
	for k := 1 + c.Idx("again", 2); k > 0; k-- {
		rlk := kg.GenRelinearizationKey(sk, rs)
		if d := sn.diff(); d != "" {
			c.Fatalf("BFV relinearisation key generation: %s", d)
		}
		nameIs(c, "relinearisation key", rlk.ID, id)
		var r errs
		x.bfvErr(c, &r, rlk, s, rr)
	}
	c.Class("cfg %s", x.cfg.name)
	c.Nontrivial(anyNonzero(s))
}

// k01History: one generator makes keys of all kinds for several parties, and for several secrets of a
// party, in any order; every key is right, also after later ones have been made.
func k01History(c *C) {
	x := drawR(c)
	k01HistoryOn(c, x, []*mkrlwe.KeyGenerator{x.keygen(c), mkrlwe.NewKeyGenerator(x.params)}, nil, nil)
}

func k01HistoryBfv(c *C) {
	b := smallBfv(c, 2)
	x := &rctx{cfg: rCfg{name: b.cfg.name, logN: b.cfg.logN, gamma: 2}, params: b.params.Parameters, Q: b.lit.Q, P: b.lit.P, n: b.params.N()}
	seedCrypto("keygen", c.Seed("keyseed"))
	bkgs := []*mkbfv.KeyGenerator{mkbfv.NewKeyGenerator(b.params), mkbfv.NewKeyGenerator(b.params)}
	k01HistoryOn(c, x, []*mkrlwe.KeyGenerator{bkgs[0].KeyGenerator, bkgs[1].KeyGenerator}, b, bkgs)
}

func k01HistoryOn(c *C, x *rctx, kgs []*mkrlwe.KeyGenerator, b *bfvCtx, bkgs []*mkbfv.KeyGenerator) {
	type party struct {
		sk, r *mkrlwe.SecretKey
		s, rr []*big.Int
	}
	ps := map[string][]*party{}
	var late []func(*errs)
	frozen := &snap{}
	kinds := []string{"pk", "rlk", "rot", "conj", "swk"}
	if b != nil {
		kinds = append(kinds, "bfv", "bfv")
	}
	few := c.Bool("few")
	amount := 0
	for k := c.Int("steps", 3, 9); k > 0; k-- {
		g := c.Idx("kg", 2)
		kg := kgs[g]
		id := partyPool[0]
		if !few {
			id = pick(c, "party", partyPool[:3])
		}
		var p *party
		if i := c.Idx("secret", 3); i < len(ps[id]) {
			p = ps[id][i]
		} else {
			p = &party{}
			p.sk, p.s = drawSk(c, "sk", kg, x.n, x.Q, x.P, id)
			p.r, p.rr = drawSk(c, "r", kg, x.n, x.Q, x.P, id)
			frozen.addQP("secret key of "+id, p.sk.Value)
			frozen.addQP("second secret key of "+id, p.r.Value)
			ps[id] = append(ps[id], p)
		}
		what := pick(c, "key", kinds)
		c.Note("%s for %q", what, id)
		switch what {
		case "pk":
			pk := kg.GenPublicKey(p.sk)
			frozen.addQP("public key[0]", pk.Value[0])
			frozen.addQP("public key[1]", pk.Value[1])
			late = append(late, func(r *errs) { x.pkErr(c, r, pk, p.s) })
		case "rlk":
			rlk := kg.GenRelinearizationKey(p.sk, p.r)
			for i := range rlk.Value {
				frozen.addSwk("relinearisation key", rlk.Value[i])
			}
			late = append(late, func(r *errs) { x.rlkErr(c, r, rlk, p.s, p.rr) })
		case "bfv":
			rlk := bkgs[g].GenRelinearizationKey(p.sk, p.r)
			for j := range rlk.Value {
				for i := range rlk.Value[j].Value {
					if s := rlk.Value[j].Value[i]; s != nil {
						frozen.addSwk("BFV relinearisation key", s)
					}
				}
			}
			late = append(late, func(r *errs) { b.bfvErr(c, r, rlk, p.s, p.rr) })
		case "rot":
			if amount == 0 || c.Bool("otheramount") {
				amount = x.rotAmount(c)
			}
			a := amount
			rk := kg.GenRotationKey(a, p.sk)
			frozen.addSwk("rotation key", rk.Value)
			late = append(late, func(r *errs) { x.rotErr(c, r, rk, a, p.s) })
		case "conj":
			ck := kg.GenConjugationKey(p.sk)
			frozen.addSwk("conjugation key", ck.Value)
			late = append(late, func(r *errs) { x.conjErr(c, r, ck, p.s) })
		case "swk":
			swk := mkrlwe.NewSwitchingKey(x.params)
			kg.GenSwitchingKey(p.sk, swk)
			frozen.addSwk("switching key", swk)
			late = append(late, func(r *errs) { x.swkErr(c, r, swk, p.s) })
		}
	}
	if d := frozen.diff(); d != "" {
		c.Fatalf("a later key generation: %s", d)
	}
	var r errs
	for _, f := range late {
		f(&r)
	}
	c.Class("cfg %s", x.cfg.name)
	most := 0
	for _, l := range ps {
		most = max(most, len(l))
	}
	c.Class("parties %d, up to %d secrets of one", len(ps), most)
	c.Nontrivial(len(late) >= 3)
}

// ---------------------------------------------------------------- K02

func k02Structure(c *C) {
	x := drawR(c)
	kg := x.keygen(c)
	id := pick(c, "party", partyPool)
	var sk *mkrlwe.SecretKey
	kind := pick(c, "kind", []string{"ternary", "density", "sparse", "gaussian"})
	hw := 0
	switch kind {
	case "ternary":
		sk = kg.GenSecretKey(id)
	case "density":
		sk = kg.GenSecretKeyWithDistrib(c.Float("p", 0.01, 0.99), id)
	case "sparse":
		hw = c.Int("hw", 1, x.n)
		sk = kg.GenSecretKeySparse(hw, id)
	case "gaussian":
		sk = kg.GenSecretKeyGaussian(id)
	}
	nameIs(c, "secret key", sk.ID, id)
	v, m := skInts(x.n, x.Q, x.P, sk)
	if m != "" {
		c.Fatalf("%s secret key: %s", kind, m)
	}
	bound := 1.0
	if kind == "gaussian" {
		bound = x.errMax()
	}
	nz := 0
	for j := range v {
		if math.Abs(bigF(v[j])) > bound {
			c.Fatalf("%s secret key: coefficient %d is %v", kind, j, v[j])
		}
		if v[j].Sign() != 0 {
			nz++
		}
	}
	if kind == "sparse" && nz != hw {
		c.Fatalf("sparse secret key: %d non-zero coefficients of %d, want %d", nz, x.n, hw)
	}
	cp := sk.CopyNew()
	garbage(sk.Value.Q, x.Q, 5)
	garbage(sk.Value.P, x.P, 5)
	w, m := skInts(x.n, x.Q, x.P, cp)
	if m != "" || cp.ID != id {
		c.Fatalf("copy of a secret key: name %q, %s", cp.ID, m)
	}
	for j := range v {
		if v[j].Cmp(w[j]) != 0 {
			c.Fatalf("the copy of a secret key differs or depends on the original")
		}
	}
	c.Class("%s", kind)
	c.Nontrivial(!allSame(v))
}

func k02Distribution(c *C) {
	x := getR(c, pick(c, "cfg", s02Cfgs))
	kg := x.keygen(c)
	kind := pick(c, "kind", []string{"ternary", "density", "density", "sparse", "gaussian", "pair"})
	p, hw := 0.0, 0
	switch kind {
	case "density":
		p = c.Float("p", 0.02, 0.98)
		if c.OneIn("third", 4) {
			p = 1.0 / 3
		}
	case "sparse":
		hw = c.Int("hw", 1, x.n)
	}
	var b statsBox
	var keys [][]*big.Int
	hits := make([]int, x.n)
	cnt := 2 + c.Idx("n", 6)
	if x.n < 512 {
		cnt += 4
	}
	for i := 0; i < cnt; i++ {
		var sk *mkrlwe.SecretKey
		switch kind {
		case "ternary":
			sk = kg.GenSecretKey("a")
		case "density":
			sk = kg.GenSecretKeyWithDistrib(p, "a")
		case "sparse":
			sk = kg.GenSecretKeySparse(hw, "a")
		case "gaussian":
			sk = kg.GenSecretKeyGaussian("a")
		case "pair":
			sk, _ = kg.GenKeyPair("a")
		}
		v, m := skInts(x.n, x.Q, x.P, sk)
		if m != "" {
			c.Fatalf("%s secret key: %s", kind, m)
		}
		for j := range v {
			if v[j].Sign() != 0 {
				hits[j]++
			}
		}
		b.add(v)
		keys = append(keys, v)
	}
	msg := ""
	switch kind {
	case "gaussian":
		msg = b.gauss(x.params.Sigma())
	case "density":
		msg = b.ternary(p)
	case "sparse":
		msg = b.ternary(1 - float64(hw)/float64(x.n))
	default:
		msg = b.ternary(0.5)
	}
	if msg != "" {
		c.Fatalf("%s secret keys (p=%g, hw=%d, N=%d): %s", kind, p, hw, x.n, msg)
	}
	// the halves of a key look alike
	if kind != "sparse" || hw > 64 {
		lo, hi := 0, 0
		for j, h := range hits {
			if j < x.n/2 {
				lo += h
			} else {
				hi += h
			}
		}
		t := float64(lo + hi)
		if t > 64 && math.Abs(float64(lo)/t-0.5) > 4/math.Sqrt(t) {
			c.Fatalf("%s secret keys: %d non-zero entries in the lower half, %d in the upper", kind, lo, hi)
		}
	}
	for i := range keys {
		if m := patterned(keys[i]); m != "" && (kind != "sparse" || hw >= 8) && (kind != "density" || p < 0.96) {
			c.Fatalf("%s secret key %d: %s", kind, i, m)
		}
		for j := 0; j < i; j++ {
			if kind == "sparse" && hw < 8 {
				continue
			}
			if correlated(keys[i], keys[j]) {
				c.Fatalf("%s secret keys %d and %d depend on each other", kind, j, i)
			}
		}
	}
	c.Class("%s", kind)
	c.Nontrivial(len(b.v) >= 1024)
}

// k02Positions looks at every coefficient of many keys: each takes all values as often as any other.
func k02Positions(c *C) {
	x := drawR(c)
	if x.n > 64 {
		c.Discard("small rings only")
	}
	kgs := []*mkrlwe.KeyGenerator{x.keygen(c)}
	if c.Bool("two") {
		kgs = append(kgs, mkrlwe.NewKeyGenerator(x.params))
	}
	kind := pick(c, "kind", []string{"ternary", "density", "gaussian", "pair", "sparse"})
	p, dev := 0.5, math.Sqrt(0.5)
	switch kind {
	case "gaussian":
		dev = math.Sqrt(x.params.Sigma()*x.params.Sigma() + 1.0/12)
	case "density":
		p = c.Float("p", 0.3, 0.6)
		dev = math.Sqrt(1 - p)
	}
	const count = 256
	var keys [][]*big.Int
	for i := 0; i < count; i++ {
		kg := kgs[i%len(kgs)]
		var sk *mkrlwe.SecretKey
		switch kind {
		case "ternary":
			sk = kg.GenSecretKey("a")
		case "density":
			sk = kg.GenSecretKeyWithDistrib(p, "a")
		case "gaussian":
			sk = kg.GenSecretKeyGaussian("a")
		case "pair":
			sk, _ = kg.GenKeyPair("a")
		case "sparse":
			sk = kg.GenSecretKeySparse(x.n/2, "a")
		}
		v, m := skInts(x.n, x.Q, x.P, sk)
		if m != "" {
			c.Fatalf("%s secret key: %s", kind, m)
		}
		keys = append(keys, v)
	}
	if m := everywhere(keys, 0, dev); m != "" {
		c.Fatalf("%s secret keys (%s): %s", kind, x.cfg.name, m)
	}
	c.Class("%s", kind)
	c.Nontrivial(true)
}

// pairSparse calls GenKeyPairSparse, with the party name where it takes one.
func pairSparse(kg *mkrlwe.KeyGenerator, hw int, id string) (*mkrlwe.SecretKey, *mkrlwe.PublicKey) {
	m := reflect.ValueOf(kg).MethodByName("GenKeyPairSparse")
	args := []reflect.Value{reflect.ValueOf(hw)}
	if m.Type().NumIn() == 2 {
		args = append(args, reflect.ValueOf(id))
		if m.Type().In(0).Kind() == reflect.String {
			args[0], args[1] = args[1], args[0]
		}
	}
	out := m.Call(args)
	return out[0].Interface().(*mkrlwe.SecretKey), out[1].Interface().(*mkrlwe.PublicKey)
}

func k02Pairs(c *C) {
	x := drawR(c)
	kg := x.keygen(c)
	id := pick(c, "party", partyPool)
	var sk *mkrlwe.SecretKey
	var pk *mkrlwe.PublicKey
	sparse := c.Bool("sparse")
	hw := 0
	x.onKeys(c, "key pair generation", func() {
		if sparse {
			hw = c.Int("hw", 1, x.n)
			sk, pk = pairSparse(kg, hw, id)
		} else {
			sk, pk = kg.GenKeyPair(id)
		}
	})
	nameIs(c, "secret key", sk.ID, id)
	nameIs(c, "public key", pk.ID, id)
	s, m := skInts(x.n, x.Q, x.P, sk)
	if m != "" {
		c.Fatalf("secret key: %s", m)
	}
	nz := 0
	for _, v := range s {
		if v.CmpAbs(big.NewInt(1)) > 0 {
			c.Fatalf("a ternary secret key has the coefficient %v", v)
		}
		if v.Sign() != 0 {
			nz++
		}
	}
	if sparse && nz != hw {
		c.Fatalf("sparse key pair: %d non-zero coefficients, want %d", nz, hw)
	}
	var r errs
	x.pkErr(c, &r, pk, s)
	cp := pk.CopyNew()
	if cp.ID != id || !cp.Value[0].Equals(pk.Value[0]) || !cp.Value[1].Equals(pk.Value[1]) {
		c.Fatalf("the copy of a public key differs")
	}
	garbage(pk.Value[0].Q, x.Q, 3)
	garbage(pk.Value[0].P, x.P, 3)
	x.pkErr(c, &r, cp, s)
	c.Class("sparse=%v", sparse)
	c.Nontrivial(anyNonzero(s))
}

// ---------------------------------------------------------------- S02: keys

func s02Keys(c *C) {
	var r errs
	var secrets [][]*big.Int
	sigma := 0.0
	if c.OneIn("bfv", 3) {
		x := getBfv(c, pick(c, "cfg", s02Bfv), 0)
		sigma = x.params.Sigma()
		seedCrypto("keygen", c.Seed("keyseed"))
		kg := mkbfv.NewKeyGenerator(x.params)
		sk := kg.GenSecretKey("a")
		rs := kg.GenSecretKey("a")
		s, _ := skInts(x.params.N(), x.lit.Q, x.lit.P, sk)
		rr, _ := skInts(x.params.N(), x.lit.Q, x.lit.P, rs)
		secrets = append(secrets, s, rr)
		for i := 0; i < 2; i++ {
			x.bfvErr(c, &r, kg.GenRelinearizationKey(sk, rs), s, rr)
		}
		c.Class("cfg %s", x.cfg.name)
	} else {
		x := getR(c, pick(c, "cfg", s02Cfgs))
		sigma = x.params.Sigma()
		kgs := []*mkrlwe.KeyGenerator{x.keygen(c), mkrlwe.NewKeyGenerator(x.params)}
		for g := 0; g < 2; g++ {
			kg := kgs[c.Idx("kg", 2)]
			id := pick(c, "party", partyPool[:2])
			sk, pk := kg.GenKeyPair(id)
			rs := kg.GenSecretKey(id)
			s, _ := skInts(x.n, x.Q, x.P, sk)
			rr, _ := skInts(x.n, x.Q, x.P, rs)
			secrets = append(secrets, s, rr)
			x.pkErr(c, &r, pk, s)
			for k := 1 + c.Idx("kinds", 3); k > 0; k-- {
				switch pick(c, "key", []string{"pk", "rlk", "rot", "conj", "swk"}) {
				case "pk":
					x.pkErr(c, &r, kg.GenPublicKey(sk), s)
				case "rlk":
					x.rlkErr(c, &r, kg.GenRelinearizationKey(sk, rs), s, rr)
				case "rot":
					a := 1 << c.Idx("amount", x.cfg.logN-1)
					x.rotErr(c, &r, kg.GenRotationKey(a, sk), a, s)
				case "conj":
					x.conjErr(c, &r, kg.GenConjugationKey(sk), s)
				case "swk":
					swk := mkrlwe.NewSwitchingKey(x.params)
					kg.GenSwitchingKey(sk, swk)
					x.swkErr(c, &r, swk, s)
				}
			}
		}
		c.Class("cfg %s", x.cfg.name)
	}
	var all statsBox
	for i, e := range r.e {
		var b statsBox
		b.add(e)
		all.add(e)
		if m := b.gauss(sigma); m != "" {
			c.Fatalf("noise of %s: %s", r.what[i], m)
		}
		for j := 0; j < i; j++ {
			if correlated(e, r.e[j]) {
				c.Fatalf("the noises of %s and %s depend on each other", r.what[j], r.what[i])
			}
		}
		for j, s := range secrets {
			if correlated(e, s) {
				c.Fatalf("the noise of %s depends on secret %d", r.what[i], j)
			}
		}
	}
	for i := range secrets {
		for j := 0; j < i; j++ {
			if correlated(secrets[i], secrets[j]) {
				c.Fatalf("the secrets %d and %d depend on each other", j, i)
			}
		}
	}
	if m := all.gauss(sigma); m != "" {
		c.Fatalf("noise of all keys together: %s", m)
	}
	c.Nontrivial(len(all.v) >= 1024)
}
