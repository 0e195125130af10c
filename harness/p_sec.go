package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

var rAssume = []string{
	"the ring arithmetic, samplers and big-integer conversions of the pinned lattigo v2.3.0 dependency are correct; the harness undoes NTT and Montgomery form with them",
	"library randomness comes from crypto/rand, which the harness replaces by a seeded stream cipher so that cases are reproducible",
	"parameter sets have at least gamma special primes, each at least about as large as the ciphertext primes, ring degree at least 16",
}

func init() {
	register(&Check{ID: "G01", Assumptions: rAssume, Rule: "a case is non-trivial if the plaintext is not constant and levels or representations of plaintext, ciphertext and receiver differ",
		Subs: []Sub{
			{Name: "encrypt", Prop: g01Encrypt, Quick: 200000, Thorough: 1000000},
			{Name: "decrypt", Prop: g01Decrypt, Quick: 140000, Thorough: 700000},
			{Name: "rekeyed", Prop: func(c *C) { rekeyGeneric(c, []string{"enc", "dec"}) }, Quick: 14000},
		}})
	register(&Check{ID: "S01", Assumptions: rAssume, Rule: "a case is non-trivial if the ciphertext involves at least two parties or is the result of a homomorphic operation",
		Subs: []Sub{
			{Name: "ckks", Prop: s01Ckks, Quick: 20000, Thorough: 200000},
			{Name: "bfv", Prop: s01Bfv, Quick: 15000, Thorough: 150000},
			{Name: "generic", Prop: s01Generic, Quick: 40000, Thorough: 400000},
			{Name: "city", Prop: func(c *C) { cityCkksOp(c, []string{"add", "mul"}) }, Quick: 700},
			{Name: "citybfv", Prop: func(c *C) { cityBfvOp(c, []string{"add", "mul"}) }, Quick: 700},
			{Name: "rekeyed", Prop: func(c *C) { rekeyCkks(c, []string{"locked", "mul", "msg"}) }, Quick: 3500},
			{Name: "rekeyedbfv", Prop: func(c *C) { rekeyBfv(c, []string{"locked", "mul", "msg"}) }, Quick: 2800},
			{Name: "rekeyedgeneric", Prop: func(c *C) { rekeyGeneric(c, []string{"locked", "enc"}) }, Quick: 7000},
		}})
	register(&Check{ID: "S02", Assumptions: append(append([]string(nil), rAssume...), "distribution tests allow eight standard deviations of the estimate"), Rule: "a case is non-trivial if at least 1024 coefficients of randomness were recovered",
		Subs: []Sub{
			{Name: "encryption", Prop: s02Enc, Quick: 7000, Thorough: 70000},
			{Name: "schemes", Prop: s02Schemes, Quick: 3500, Thorough: 35000},
			{Name: "mask", Prop: s02Mask, Quick: 15000, Thorough: 150000},
			{Name: "keys", Prop: s02Keys, Quick: 1400, Thorough: 14000},
			{Name: "many", Prop: s02ManyEnc, Quick: 700},
			{Name: "manykeys", Prop: s02ManyKeys, Quick: 700},
			{Name: "bulk", Prop: s02Bulk, Quick: 21, Thorough: 400},
		}})
	register(&Check{ID: "S03", Assumptions: rAssume, Rule: "a case is non-trivial if the ciphertext involves at least two parties",
		Subs: []Sub{
			{Name: "generic", Prop: s03Generic, Quick: 50000, Thorough: 500000},
			{Name: "ckks", Prop: s03Ckks, Quick: 15000, Thorough: 150000},
			{Name: "bfv", Prop: s03Bfv, Quick: 15000, Thorough: 150000},
			{Name: "city", Prop: func(c *C) { cityCkksOp(c, []string{"partial"}) }, Quick: 700},
			{Name: "citybfv", Prop: func(c *C) { cityBfvOp(c, []string{"partial"}) }, Quick: 700},
			{Name: "rekeyed", Prop: func(c *C) { rekeyCkks(c, []string{"partial", "dec"}) }, Quick: 3500},
			{Name: "rekeyedbfv", Prop: func(c *C) { rekeyBfv(c, []string{"partial", "dec"}) }, Quick: 2800},
			{Name: "rekeyedgeneric", Prop: func(c *C) { rekeyGeneric(c, []string{"partial", "dec"}) }, Quick: 7000},
		}})
}

// ---------------------------------------------------------------- generic plaintexts and phases

// coeffs reads a polynomial of either representation as centred integers modulo the primes of its level.
func (x *rctx) coeffs(p *ring.Poly) []*big.Int {
	return crtOf(x.Q[:len(p.Coeffs)]).polyCentered(plainRows(x.n, x.Q[:len(p.Coeffs)], nil, p, nil, p.IsNTT, false))
}

// phaseOf evaluates a ciphertext at the secrets, as rows in coefficient representation.
func phaseOf(n int, Q []uint64, ct *mkrlwe.Ciphertext, sk func(string) *mkrlwe.SecretKey) [][]uint64 {
	L := len(ct.Value["0"].Coeffs)
	q := Q[:L]
	r := ringOf(n, q)
	acc, t, s := r.NewPoly(), r.NewPoly(), r.NewPoly()
	for id, p := range ct.Value {
		for i := range q {
			copy(t.Coeffs[i], p.Coeffs[i])
		}
		r.Reduce(t, t)
		if !p.IsNTT {
			r.NTT(t, t)
		}
		if id != "0" {
			for i := range q {
				copy(s.Coeffs[i], sk(id).Value.Q.Coeffs[i])
			}
			r.MulCoeffsMontgomery(t, s, t)
		}
		r.Add(acc, t, acc)
	}
	r.InvNTT(acc, acc)
	return acc.Coeffs
}

// drawPt makes an arbitrary plaintext polynomial at a level.
func (x *rctx) drawPt(c *C, label string, level int) ([]*big.Int, *rlwe.Plaintext) {
	Q := x.Q[:level+1]
	v := edgeInts(c, label, x.n, crtOf(Q).M, Q)
	pt := rlwe.NewPlaintext(x.params.Parameters, level)
	setPoly(pt.Value, v, Q)
	if c.Bool(label + ".ntt") {
		ringOf(x.n, x.Q).NTTLvl(level, pt.Value, pt.Value)
		pt.Value.IsNTT = true
	}
	return v, pt
}

// encError is a bound on a fresh encryption's error.
func (x *rctx) encError() float64 {
	n := float64(x.n)
	return x.errMax() * (1 + 2*math.Min(n, 9*math.Sqrt(n)))
}

func newGenCt(x *rctx, ids *mkrlwe.IDSet, level int, ntt bool) *mkrlwe.Ciphertext {
	if ntt {
		return mkrlwe.NewCiphertextNTT(x.params, ids, level)
	}
	return mkrlwe.NewCiphertext(x.params, ids, level)
}

func g01Encrypt(c *C) {
	x := drawR(c)
	enc := mkrlwe.NewEncryptor(x.params)
	L := len(x.Q) - 1
	for k := 1 + c.Idx("again", 3); k > 0; k-- {
		name := pick(c, "party", partyPool)
		lp, lc := c.Int("lpt", 0, L), c.Int("lct", 0, L)
		v, pt := x.drawPt(c, "pt", lp)
		ntt := c.Bool("ctntt")
		ct := newGenCt(x, idset(name), lc, ntt)
		if c.Bool("used") {
			garbage(ct.Value["0"], x.Q, 7)
			garbage(ct.Value[name], x.Q, 8)
		}
		ptb, pkb := pt.Value.CopyNew(), x.pk(name).CopyNew()
		ptNTT := pt.Value.IsNTT
		seedCrypto("g01", c.Seed("encseed"))
		enc2 := enc
		if c.Bool("newenc") {
			enc2 = mkrlwe.NewEncryptor(x.params)
		}
		enc2.Encrypt(pt, x.pk(name), ct)
		if !ptb.Equals(pt.Value) || pt.Value.IsNTT != ptNTT {
			c.Fatalf("encryption changed the plaintext")
		}
		if !pkb.Value[0].Equals(x.pk(name).Value[0]) || !pkb.Value[1].Equals(x.pk(name).Value[1]) {
			c.Fatalf("encryption changed the public key")
		}
		lvl := min(lp, lc)
		if got := idsOf(ct.IDSet()); !sameSet(got, []string{name}) {
			c.Fatalf("the encryption for %q involves %q", name, got)
		}
		for id, p := range ct.Value {
			if len(p.Coeffs) != lvl+1 {
				c.Fatalf("component %q of the encryption of a level-%d plaintext into a level-%d ciphertext has %d rows", id, lp, lc, len(p.Coeffs))
			}
			if p.IsNTT != ntt {
				c.Fatalf("component %q: representation NTT=%v, the receiver asked for %v", id, p.IsNTT, ntt)
			}
		}
		Q := x.Q[:lvl+1]
		cr := crtOf(Q)
		got := cr.polyBig(phaseOf(x.n, x.Q, ct, x.sk))
		worst := new(big.Int)
		for j := range got {
			d := cr.center(new(big.Int).Sub(got[j], v[j]))
			if d.CmpAbs(worst) > 0 {
				worst.Abs(d)
			}
		}
		b := x.encError()
		if e := bigF(worst); e > b {
			c.Fatalf("%s: plaintext (level %d, NTT=%v) in ciphertext (level %d, NTT=%v): error %v, allowed %g (Q has %d bits)", x.cfg.name, lp, ptNTT, lc, ntt, worst, b, cr.M.BitLen())
		} else {
			c.Max("encryption error", e/b)
		}
		if worst.Sign() == 0 {
			c.Fatalf("the encryption has no error at all")
		}
		c.Class("pt NTT=%v ct NTT=%v", ptNTT, ntt)
		c.Nontrivial(!allSame(v) && (lp != lc || ptNTT || ntt))
	}
}

// genCt makes an arbitrary ciphertext for the parties: uniform components, chosen phase.
func (x *rctx) genCt(c *C, label string, names []string, level int, ntt bool) (*mkrlwe.Ciphertext, []*big.Int) {
	Q := x.Q[:level+1]
	r := ringOf(x.n, Q)
	v := edgeInts(c, label, x.n, crtOf(Q).M, Q)
	ct := newGenCt(x, idset(names...), level, false)
	setPoly(ct.Value["0"], v, Q)
	seed := c.Seed(label + ".seed")
	t, s := r.NewPoly(), r.NewPoly()
	for _, n := range union(names) {
		garbage(ct.Value[n], Q, mixSeed(seed, n))
		r.NTT(ct.Value[n], t)
		for i := range Q {
			copy(s.Coeffs[i], x.sk(n).Value.Q.Coeffs[i])
		}
		r.MulCoeffsMontgomery(t, s, t)
		r.InvNTT(t, t)
		r.Sub(ct.Value["0"], t, ct.Value["0"])
	}
	if ntt {
		for _, p := range ct.Value {
			r.NTT(p, p)
			p.IsNTT = true
		}
	}
	return ct, v
}

func (x *rctx) skSet(names ...string) *mkrlwe.SecretKeySet {
	s := mkrlwe.NewSecretKeySet()
	for _, n := range names {
		s.AddSecretKey(x.sk(n))
	}
	return s
}

func g01Decrypt(c *C) {
	x := drawR(c)
	dec := mkrlwe.NewDecryptor(x.params)
	L := len(x.Q) - 1
	for k := 1 + c.Idx("again", 3); k > 0; k-- {
		names := drawParties(c, "parties", 0, 4)
		others := drawParties(c, "others", 0, 2)
		lc, lp := c.Int("lct", 0, L), c.Int("lpt", 0, L)
		ntt, want := c.Bool("ctntt"), c.Bool("ptntt")
		ct, v := x.genCt(c, "ct", names, lc, ntt)
		pt := rlwe.NewPlaintext(x.params.Parameters, lp)
		garbage(pt.Value, x.Q, 3)
		pt.Value.IsNTT = want
		before := ct.CopyNew()
		sks := x.skSet(append(others, names...)...)
		snap := snapSks(sks)
		dec.Decrypt(ct, sks, pt)
		if d := diffGen(ct, before); d != "" {
			c.Fatalf("decryption changed the ciphertext: %s", d)
		}
		if d := snap.diff(); d != "" {
			c.Fatalf("decryption changed a secret key: %s", d)
		}
		lvl := min(lc, lp)
		if pt.Level() != lvl {
			c.Fatalf("decrypting a level-%d ciphertext into a level-%d plaintext gives level %d", lc, lp, pt.Level())
		}
		if pt.Value.IsNTT != want {
			c.Fatalf("the receiving plaintext asked for NTT=%v and is flagged NTT=%v", want, pt.Value.IsNTT)
		}
		got := plainRows(x.n, x.Q[:lvl+1], nil, pt.Value, nil, want, false)
		for i, q := range x.Q[:lvl+1] {
			for j := range v {
				if got[i][j] != modU(v[j], q) {
					c.Fatalf("%s: ciphertext (level %d, NTT=%v, parties %q) into plaintext (level %d, NTT=%v): coefficient %d mod %d is %d, want %d", x.cfg.name, lc, ntt, names, lp, want, j, q, got[i][j], modU(v[j], q))
				}
			}
		}
		c.Class("ct NTT=%v pt NTT=%v parties %d", ntt, want, len(names))
		c.Nontrivial(!allSame(v) && (lc != lp || ntt || want))
	}
}

// ---------------------------------------------------------------- snapshots of keys

// snap remembers the contents of polynomials.
type snap struct {
	what []string
	p    []*ring.Poly
	old  []*ring.Poly
	rows [][][]uint64 // the same backing arrays, in case a header is swapped
}

func (s *snap) add(what string, p *ring.Poly) {
	s.what = append(s.what, what)
	s.p = append(s.p, p)
	s.old = append(s.old, p.CopyNew())
	s.rows = append(s.rows, append([][]uint64(nil), p.Coeffs...))
}

func (s *snap) addQP(what string, p rlwe.PolyQP) {
	s.add(what+".Q", p.Q)
	s.add(what+".P", p.P)
}

func (s *snap) addSwk(what string, k *mkrlwe.SwitchingKey) {
	for i := range k.Value {
		s.addQP(fmt.Sprintf("%s[%d]", what, i), k.Value[i])
	}
}

func (s *snap) addCt(what string, ct *mkrlwe.Ciphertext) {
	for _, id := range sortedKeys(ct.Value) {
		s.add(fmt.Sprintf("%s[%q]", what, id), ct.Value[id])
	}
}

func (s *snap) addCRS(p mkrlwe.Parameters) {
	var ks []int
	for k := range p.CRS {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		s.addSwk(fmt.Sprintf("CRS[%d]", k), p.CRS[k])
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (s *snap) diff() string {
	for i, p := range s.p {
		if !p.Equals(s.old[i]) {
			return s.what[i] + " changed"
		}
		if p.IsNTT != s.old[i].IsNTT || p.IsMForm != s.old[i].IsMForm {
			return s.what[i] + " changed its representation flag"
		}
		for j := range s.rows[i] {
			for k, v := range s.rows[i][j] {
				if v != s.old[i].Coeffs[j][k] {
					return s.what[i] + " changed (row storage)"
				}
			}
		}
	}
	return ""
}

func snapSks(sks *mkrlwe.SecretKeySet) *snap {
	s := &snap{}
	for _, id := range sortedKeys(sks.Value) {
		s.addQP("sk "+id, sks.Value[id].Value)
	}
	return s
}

// ---------------------------------------------------------------- S01

// unrelated: the polynomial (a phase minus the message, modulo Q) looks like a random one.
func unrelated(cr *crt, d []*big.Int) bool {
	lim := new(big.Int).Rsh(cr.M, 4)
	for _, v := range d {
		if v.CmpAbs(lim) > 0 {
			return true
		}
	}
	return false
}

// subset draws a non-empty subset.
func subset(c *C, label string, names []string) []string {
	for {
		var r []string
		for _, n := range names {
			if c.Bool(label + ".in") {
				r = append(r, n)
			}
		}
		if len(r) > 0 {
			return r
		}
		r = append(r, names[c.Idx(label+".one", len(names))])
		return r
	}
}

func minus(a, b []string) []string {
	m := map[string]bool{}
	for _, s := range b {
		m[s] = true
	}
	var r []string
	for _, s := range a {
		if !m[s] {
			r = append(r, s)
		}
	}
	return r
}

// leak checks that no proper subset of the parties' keys, and no set with a wrong key, brings the
// phase of the ciphertext near its message (given by the phase under the true keys).
func leak(c *C, what string, n int, Q []uint64, ct *mkrlwe.Ciphertext, ids []string, sk func(string) *mkrlwe.SecretKey, wrong *mkrlwe.SecretKey) {
	q := Q[:len(ct.Value["0"].Coeffs)]
	cr := crtOf(q)
	true_ := cr.polyBig(phaseOf(n, Q, ct, sk))
	diff := func(rows [][]uint64) []*big.Int {
		v := cr.polyBig(rows)
		for j := range v {
			cr.center(v[j].Sub(v[j], true_[j]))
		}
		return v
	}
	// any one wrong key
	bad := ids[c.Idx("bad", len(ids))]
	rows := phaseOf(n, Q, ct, func(id string) *mkrlwe.SecretKey {
		if id == bad {
			return wrong
		}
		return sk(id)
	})
	if !unrelated(cr, diff(rows)) {
		c.Fatalf("%s: with a wrong key for %q in place the phase is still within Q/16 of the message everywhere", what, bad)
	}
	// any proper subset
	gone := subset(c, "gone", ids)
	part := ct.CopyNew()
	for _, id := range gone {
		delete(part.Value, id)
	}
	if !unrelated(cr, diff(phaseOf(n, Q, part, sk))) {
		c.Fatalf("%s: without the keys of %q (parties %q) the phase is still within Q/16 of the message everywhere", what, gone, ids)
	}
}

func s01Ckks(c *C) {
	c.atLeast = 5
	x := drawCkks(c, 1, 1)
	if x.params.N() > 128 {
		c.Discard("small rings only")
	}
	names := drawParties(c, "parties", 1, 4)
	w := newWorld(c, x, names)
	for _, n := range names {
		w.join(n)
	}
	t := x.s01Ct(c, w, names)
	if len(t.ids) == 0 {
		c.Discard("no party involved")
	}
	what := "ciphertext"
	wrongSk := x.party("wrong").sk
	leak(c, what, x.params.N(), x.params.Q(), t.ct.Ciphertext, t.ids, func(id string) *mkrlwe.SecretKey { return x.party(id).sk }, wrongSk)
	// refusal
	missing := subset(c, "missing", t.ids)
	keys := append(minus(names, missing), "wrong")
	before := t.ct.CopyNew()
	dec := mkckks.NewDecryptor(x.params)
	var msg *mkckks.Message
	if p, _ := panics(func() { msg = dec.Decrypt(t.ct, x.skSet(keys...)) }); !p {
		c.Fatalf("a ciphertext of %q decrypts with the keys of %q to %v", t.ids, keys, msg.Value[:min(4, len(msg.Value))])
	}
	if d := diffCt(t.ct, before); d != "" {
		c.Fatalf("a refused decryption changed the ciphertext: %s", d)
	}
	x.verifyWith(c, "after refusal", t, dec, x.skSet(t.ids...))
	// the library's decryptor with a wrong key
	if x.slots() >= 4 && t.precise() {
		bad := t.ids[c.Idx("badkey", len(t.ids))]
		set := x.skSet(t.ids...)
		set.DelSecretKey(bad)
		k := wrongSk.CopyNew()
		k.ID = bad
		set.AddSecretKey(k)
		got := mkckks.NewDecryptor(x.params).Decrypt(t.ct, set).Value
		far := false
		for i := range got {
			d := got[i] - t.val[i]
			far = far || !(math.Hypot(real(d), imag(d)) < math.Exp2(x.logQ(t.level)-7)/t.scale)
		}
		if !far {
			c.Fatalf("with a wrong key for %q (parties %q) the message still appears", bad, t.ids)
		}
	}
	c.Class("parties %d", len(t.ids))
	c.Nontrivial(len(t.ids) >= 2 || w.ops > 0)
}

// levelFor draws a level at which the scale leaves room for small messages.
func (x *ckksCtx) levelFor(c *C, label string, s float64) int {
	L := x.params.MaxLevel()
	lo := 0
	for lo < L && x.cap(lo, s) < 8 {
		lo++
	}
	return lo + c.Idx(label, L-lo+1)
}

// s01Ct makes a ciphertext by a few operations none of which cancels a component.
func (x *ckksCtx) s01Ct(c *C, w *ckksWorld, names []string) *tct {
	l, s := x.drawLevelScale(c, "at")
	t := x.drawCt(c, "m", w.enc, subset(c, "first", names), l, s, 4)
	for k := c.Int("ops", 0, 4); k > 0; k-- {
		op := pick(c, "op", []string{"add", "sub", "mul", "square", "rot", "conj", "rescale", "drop", "const", "ptxt"})
		u := t
		switch op {
		case "add", "sub":
			b := x.drawCt(c, "b", w.enc, subset(c, "with", names), x.levelFor(c, "bl", s), s, 4)
			if !x.alignable(t, b) {
				continue
			}
			if op == "add" {
				u = x.mAdd(t, b, 1)
				u.ct = w.eval.AddNew(t.ct, b.ct)
			} else {
				u = x.mAdd(t, b, -1)
				u.ct = w.eval.SubNew(t.ct, b.ct)
			}
		case "mul":
			b := x.drawCt(c, "b", w.enc, subset(c, "with", names), t.level, x.defScale(), 4)
			p, ok := x.mMul(t, b)
			if !ok {
				continue
			}
			u = p
			if c.Bool("swap") {
				u.ct = w.eval.MulRelinNew(b.ct, t.ct, w.rlks)
			} else {
				u.ct = w.eval.MulRelinNew(t.ct, b.ct, w.rlks)
			}
		case "square":
			p, ok := x.mMul(t, t)
			if !ok {
				continue
			}
			u = p
			u.ct = w.eval.MulRelinNew(t.ct, t.ct, w.rlks)
		case "rot":
			r := x.drawRot(c)
			u = x.mRot(t, r)
			u.ct = w.eval.RotateNew(t.ct, r, w.rks)
		case "conj":
			u = x.mConj(t)
			u.ct = w.eval.ConjugateNew(t.ct, w.cks)
		case "rescale":
			m := x.defScale()
			if t.level == 0 || x.borderline(t.level, t.scale, m) {
				continue
			}
			u = x.mRescale(t, m)
			if !u.fits(x) {
				continue
			}
			ct, err := w.eval.RescaleNew(t.ct, m)
			if err != nil {
				c.Fatalf("rescale: %v", err)
			}
			u.ct = ct
		case "drop":
			if t.level == 0 {
				continue
			}
			u = x.mDrop(t, 1+c.Idx("by", t.level))
			if !u.fits(x) {
				continue
			}
			u.ct = w.eval.DropLevelNew(t.ct, t.level-u.level)
		case "const":
			if !x.fits(t.level, t.scale, 4*(maxAbs(t.val)+t.eps)) {
				continue
			}
			out := mkckks.NewCiphertext(x.params, t.ct.IDSet(), t.level, 1)
			w.eval.MultByConst(t.ct, 3, out)
			u = x.mConst(t, 3, out.Scale)
			u.ct = out
		case "ptxt":
			m := msgOf(c, "pt", "complex", x.slots(), 1)
			p, ok := x.mMulPt(t, m, x.defScale())
			if !ok {
				continue
			}
			u = p
			u.ct = w.eval.MulPtxtNew(t.ct, x.encode(m, t.level, x.defScale(), false))
		}
		w.ops++
		c.Class("op %s", op)
		t = u
	}
	return t
}

func s01Bfv(c *C) {
	c.atLeast = 5
	x := drawBfv(c, 1)
	if x.params.N() > 128 {
		c.Discard("small rings only")
	}
	names := drawParties(c, "parties", 1, 3)
	t, ops := x.s01Ct(c, names)
	wrongSk := x.party("wrong").sk
	leak(c, "ciphertext", x.params.N(), x.lit.Q, t.ct.Ciphertext, t.ids, func(id string) *mkrlwe.SecretKey { return x.party(id).sk }, wrongSk)
	missing := subset(c, "missing", t.ids)
	keys := append(minus(names, missing), "wrong")
	before := t.ct.CopyNew()
	dec := mkbfv.NewDecryptor(x.params)
	var msg *mkbfv.Message
	if p, _ := panics(func() { msg = dec.Decrypt(t.ct, x.skSet(keys...)) }); !p {
		c.Fatalf("a ciphertext of %q decrypts with the keys of %q to %v", t.ids, keys, msg.Value[:4])
	}
	if d := diffGen(t.ct.Ciphertext, before.Ciphertext); d != "" {
		c.Fatalf("a refused decryption changed the ciphertext: %s", d)
	}
	x.verifyWith(c, "after refusal", t, dec, x.skSet(t.ids...))
	if x.T > 60000 {
		bad := t.ids[c.Idx("badkey", len(t.ids))]
		set := x.skSet(t.ids...)
		set.DelSecretKey(bad)
		k := wrongSk.CopyNew()
		k.ID = bad
		set.AddSecretKey(k)
		got := mkbfv.NewDecryptor(x.params).Decrypt(t.ct, set).Value
		same := 0
		for i := range got {
			if x.cent(got[i]) == t.val[i] {
				same++
			}
		}
		if same > 4 {
			c.Fatalf("with a wrong key for %q (parties %q) %d of %d slots still agree", bad, t.ids, same, len(got))
		}
	}
	c.Class("parties %d", len(t.ids))
	c.Nontrivial(len(t.ids) >= 2 || ops > 0)
}

func (x *bfvCtx) s01Ct(c *C, names []string) (*bct, int) {
	enc, eval := x.encryptor(c), mkbfv.NewEvaluator(x.params)
	rlks := x.rlkSet(names...)
	t := x.drawCt(c, "m", enc, subset(c, "first", names))
	ops := 0
	for k := c.Int("ops", 0, 4); k > 0; k-- {
		op := pick(c, "op", []string{"add", "sub", "mul", "square", "rot", "conj"})
		u := t
		switch op {
		case "add", "sub", "mul":
			b := x.drawCt(c, "b", enc, subset(c, "with", names))
			switch op {
			case "add":
				u = x.mAdd(t, b, 1)
				u.ct = eval.AddNew(t.ct, b.ct)
			case "sub":
				u = x.mAdd(t, b, -1)
				u.ct = eval.SubNew(t.ct, b.ct)
			case "mul":
				u = x.mMul(t, b)
				if !x.fits(u.noise) {
					continue
				}
				u.ct = eval.MulRelinNew(t.ct, b.ct, rlks)
			}
		case "square":
			u = x.mMul(t, t)
			if !x.fits(u.noise) {
				continue
			}
			u.ct = eval.MulRelinNew(t.ct, t.ct, rlks)
		case "rot":
			r := x.drawRot(c)
			u = x.mRot(t, r)
			if !x.fits(u.noise) {
				continue
			}
			u.ct = eval.RotateNew(t.ct, r, x.rotSet(names...))
		case "conj":
			u = x.mConj(t)
			if !x.fits(u.noise) {
				continue
			}
			u.ct = eval.ConjugateNew(t.ct, x.cjkSet(names...))
		}
		if !x.fits(u.noise) {
			continue
		}
		t = u
		ops++
		c.Class("op %s", op)
	}
	return t, ops
}

func s01Generic(c *C) {
	c.atLeast = 5
	x := drawR(c)
	names := drawParties(c, "parties", 1, 4)
	L := len(x.Q) - 1
	lvl := c.Int("level", 0, L)
	ct, _ := x.genCt(c, "ct", names, lvl, c.Bool("ntt"))
	missing := subset(c, "missing", names)
	others := minus(drawParties(c, "others", 0, 3), missing)
	sks := x.skSet(append(minus(names, missing), others...)...)
	dec := mkrlwe.NewDecryptor(x.params)
	pt := rlwe.NewPlaintext(x.params.Parameters, c.Int("lpt", 0, L))
	before := ct.CopyNew()
	if p, _ := panics(func() { dec.Decrypt(ct, sks, pt) }); !p {
		c.Fatalf("a ciphertext of %q decrypts with the keys of %q only", names, idsOfSks(sks))
	}
	if d := diffGen(ct, before); d != "" {
		c.Fatalf("a refused decryption changed the ciphertext: %s", d)
	}
	// one party's partial decryption must not finish the job of another
	left := ct.CopyNew()
	for _, n := range minus(names, missing) {
		dec.PartialDecrypt(left, x.sk(n))
	}
	if got := idsOf(left.IDSet()); !sameSet(got, missing) {
		c.Fatalf("after partial decryption by %q the ciphertext involves %q, want %q", minus(names, missing), got, missing)
	}
	c.Class("parties %d missing %d", len(names), len(missing))
	c.Nontrivial(len(names) >= 2)
}

func idsOfSks(s *mkrlwe.SecretKeySet) []string { return sortedKeys(s.Value) }

// ---------------------------------------------------------------- S02

// statsBox collects samples and decides whether they look as configured.
type statsBox struct{ v []float64 }

func (b *statsBox) add(v []*big.Int) {
	for _, z := range v {
		f, _ := new(big.Float).SetInt(z).Float64()
		b.v = append(b.v, f)
	}
}

func (b *statsBox) moments() (mean, std float64) {
	for _, v := range b.v {
		mean += v
	}
	mean /= float64(len(b.v))
	for _, v := range b.v {
		std += (v - mean) * (v - mean)
	}
	return mean, math.Sqrt(std / float64(len(b.v)))
}

// gauss checks a rounded Gaussian of the given deviation; smaller samples get wider margins.
func (b *statsBox) gauss(sigma float64) string {
	n := float64(len(b.v))
	mean, std := b.moments()
	want := math.Sqrt(sigma*sigma + 1.0/12)
	if d := math.Abs(std/want - 1); d > 8/math.Sqrt(2*n)+0.01 {
		return fmt.Sprintf("standard deviation %.4f over %d samples, want %.4f", std, len(b.v), want)
	}
	if math.Abs(mean) > 8*want/math.Sqrt(n) {
		return fmt.Sprintf("mean %.4f over %d samples, want 0", mean, len(b.v))
	}
	for _, v := range b.v {
		if math.Abs(v) > math.Floor(6*sigma) {
			return fmt.Sprintf("value %g beyond the bound %g", v, math.Floor(6*sigma))
		}
	}
	// shape: the share of values within one deviation
	in := 0.0
	for _, v := range b.v {
		if math.Abs(v) <= 3 {
			in++
		}
	}
	p := math.Erf(3.5 / sigma / math.Sqrt2)
	if d := math.Abs(in/n - p); d > 8*math.Sqrt(p*(1-p)/n)+0.01 {
		return fmt.Sprintf("a share of %.4f of the values lies within 3, want %.4f", in/n, p)
	}
	// tails
	for _, k := range []float64{2, 3, 4} {
		edge := math.Floor(k*sigma) + 0.5
		p := math.Erfc(edge / sigma / math.Sqrt2)
		if p*n < 60 {
			break
		}
		out := 0.0
		for _, v := range b.v {
			if math.Abs(v) > edge {
				out++
			}
		}
		if d := math.Abs(out - p*n); d > 8*math.Sqrt(p*n)+0.03*p*n {
			return fmt.Sprintf("%g of %d values lie beyond %g, want %.1f", out, len(b.v), edge, p*n)
		}
	}
	return ""
}

// everywhere tells whether every position of many samples of one length varies as it should.
func everywhere(samples [][]*big.Int, mean, dev float64) string {
	n := float64(len(samples))
	if n < 200 {
		return ""
	}
	for j := range samples[0] {
		s, ss := 0.0, 0.0
		for _, v := range samples {
			f := bigF(v[j])
			s += f
			ss += f * f
		}
		if d := math.Abs(s/n - mean); d > 8*dev/math.Sqrt(n) {
			return fmt.Sprintf("coefficient %d has mean %.3f over %g samples, want %.3f", j, s/n, n, mean)
		}
		if d := math.Abs(math.Sqrt(ss/n)/dev - 1); d > 8/math.Sqrt(n) {
			return fmt.Sprintf("coefficient %d has deviation %.3f over %g samples, want %.3f", j, math.Sqrt(ss/n), n, dev)
		}
	}
	return ""
}

func (b *statsBox) ternary(zero float64) string {
	n := float64(len(b.v))
	z, pos := 0.0, 0.0
	for _, v := range b.v {
		switch v {
		case 0:
			z++
		case 1:
			pos++
		case -1:
		default:
			return fmt.Sprintf("value %g is not ternary", v)
		}
	}
	if d := math.Abs(z/n - zero); d > 8*math.Sqrt(zero*(1-zero)/n)+0.005 {
		return fmt.Sprintf("a share of %.4f of %d values is zero, want %.4f", z/n, len(b.v), zero)
	}
	if nz := n - z; nz > 64 {
		if d := math.Abs(pos/nz - 0.5); d > 8*0.5/math.Sqrt(nz) {
			return fmt.Sprintf("a share of %.4f of the %g non-zero values is positive", pos/nz, nz)
		}
	}
	return ""
}

// correlated reports whether two equally long samples depend on each other linearly (or are equal).
func correlated(a, b []*big.Int) bool {
	var sab, saa, sbb, ma, mb float64
	for i := range a {
		x, y := bigF(a[i]), bigF(b[i])
		ma, mb = math.Max(ma, math.Abs(x)), math.Max(mb, math.Abs(y))
		sab += x * y
		saa += x * x
		sbb += y * y
	}
	if saa == 0 || sbb == 0 {
		return false
	}
	v := saa * sbb / float64(len(a))
	if ma <= 1 && mb <= 1 {
		// ternary samples may have very few non-zero entries: Bernstein's bound at 1e-13
		return math.Abs(sab) > 10+math.Sqrt(100+60*v)
	}
	return math.Abs(sab) > 8*math.Sqrt(v)
}

// patterned tells whether a sample repeats itself: shifted, mirrored or folded onto itself it must
// not depend on itself.
func patterned(v []*big.Int) string {
	n := len(v)
	if n < 256 {
		return ""
	}
	for _, d := range []int{1, 2, 4, 8, n / 4, n / 2, n/2 + 1, n / 8, n/2 - 1} {
		if correlated(v[:n-d], v[d:]) {
			return fmt.Sprintf("coefficients %d apart depend on each other", d)
		}
	}
	rev := make([]*big.Int, n/2)
	for i := range rev {
		rev[i] = v[n-1-i]
	}
	if correlated(v[:n/2], rev) {
		return "the upper half mirrors the lower one"
	}
	even, odd := make([]*big.Int, n/2), make([]*big.Int, n/2)
	for i := range even {
		even[i], odd[i] = v[2*i], v[2*i+1]
	}
	if correlated(even, odd) {
		return "odd coefficients depend on the even ones"
	}
	return ""
}

// bigN is a generic parameter set for statistics.
var s02Cfgs = []rCfg{
	{"s9", 9, []int{50, 40, 40}, []int{50, 50}, 2},
	{"s10", 10, []int{45, 45}, rep(4, 50), 2},
	{"s8", 8, []int{55, 30, 45, 60}, rep(3, 60), 2},
	{"s11", 11, []int{54}, []int{55, 55}, 2},
	{"s9~12", 9, []int{50, 40, 40}, []int{50, 50}, 2},
	{"s8q18", 8, rep(18, 45), []int{55, 55}, 2},
	{"s8q20", 8, rep(20, 50), rep(5, 50), 2},
	{"s10~1.25", 10, []int{45, 45}, rep(4, 50), 2},
}

// fixedPk returns the public key (k, l) of integer constants.
func fixedPk(p mkrlwe.Parameters, id string, k, l uint64) *mkrlwe.PublicKey {
	pk := mkrlwe.NewPublicKey(p, id)
	for i, v := range []uint64{k, l} {
		for _, q := range [][][]uint64{pk.Value[i].Q.Coeffs, pk.Value[i].P.Coeffs} {
			for a := range q {
				for b := range q[a] {
					q[a][b] = v
				}
			}
		}
	}
	return pk
}

const bigK = 1 << 12

// randomnessOf encrypts with the key (K, 0) and reads u, e0 and e1 off the two components:
// c0 - m = K*u + e0 and c1 = e1.
func randomnessOf(c *C, n int, Q []uint64, ct *mkrlwe.Ciphertext, id string, m [][]uint64) (u, e0, e1 []*big.Int) {
	q := Q[:len(ct.Value["0"].Coeffs)]
	read := func(p *ring.Poly, sub [][]uint64) []*big.Int {
		rows := plainRows(n, q, nil, p, nil, p.IsNTT, false)
		if sub != nil {
			for i := range q {
				for j := range rows[i] {
					rows[i][j] = (rows[i][j] + q[i] - sub[i][j]) % q[i]
				}
			}
		}
		out := make([]*big.Int, n)
		for j := range out {
			w := int64(rows[0][j])
			if rows[0][j] > q[0]/2 {
				w -= int64(q[0])
			}
			out[j] = big.NewInt(w)
			for i := range q {
				if rows[i][j] != modU(out[j], q[i]) {
					c.Fatalf("component noise of coefficient %d is %d modulo %d but %d modulo %d", j, w, q[0], rows[i][j], q[i])
				}
			}
		}
		return out
	}
	c0 := read(ct.Value["0"], m)
	e1 = read(ct.Value[id], nil)
	for _, v := range c0 {
		w := int64(math.Round(bigF(v) / bigK))
		u = append(u, big.NewInt(w))
		e0 = append(e0, big.NewInt(v.Int64()-w*bigK))
	}
	return
}

type encRand struct{ u, e0, e1 []*big.Int }

// judge checks a set of recovered encryption randomness.
func judge(c *C, sigma float64, rs []encRand) int {
	var bu, b0, b1 statsBox
	for _, r := range rs {
		bu.add(r.u)
		b0.add(r.e0)
		b1.add(r.e1)
	}
	if m := bu.ternary(0.5); m != "" {
		c.Fatalf("encryption randomness: %s", m)
	}
	if m := b0.gauss(sigma); m != "" {
		c.Fatalf("noise of the first component: %s", m)
	}
	if m := b1.gauss(sigma); m != "" {
		c.Fatalf("noise of the party's component: %s", m)
	}
	for i := range rs {
		for k, v := range [][]*big.Int{rs[i].u, rs[i].e0, rs[i].e1} {
			if m := patterned(v); m != "" {
				c.Fatalf("%s of encryption %d: %s", []string{"randomness", "first noise", "second noise"}[k], i, m)
			}
		}
		if correlated(rs[i].e0, rs[i].e1) {
			c.Fatalf("the two noise polynomials of encryption %d depend on each other", i)
		}
		if correlated(rs[i].e0, rs[i].u) || correlated(rs[i].e1, rs[i].u) {
			c.Fatalf("noise and randomness of encryption %d depend on each other", i)
		}
		for j := 0; j < i; j++ {
			if correlated(rs[i].u, rs[j].u) {
				c.Fatalf("encryptions %d and %d share their randomness", j, i)
			}
			if correlated(rs[i].e0, rs[j].e0) || correlated(rs[i].e1, rs[j].e1) || correlated(rs[i].e0, rs[j].e1) || correlated(rs[i].e1, rs[j].e0) {
				c.Fatalf("encryptions %d and %d share noise", j, i)
			}
		}
	}
	return len(bu.v)
}

func s02Enc(c *C) {
	x := getR(c, pick(c, "cfg", s02Cfgs))
	L := len(x.Q) - 1
	seedCrypto("s02", c.Seed("encseed"))
	encs := []*mkrlwe.Encryptor{mkrlwe.NewEncryptor(x.params)}
	if c.Bool("two") {
		encs = append(encs, mkrlwe.NewEncryptor(x.params))
	}
	pk := fixedPk(x.params, "a", bigK, 0)
	var rs []encRand
	n := 2 + c.Idx("n", 4)
	if c.Idx("same", 2) == 0 { // the same plaintext over and over, into the same receiver
		_, pt := x.drawPt(c, "pt", c.Int("lpt", 0, L))
		lc := c.Int("lct", 0, L)
		m := plainRows(x.n, x.Q[:pt.Level()+1], nil, pt.Value, nil, pt.Value.IsNTT, false)
		ntt := c.Bool("ntt")
		for i := 0; i < n; i++ {
			ct := newGenCt(x, idset("a"), lc, ntt)
			encs[i%len(encs)].Encrypt(pt, pk, ct)
			u, e0, e1 := randomnessOf(c, x.n, x.Q, ct, "a", m)
			rs = append(rs, encRand{u, e0, e1})
		}
	} else {
		for i := 0; i < n; i++ {
			_, pt := x.drawPt(c, "pt", c.Int("lpt", 0, L))
			m := plainRows(x.n, x.Q[:pt.Level()+1], nil, pt.Value, nil, pt.Value.IsNTT, false)
			ct := newGenCt(x, idset("a"), c.Int("lct", 0, L), c.Bool("ntt"))
			encs[i%len(encs)].Encrypt(pt, pk, ct)
			u, e0, e1 := randomnessOf(c, x.n, x.Q, ct, "a", m)
			rs = append(rs, encRand{u, e0, e1})
		}
	}
	k := judge(c, x.params.Sigma(), rs)
	c.Class("cfg %s", x.cfg.name)
	c.Nontrivial(k >= 1024)
}

var s02Ckks = []ckksCfg{{"sc9", 9, []int{50, 40, 40}, []int{50, 50}, 8, 40}, {"sc8", 8, []int{55, 45, 45}, rep(4, 50), 5, 45}, {"sc9~9", 9, []int{50, 40, 40}, []int{50, 50}, 8, 40}}
var s02Bfv = []bfvCfg{{"sb9", 9, 3, 50, 2, 60, 65537}, {"sb8", 8, 4, 45, 4, 55, 65537}, {"sb9~9", 9, 3, 50, 2, 60, 65537}, {"sb8q17", 8, 17, 50, 2, 60, 65537}, {"sb8q16", 8, 16, 45, 4, 55, 65537}}

func s02Schemes(c *C) {
	var rs []encRand
	n := 2 + c.Idx("n", 4)
	var sigma float64
	if c.Bool("bfv") {
		x := getBfv(c, pick(c, "cfg", s02Bfv), 0)
		sigma = x.params.Sigma()
		enc := x.encryptor(c)
		pk := fixedPk(x.params.Parameters, "a", bigK, 0)
		v := x.genMsg(c, "m")
		for i := 0; i < n; i++ {
			if i > 0 && c.Bool("fresh") {
				enc = mkbfv.NewEncryptor(x.params)
			}
			ct := mkbfv.NewCiphertext(x.params, idset("a"))
			switch c.Idx("how", 3) {
			case 0:
				msg := mkbfv.NewMessage(x.params)
				copy(msg.Value, v)
				ct = enc.EncryptMsgNew(msg, pk)
			case 1:
				msg := mkbfv.NewMessage(x.params)
				copy(msg.Value, v)
				enc.EncryptMsg(msg, pk, ct)
			default:
				enc.EncryptPtxt(newBfvPlaintext(x, v), pk, ct)
			}
			u, e0, e1 := randomnessOf(c, x.params.N(), x.lit.Q, ct.Ciphertext, "a", newBfvEncoding(x, v).Coeffs)
			rs = append(rs, encRand{u, e0, e1})
		}
		c.Class("cfg %s", x.cfg.name)
	} else {
		x := getCkks(c, pick(c, "cfg", s02Ckks), 0)
		sigma = x.params.Sigma()
		enc := x.encryptor(c)
		pk := fixedPk(x.params.Parameters, "a", bigK, 0)
		v := genMsg(c, "m", x.slots(), 4)
		L := x.params.MaxLevel()
		for i := 0; i < n; i++ {
			if i > 0 && c.Bool("fresh") {
				enc = mkckks.NewEncryptor(x.params)
			}
			var pt *ckks.Plaintext
			ct := mkckks.NewCiphertext(x.params, idset("a"), c.Int("lct", 0, L), x.defScale())
			msg := mkckks.NewMessage(x.params)
			copy(msg.Value, v)
			switch c.Idx("how", 3) {
			case 0:
				ct = enc.EncryptMsgNew(msg, pk)
				pt = x.encode(v, L, x.defScale(), false)
			case 1:
				enc.EncryptMsg(msg, pk, ct)
				pt = x.encode(v, L, x.defScale(), false)
			default:
				pt = x.encode(v, c.Int("lpt", 0, L), x.defScale(), false)
				enc.EncryptPtxt(pt, pk, ct)
			}
			u, e0, e1 := randomnessOf(c, x.params.N(), x.params.Q(), ct.Ciphertext, "a", pt.Value.Coeffs)
			rs = append(rs, encRand{u, e0, e1})
		}
		c.Class("cfg %s", x.cfg.name)
	}
	k := judge(c, sigma, rs)
	c.Nontrivial(k >= 1024)
}

// s02Mask: under real keys every coefficient of both components looks random, in every encryption.
func s02Mask(c *C) {
	c.atLeast = 5
	x := drawR(c)
	L := len(x.Q) - 1
	seedCrypto("s02m", c.Seed("encseed"))
	enc := mkrlwe.NewEncryptor(x.params)
	lp, lc := c.Int("lpt", 0, L), c.Int("lct", 0, L)
	_, pt := x.drawPt(c, "pt", lp)
	ntt := c.Bool("ntt")
	lvl := min(lp, lc)
	m := plainRows(x.n, x.Q[:lvl+1], nil, pt.Value, nil, pt.Value.IsNTT, false)
	name := pick(c, "party", partyPool)
	var prev [][][]uint64
	small := make(map[string]int)
	const tries = 4
	for k := 0; k < tries; k++ {
		ct := newGenCt(x, idset(name), lc, ntt)
		enc.Encrypt(pt, x.pk(name), ct)
		a := plainRows(x.n, x.Q[:lvl+1], nil, ct.Value["0"], nil, ct.Value["0"].IsNTT, false)
		b := plainRows(x.n, x.Q[:lvl+1], nil, ct.Value[name], nil, ct.Value[name].IsNTT, false)
		for i, q := range x.Q[:lvl+1] {
			for j := 0; j < x.n; j++ {
				a[i][j] = (a[i][j] + q - m[i][j]) % q
				for w, v := range []uint64{a[i][j], b[i][j]} {
					if v > q/2 {
						v = q - v
					}
					if v < 1<<12 {
						small[fmt.Sprintf("component %d row %d coefficient %d", w, i, j)]++
					}
				}
			}
		}
		cur := [][][]uint64{a, b}
		if prev != nil {
			for w := range cur {
				for i := range cur[w] {
					same := 0
					for j := range cur[w][i] {
						if cur[w][i][j] == prev[w][i][j] {
							same++
						}
					}
					if same > 2 {
						c.Fatalf("two encryptions of one plaintext agree in %d coefficients of row %d of component %d", same, i, w)
					}
				}
			}
		}
		prev = cur
	}
	for k, v := range small {
		if v == tries {
			c.Fatalf("%s is left unmasked in %d encryptions (%s, plaintext level %d, ciphertext level %d, NTT=%v)", k, v, x.cfg.name, lp, lc, ntt)
		}
	}
	c.Nontrivial(x.n*tries*(lvl+1) >= 64)
	c.Class("levels %d/%d", lp, lc)
}

// ---------------------------------------------------------------- S03

// permute returns the names in a drawn order.
func permute(c *C, label string, names []string) []string {
	r := append([]string(nil), names...)
	for i := range r {
		j := i + c.Idx(label, len(r)-i)
		r[i], r[j] = r[j], r[i]
	}
	c.Note("%s=%q", label, r)
	return r
}

// peel removes the parties one by one and checks every step.
func peel(c *C, n int, Q []uint64, ct *mkrlwe.Ciphertext, order []string, sk func(string) *mkrlwe.SecretKey, step func(ct *mkrlwe.Ciphertext, k *mkrlwe.SecretKey)) *mkrlwe.Ciphertext {
	q := Q[:len(ct.Value["0"].Coeffs)]
	want := phaseOf(n, Q, ct, sk)
	cur := ct.CopyNew()
	for i, id := range order {
		rest := &snap{}
		for _, o := range order[i+1:] {
			rest.add("component "+o, cur.Value[o])
		}
		ks := &snap{}
		ks.addQP("secret key", sk(id).Value)
		step(cur, sk(id))
		if d := ks.diff(); d != "" {
			c.Fatalf("partial decryption by %q: %s", id, d)
		}
		if d := rest.diff(); d != "" {
			c.Fatalf("partial decryption by %q: %s", id, d)
		}
		if got := idsOf(cur.IDSet()); !sameSet(got, order[i+1:]) {
			c.Fatalf("after partial decryption by %q (order %q) the ciphertext involves %q, want %q", id, order, got, order[i+1:])
		}
		if cur.Level() != len(q)-1 {
			c.Fatalf("partial decryption changes the level from %d to %d", len(q)-1, cur.Level())
		}
		got := phaseOf(n, Q, cur, sk)
		for a := range q {
			for j := range got[a] {
				if got[a][j] != want[a][j] {
					c.Fatalf("after partial decryption by %q (order %q, level %d, NTT=%v) coefficient %d mod %d of the remaining phase is %d, want %d", id, order, len(q)-1, ct.Value["0"].IsNTT, j, q[a], got[a][j], want[a][j])
				}
			}
		}
	}
	return cur
}

func s03Generic(c *C) {
	x := drawR(c)
	names := drawParties(c, "parties", 1, 5)
	lvl := c.Int("level", 0, len(x.Q)-1)
	ct, _ := x.genCt(c, "ct", names, lvl, c.Bool("ntt"))
	dec := mkrlwe.NewDecryptor(x.params)
	order := permute(c, "order", names)
	end := peel(c, x.n, x.Q, ct, order, x.sk, dec.PartialDecrypt)
	// jointly
	pt := rlwe.NewPlaintext(x.params.Parameters, lvl)
	pt.Value.IsNTT = end.Value["0"].IsNTT
	dec.Decrypt(ct, x.skSet(names...), pt)
	if !polyEq(pt.Value, end.Value["0"], x.Q[:lvl+1]) {
		c.Fatalf("joint decryption and partial decryption in the order %q end in different polynomials", order)
	}
	c.Class("parties %d", len(names))
	c.Nontrivial(len(names) >= 2)
}

func s03Ckks(c *C) {
	x := drawCkks(c, 1, 1)
	if x.params.N() > 128 {
		c.Discard("small rings only")
	}
	names := drawParties(c, "parties", 1, 5)
	w := newWorld(c, x, names)
	for _, n := range names {
		w.join(n)
	}
	t := x.s01Ct(c, w, names)
	order := permute(c, "order", t.ids)
	before := t.ct.CopyNew()
	dec := mkckks.NewDecryptor(x.params)
	sk := func(id string) *mkrlwe.SecretKey { return x.party(id).sk }
	end := peel(c, x.params.N(), x.params.Q(), t.ct.Ciphertext, order, sk, func(ct *mkrlwe.Ciphertext, k *mkrlwe.SecretKey) {
		dec.PartialDecrypt(&mkckks.Ciphertext{Ciphertext: ct, Scale: t.scale}, k)
	})
	joint := mkckks.NewDecryptor(x.params).Decrypt(t.ct, x.skSet(names...)).Value
	part := dec.Decrypt(&mkckks.Ciphertext{Ciphertext: end, Scale: t.ct.Scale}, mkrlwe.NewSecretKeySet()).Value
	for i := range joint {
		if joint[i] != part[i] {
			c.Fatalf("slot %d: joint decryption gives %v, partial decryption in the order %q gives %v", i, joint[i], order, part[i])
		}
	}
	if d := diffCt(t.ct, before); d != "" {
		c.Fatalf("the ciphertext changed: %s", d)
	}
	x.compare(c, "partial decryption", t, part)
	c.Class("parties %d", len(t.ids))
	c.Nontrivial(len(t.ids) >= 2)
}

func s03Bfv(c *C) {
	x := drawBfv(c, 1)
	if x.params.N() > 128 {
		c.Discard("small rings only")
	}
	names := drawParties(c, "parties", 1, 4)
	t, _ := x.s01Ct(c, names)
	order := permute(c, "order", t.ids)
	dec := mkbfv.NewDecryptor(x.params)
	sk := func(id string) *mkrlwe.SecretKey { return x.party(id).sk }
	end := peel(c, x.params.N(), x.lit.Q, t.ct.Ciphertext, order, sk, func(ct *mkrlwe.Ciphertext, k *mkrlwe.SecretKey) {
		dec.PartialDecrypt(&mkbfv.Ciphertext{Ciphertext: ct}, k)
	})
	joint := mkbfv.NewDecryptor(x.params).Decrypt(t.ct, x.skSet(names...)).Value
	part := dec.Decrypt(&mkbfv.Ciphertext{Ciphertext: end}, mkrlwe.NewSecretKeySet()).Value
	for i := range joint {
		if joint[i] != part[i] || x.cent(part[i]) != t.val[i] {
			c.Fatalf("slot %d: joint decryption gives %d, partial decryption in the order %q gives %d, want %d", i, joint[i], order, part[i], t.val[i])
		}
	}
	c.Class("parties %d", len(t.ids))
	c.Nontrivial(len(t.ids) >= 2)
}
