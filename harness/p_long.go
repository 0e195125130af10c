package main

import (
	"fmt"
	"math"
	"math/big"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
)

// Long histories: hundreds of calls on one object, sums of hundreds of ciphertexts, crowds of a
// hundred parties, hundreds of keys in one set.

// rounds draws the length of a long history, mostly far beyond a power of two.
func rounds(c *C) int {
	n := []int{40, 140, 270, 540, 1100}[c.Idx("length", 5)]
	return n + c.Idx("more", 8)
}

// e02Marathon: the same few calls again and again on long-lived objects, between calls on operands
// with other contents, always with the same result.
func e02Marathon(c *C) {
	type item struct {
		q   *call
		ref interface{}
	}
	var items []item
	var o *objs
	var run func(it item) interface{}
	var same func(it item, r interface{}) string
	var stir func(it item, seed uint64)
	var names []string
	var cfg string
	if c.Bool("bfv") {
		x := smallBfv(c, 1)
		cfg = x.cfg.name
		names = drawParties(c, "parties", 2, 3)
		p := x.drawPool(c, x.encryptor(c), names, 3)
		for k := c.Int("calls", 4, 9); k > 0; k-- {
			q := p.draw(c, bfvCalls)
			c.kept = nil // the calls come again, so none may take over the objects of another
			if q != nil {
				it := item{q, q.run(x.newObjs(names...))}
				if q.bt != nil {
					q.bt.ct = it.ref.(*mkbfv.Ciphertext)
					p.put(c, q.bt)
				}
				items = append(items, it)
			}
		}
		o = x.newObjs(names...)
		run = func(it item) interface{} { return it.q.run(o) }
		same = func(it item, r interface{}) string { return x.sameResult(it.ref, r) }
		stir = func(it item, seed uint64) {
			back := refilled(it.q.ins, x.lit.Q, x.lit.P, seed)
			it.q.run(o)
			back()
		}
	} else {
		x := smallCkks(c, 1)
		cfg = x.cfg.name
		names = drawParties(c, "parties", 2, 3)
		p := x.drawPool(c, x.encryptor(c), names, 3)
		for k := c.Int("calls", 4, 9); k > 0; k-- {
			q := p.draw(c, ckksCalls)
			c.kept = nil
			if q != nil {
				it := item{q, q.run(x.newObjs(names...))}
				if q.kt != nil {
					q.kt.ct = it.ref.(*mkckks.Ciphertext)
					p.put(c, q.kt)
				}
				items = append(items, it)
			}
		}
		o = x.newObjs(names...)
		run = func(it item) interface{} { return it.q.run(o) }
		same = func(it item, r interface{}) string { return x.sameResult(it.q, it.ref, r) }
		stir = func(it item, seed uint64) {
			if it.q.name == "dec" { // arbitrary contents may be anything as floating point numbers
				return
			}
			back := refilled(it.q.ins, x.params.Q(), x.params.P(), seed)
			it.q.run(o)
			back()
		}
	}
	if len(items) < 3 {
		c.Discard("too few calls")
	}
	for _, it := range items {
		c.Note("%s", it.q.name)
		c.Class("op %s", it.q.name)
	}
	type given struct {
		it  item
		res interface{}
		i   int
	}
	var kept []given // results belong to the caller: no later call may touch them
	n := rounds(c)
	r := prng("marathon", c.Seed("order"))
	for i := 0; i < n; i++ {
		it := items[r.IntN(len(items))]
		if r.IntN(3) == 0 {
			stir(it, r.Uint64())
			continue
		}
		res := run(it)
		if d := same(it, res); d != "" {
			c.Fatalf("%s on long-lived objects, call number %d, and on new ones: %s [%s]", it.q.name, i, d, cfg)
		}
		kept = append(kept, given{it, res, i})
	}
	for _, g := range kept {
		if d := same(g.it, g.res); d != "" {
			c.Fatalf("the result of %s, call number %d, after %d calls: %s [%s]", g.it.q.name, g.i, n, d, cfg)
		}
	}
	c.Class("more than %d calls", n/100*100)
	c.Nontrivial(n > 100 && len(names) > 1)
}

// ---------------------------------------------------------------- sums of many

func c02Many(c *C) {
	x := smallCkks(c, 1)
	enc := x.encryptor(c)
	eval := mkckks.NewEvaluator(x.params)
	names := drawParties(c, "parties", 1, 4)
	n := rounds(c) / 2
	var ops []*tct
	l, s := x.drawLevelScale(c, "at")
	for k := c.Int("operands", 2, 5); k > 0; k-- {
		if !c.OneIn("same level", 2) {
			l = c.Int("l", 0, x.params.MaxLevel())
			if x.cap(l, s) < 16 {
				l = x.params.MaxLevel()
			}
		}
		ops = append(ops, x.drawCt(c, "m", enc, subset(c, "who", names), l, s, 1))
	}
	accs := append([]*tct(nil), ops[:2]...)
	r := prng("many", c.Seed("order"))
	subs := 0
	for i := 0; i < n; i++ {
		a := r.IntN(2)
		o := ops[r.IntN(len(ops))]
		if r.IntN(20) == 0 {
			o = accs[1-a]
		}
		if !x.alignable(accs[a], o) {
			accs[a] = ops[a]
			continue
		}
		var t *tct
		switch r.IntN(3) {
		case 0:
			t = x.mAdd(accs[a], o, 1)
			t.ct = eval.AddNew(accs[a].ct, o.ct)
		case 1:
			t = x.mAdd(accs[a], o, -1)
			t.ct = eval.SubNew(accs[a].ct, o.ct)
			subs++
		default:
			t = x.mAdd(o, accs[a], -1)
			t.ct = eval.SubNew(o.ct, accs[a].ct)
			subs++
		}
		accs[a] = t
	}
	for i, t := range accs {
		x.verify(c, fmt.Sprintf("sum of %d", n), t)
		c.Nontrivial(t.precise() && n > 100 && subs > 0)
		if i == 0 && x.alignable(accs[0], accs[1]) {
			u := x.mAdd(accs[0], accs[1], -1)
			u.ct = eval.SubNew(accs[0].ct, accs[1].ct)
			x.verify(c, "difference of the sums", u)
		}
	}
	for _, o := range ops {
		if len(o.ids) > 0 {
			x.verify(c, "operand after the sums", o)
		}
	}
	c.Class("more than %d terms", n/100*100)
}

func b02Many(c *C) {
	x := smallBfv(c, 1)
	enc := x.encryptor(c)
	eval := mkbfv.NewEvaluator(x.params)
	names := drawParties(c, "parties", 1, 4)
	n := rounds(c) / 2
	var ops []*bct
	for k := c.Int("operands", 2, 5); k > 0; k-- {
		ops = append(ops, x.drawCt(c, "m", enc, subset(c, "who", names)))
	}
	accs := append([]*bct(nil), ops[:2]...)
	r := prng("many", c.Seed("order"))
	subs := 0
	for i := 0; i < n; i++ {
		a := r.IntN(2)
		o := ops[r.IntN(len(ops))]
		if r.IntN(20) == 0 {
			o = accs[1-a]
		}
		var t *bct
		k := r.IntN(3)
		switch k {
		case 0:
			t = x.mAdd(accs[a], o, 1)
		case 1:
			t = x.mAdd(accs[a], o, -1)
		default:
			t = x.mAdd(o, accs[a], -1)
		}
		if !x.fits(t.noise) {
			accs[a] = ops[a]
			continue
		}
		switch k {
		case 0:
			t.ct = eval.AddNew(accs[a].ct, o.ct)
		case 1:
			t.ct = eval.SubNew(accs[a].ct, o.ct)
			subs++
		default:
			t.ct = eval.SubNew(o.ct, accs[a].ct)
			subs++
		}
		accs[a] = t
	}
	for _, t := range accs {
		x.verify(c, fmt.Sprintf("sum of %d", n), t)
	}
	if u := x.mMul(accs[0], accs[1]); x.fits(u.noise) { // the sums are factors like any other
		u.ct = eval.MulRelinNew(accs[0].ct, accs[1].ct, x.rlkSet(names...))
		x.verify(c, "product of the sums", u)
		c.Class("multiplied")
	}
	for _, o := range ops {
		if len(o.ids) > 0 {
			x.verify(c, "operand after the sums", o)
		}
	}
	c.Class("more than %d terms", n/100*100)
	c.Nontrivial(n > 100 && subs > 0)
}

// ---------------------------------------------------------------- a city of parties

var cityCkks = ckksCfg{"city", 4, []int{55, 50, 50}, []int{55, 55}, 3, 50}
var cityBfv = bfvCfg{"city", 4, 4, 50, 2, 60, 97}

// primes as large as they may be: a sum which is reduced too late overflows with few terms
var city60Ckks = ckksCfg{"city60", 4, []int{60, 60, 60}, []int{60, 60}, 3, 55}
var city60Bfv = bfvCfg{"city60", 4, 4, 59, 2, 60, 97}
var city60R = rCfg{"city60", 4, []int{60, 60, 60}, []int{60, 60}, 2}

// e03City is the hoisted against the ordinary operations for many parties and primes of full size.
func e03City(c *C) {
	names := cityNames(c)
	if len(names) > 80 {
		names = names[:80]
	}
	if c.Bool("bfv") {
		e03BfvOn(c, getBfv(c, city60Bfv, 0), names, 1)
	} else {
		e03GenericOn(c, getR(c, city60R), names, 2)
	}
}

func cityNames(c *C) []string {
	n := []int{9, 17, 30, 62, 70, 126, 134, 258}[c.Idx("city", 8)] + c.Idx("few", 6)
	r := make([]string, n)
	for i := range r {
		r[i] = fmt.Sprintf("citizen %d", i)
	}
	c.Note("%d parties", n)
	c.Class("more than %d parties", n/50*50)
	return r
}

func cityCkksOp(c *C, kinds []string) {
	x := getCkks(c, pick(c, "set", []ckksCfg{cityCkks, city60Ckks}), 0)
	names := cityNames(c)
	enc := x.encryptor(c)
	eval := mkckks.NewEvaluator(x.params)
	r := prng("city", c.Seed("split"))
	split := func() (out []string) {
		keep := 1 + r.IntN(4)
		for _, n := range names {
			if r.IntN(4) < keep {
				out = append(out, n)
			}
		}
		return
	}
	L := x.params.MaxLevel()
	a := x.drawCt(c, "a", enc, split(), L-c.Idx("la", 2), x.defScale(), 1)
	b := x.drawCt(c, "b", enc, split(), L-c.Idx("lb", 2), x.defScale(), 1)
	op := pick(c, "op", kinds)
	var t *tct
	switch op {
	case "add":
		t = x.mAdd(a, b, 1)
		t.ct = eval.AddNew(a.ct, b.ct)
	case "sub":
		t = x.mAdd(a, b, -1)
		t.ct = eval.SubNew(a.ct, b.ct)
	case "mul":
		u, ok := x.mMul(a, b)
		if !ok {
			c.Discard("does not fit")
		}
		t = u
		t.ct = eval.MulRelinNew(a.ct, b.ct, x.rlkSet(names...))
	case "rot":
		k := x.drawRot(c)
		t = x.mRot(a, k)
		t.ct = eval.RotateNew(a.ct, k, x.rotSet(names...))
	case "hrot":
		k := 1 << c.Idx("k", x.params.LogN()-2)
		t = x.mRot(a, k)
		t.ct = eval.RotateHoistedNew(a.ct, k, eval.HoistedForm(a.ct), x.rotSet(names...))
	case "conj":
		t = x.mConj(a)
		t.ct = eval.ConjugateNew(a.ct, x.cjkSet(names...))
	case "partial": // all but one open it, then the last one does
		t = x.mAdd(a, b, 1)
		t.ct = eval.AddNew(a.ct, b.ct)
		dec := mkckks.NewDecryptor(x.params)
		last := t.ids[r.IntN(len(t.ids))]
		order := r.Perm(len(t.ids))
		for _, i := range order {
			if t.ids[i] != last {
				dec.PartialDecrypt(t.ct, x.party(t.ids[i]).sk)
			}
		}
		t.ids = []string{last}
	}
	if !t.fits(x) {
		c.Discard("does not fit")
	}
	x.verify(c, op+" with very many parties", t)
	if len(t.ids) > 1 && op != "partial" { // one missing key is one too few
		who := t.ids[r.IntN(len(t.ids))]
		rest := minus(t.ids, []string{who})
		refused(c, "decryption without the key of one of very many parties", func() interface{} {
			return mkckks.NewDecryptor(x.params).Decrypt(t.ct, x.skSet(rest...))
		})
	}
	c.Class("op %s", op)
	c.Nontrivial(t.precise())
}

func cityBfvOp(c *C, kinds []string) {
	x := getBfv(c, pick(c, "set", []bfvCfg{cityBfv, city60Bfv}), 0)
	names := cityNames(c)
	enc := x.encryptor(c)
	eval := mkbfv.NewEvaluator(x.params)
	r := prng("city", c.Seed("split"))
	split := func() (out []string) {
		keep := 1 + r.IntN(4)
		for _, n := range names {
			if r.IntN(4) < keep {
				out = append(out, n)
			}
		}
		return
	}
	a := x.drawCt(c, "a", enc, split())
	b := x.drawCt(c, "b", enc, split())
	op := pick(c, "op", kinds)
	var t *bct
	switch op {
	case "add":
		t = x.mAdd(a, b, 1)
		t.ct = eval.AddNew(a.ct, b.ct)
	case "sub":
		t = x.mAdd(a, b, -1)
		t.ct = eval.SubNew(a.ct, b.ct)
	case "mul":
		t = x.mMul(a, b)
		t.ct = eval.MulRelinNew(a.ct, b.ct, x.rlkSet(names...))
	case "rot", "hrot":
		k := x.drawRot(c)
		t = x.mRot(a, k)
		t.ct = eval.RotateNew(a.ct, k, x.rotSet(names...))
	case "conj":
		t = x.mConj(a)
		t.ct = eval.ConjugateNew(a.ct, x.cjkSet(names...))
	case "partial":
		t = x.mAdd(a, b, 1)
		t.ct = eval.AddNew(a.ct, b.ct)
		dec := mkbfv.NewDecryptor(x.params)
		last := t.ids[r.IntN(len(t.ids))]
		for _, i := range r.Perm(len(t.ids)) {
			if t.ids[i] != last {
				dec.PartialDecrypt(t.ct, x.party(t.ids[i]).sk)
			}
		}
		t.ids = []string{last}
	}
	if !x.fits(t.noise) {
		c.Discard("does not fit")
	}
	x.verify(c, op+" with very many parties", t)
	if len(t.ids) > 1 && op != "partial" {
		who := t.ids[r.IntN(len(t.ids))]
		rest := minus(t.ids, []string{who})
		refused(c, "decryption without the key of one of very many parties", func() interface{} {
			return mkbfv.NewDecryptor(x.params).Decrypt(t.ct, x.skSet(rest...))
		})
	}
	c.Class("op %s", op)
	c.Nontrivial(true)
}

// ---------------------------------------------------------------- many encryptions and keys

// fresh values must never come back, not even negated.
type ledger struct {
	seen map[string]string
}

func (l *ledger) enter(c *C, what string, v []*big.Int) {
	key := func(s int64) string {
		b := make([]byte, 0, 2*len(v))
		for _, z := range v {
			w := z.Int64() * s
			b = append(b, byte(w), byte(w>>8))
		}
		return string(b)
	}
	for _, s := range []int64{1, -1} {
		if old, ok := l.seen[key(s)]; ok {
			c.Fatalf("%s is the same as, or the negation of, %s", what, old)
		}
	}
	l.seen[key(1)] = what
}

var manyR = rCfg{"many", 6, []int{50}, []int{50, 50}, 2}

func s02ManyEnc(c *C) {
	x := getR(c, manyR)
	seedCrypto("s02", c.Seed("encseed"))
	encs := []*mkrlwe.Encryptor{mkrlwe.NewEncryptor(x.params)}
	if c.Bool("two") {
		encs = append(encs, mkrlwe.NewEncryptor(x.params))
	}
	pk := fixedPk(x.params, "a", bigK, 0)
	_, pt := x.drawPt(c, "pt", 0)
	m := plainRows(x.n, x.Q, nil, pt.Value, nil, pt.Value.IsNTT, false)
	l := &ledger{map[string]string{}}
	var bu, be statsBox
	n := rounds(c)
	var us, es [][]*big.Int
	var kg *mkrlwe.KeyGenerator
	for i := 0; i < n; i++ {
		if i < 4 && c.Bool("keys in between") { // of another source of randomness, which must be another one
			kg = mkrlwe.NewKeyGenerator(x.params)
		}
		if kg != nil && i < 40 {
			s, _ := skInts(x.n, x.Q, x.P, kg.GenSecretKey("a"))
			l.enter(c, fmt.Sprintf("secret key %d", i), s)
		}
		if i < 4 && c.Bool("another encryptor") {
			encs = append(encs, mkrlwe.NewEncryptor(x.params))
		}
		ct := newGenCt(x, idset("a"), 0, i%2 == 1)
		encs[i%len(encs)].Encrypt(pt, pk, ct)
		u, e0, e1 := randomnessOf(c, x.n, x.Q, ct, "a", m)
		us = append(us, u)
		es = append(es, e0, e1)
		l.enter(c, fmt.Sprintf("the randomness of encryption %d", i), u)
		l.enter(c, fmt.Sprintf("the first noise of encryption %d", i), e0)
		l.enter(c, fmt.Sprintf("the second noise of encryption %d", i), e1)
		bu.add(u)
		be.add(e0)
		be.add(e1)
	}
	if d := bu.ternary(0.5); d != "" {
		c.Fatalf("randomness of %d encryptions: %s", n, d)
	}
	if d := be.gauss(x.params.Sigma()); d != "" {
		c.Fatalf("noise of %d encryptions: %s", n, d)
	}
	if d := everywhere(us, 0, math.Sqrt(0.5)); d != "" {
		c.Fatalf("randomness of %d encryptions: %s", n, d)
	}
	if d := everywhere(es, 0, math.Sqrt(x.params.Sigma()*x.params.Sigma()+1.0/12)); d != "" {
		c.Fatalf("noise of %d encryptions: %s", n, d)
	}
	c.Class("more than %d encryptions", n/100*100)
	c.Nontrivial(len(bu.v) >= 1024)
}

func s02ManyKeys(c *C) {
	x := getR(c, manyR)
	kg := x.keygen(c)
	l := &ledger{map[string]string{}}
	n := rounds(c) / 2
	var r errs
	r0 := prng("keys", c.Seed("order"))
	sk := kg.GenSecretKey("a")
	s, _ := skInts(x.n, x.Q, x.P, sk)
	l.enter(c, "secret key", s)
	for i := 0; i < n; i++ {
		before := len(r.e)
		switch r0.IntN(6) {
		case 0:
			sk = kg.GenSecretKey("a")
			s, _ = skInts(x.n, x.Q, x.P, sk)
			l.enter(c, fmt.Sprintf("secret key number %d", i), s)
		case 1:
			x.pkErr(c, &r, kg.GenPublicKey(sk), s)
		case 2:
			rs := kg.GenSecretKey("a")
			rr, _ := skInts(x.n, x.Q, x.P, rs)
			l.enter(c, fmt.Sprintf("secret of relinearisation key number %d", i), rr)
			x.rlkErr(c, &r, kg.GenRelinearizationKey(sk, rs), s, rr)
		case 3:
			x.rotErr(c, &r, kg.GenRotationKey(2, sk), 2, s)
		case 4:
			x.conjErr(c, &r, kg.GenConjugationKey(sk), s)
		case 5:
			swk := mkrlwe.NewSwitchingKey(x.params)
			kg.GenSwitchingKey(sk, swk)
			x.swkErr(c, &r, swk, s)
		}
		for j := before; j < len(r.e); j++ {
			l.enter(c, fmt.Sprintf("the noise of %s (key number %d)", r.what[j], i), r.e[j])
		}
	}
	var b statsBox
	for _, e := range r.e {
		b.add(e)
	}
	if len(b.v) > 1000 {
		if d := b.gauss(x.params.Sigma()); d != "" {
			c.Fatalf("noise of %d keys: %s", n, d)
		}
		if d := everywhere(r.e, 0, math.Sqrt(x.params.Sigma()*x.params.Sigma()+1.0/12)); d != "" {
			c.Fatalf("noise of %d keys: %s", n, d)
		}
	}
	c.Class("more than %d keys", n/50*50)
	c.Nontrivial(n > 15)
}

var bulkR = rCfg{"bulk", 13, []int{50}, []int{50, 50}, 2}

// s02Bulk looks at more than a million noise values of one source, enough for the tails beyond four
// deviations.
func s02Bulk(c *C) {
	x := getR(c, bulkR)
	c.evict = append(c.evict, func() { delete(rCache, x.cfg.name) })
	var r errs
	const polys = 220
	kind := pick(c, "kind", []string{"public", "rotation", "relinearisation", "conjugation", "switching", "encryption"})
	kg := x.keygen(c)
	sk := kg.GenSecretKey("a")
	s, _ := skInts(x.n, x.Q, x.P, sk)
	enc := mkrlwe.NewEncryptor(x.params)
	pk := fixedPk(x.params, "a", bigK, 0)
	_, pt := x.drawPt(c, "pt", 0)
	m := plainRows(x.n, x.Q, nil, pt.Value, nil, pt.Value.IsNTT, false)
	for len(r.e) < polys {
		switch kind {
		case "public":
			x.pkErr(c, &r, kg.GenPublicKey(sk), s)
		case "rotation":
			x.rotErr(c, &r, kg.GenRotationKey(2, sk), 2, s)
		case "relinearisation":
			x.rlkErr(c, &r, kg.GenRelinearizationKey(sk, sk), s, s)
		case "conjugation":
			x.conjErr(c, &r, kg.GenConjugationKey(sk), s)
		case "switching":
			swk := mkrlwe.NewSwitchingKey(x.params)
			kg.GenSwitchingKey(sk, swk)
			x.swkErr(c, &r, swk, s)
		case "encryption":
			ct := newGenCt(x, idset("a"), 0, len(r.e)%4 == 0)
			enc.Encrypt(pt, pk, ct)
			_, e0, e1 := randomnessOf(c, x.n, x.Q, ct, "a", m)
			r.e = append(r.e, e0, e1)
		}
	}
	var b statsBox
	for _, e := range r.e {
		b.add(e)
		if d := patterned(e); d != "" {
			c.Fatalf("noise (%s): %s", kind, d)
		}
	}
	if d := b.gauss(x.params.Sigma()); d != "" {
		c.Fatalf("noise (%s): %s", kind, d)
	}
	c.Class("bulk %s", kind)
	c.Nontrivial(true)
}

// k03Many: a history of hundreds of names.
func k03Many(c *C) {
	x := getR(c, rCfgs[c.Idx("cfg", 3)])
	kind := pick(c, "kind", keyKinds)
	var b *bfvCtx
	if kind == "bfvrelin" {
		b = getBfv(c, bfvSmall[0], 0)
	}
	type slot struct {
		id string
		a  uint
	}
	t := x.keyTable(kind, b)
	model := map[slot]uint64{}
	n := []int{20, 70, 140, 280}[c.Idx("names", 4)] + c.Idx("few", 6)
	stem := pick(c, "stem", []string{"", "n", "party/", "\x00", "ab"})
	r := prng("k03many", c.Seed("order"))
	name := func(i int) string {
		switch i % 3 {
		case 0:
			return fmt.Sprintf("%s%d", stem, i)
		case 1:
			return fmt.Sprintf("%d%s", i, stem)
		default:
			return string([]byte{byte(i), byte(i >> 8)}) + stem
		}
	}
	set := mkrlwe.NewIDSet()
	members := map[string]bool{}
	slotOf := func() slot {
		s := slot{id: name(r.IntN(n))}
		if kind == "rotation" {
			s.a = uint(1 + r.IntN(4)*r.IntN(50))
		}
		return s
	}
	next := uint64(1)
	for k := 0; k < 3*n; k++ {
		s := slotOf()
		if r.IntN(4) > 0 {
			t.add(t.mk(s.id, s.a, next))
			model[s] = next
			next++
			if s.id != "0" {
				set.Add(s.id)
				members[s.id] = true
			}
		} else {
			t.del(s.id, s.a)
			delete(model, s)
			if s.id != "0" {
				set.Remove(s.id)
				delete(members, s.id)
			}
		}
	}
	ids := map[string]bool{}
	for s, m := range model {
		var id string
		var am uint
		var mk uint64
		if p, v := panics(func() { id, am, mk = t.get(s.id, s.a) }); p {
			c.Fatalf("the %s key of %q/%d is refused: %v", kind, s.id, s.a, v)
		}
		if id != s.id || am != s.a || mk != m {
			c.Fatalf("asked the %s key set for %q/%d (key number %d), got key number %d of %q/%d", kind, s.id, s.a, m, mk, id, am)
		}
		ids[s.id] = true
	}
	if t.size != nil && t.size() != len(ids) {
		c.Fatalf("the %s key set holds %d keys, want %d", kind, t.size(), len(ids))
	}
	for k := 0; k < n; k++ {
		s := slotOf()
		if _, in := model[s]; !in {
			if p, _ := panics(func() { t.get(s.id, s.a) }); !p {
				c.Fatalf("the %s key set hands out a key for %q/%d which it does not hold", kind, s.id, s.a)
			}
		}
		if set.Has(s.id) != members[s.id] {
			c.Fatalf("the party set of %d says %v for %q", len(members), !members[s.id], s.id)
		}
	}
	if set.Size() != len(members) {
		c.Fatalf("the party set has %d members, want %d", set.Size(), len(members))
	}
	c.Class("kind %s, more than %d names", kind, n/50*50)
	c.Nontrivial(len(ids) > 10)
}
