BE = "mkbfv/evaluator.go"
BH = "mkbfv/keyswitch_hoisted.go"
BX = "mkbfv/basis_extension.go"
KS = "mkrlwe/keyswitch.go"
KH = "mkrlwe/keyswitch_hoisted.go"
KG = "mkrlwe/keygen.go"
DE = "mkrlwe/decryptor.go"
CROWD = '''
func crowd(n int) (ids []string) {
	for i := 0; i < n; i++ {
		ids = append(ids, fmt.Sprintf("p%d", i))
	}
	return
}
'''
SEEDS = [
dict(id="C03-lazy-sum", property="C03", also=["E03"],
 needs="a product of ciphertexts of more than a dozen parties over primes near 2^60",
 breaks="the sum over the parties of one half of a product is not reduced on the way and overflows a word",
 edits=[(KH, "ringQP.MulCoeffsMontgomeryAndAddLvl(level, levelP, d.Value[i], op0Hoisted", "ringQP.MulCoeffsMontgomeryConstantAndAddNoModLvl(level, levelP, d.Value[i], op0Hoisted")],
 demo=CROWD + '''
func main() {
	ids := crowd(32)
	x := newCk(5, 4, []int{60, 60, 60}, []int{60, 60}, 45, ids...)
	m := x.msg()
	s := x.encNew(ids[0], m)
	for _, id := range ids[1:] {
		s = x.eval.AddNew(s, x.encNew(id, m))
	}
	k := complex(float64(len(ids)), 0)
	d := x.far(x.eval.MulRelinNew(s, s, x.rlk), func(i int) complex128 { return k * k * m.Value[i] * m.Value[i] })
	must(d < 1e-2, "product of %d parties off by %g", len(ids), d)
}'''),
dict(id="B03-lazy-sum", property="B03", also=["B05"],
 needs="a BFV product of ciphertexts of more than a dozen parties over primes near 2^60",
 breaks="the sum over the parties of one half of a product is not reduced on the way and overflows a word",
 edits=[(BH, "ringQP.MulCoeffsMontgomeryAndAddLvl(level, levelP, d2.Value[i], op0Hoisted2", "ringQP.MulCoeffsMontgomeryConstantAndAddNoModLvl(level, levelP, d2.Value[i], op0Hoisted2")],
 demo=CROWD + '''
func main() {
	ids := crowd(32)
	x := newBf(5, 3, 60, 2, 61, 65537, ids...)
	m := x.msg()
	s := x.encNew(ids[0], m)
	for _, id := range ids[1:] {
		s = x.eval.AddNew(s, x.encNew(id, m))
	}
	k := int64(len(ids))
	must(x.same(x.eval.MulRelinNew(s, s, x.rlk), func(i int) int64 { return k * m.Value[i] % x.T * (k * m.Value[i] % x.T) }), "product of %d parties", len(ids))
}'''),
dict(id="B04-lazy-rotate", property="B04", also=["C04"],
 needs="a rotation of a ciphertext of more than a dozen parties over primes near 2^60",
 breaks="a rotation adds up what the parties contribute without reducing it on the way",
 edits=[(KS, "		rk := rkSet.GetRotationKey(id, uint(rotidx))\n		ks.ExternalProduct(level, ctIn.Value[id], rk.Value, ks.polyQPool[0])\n		ringQ.AddLvl(", "		rk := rkSet.GetRotationKey(id, uint(rotidx))\n		ks.ExternalProduct(level, ctIn.Value[id], rk.Value, ks.polyQPool[0])\n		ringQ.AddNoModLvl("),
  (KS, "	// permute ctOut\n", '	ringQ.ReduceLvl(level, ctOut.Value["0"], ctOut.Value["0"])\n\n	// permute ctOut\n')],
 demo=CROWD + '''
func main() {
	ids := crowd(32)
	x := newBf(5, 2, 60, 2, 61, 65537, ids...)
	m := x.msg()
	s := x.encNew(ids[0], m)
	for _, id := range ids[1:] {
		s = x.eval.AddNew(s, x.encNew(id, m))
	}
	k, h := int64(len(ids)), len(m.Value)/2
	must(x.same(x.eval.RotateNew(s, 1, x.rot), func(i int) int64 { return k * m.Value[i/h*h+(i+1)%h] }), "rotation of %d parties", len(ids))
}'''),
dict(id="S03-lazy-share", property="S03", also=["C01"],
 needs="a joint decryption by more than a dozen parties over primes near 2^60",
 breaks="partial decryptions are added up without reducing",
 edits=[(DE, '	ringQ.AddLvl(level, ct.Value["0"], ct.Value[id]', '	ringQ.AddNoModLvl(level, ct.Value["0"], ct.Value[id]')],
 demo=CROWD + '''
func main() {
	ids := crowd(32)
	x := newCk(5, 4, []int{60, 60, 60}, []int{60, 60}, 45, ids...)
	m := x.msg()
	s := x.encNew(ids[0], m)
	for _, id := range ids[1:] {
		s = x.eval.AddNew(s, x.encNew(id, m))
	}
	for _, id := range ids {
		x.dec.PartialDecrypt(s, x.sk.GetSecretKey(id))
	}
	k := complex(float64(len(ids)), 0)
	d := x.far(s, func(i int) complex128 { return k * m.Value[i] })
	must(d < 1e-3, "joint decryption off by %g", d)
}'''),
dict(id="B02-free-minuend", property="B02", also=["B05"],
 needs="a difference whose first operand involves no party",
 breaks="the components of the subtrahend are not negated",
 edits=[(BE, "	idset0 := op0.IDSet()\n	for id := range ctOut.IDSet().Value {\n		if !idset0.Has(id) {\n			eval.params.RingQ().Neg", "	idset0 := op0.IDSet()\n	for id := range ctOut.IDSet().Value {\n		if idset0.Size() > 0 && !idset0.Has(id) {\n			eval.params.RingQ().Neg")],
 demo='''
func main() {
	x := newBf(5, 3, 50, 2, 55, 65537, "a", "b")
	m := x.msg()
	zero := mkbfv.NewCiphertext(x.params, mkrlwe.NewIDSet())
	must(x.same(x.eval.SubNew(zero, x.encNew("a", m)), func(i int) int64 { return -m.Value[i] }), "nothing minus a message")
}'''),
dict(id="K02-partial-special", property="K02", also=["C03"],
 needs="an odd number of special primes",
 breaks="a secret key is not extended to special primes beyond a multiple of gamma",
 edits=[(KG, "	sk.ID = id\n	levelQ, levelP := keygen.params.QCount()-1, keygen.params.PCount()-1\n", "	sk.ID = id\n	levelQ, levelP := keygen.params.QCount()-1, keygen.params.Alpha()*keygen.params.Gamma()-1\n")],
 demo='''
func main() {
	x := newCk(5, 4, []int{55, 45, 45}, []int{50, 50, 50}, 45, "a")
	p := x.sk.GetSecretKey("a").Value.P
	some := false
	for _, v := range p.Coeffs[2] {
		some = some || v != 0
	}
	must(some, "the secret key is nothing modulo the last special prime")
}'''),
dict(id="R02-odd-special", property="R02", also=["C03", "E03"],
 needs="an odd number of special primes and a decomposition made beforehand",
 breaks="an external product with a decomposition leaves out special primes beyond a multiple of gamma",
 edits=[(KH, "	//alpha := params.Alpha()\n	levelP := params.PCount() - 1\n", "	alpha := params.Alpha()\n	levelP := alpha*params.Gamma() - 1\n")],
 demo='''
func main() {
	x := newCk(5, 4, []int{55, 45, 45}, []int{50, 50, 50}, 45, "a")
	m := x.msg()
	a := x.encNew("a", m)
	d := x.far(x.eval.MulRelinNew(a, a, x.rlk), func(i int) complex128 { return m.Value[i] * m.Value[i] })
	must(d < 1e-4, "square off by %g", d)
}'''),
dict(id="R03-first-t", property="R03", also=[],
 needs="one extender quantising for two plaintext moduli, one after the other",
 breaks="quantisation keeps the plaintext modulus of its first call",
 edits=[(BX, "	mFormQMul    *ring.Poly\n}", "	mFormQMul    *ring.Poly\n	factor       uint64\n}"),
  (BX, "	conv.ringR.MulScalar(polyR, t, conv.polypoolR)\n", "	if conv.factor == 0 {\n		conv.factor = t\n	}\n	conv.ringR.MulScalar(polyR, conv.factor, conv.polypoolR)\n")],
 demo='''
func main() {
	x := newBf(5, 3, 50, 2, 55, 65537, "a")
	p := x.params
	conv := mkbfv.NewFastBasisExtender(p.RingP(), p.RingQ(), p.RingQMul(), p.RingR())
	r, one, two := p.RingR().NewPoly(), p.RingQ().NewPoly(), p.RingQ().NewPoly()
	for i, q := range p.RingR().Modulus {
		for j := range r.Coeffs[i] {
			r.Coeffs[i][j] = rng.Uint64() % q
		}
	}
	conv.Quantize(r, one, 65537)
	conv.Quantize(r, two, 97)
	conv = mkbfv.NewFastBasisExtender(p.RingP(), p.RingQ(), p.RingQMul(), p.RingR())
	conv.Quantize(r, one, 97)
	must(p.RingQ().Equal(one, two), "quantisation for a second plaintext modulus")
}'''),
]
