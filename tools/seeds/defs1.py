E = "mkckks/evaluator.go"
CK2 = 'newCk(5, 4, []int{55, 45, 45, 45}, []int{50, 50}, 45, "a", "b")'
SEEDS = [
dict(id="C02-disjoint-scale", property="C02", also=["C08"],
 needs="a sum of two ciphertexts with different scales where the one with the lower scale involves a party the other one does not",
 breaks="the component of a party that occurs only in the second, lower-scaled operand is copied unscaled into the sum",
 edits=[(E, "ring.CopyValuesLvl(level, tmp1.Value[id], ctOut.Value[id])", "ring.CopyValuesLvl(level, c1.Value[id], ctOut.Value[id])")],
 demo='''
func main() {
	x := %s
	m, n := x.msg(), x.msg()
	a := x.encAt("a", m, 3, math.Exp2(50))
	b := x.encAt("b", n, 3, math.Exp2(45))
	s := x.eval.AddNew(a, b)
	d := x.far(s, func(i int) complex128 { return m.Value[i] + n.Value[i] })
	must(d < 1e-5, "sum off by %%g", d)
	s = x.eval.SubNew(a, b)
	d = x.far(s, func(i int) complex128 { return m.Value[i] - n.Value[i] })
	must(d < 1e-5, "difference off by %%g", d)
}''' % CK2),
dict(id="C02-sum-scale", property="C02", also=["C08"],
 needs="a sum whose second operand has the larger scale",
 breaks="the sum records the scale of the first operand although it was aligned to the larger one",
 edits=[(E, "maxScale := utils.MaxFloat64(op0.ScalingFactor(), op1.ScalingFactor())", "maxScale := op0.ScalingFactor()\n\tif op0.Level() < op1.Level() {\n\t\tmaxScale = utils.MaxFloat64(op0.ScalingFactor(), op1.ScalingFactor())\n\t}")],
 demo='''
func main() {
	x := %s
	m, n := x.msg(), x.msg()
	s := x.eval.AddNew(x.encAt("a", m, 3, math.Exp2(45)), x.encAt("b", n, 2, math.Exp2(47)))
	d := x.far(s, func(i int) complex128 { return m.Value[i] + n.Value[i] })
	must(d < 1e-5, "sum off by %%g", d)
}''' % CK2),
dict(id="C04-rotate-far-left", property="C04",
 needs="a rotation by less than minus the number of slots of the full ring",
 breaks="the amount is normalised once only, so that a rotation by e.g. -3N/2 yields a zero ciphertext",
 edits=[(E, "	for rotidx < 0 {\n		rotidx += eval.params.N() / 2\n	}\n\n	if rotidx == 0 {\n		ctOut.Ciphertext.Copy(ct0.Ciphertext)\n		return\n	}\n\n	_, in := eval.params.CRS[rotidx]\n\n	if in {\n		eval.ksw.Rotate(",
        "	if rotidx < 0 {\n		rotidx += eval.params.N() / 2\n	}\n\n	if rotidx == 0 {\n		ctOut.Ciphertext.Copy(ct0.Ciphertext)\n		return\n	}\n\n	_, in := eval.params.CRS[rotidx]\n\n	if in {\n		eval.ksw.Rotate(")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	n := len(m.Value)
	ct := x.encNew("a", m)
	for _, k := range []int{-1, -n - 5, -3*n - 3, -2 * n, 2*n + 3} {
		r := x.eval.RotateNew(ct, k, x.rot)
		d := x.far(r, func(i int) complex128 { return m.Value[((i+k)%%n+n)%%n] })
		must(d < 1e-5, "rotation by %%d off by %%g", k, d)
	}
}''' % CK2),
dict(id="E01-rotate-operand", property="E01", also=["C04", "C08"],
 needs="a rotation by an amount without a dedicated key, and a later use of the operand",
 breaks="the composite rotation leaves an intermediate rotation in its operand",
 edits=[(E, "ctTmp := ct0.CopyNew()\n	for k := 1;", "ctTmp := ct0\n	for k := 1;")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	ct := x.encNew("a", m)
	x.eval.RotateNew(ct, 4, x.rot)
	x.eval.RotateNew(ct, 7, x.rot)
	d := x.far(ct, func(i int) complex128 { return m.Value[i] })
	must(d < 1e-5, "operand changed by %%g", d)
}''' % CK2),
dict(id="C05-conj-scale", property="C05", also=["C08"],
 needs="conjugating a ciphertext whose scale differs from the default",
 breaks="the conjugate records the default scale",
 edits=[(E, "	ctOut = NewCiphertext(eval.params, ct0.IDSet(), ct0.Level(), ct0.Scale)\n	eval.conjugate(", "	ctOut = NewCiphertext(eval.params, ct0.IDSet(), ct0.Level(), eval.params.Scale())\n	eval.conjugate(")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	for _, s := range []float64{math.Exp2(45), math.Exp2(40)} {
		ct := x.eval.ConjugateNew(x.encAt("b", m, 3, s), x.cjk)
		d := x.far(ct, func(i int) complex128 { return cmplx.Conj(m.Value[i]) })
		must(d < 1e-3, "conjugate off by %%g", d)
	}
}''' % CK2),
dict(id="C06-ptxt-scale", property="C06", also=["C08"],
 needs="multiplying by a plaintext encoded at a scale other than the default",
 breaks="the product records a scale computed from the default scale instead of the plaintext's",
 edits=[(E, "ctOut = NewCiphertext(eval.params, ct.IDSet(), ct.Level(), ct.Scale*pt.Scale)", "ctOut = NewCiphertext(eval.params, ct.IDSet(), ct.Level(), ct.Scale*eval.params.Scale())")],
 demo='''
func main() {
	x := %s
	m, n := x.msg(), x.msg()
	pt := ckks.NewPlaintext(x.par, 3, math.Exp2(48))
	ckks.NewEncoder(x.par).Encode(pt, n.Value, x.params.LogSlots())
	r := x.eval.MulPtxtNew(x.encNew("a", m), pt)
	d := x.far(r, func(i int) complex128 { return m.Value[i] * n.Value[i] })
	must(d < 1e-5, "product off by %%g", d)
}''' % CK2),
dict(id="C06-const-fraction", property="C06", also=["C08"],
 needs="a complex constant whose real part is a non-zero integer and whose imaginary part is not",
 breaks="the imaginary part is rounded to an integer because its fraction is looked at only when there is no real part",
 edits=[(E, "		if cImag != 0 {\n			valueFloat := cImag - math.Trunc(cImag)\n", "		if cReal == 0 && cImag != 0 {\n			valueFloat := cImag - math.Trunc(cImag)\n")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	for _, c := range []complex128{complex(1.5, 0), complex(2, 0.25), complex(0, -1.75), complex(0.5, 3)} {
		a := x.encNew("a", m)
		x.eval.MultByConst(a, c, a)
		d := x.far(a, func(i int) complex128 { return c * m.Value[i] })
		must(d < 1e-5, "multiplication by %%v off by %%g", c, d)
	}
}''' % CK2),
dict(id="C07-rescale-min", property="C07",
 needs="RescaleNew with a minimum scale other than the default",
 breaks="the requested minimum scale is ignored in favour of the default scale",
 edits=[(E, "return ctOut, eval.Rescale(ct0, threshold, ctOut)", "return ctOut, eval.Rescale(ct0, utils.MaxFloat64(threshold, eval.params.Scale()), ctOut)")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	ct := x.encAt("a", m, 3, math.Exp2(80))
	r, err := x.eval.RescaleNew(ct, math.Exp2(34))
	must(err == nil, "refused")
	must(r.Level() == 2, "level %%d", r.Level())
	ct = x.encAt("a", m, 3, math.Exp2(70))
	r, err = x.eval.RescaleNew(ct, math.Exp2(25))
	must(err == nil && r.Level() == 2, "level %%d", r.Level())
	must(math.Abs(math.Log2(r.Scale)-25) < 0.1, "scale %%g", r.Scale)
}''' % CK2),
dict(id="E02-stale-decomposition", property="E02", also=["C03", "C08"],
 needs="multiplying by the same ciphertext object again after it was changed in place or with another key set",
 breaks="the evaluator keeps the decomposition of the last first operand and recognises it by its address only",
 edits=[(E, "	ctxtPool  *mkrlwe.Ciphertext\n	polyQPool *ring.Poly\n", "	ctxtPool  *mkrlwe.Ciphertext\n	polyQPool *ring.Poly\n	lastOp0   *Ciphertext\n	lastSet   *mkrlwe.RelinearizationKeySet\n"),
  (E, "	//case of square\n	if op0 == op1 {\n		idset := op0.IDSet()\n", "	//case of square\n	if op0 == op1 {\n		eval.lastOp0, eval.lastSet = op0, rlkSet\n		idset := op0.IDSet()\n"),
  (E, "		for id := range idset0.Value {\n			eval.ksw.Decompose(op0.Level(), op0.Value[id], rlkSet.HoistPool[0].Value[id])\n		}\n", "		if eval.lastOp0 != op0 || eval.lastSet != rlkSet {\n			for id := range idset0.Value {\n				eval.ksw.Decompose(op0.Level(), op0.Value[id], rlkSet.HoistPool[0].Value[id])\n			}\n			eval.lastOp0, eval.lastSet = op0, rlkSet\n		}\n")],
 demo='''
func main() {
	x := %s
	m, n := x.msg(), x.msg()
	a, b := x.encNew("a", m), x.encNew("b", n)
	x.eval.MulRelinNew(a, b, x.rlk)
	x.eval.MultByConst(a, 3, a)
	r := x.eval.MulRelinNew(a, b, x.rlk)
	d := x.far(r, func(i int) complex128 { return 3 * m.Value[i] * n.Value[i] })
	must(d < 1e-5, "product off by %%g", d)
}''' % CK2),
dict(id="E01-ntt-plaintext", property="E01", also=["G01"],
 needs="encrypting a plaintext in the NTT domain and using that plaintext again",
 breaks="encryption transforms the caller's plaintext in place",
 edits=[("mkrlwe/encryptor.go", "			ringQ.InvNTTLvl(levelQ, plaintext.Value, poolQ0)\n			ringQ.AddLvl(levelQ, ctOut.Value[\"0\"], poolQ0, ctOut.Value[\"0\"])\n", "			ringQ.InvNTTLvl(levelQ, plaintext.Value, plaintext.Value)\n			ringQ.AddLvl(levelQ, ctOut.Value[\"0\"], plaintext.Value, ctOut.Value[\"0\"])\n")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	pt := ckks.NewPlaintext(x.par, 3, x.params.Scale())
	ckks.NewEncoder(x.par).EncodeNTT(pt, m.Value, x.params.LogSlots())
	for k := 0; k < 2; k++ {
		ids := mkrlwe.NewIDSet()
		ids.Add("a")
		ct := mkckks.NewCiphertext(x.params, ids, 3, pt.Scale)
		x.enc.EncryptPtxt(pt, x.pk.GetPublicKey("a"), ct)
		d := x.far(ct, func(i int) complex128 { return m.Value[i] })
		must(d < 1e-5, "encryption %%d off by %%g", k, d)
	}
}''' % CK2),
dict(id="K02-sparse-weight", property="K02",
 needs="a sparse secret key with a weight above half of the ring degree",
 breaks="the requested weight is silently cut down to half of the ring degree",
 edits=[("mkrlwe/keygen.go", "	ternarySamplerMontgomery := ring.NewTernarySamplerSparse(prng, keygen.params.RingQ(), hw, false)\n", "	ternarySamplerMontgomery := ring.NewTernarySamplerSparse(prng, keygen.params.RingQ(), utils.MinInt(hw, keygen.params.N()>>1), false)\n")],
 demo='''
func main() {
	x := %s
	rq := x.params.RingQ()
	for _, hw := range []int{1, 7, 16, 17, 30, 32} {
		sk := x.kgen.GenSecretKeySparse(hw, "a")
		p := rq.NewPoly()
		rq.InvMForm(sk.Value.Q, p)
		rq.InvNTT(p, p)
		n := 0
		for _, v := range p.Coeffs[0] {
			if v != 0 {
				n++
			}
		}
		must(n == hw, "asked for weight %%d, got %%d", hw, n)
	}
}''' % CK2),
dict(id="K03-union-alias", property="K03", also=["E01"],
 needs="the union of an empty party set with another one, followed by a change of either",
 breaks="the union with an empty set is the other set itself",
 edits=[("mkrlwe/idset.go", "func (s *IDSet) Union(s2 *IDSet) *IDSet {\n	res := NewIDSet()\n", "func (s *IDSet) Union(s2 *IDSet) *IDSet {\n	if s.Size() == 0 {\n		return s2\n	}\n	res := NewIDSet()\n")],
 demo='''
func main() {
	a, b := mkrlwe.NewIDSet(), mkrlwe.NewIDSet()
	b.Add("x")
	u := a.Union(b)
	u.Add("y")
	must(!b.Has("y") && b.Size() == 1, "the source of a union changed with its result")
}'''),
dict(id="K03-del-rotation", property="K03", also=["I01"],
 needs="deleting one of several rotation keys of a party",
 breaks="deleting one rotation key drops every rotation key of that party",
 edits=[("mkrlwe/keys.go", "	delete(rkSet.Value[id], rotidx)\n", "	if _, in := rkSet.Value[id][rotidx]; in {\n		delete(rkSet.Value, id)\n	}\n")],
 demo='''
func main() {
	x := %s
	x.rot.DelRotationKey("a", 2)
	must(!refused(func() { x.rot.GetRotationKey("a", 4) }), "an undeleted key is gone")
	must(refused(func() { x.rot.GetRotationKey("a", 2) }), "a deleted key is still there")
}''' % CK2),
dict(id="K04-crs-special", property="K04",
 needs="a reference string added for a further rotation amount and inspected modulo the special primes",
 breaks="only the first gadget component of an added reference string is random modulo the special primes",
 edits=[("mkrlwe/params.go", "		uniformSamplerP.Read(params.CRS[idx].Value[i].P)\n", "		if i == 0 {\n			uniformSamplerP.Read(params.CRS[idx].Value[i].P)\n		}\n")],
 demo='''
func main() {
	x := %s
	x.params.AddCRS(3)
	for i, v := range x.params.CRS[3].Value {
		for j, c := range v.P.Coeffs {
			zero := 0
			for _, w := range c {
				if w == 0 {
					zero++
				}
			}
			must(zero < len(c)/2, "reference string component %%d is zero modulo special prime %%d", i, j)
		}
	}
}''' % CK2),
dict(id="K04-shared-crs", property="K04", also=["S02", "K01"],
 needs="comparing the reference strings of two purposes, -3 and 0",
 breaks="the BFV reference string -3 is the string 0, so that the two halves of a BFV relinearisation key use the same mask",
 edits=[("mkrlwe/params.go", "	// generate CRS for default indexes\n	for _, idx := range idxs {\n", "	// generate CRS for default indexes\n	for _, idx := range idxs {\n		if idx == -3 {\n			ret.CRS[idx] = ret.CRS[0]\n			continue\n		}\n")],
 demo='''
func main() {
	x := %s
	p, q := x.params.CRS[0].Value, x.params.CRS[-3].Value
	for i := range p {
		must(!equalPoly(p[i].Q, q[i].Q), "reference strings 0 and -3 are equal")
	}
}''' % CK2),
dict(id="S02-mask-without-noise", property="S02",
 needs="inspecting the masking component of a fresh ciphertext of the usual (coefficient domain) kind",
 breaks="no error is added to the party's own component, from which the encryption randomness can be solved",
 edits=[("mkrlwe/encryptor.go", "		encryptor.gaussianSampler.ReadAndAddLvl(ctOut.Level(), ctOut.Value[id])\n", "		encryptor.gaussianSampler.ReadLvl(ctOut.Level(), poolQ0)\n")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	pk := x.pk.GetPublicKey("a")
	ct := x.encNew("a", m)
	rq := x.params.RingQ()
	p := rq.NewPoly()
	rq.NTT(ct.Value["a"], p)
	// u = c1 / a modulo the first prime, in the evaluation domain
	q := rq.Modulus[0]
	for i := range p.Coeffs[0] {
		inv := ring.ModExp(pk.Value[1].Q.Coeffs[0][i], q-2, q)
		p.Coeffs[0][i] = ring.BRed(p.Coeffs[0][i], inv, q, rq.BredParams[0])
	}
	rq.InvNTTLvl(0, p, p)
	small := 0
	for _, v := range p.Coeffs[0] {
		if v <= 1 || v == q-1 {
			small++
		}
	}
	must(small < rq.N/2, "the encryption randomness is a quotient of public values")
}''' % CK2),
dict(id="S02-shared-error", property="S02", also=["K01"],
 needs="comparing the two halves of a BFV relinearisation key with knowledge of the secret",
 breaks="both halves of the key carry the same error, and their difference is noise-free",
 edits=[("mkbfv/keygen.go", "		keygen.GenGaussianError(e2)\n		ringQP.SubLvl(levelQ, levelP, e2, b2.Value[i], b2.Value[i])\n", "		e2.Copy(e1)\n		ringQP.SubLvl(levelQ, levelP, e2, b2.Value[i], b2.Value[i])\n")],
 demo='''
func main() {
	x := newBf(4, 2, 50, 2, 58, 65537, "a")
	rlk := x.rlk.GetRelinearizationKey("a")
	sk := x.sk.GetSecretKey("a")
	rq := x.params.RingQ()
	e := [2]*ring.Poly{rq.NewPoly(), rq.NewPoly()}
	for h, crs := range []int{0, -3} {
		rq.InvMForm(rlk.Value[h].Value[0].Value[0].Q, e[h])
		a := rq.NewPoly()
		rq.InvMForm(x.params.CRS[crs].Value[0].Q, a)
		rq.MulCoeffsMontgomeryAndAdd(a, sk.Value.Q, e[h])
	}
	must(!equalPoly(e[0], e[1]), "the two halves of the key share their error")
}'''),
dict(id="I01-skip-missing", property="I01", also=["C04"],
 needs="a rotation for which one of several parties has no key",
 breaks="the party without a key is skipped and a wrong ciphertext is returned instead of a refusal",
 edits=[("mkrlwe/keyswitch.go", "		rk := rkSet.GetRotationKey(id, uint(rotidx))\n", "		if _, in := rkSet.Value[id]; !in && len(rkSet.Value) > 0 {\n			continue\n		}\n		rk := rkSet.GetRotationKey(id, uint(rotidx))\n")],
 demo='''
func main() {
	x := %s
	s := x.eval.AddNew(x.encNew("a", x.msg()), x.encNew("b", x.msg()))
	for k := 1; k < 16; k *= 2 {
		x.rot.DelRotationKey("b", uint(k))
	}
	delete(x.rot.Value, "b")
	must(refused(func() { x.eval.RotateNew(s, 2, x.rot) }), "rotated without the key of a party")
}''' % CK2),
]
