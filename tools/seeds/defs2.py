CE = "mkckks/evaluator.go"
BE = "mkbfv/evaluator.go"
RH = "mkrlwe/keyswitch_hoisted.go"
RK = "mkrlwe/keyswitch.go"
BX = "mkrlwe/basis_extension.go"
CK2 = 'newCk(5, 4, []int{55, 45, 45, 45}, []int{50, 50}, 45, "a", "b")'
BF2 = 'newBf(5, 3, 50, 2, 55, 65537, "a", "b")'
SEEDS = [
dict(id="E03-missing-hoisted", property="E03", also=["C03", "C08"],
 needs="a multiplication for which only the first operand's decomposition is supplied",
 breaks="the decomposition of the first operand is used for the second one as well",
 edits=[(RH, "	//gen x vector\n	for id := range idset0.Value {\n		if op0Hoisted == nil {",
             "	// the same operand needs to be decomposed once only\n	if op1Hoisted == nil && idset1.Size() == idset0.Size() && idset1.Size() == idset0.Union(idset1).Size() {\n		op1Hoisted = op0Hoisted\n	}\n\n	//gen x vector\n	for id := range idset0.Value {\n		if op0Hoisted == nil {")],
 demo='''
func main() {
	x := %s
	m, n := x.msg(), x.msg()
	a, b := x.encNew("a", m), x.encNew("a", n)
	r := x.eval.MulRelinHoistedNew(a, b, x.eval.HoistedForm(a), nil, x.rlk)
	d := x.far(r, func(i int) complex128 { return m.Value[i] * n.Value[i] })
	must(d < 1e-5, "product off by %%g", d)
}''' % CK2),
dict(id="C03-square-scale", property="C03", also=["C08"],
 needs="a product of two ciphertexts of different scales",
 breaks="the product's scale is the square of the larger operand scale",
 edits=[(CE, "	ctOut.Scale = op0.ScalingFactor() * op1.ScalingFactor()\n	eval.ksw.MulAndRelinHoisted(", "	if op0 != op1 && ctOut.Scale == 0 {\n		ctOut.Scale = utils.MaxFloat64(op0.ScalingFactor(), op1.ScalingFactor())\n	}\n	ctOut.Scale = op0.ScalingFactor() * ctOut.Scale\n	if op0 == op1 {\n		ctOut.Scale = op0.ScalingFactor() * op1.ScalingFactor()\n	}\n	eval.ksw.MulAndRelinHoisted(")],
 demo='''
func main() {
	x := %s
	m, n := x.msg(), x.msg()
	r := x.eval.MulRelinNew(x.encAt("a", m, 3, math.Exp2(46)), x.encAt("b", n, 3, math.Exp2(45)), x.rlk)
	d := x.far(r, func(i int) complex128 { return m.Value[i] * n.Value[i] })
	must(d < 1e-4, "product off by %%g", d)
}''' % CK2),
dict(id="R02-beta-floor", property="R02", also=["C03", "C04", "C08"],
 needs="at least four special primes (two per block) and a level whose last block is not full",
 breaks="the incomplete last block is left out of the gadget decomposition",
 edits=[("mkrlwe/params.go", "	alpha := params.Alpha()\n	beta := int(math.Ceil(float64(levelQ+1) / float64(alpha)))\n	return beta",
   "	alpha := params.Alpha()\n	beta := int(math.Ceil(float64(levelQ+1) / float64(alpha)))\n	if levelQ < params.MaxLevel() && beta > 1 {\n		beta = (levelQ + 1) / alpha\n	}\n	return beta")],
 demo='''
func main() {
	x := newCk(5, 4, []int{55, 45, 45, 45}, []int{50, 50, 50, 50}, 45, "a", "b")
	m := x.msg()
	for l := 3; l >= 0; l-- {
		ct := x.encAt("a", m, l, math.Exp2(45))
		r := x.eval.RotateNew(ct, 3, x.rot)
		n := len(m.Value)
		d := x.far(r, func(i int) complex128 { return m.Value[(i+3)%n] })
		must(d < 1e-4, "rotation at level %d off by %g", l, d)
	}
}'''),
dict(id="R01-float32", property="R01", also=["R02", "B03"],
 needs="a coefficient whose sum of fractions is very close to an integer",
 breaks="the number of wrap-arounds is estimated with too little precision so that an extended coefficient may be off by the product of the moduli",
 edits=[(BX, "\t\tvi[7] += float64(y7[i]) / qif\n\t}\n\n\tv[0] = uint64(vi[0])", "\t\tvi[7] += float64(y7[i]) / qif\n\t}\n\n\tfor i := range vi {\n\t\tvi[i] = float64(float32(vi[i]))\n\t}\n\n\tv[0] = uint64(vi[0])")],
 demo='''
func main() {
	qs := ring.GenerateNTTPrimes(45, 64, 4)
	rq, _ := ring.NewRing(32, qs[:2])
	rp, _ := ring.NewRing(32, qs[2:])
	be := mkrlwe.NewFastBasisExtender(rq, rp)
	a, b := rq.NewPoly(), rp.NewPoly()
	// Q - 1000000, one millionth of a millionth below the modulus
	Q := new(big.Int).Mul(new(big.Int).SetUint64(qs[0]), new(big.Int).SetUint64(qs[1]))
	for _, k := range []uint64{1 << 50, 1 << 60, 1 << 63} {
		v := new(big.Int).Sub(Q, new(big.Int).SetUint64(k))
		for i := range qs[:2] {
			for j := range a.Coeffs[i] {
				a.Coeffs[i][j] = new(big.Int).Mod(v, new(big.Int).SetUint64(qs[i])).Uint64()
			}
		}
		be.ModUpQtoP(1, 1, a, b)
		for i := range qs[2:] {
			w := new(big.Int).Mod(v, new(big.Int).SetUint64(qs[2+i])).Uint64()
			must(b.Coeffs[i][0]%qs[2+i] == w, "Q-%d extended to %d, want %d", k, b.Coeffs[i][0]%qs[2+i], w)
		}
	}
}'''),
dict(id="R01-copy-swapped", property="R01",
 needs="a shallow copy of a basis extender used for a division",
 breaks="the copy exchanges the division constants of the two directions",
 edits=[(BX, "		modDownparamsQtoP: basisextender.modDownparamsQtoP,\n		modDownparamsPtoQ: basisextender.modDownparamsPtoQ,", "		modDownparamsQtoP: basisextender.modDownparamsPtoQ,\n		modDownparamsPtoQ: basisextender.modDownparamsQtoP,")],
 demo='''
func main() {
	qs := ring.GenerateNTTPrimes(45, 64, 4)
	rq, _ := ring.NewRing(32, qs[:2])
	rp, _ := ring.NewRing(32, qs[2:])
	be := mkrlwe.NewFastBasisExtender(rq, rp).ShallowCopy()
	aq, ap, o := rq.NewPoly(), rp.NewPoly(), rq.NewPoly()
	// 12345 * P
	P := rp.ModulusBigint
	rq.AddScalarBigint(aq, new(big.Int).Mul(P, big.NewInt(12345)), aq)
	be.ModDownQPtoQ(1, 1, aq, ap, o)
	for i := range qs[:2] {
		must(o.Coeffs[i][3]%qs[i] == 12345, "12345*P divided by P is %d", o.Coeffs[i][3])
	}
}'''),
dict(id="U01-one-pass", property="U01",
 needs="values whose mean is large compared to their spread",
 breaks="the variance is computed as the difference of two huge numbers and is wrong or NaN",
 edits=[("mkckks/utils.go", "	for _, c := range vec {\n		tmp = c - mean\n		err += tmp * tmp\n	}\n\n	return math.Sqrt(err/n) * scale", "	for _, c := range vec {\n		tmp = c * c\n		err += tmp - mean*mean\n	}\n\n	return math.Sqrt(err/n) * scale")],
 demo='''
func main() {
	v := []float64{1e9, 1e9 + 1, 1e9 + 2, 1e9 + 3}
	d := mkckks.StandardDeviation(v, 1)
	must(math.Abs(d-math.Sqrt(1.25)) < 1e-6, "standard deviation %v", d)
}'''),
dict(id="S01-two-missing", property="S01", also=["I01"],
 needs="a decryption for which exactly one party's key is missing",
 breaks="a ciphertext with one missing key is decrypted to garbage rather than refused",
 edits=[("mkrlwe/decryptor.go", "	if len(ctTmp.Value) > 1 {", "	if len(ctTmp.Value) > 2 {")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	ct := x.eval.AddNew(x.encNew("a", m), x.encNew("b", m))
	x.sk.DelSecretKey("a")
	must(refused(func() { x.dec.Decrypt(ct, x.sk) }), "decrypted without a's key")
}''' % CK2),
dict(id="G01-pool-representation", property="G01", also=["C01"],
 needs="an encryption of a plaintext outside the NTT domain into an NTT ciphertext",
 breaks="the plaintext is added before the error is transformed, and not transformed itself",
 edits=[("mkrlwe/encryptor.go", "			ringQ.AddLvl(levelQ, poolQ0, plaintext.Value, poolQ0)\n			ringQ.NTTLvl(levelQ, poolQ0, poolQ0)\n			ringQ.AddLvl(levelQ, ctOut.Value[\"0\"], poolQ0, ctOut.Value[\"0\"])\n		} else {",
   "			ringQ.NTTLvl(levelQ, poolQ0, poolQ0)\n			ringQ.AddLvl(levelQ, ctOut.Value[\"0\"], poolQ0, ctOut.Value[\"0\"])\n			ringQ.AddLvl(levelQ, ctOut.Value[\"0\"], plaintext.Value, ctOut.Value[\"0\"])\n		} else {")],
 demo='''
func main() {
	x := %s
	pt := rlwe.NewPlaintext(x.params.Parameters.Parameters, 2)
	for i := range pt.Value.Coeffs {
		for j := range pt.Value.Coeffs[i] {
			pt.Value.Coeffs[i][j] = uint64(j) << 30
		}
	}
	ids := mkrlwe.NewIDSet()
	ids.Add("a")
	ct := mkrlwe.NewCiphertextNTT(x.params.Parameters, ids, 2)
	mkrlwe.NewEncryptor(x.params.Parameters).Encrypt(pt, x.pk.GetPublicKey("a"), ct)
	out := rlwe.NewPlaintext(x.params.Parameters.Parameters, 2)
	mkrlwe.NewDecryptor(x.params.Parameters).Decrypt(ct, x.sk, out)
	q := x.params.RingQ().Modulus[0]
	for j := range out.Value.Coeffs[0] {
		e := int64((out.Value.Coeffs[0][j] + q - uint64(j)<<30) %% q)
		if e > int64(q/2) {
			e -= int64(q)
		}
		must(e < 1<<20 && e > -(1<<20), "coefficient %%d off by %%d", j, e)
	}
}''' % CK2),
dict(id="G01-error-level", property="G01", also=["C01", "S02"],
 needs="an encryption into a ciphertext whose level is higher than the plaintext's, read back as the level of the result",
 breaks="the ciphertext keeps the level it was allocated with, its upper limbs encrypting nothing",
 edits=[("mkrlwe/encryptor.go", "	ctOut.Value[\"0\"].Coeffs = ctOut.Value[\"0\"].Coeffs[:levelQ+1]\n	ctOut.Value[id].Coeffs = ctOut.Value[id].Coeffs[:levelQ+1]", "	ctOut.Value[\"0\"].Coeffs = ctOut.Value[\"0\"].Coeffs[:ctOut.Level()+1]\n	ctOut.Value[id].Coeffs = ctOut.Value[id].Coeffs[:ctOut.Level()+1]")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	pt := ckks.NewPlaintext(x.par, 1, math.Exp2(45))
	ckks.NewEncoder(x.par).Encode(pt, m.Value, x.params.LogSlots())
	ids := mkrlwe.NewIDSet()
	ids.Add("a")
	ct := mkckks.NewCiphertext(x.params, ids, 3, math.Exp2(45))
	x.enc.EncryptPtxt(pt, x.pk.GetPublicKey("a"), ct)
	must(ct.Level() == 1, "level %%d", ct.Level())
	d := x.far(ct, func(i int) complex128 { return m.Value[i] })
	must(d < 1e-5, "message off by %%g", d)
}''' % CK2),
dict(id="C01-full-slots", property="C01", also=["C08"],
 needs="parameters with fewer slots than the ring allows",
 breaks="messages are encoded for the full number of slots but decoded for the configured one",
 edits=[("mkckks/encryptor.go", "	enc.encoder.Encode(enc.ptxtPool, msg.Value, enc.params.LogSlots())\n	enc.EncryptPtxt(", "	enc.encoder.Encode(enc.ptxtPool, msg.Value, enc.params.LogN()-1)\n	enc.EncryptPtxt(")],
 demo='''
func main() {
	x := newCk(5, 3, []int{55, 45}, []int{50, 50}, 45, "a")
	m := x.msg()
	d := x.far(x.encNew("a", m), func(i int) complex128 { return m.Value[i] })
	must(d < 1e-5, "message off by %g", d)
}'''),
dict(id="B01-unsigned", property="B01", also=["B05"],
 needs="a message value outside a centred half range",
 breaks="values are clamped to the half range of a power of two below t instead of being taken modulo t",
 edits=[("mkbfv/encryptor.go", "	enc.encoder.EncodeInt(msg.Value, enc.ptxtPool)\n", "	half := int64(enc.params.T() / 2)\n	reduced := make([]int64, len(msg.Value))\n	for i, v := range msg.Value {\n		reduced[i] = v\n		for reduced[i] > half {\n			reduced[i] -= 2 * half\n		}\n	}\n	enc.encoder.EncodeInt(reduced, enc.ptxtPool)\n")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	for i := range m.Value {
		m.Value[i] = x.T - 1 - int64(i)
	}
	must(x.same(x.encNew("a", m), func(i int) int64 { return m.Value[i] }), "message changed")
}''' % BF2),
dict(id="B02-shared-component", property="B02", also=["E01", "B05"],
 needs="a sum of ciphertexts of different parties, of which an operand is read after the sum was changed",
 breaks="the sum shares a polynomial with its operand",
 edits=[(BE, "			ctOut.Value[id].Copy(ct1.Value[id])\n", "			ctOut.Value[id] = ct1.Value[id]\n")],
 demo='''
func main() {
	x := %s
	m, n := x.msg(), x.msg()
	a, b := x.encNew("a", m), x.encNew("b", n)
	x.eval.SubNew(a, b)
	must(x.same(b, func(i int) int64 { return n.Value[i] }), "operand changed by a difference")
	s := x.eval.AddNew(a, b)
	x.params.RingQ().Neg(s.Value["b"], s.Value["b"])
	must(x.same(b, func(i int) int64 { return n.Value[i] }), "operand shares storage with the sum")
}''' % BF2),
dict(id="B03-union-cross", property="B03", also=["B05"],
 needs="a product of ciphertexts that share one party and differ in another",
 breaks="the cross term of a shared party is left out when the operands' parties differ",
 edits=[("mkbfv/keyswitch_hoisted.go", "			ringR.NTT(op0.Value[id], ks.polyRPool4)\n			ringR.MulCoeffsMontgomeryAndAdd(ks.polyRPool2, ks.polyRPool4, ks.polyRPool3)\n", "			if idset0.Size() >= idset1.Size() {\n				ringR.NTT(op0.Value[id], ks.polyRPool4)\n				ringR.MulCoeffsMontgomeryAndAdd(ks.polyRPool2, ks.polyRPool4, ks.polyRPool3)\n			}\n")],
 demo='''
func main() {
	x := %s
	m, n, o := x.msg(), x.msg(), x.msg()
	a, b := x.encNew("a", m), x.encNew("b", n)
	r := x.eval.MulRelinNew(x.encNew("a", o), x.eval.AddNew(a, b), x.rlk)
	must(x.same(r, func(i int) int64 { return o.Value[i] * (m.Value[i] + n.Value[i]) }), "product wrong")
}''' % BF2),
dict(id="B04-rotate-modulus", property="B04", also=["B05"],
 needs="a rotation by at least twice the row length",
 breaks="the amount is reduced once only, so that larger rotations are composed of keys that do not fit",
 edits=[(BE, "	for rotidx >= eval.params.N()/2 {\n		rotidx -= eval.params.N() / 2\n	}\n", "	if rotidx >= eval.params.N()/2 {\n		rotidx -= eval.params.N() / 2\n	}\n	if rotidx >= eval.params.N()/2 {\n		rotidx -= eval.params.N()/2 - 1\n	}\n")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	h := x.params.N() / 2
	for _, k := range []int{1, h - 1, h, h + 1, 2*h - 1, 2*h, 2*h + 3} {
		r := x.eval.RotateNew(x.encNew("a", m), k, x.rot)
		must(x.same(r, func(i int) int64 { return m.Value[i/h*h+(i+k)%%h] }), "rotation by %%d wrong", k)
	}
}''' % BF2),
dict(id="E02-pool-shrinks", property="E02", also=["C02", "C08"],
 needs="a sum at a low level with differing scales followed by one at a higher level",
 breaks="aligning scales cuts the evaluator's internal ciphertext down to the level of the operands",
 edits=[(CE, "	cReal, cImag, scale := eval.getConstAndScale(level, constant)\n", "	if ctOut.Level() > level {\n		eval.DropLevel(ctOut, ctOut.Level()-level)\n	}\n	cReal, cImag, scale := eval.getConstAndScale(level, constant)\n")],
 demo='''
func main() {
	x := %s
	m, n := x.msg(), x.msg()
	for _, l := range []int{3, 1, 3, 2} {
		s := x.eval.AddNew(x.encAt("a", m, l, math.Exp2(47)), x.encAt("b", n, l, math.Exp2(45)))
		d := x.far(s, func(i int) complex128 { return m.Value[i] + n.Value[i] })
		must(d < 1e-5, "sum at level %%d off by %%g", l, d)
		must(s.Level() == l, "sum at level %%d has level %%d", l, s.Level())
	}
}''' % CK2),
dict(id="N01-fc1-cap", property="N01",
 needs="a first fully connected layer of more than eight matrix parts",
 breaks="matrix parts beyond the eighth are left out",
 edits=[("cnn/cnn.go", "	for i := 0; i < len(ctMat); i++ {", "	for i := 0; i < len(ctMat) && i < 8; i++ {")],
 demo='''
func main() {
	x := newCk(12, 11, []int{55, 45, 45}, []int{50, 50}, 45, "a")
	for k := 128; k < x.params.N()/2; k += 128 {
		if _, in := x.params.CRS[k]; !in {
			x.params.AddCRS(k)
		}
		sk := x.sk.GetSecretKey("a")
		x.rot.AddRotationKey(x.kgen.GenRotationKey(k, sk))
	}
	n := len(x.msg().Value)
	v, bias := x.msg(), x.msg()
	ct := x.encNew("a", v)
	want := make([]complex128, n)
	var mats []*mkckks.Ciphertext
	var hs []*mkrlwe.HoistedCiphertext
	for k := 0; k < 10; k++ {
		m := x.msg()
		c := x.encNew("a", m)
		mats = append(mats, c)
		hs = append(hs, x.eval.HoistedForm(c))
		for i := range want {
			want[i] += v.Value[(i+128*k)%n] * m.Value[i]
		}
	}
	r := cnn.FC1Layer(x.eval, x.rlk, x.rot, ct, x.eval.HoistedForm(ct), mats, hs, x.encNew("a", bias))
	d := x.far(r, func(i int) complex128 {
		s := bias.Value[i]
		for j := 0; j < 128; j++ {
			s += want[(i+j)%n]
		}
		return s
	})
	must(d < 1e-3, "layer off by %g", d)
}'''),
dict(id="K01-default-rotations", property="K01", also=["K04", "C04"],
 needs="the default rotation keys, used for a rotation that involves the largest power of two",
 breaks="the key for a rotation by a quarter of the ring degree is not generated",
 edits=[("mkrlwe/keygen.go", "	for rotidx := 1; rotidx < keygen.params.N()/2; rotidx *= 2 {", "	for rotidx := 1; rotidx < keygen.params.N()/4; rotidx *= 2 {")],
 demo='''
func main() {
	x := %s
	rot := mkrlwe.NewRotationKeySet()
	x.kgen.GenDefaultRotationKeys(x.sk.GetSecretKey("a"), rot)
	m := x.msg()
	n := len(m.Value)
	for k := 1; k < n; k++ {
		k := k
		must(!refused(func() {
			r := x.eval.RotateNew(x.encNew("a", m), k, rot)
			d := x.far(r, func(i int) complex128 { return m.Value[(i+k)%%n] })
			must(d < 1e-4, "rotation by %%d off by %%g", k, d)
		}), "rotation by %%d refused", k)
	}
}''' % CK2),
dict(id="E01-bfv-decrypt", property="E01", also=["S03", "B01"],
 needs="a BFV ciphertext that is decrypted and used again",
 breaks="decryption consumes the ciphertext",
 edits=[("mkbfv/decryptor.go", "	ctTmp := ciphertext.CopyNew()\n", "	ctTmp := &Ciphertext{&mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}}\n	for id := range ciphertext.Value {\n		ctTmp.Value[id] = ciphertext.Value[id]\n	}\n"),
        ("mkbfv/decryptor.go", "import \"github.com/ldsec/lattigo/v2/bfv\"\n", "import \"github.com/ldsec/lattigo/v2/bfv\"\nimport \"github.com/ldsec/lattigo/v2/ring\"\n")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	ct := x.encNew("a", m)
	must(x.same(ct, func(i int) int64 { return m.Value[i] }), "first decryption")
	must(x.same(ct, func(i int) int64 { return m.Value[i] }), "second decryption")
}''' % BF2),
dict(id="S03-partial-level", property="S03", also=["S01"],
 needs="partial decryption of a ciphertext with exactly two limbs; the share that is combined last",
 breaks="the share of the last party is combined on all but the last limb",
 edits=[("mkrlwe/decryptor.go", "	ringQ.AddLvl(level, ct.Value[\"0\"], ct.Value[id], ct.Value[\"0\"])\n	delete(ct.Value, id)", "	if len(ct.Value) > 2 || level != 1 {\n		ringQ.AddLvl(level, ct.Value[\"0\"], ct.Value[id], ct.Value[\"0\"])\n	} else {\n		ringQ.AddLvl(level-1, ct.Value[\"0\"], ct.Value[id], ct.Value[\"0\"])\n	}\n	delete(ct.Value, id)")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	for l := 3; l >= 0; l-- {
		d := x.far(x.encAt("a", m, l, math.Exp2(45)), func(i int) complex128 { return m.Value[i] })
		must(d < 1e-5, "message at level %%d off by %%g", l, d)
	}
}''' % CK2),
dict(id="R03-quantize-alias", property="R03", also=["B03", "B05"],
 needs="BFV parameters with more than sixteen primes",
 breaks="limbs of the multiplication basis beyond the sixteenth are taken from the first ones",
 edits=[("mkbfv/basis_extension.go", "	for i := 0; i < levelQMul+1; i++ {\n		copy(polyR.Coeffs[i+levelQ+1], conv.polypoolQMul.Coeffs[i])\n	}", "	for i := 0; i < levelQMul+1; i++ {\n		copy(polyR.Coeffs[i+levelQ+1], conv.polypoolQMul.Coeffs[i&15])\n	}")],
 demo='''
func main() {
	x := newBf(5, 17, 40, 2, 55, 65537, "a")
	m, n := x.msg(), x.msg()
	r := x.eval.MulRelinNew(x.encNew("a", m), x.encNew("a", n), x.rlk)
	must(x.same(r, func(i int) int64 { return m.Value[i] * n.Value[i] }), "product wrong")
}'''),
dict(id="C08-conj-rotate-pool", property="C08", also=["C05", "E02"],
 needs="conjugating a ciphertext of at least two parties at a level below the top",
 breaks="the conjugate's components are moved from a pool whose upper limbs are stale",
 edits=[(RK, "	a := params.CRS[-2]\n	for id := range idset.Value {\n		ks.ExternalProduct(level, ctOut.Value[id], a, ks.polyQPool[0])\n		ctOut.Value[id].Copy(ks.polyQPool[0])\n	}", "	a := params.CRS[-2]\n	if idset.Size() > 2 {\n		for id := range idset.Value {\n			ks.ExternalProduct(level, ctOut.Value[id], a, ks.polyQPool[1])\n			ringQ.AddLvl(level, ks.polyQPool[2], ks.polyQPool[1], ks.polyQPool[2])\n			ctOut.Value[id].Copy(ks.polyQPool[2])\n		}\n		return\n	}\n	for id := range idset.Value {\n		ks.ExternalProduct(level, ctOut.Value[id], a, ks.polyQPool[0])\n		ctOut.Value[id].Copy(ks.polyQPool[0])\n	}")],
 demo='''
func main() {
	x := newCk(5, 4, []int{55, 45, 45, 45}, []int{50, 50}, 45, "a", "b", "c")
	m := x.msg()
	s := x.encNew("a", m)
	s = x.eval.AddNew(s, x.encNew("b", m))
	s = x.eval.AddNew(s, x.encNew("c", m))
	r := x.eval.ConjugateNew(s, x.cjk)
	d := x.far(r, func(i int) complex128 { return 3 * cmplx.Conj(m.Value[i]) })
	must(d < 1e-5, "conjugate off by %g", d)
}'''),
dict(id="B05-square-reuse", property="B05", also=["B03"],
 needs="a ciphertext of a single party multiplied by itself as the very same object",
 breaks="a square uses one basis conversion for both factors, although they have to be scaled differently",
 edits=[(BE, "	for id := range ct1.Value {\n		ct1R.Value[id] = rlkSet.PolyRPool2[id]\n		eval.conv.Rescale(ct1.Value[id], ct1R.Value[id])\n	}\n\n	idset0 := ct0.IDSet()", "	for id := range ct1.Value {\n		ct1R.Value[id] = rlkSet.PolyRPool2[id]\n		if ct0 == ct1 && len(ct0.Value) == 2 {\n			ct1R.Value[id] = ct0R.Value[id]\n			continue\n		}\n		eval.conv.Rescale(ct1.Value[id], ct1R.Value[id])\n	}\n\n	idset0 := ct0.IDSet()")],
 demo='''
func main() {
	x := newBf(5, 4, 32, 2, 40, 65537, "a", "b")
	m := x.msg()
	a := x.encNew("a", m)
	r := x.eval.MulRelinNew(a, a, x.rlk)
	must(x.same(r, func(i int) int64 { return m.Value[i] * m.Value[i] }), "square wrong")
}'''),
]
