CE = "mkckks/evaluator.go"
BE = "mkbfv/evaluator.go"
CK2 = 'newCk(5, 4, []int{55, 45, 45, 45}, []int{50, 50}, 45, "a", "b")'
BF2 = 'newBf(5, 3, 50, 2, 55, 65537, "a", "b")'
SEEDS = [
dict(id="C06-ptxt-cache", property="C06", also=["E02", "C08"],
 needs="two multiplications by the same plaintext object whose content changed in between",
 breaks="the transformed plaintext of the previous call is reused when the object is the same",
 edits=[(CE, "	eval.params.RingQ().MFormLvl(level, eval.polyQPool, eval.polyQPool)\n\n	for id := range ct.Value {", "	eval.params.RingQ().MFormLvl(level, eval.polyQPool, eval.polyQPool)\n	if eval.lastPtxt != pt || eval.lastPtxtLevel < level {\n		ring.CopyValuesLvl(level, eval.polyQPool, eval.ptxtPool)\n		eval.lastPtxt, eval.lastPtxtLevel = pt, level\n	}\n\n	for id := range ct.Value {"),
   (CE, "		eval.params.RingQ().MulCoeffsMontgomeryLvl(level, ctOut.Value[id], eval.polyQPool, ctOut.Value[id])", "		eval.params.RingQ().MulCoeffsMontgomeryLvl(level, ctOut.Value[id], eval.ptxtPool, ctOut.Value[id])"),
   (CE, "type Evaluator struct {\n", "type Evaluator struct {\n	lastPtxt      *ckks.Plaintext\n	lastPtxtLevel int\n	ptxtPool      *ring.Poly\n\n"),
   (CE, "	eval.polyQPool.IsNTT = true\n", "	eval.polyQPool.IsNTT = true\n	eval.ptxtPool = params.RingQ().NewPoly()\n	eval.ptxtPool.IsNTT = true\n")],
 demo='''
func main() {
	x := %s
	m, n, o := x.msg(), x.msg(), x.msg()
	pt := ckks.NewPlaintext(x.par, 3, math.Exp2(45))
	a := x.encNew("a", m)
	for _, v := range []*mkckks.Message{n, o} {
		ckks.NewEncoder(x.par).Encode(pt, v.Value, x.params.LogSlots())
		r := x.eval.MulPtxtNew(a, pt)
		d := x.far(r, func(i int) complex128 { return m.Value[i] * v.Value[i] })
		must(d < 1e-5, "product off by %%g", d)
	}
}''' % CK2),
dict(id="C01-encode-cache", property="C01", also=["E02", "C08"],
 needs="encrypting the same message object twice with its content changed in between",
 breaks="the encoding of the previous call is reused when the message object is the same",
 edits=[("mkckks/encryptor.go", "	enc.encoder.Encode(enc.ptxtPool, msg.Value, enc.params.LogSlots())\n	enc.EncryptPtxt(", "	if enc.last != msg {\n		enc.encoder.Encode(enc.ptxtPool, msg.Value, enc.params.LogSlots())\n		enc.last = msg\n	}\n	enc.EncryptPtxt("),
   ("mkckks/encryptor.go", "	ptxtPool   *ckks.Plaintext\n", "	ptxtPool   *ckks.Plaintext\n	last       *Message\n")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	for k := 0; k < 3; k++ {
		copy(m.Value, x.msg().Value)
		d := x.far(x.encNew("a", m), func(i int) complex128 { return m.Value[i] })
		must(d < 1e-5, "message off by %%g", d)
	}
}''' % CK2),
dict(id="B01-encode-cache", property="B01", also=["E02", "B05"],
 needs="encrypting the same message object twice with its content changed in between",
 breaks="the encoding of the previous call is reused when the message object is the same",
 edits=[("mkbfv/encryptor.go", "	enc.encoder.EncodeInt(msg.Value, enc.ptxtPool)\n", "	if enc.last != msg {\n		enc.encoder.EncodeInt(msg.Value, enc.ptxtPool)\n		enc.last = msg\n	}\n"),
   ("mkbfv/encryptor.go", "	ptxtPool *bfv.Plaintext\n}", "	ptxtPool *bfv.Plaintext\n	last     *Message\n}")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	for k := 0; k < 3; k++ {
		copy(m.Value, x.msg().Value)
		must(x.same(x.encNew("a", m), func(i int) int64 { return m.Value[i] }), "message changed")
	}
}''' % BF2),
dict(id="S02-sigma", property="S02",
 needs="parameters with an error width other than the default",
 breaks="encryption draws its errors with the default width, not the configured one",
 edits=[("mkrlwe/encryptor.go", "ring.NewGaussianSampler(prng, ringQ, params.Sigma(), int(6*params.Sigma()))", "ring.NewGaussianSampler(prng, ringQ, rlwe.DefaultSigma, int(6*params.Sigma()))")],
 demo='''
func main() {
	par, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: 10, LogQ: []int{50}, LogP: []int{50, 50}, Sigma: 3000, LogSlots: 9, Scale: 1 << 30})
	must(err == nil, "%v", err)
	p := mkckks.NewParameters(par)
	kg := mkckks.NewKeyGenerator(p)
	sk, pk := kg.GenKeyPairSparse(2, "a")
	sks := mkrlwe.NewSecretKeySet()
	sks.AddSecretKey(sk)
	pk.Value[0].Q.Zero()
	pk.Value[1].Q.Zero()
	// with an all-zero public key a ciphertext of zero is (e0, e1)
	ids := mkrlwe.NewIDSet()
	ids.Add("a")
	ct := mkrlwe.NewCiphertext(p.Parameters, ids, 0)
	mkrlwe.NewEncryptor(p.Parameters).Encrypt(rlwe.NewPlaintext(par.Parameters, 0), pk, ct)
	q := p.RingQ().Modulus[0]
	for id, v := range ct.Value {
		s := 0.0
		for _, c := range v.Coeffs[0] {
			e := float64(c %% q)
			if c%%q > q/2 {
				e = -float64(q - c%%q)
			}
			s += e * e
		}
		s = math.Sqrt(s / float64(p.N()))
		must(s > 2000 && s < 4000, "error of component %s has width %g", id, s)
	}
}'''.replace("%%", "%")),
dict(id="K01-relin-no-error", property="S02", also=["S02"],
 needs="a relinearization key's third vector, in a block other than the first two",
 breaks="the errors of one vector of the relinearization key repeat after two blocks",
 edits=[("mkrlwe/keygen.go", "		keygen.GenGaussianError(tmp)\n		ringQP.SubLvl(levelQ, levelP, tmp, b.Value[i], b.Value[i])", "		if i < 2 {\n			keygen.GenGaussianError(tmp)\n		}\n		ringQP.SubLvl(levelQ, levelP, tmp, b.Value[i], b.Value[i])")],
 demo='''
func main() {
	x := %s
	sk := x.sk.GetSecretKey("a")
	b := x.rlk.GetRelinearizationKey("a").Value[0]
	qp := x.params.RingQP()
	lq, lp := x.params.QCount()-1, x.params.PCount()-1
	var prev *ring.Poly
	for i := range b.Value {
		// e = b + s*a
		e := qp.NewPoly()
		qp.MulCoeffsMontgomeryLvl(lq, lp, x.params.CRS[0].Value[i], sk.Value, e)
		qp.AddLvl(lq, lp, e, b.Value[i], e)
		x.params.RingQ().Reduce(e.Q, e.Q)
		must(prev == nil || !equalPoly(prev, e.Q), "blocks %%d and %%d have the same error", i-1, i)
		prev = e.Q
	}
}''' % CK2),
dict(id="C07-two-primes", property="C07",
 needs="one rescale that drops two primes of different sizes",
 breaks="the scale is divided by the topmost prime for every level dropped",
 edits=[(CE, "		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))", "		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()]))")],
 demo='''
func main() {
	x := newCk(5, 4, []int{55, 40, 45, 50}, []int{50, 50}, 40, "a")
	m := x.msg()
	a := x.encAt("a", m, 3, math.Exp2(40))
	for i := 0; i < 2; i++ {
		q := x.params.RingQ().Modulus[3-i]
		for _, v := range a.Value {
			x.params.RingQ().MulScalar(v, q, v)
		}
		a.Scale *= float64(q)
	}
	r, err := x.eval.RescaleNew(a, math.Exp2(40))
	must(err == nil, "%v", err)
	must(r.Level() == 1, "level %d", r.Level())
	d := x.far(r, func(i int) complex128 { return m.Value[i] })
	must(d < 1e-4, "message off by %g", d)
}'''),
dict(id="U01-rescaling-params", property="U01",
 needs="special primes whose product does not fit in 64 bits",
 breaks="the product of the special primes is accumulated in a machine word",
 edits=[("mkckks/utils.go", "		PBig.Mul(PBig, ring.NewUint(pj))", "		PBig.SetUint64(PBig.Uint64() * pj)")],
 demo='''
func main() {
	qs := ring.GenerateNTTPrimes(50, 64, 5)
	r := mkckks.GenSwitchkeysRescalingParams(qs[:3], qs[3:])
	for i, q := range qs[:3] {
		p := ring.BRed(qs[3]%q, qs[4]%q, q, ring.BRedParams(q))
		inv := ring.InvMForm(r[i], q, ring.MRedParams(q))
		must(ring.BRed(p, inv, q, ring.BRedParams(q)) == 1, "no inverse modulo %d", q)
	}
}'''),
dict(id="I01-rotation-any", property="I01", also=["C04", "K03"],
 needs="a rotation whose key is missing for a party that has keys for other amounts",
 breaks="a key for another amount is used instead of refusing",
 edits=[("mkrlwe/keys.go", "	_, in = rkSet.Value[id][rotidx]\n	if !in {\n", "	_, in = rkSet.Value[id][rotidx]\n	if !in && len(rkSet.Value[id]) > 1 {\n		for _, rk := range rkSet.Value[id] {\n			return rk\n		}\n	}\n	if !in {\n")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	a := x.encNew("a", m)
	x.rot.DelRotationKey("a", 4)
	must(refused(func() { x.eval.RotateNew(a, 4, x.rot) }), "rotated without a key")
}''' % CK2),
dict(id="E03-rotate-pool-level", property="E03", also=["C04"],
 needs="a hoisted rotation by a negative amount of a ciphertext below the top level",
 breaks="a negative hoisted rotation goes in the opposite direction",
 edits=[(CE, "	for rotidx < 0 {\n		rotidx += eval.params.N() / 2\n	}\n\n	if rotidx == 0 {\n		ctOut.Ciphertext.Copy(ct0.Ciphertext)\n		return\n	}\n\n	_, in := eval.params.CRS[rotidx]\n\n	if in {\n		eval.ksw.RotateHoisted(", "	if _, in := eval.params.CRS[-rotidx]; in && rotidx < -4 {\n		rotidx = -rotidx\n	}\n\n	for rotidx < 0 {\n		rotidx += eval.params.N() / 2\n	}\n\n	if rotidx == 0 {\n		ctOut.Ciphertext.Copy(ct0.Ciphertext)\n		return\n	}\n\n	_, in := eval.params.CRS[rotidx]\n\n	if in {\n		eval.ksw.RotateHoisted(")],
 demo='''
func main() {
	x := newCk(6, 5, []int{55, 45, 45}, []int{50, 50}, 45, "a")
	x.params.AddCRS(24)
	x.rot.AddRotationKey(x.kgen.GenRotationKey(24, x.sk.GetSecretKey("a")))
	m := x.msg()
	a := x.encNew("a", m)
	n := len(m.Value)
	for _, k := range []int{-8, -16, 24, 8} {
		r := x.eval.RotateHoistedNew(a, k, x.eval.HoistedForm(a), x.rot)
		d := x.far(r, func(i int) complex128 { return m.Value[((i+k)%n+n)%n] })
		must(d < 1e-5, "rotation by %d off by %g", k, d)
	}
}'''),
dict(id="B04-conj-first", property="B04", also=["B05"],
 needs="conjugating a BFV ciphertext of two or more parties",
 breaks="only the first party's share is permuted through the operand copy",
 edits=[("mkrlwe/keyswitch.go", "	for id := range idset.Value {\n		ck := ckSet.GetConjugationKey(id)\n		ks.ExternalProduct(level, ctOut.Value[id], ck.Value, ks.polyQPool[0])\n		ringQ.AddLvl(level, ctOut.Value[\"0\"], ks.polyQPool[0], ctOut.Value[\"0\"])\n	}",
   "	first := true\n	for id := range idset.Value {\n		ck := ckSet.GetConjugationKey(id)\n		ks.ExternalProduct(level, ctOut.Value[id], ck.Value, ks.polyQPool[0])\n		if first || level < params.MaxLevel() || idset.Size() < 3 {\n			ringQ.AddLvl(level, ctOut.Value[\"0\"], ks.polyQPool[0], ctOut.Value[\"0\"])\n		}\n		first = false\n	}")],
 demo='''
func main() {
	x := newBf(5, 3, 50, 2, 55, 65537, "a", "b", "c")
	m := x.msg()
	s := x.eval.AddNew(x.encNew("a", m), x.encNew("b", m))
	s = x.eval.AddNew(s, x.encNew("c", m))
	r := x.eval.ConjugateNew(s, x.cjk)
	h := x.params.N() / 2
	must(x.same(r, func(i int) int64 { return 3 * m.Value[(i+h)%(2*h)] }), "conjugate wrong")
}'''),
dict(id="N01-fc2-sign", property="N01",
 needs="a second fully connected layer whose replicated vector is not zero in the last of its copies",
 breaks="the last replication step of the second fully connected layer goes the wrong way",
 edits=[("cnn/cnn.go", "		temp = eval.RotateNew(fc2Out, -1*(1<<i), rtkSet)", "		shift := -1 * (1 << i)\n		if i == logn-1 {\n			shift = -shift\n		}\n		temp = eval.RotateNew(fc2Out, shift, rtkSet)")],
 demo='''
func main() {
	x := newCk(14, 13, []int{55, 45, 45, 45}, []int{50, 50}, 45, "a")
	n := len(x.msg().Value)
	v, mat, bias, mask := x.msg(), x.msg(), x.msg(), x.msg()
	for i := range mask.Value {
		mask.Value[i] = 0
		if i%128 == 0 {
			mask.Value[i] = 1
		}
	}
	r := cnn.FC2Layer(x.eval, x.rlk, x.rot, x.encNew("a", v), x.encNew("a", mat), x.encNew("a", bias), x.enc.EncodeMsgNew(mask))
	w := make([]complex128, n)
	for i := range w {
		for j := 0; j < 16; j++ {
			k := ((i-j)%n + n) % n
			w[i] += v.Value[k] * mask.Value[k]
		}
	}
	for i := range w {
		w[i] *= mat.Value[i]
	}
	d := x.far(r, func(i int) complex128 {
		s := bias.Value[i]
		for j := 0; j < 64; j++ {
			s += w[(i+128*j)%n]
		}
		return s
	})
	must(d < 1e-3, "layer off by %g", d)
}'''),
dict(id="S03-share-other", property="S03", also=["S01"],
 needs="ten or more parties partially decrypting",
 breaks="with ten or more parties left the transformed share is multiplied by itself instead of the secret key",
 edits=[("mkrlwe/decryptor.go", "	ringQ.MulCoeffsMontgomeryLvl(level, ct.Value[id], sk.Value.Q, ct.Value[id])", "	if len(ct.Value) > 10 {\n		ringQ.MulCoeffsMontgomeryLvl(level, ct.Value[id], ct.Value[id], ct.Value[id])\n	} else {\n		ringQ.MulCoeffsMontgomeryLvl(level, ct.Value[id], sk.Value.Q, ct.Value[id])\n	}")],
 demo='''
func main() {
	names := []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"}
	x := newCk(5, 4, []int{55, 45}, []int{50, 50}, 45, names...)
	m := x.msg()
	s := x.encNew("a", m)
	for _, id := range names[1:] {
		s = x.eval.AddNew(s, x.encNew(id, m))
	}
	d := 1e9
	refused(func() { d = x.far(s, func(i int) complex128 { return 10 * m.Value[i] }) })
	must(d < 1e-5, "off by %g", d)
}'''),
dict(id="K04-crs-special-one", property="K04", also=["K01", "C04"],
 needs="a reference string added after the parameters were created",
 breaks="an added reference string has the same element in every block",
 edits=[("mkrlwe/params.go", "		params.CRS[idx].Value[i] = params.RingQP().NewPoly()\n		uniformSamplerQ.Read(params.CRS[idx].Value[i].Q)\n		uniformSamplerP.Read(params.CRS[idx].Value[i].P)\n", "		params.CRS[idx].Value[i] = params.RingQP().NewPoly()\n		if i > 0 {\n			params.CRS[idx].Value[i].Q.Copy(params.CRS[idx].Value[i-1].Q)\n			params.CRS[idx].Value[i].P.Copy(params.CRS[idx].Value[i-1].P)\n			continue\n		}\n		uniformSamplerQ.Read(params.CRS[idx].Value[i].Q)\n		uniformSamplerP.Read(params.CRS[idx].Value[i].P)\n")],
 demo='''
func main() {
	x := %s
	x.params.AddCRS(3)
	a := x.params.CRS[3]
	must(!equalPoly(a.Value[0].Q, a.Value[1].Q), "blocks of a reference string are equal")
}''' % CK2),
dict(id="E02-global-pool", property="E02",
 needs="two evaluators created from the same parameters working at the same time",
 breaks="decompositions of all key switchers go through one shared buffer",
 edits=[("mkrlwe/keyswitch.go", "	c0QP := ks.Pool[0]\n	c1QP := ks.Pool[1]\n", "	c0QP := ks.Pool[0]\n	c1QP := ks.Pool[1]\n	if sharedPool.Q != nil && len(sharedPool.Q.Coeffs) == len(c0QP.Q.Coeffs) && len(sharedPool.P.Coeffs) == len(c0QP.P.Coeffs) && len(sharedPool.Q.Coeffs[0]) == len(c0QP.Q.Coeffs[0]) {\n		c0QP = sharedPool\n	} else {\n		sharedPool = c0QP\n	}\n"),
   ("mkrlwe/keyswitch.go", "// KeySwitcher is a struct for RLWE key-switching.\n", "var sharedPool rlwe.PolyQP\n\n// KeySwitcher is a struct for RLWE key-switching.\n")],
 demo='''
func main() {
	x := newCk(10, 9, []int{55, 45, 45, 45}, []int{50, 50}, 45, "a")
	m := x.msg()
	ct := x.encNew("a", m)
	n := len(m.Value)
	res := make([]*mkckks.Ciphertext, 8)
	done := make(chan bool)
	for g := range res {
		go func(g int) {
			ev := mkckks.NewEvaluator(x.params)
			for k := 0; k < 20; k++ {
				res[g] = ev.RotateNew(ct, 1<<g, x.rot)
			}
			done <- true
		}(g)
	}
	for range res {
		<-done
	}
	for g := range res {
		d := x.far(res[g], func(i int) complex128 { return m.Value[(i+1<<g)%n] })
		must(d < 1e-5, "rotation by %d off by %g", 1<<g, d)
	}
}'''),
]
