CE = "mkckks/evaluator.go"
BE = "mkbfv/evaluator.go"
KS = "mkrlwe/keyswitch.go"
KH = "mkrlwe/keyswitch_hoisted.go"
KG = "mkrlwe/keygen.go"
KY = "mkrlwe/keys.go"
DE = "mkrlwe/decryptor.go"
CK2 = 'newCk(5, 4, []int{55, 45, 45, 45}, []int{50, 50}, 45, "a", "b")'
BF2 = 'newBf(5, 3, 50, 2, 55, 65537, "a", "b")'
SEEDS = [
dict(id="C01-key-by-name", property="C01", also=["E02"],
 needs="one encryptor serving two key pairs of a party, one after the other",
 breaks="messages are encrypted under the first public key seen of a party, also after the party has renewed its keys",
 edits=[("mkckks/encryptor.go", "	ptxtPool   *ckks.Plaintext\n", "	ptxtPool   *ckks.Plaintext\n	known      map[string]*mkrlwe.PublicKey\n"),
  ("mkckks/encryptor.go", "	ret.params = params\n", "	ret.params = params\n	ret.known = make(map[string]*mkrlwe.PublicKey)\n"),
  ("mkckks/encryptor.go", "	enc.encoder.Encode(enc.ptxtPool, msg.Value, enc.params.LogSlots())\n	enc.EncryptPtxt(enc.ptxtPool, pk, ctOut)", "	enc.encoder.Encode(enc.ptxtPool, msg.Value, enc.params.LogSlots())\n	if old, in := enc.known[pk.ID]; in {\n		pk = old\n	} else {\n		enc.known[pk.ID] = pk\n	}\n	enc.EncryptPtxt(enc.ptxtPool, pk, ctOut)")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	for k := 0; k < 2; k++ {
		d := x.far(x.encNew("a", m), func(i int) complex128 { return m.Value[i] })
		must(d < 1e-5, "message off by %%g", d)
		sk, pk := x.kgen.GenKeyPair("a")
		x.sk.AddSecretKey(sk)
		x.pk.AddPublicKey(pk)
	}
}''' % CK2),
dict(id="S01-key-remembered", property="S01", also=["E02"],
 needs="a decryption with a key missing, on a decryptor that has been given the missing key for another ciphertext before",
 breaks="a decryptor remembers the secret keys it was given and uses them for later ciphertexts",
 edits=[(DE, "func (decryptor *Decryptor) PartialDecrypt(ct *Ciphertext, sk *SecretKey) {\n	ringQ := decryptor.ringQ\n", "func (decryptor *Decryptor) PartialDecrypt(ct *Ciphertext, sk *SecretKey) {\n	ringQ := decryptor.ringQ\n	if decryptor.seen == nil {\n		decryptor.seen = make(map[string]*SecretKey)\n	}\n	decryptor.seen[sk.ID] = sk\n"),
  (DE, "	if len(ctTmp.Value) > 1 {", "	for id := range ctTmp.IDSet().Value {\n		if sk, in := decryptor.seen[id]; in {\n			decryptor.PartialDecrypt(ctTmp, sk)\n		}\n	}\n\n	if len(ctTmp.Value) > 1 {"),
  (DE, "type Decryptor struct {\n", "type Decryptor struct {\n	seen map[string]*SecretKey\n")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	s := x.eval.AddNew(x.encNew("a", m), x.encNew("b", m))
	x.dec.Decrypt(s, x.sk)
	x.sk.DelSecretKey("b")
	t := x.eval.AddNew(x.encNew("a", m), x.encNew("b", m))
	must(refused(func() { x.dec.Decrypt(t, x.sk) }), "decrypted without the key of b")
}''' % CK2),
dict(id="S03-key-by-name", property="S03", also=["S01", "E02"],
 needs="one decryptor given two secret keys of the same party, one after the other",
 breaks="partial decryption uses the first secret key it has seen of a party",
 edits=[(DE, "type Decryptor struct {\n", "type Decryptor struct {\n	sks    map[string]*SecretKey\n"),
  (DE, "		pool:   params.RingQ().NewPoly(),", "		pool:   params.RingQ().NewPoly(),\n		sks:    make(map[string]*SecretKey),"),
  (DE, "	ringQ := decryptor.ringQ\n	id := sk.ID\n", "	ringQ := decryptor.ringQ\n	id := sk.ID\n	if old, in := decryptor.sks[id]; in {\n		sk = old\n	} else {\n		decryptor.sks[id] = sk\n	}\n")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	for k := 0; k < 2; k++ {
		ct := x.encNew("a", m)
		x.dec.PartialDecrypt(ct, x.sk.GetSecretKey("a"))
		d := x.far(ct, func(i int) complex128 { return m.Value[i] })
		must(d < 1e-5, "message off by %%g", d)
		sk, pk := x.kgen.GenKeyPair("a")
		x.sk.AddSecretKey(sk)
		x.pk.AddPublicKey(pk)
	}
}''' % CK2),
dict(id="C04-key-by-name", property="C04", also=["B04", "E02", "C08"],
 needs="one evaluator rotating with two rotation keys of a party, one after the other",
 breaks="a rotation uses the first rotation key it has seen of a party and an amount",
 edits=[(KS, "	swkPool3   *SwitchingKey\n}", "	swkPool3   *SwitchingKey\n	rks        map[string]map[int]*RotationKey\n}"),
  (KS, "	ks.swkPool3 = NewSwitchingKey(params)\n", "	ks.swkPool3 = NewSwitchingKey(params)\n	ks.rks = make(map[string]map[int]*RotationKey)\n"),
  (KS, "		rk := rkSet.GetRotationKey(id, uint(rotidx))\n", "		rk := ks.rks[id][rotidx]\n		if rk == nil {\n			rk = rkSet.GetRotationKey(id, uint(rotidx))\n			if ks.rks[id] == nil {\n				ks.rks[id] = make(map[int]*RotationKey)\n			}\n			ks.rks[id][rotidx] = rk\n		}\n")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	n := len(m.Value)
	for k := 0; k < 2; k++ {
		r := x.eval.RotateNew(x.encNew("a", m), 2, x.rot)
		d := x.far(r, func(i int) complex128 { return m.Value[(i+2)%%n] })
		must(d < 1e-4, "rotation off by %%g", d)
		sk, pk := x.kgen.GenKeyPair("a")
		x.sk.AddSecretKey(sk)
		x.pk.AddPublicKey(pk)
		x.rot.AddRotationKey(x.kgen.GenRotationKey(2, sk))
	}
}''' % CK2),
dict(id="K04-known-at-creation", property="K04", also=["C04"],
 needs="a reference string added after the evaluator was made, and only the dedicated rotation key",
 breaks="an evaluator knows only the reference strings that existed when it was created",
 edits=[(CE, "	polyQPool *ring.Poly\n}", "	polyQPool *ring.Poly\n	amounts   map[int]bool\n}"),
  (CE, "	eval.params = params\n", "	eval.params = params\n	eval.amounts = make(map[int]bool)\n	for i := range params.CRS {\n		eval.amounts[i] = true\n	}\n"),
  (CE, "	_, in := eval.params.CRS[rotidx]\n\n	if in {\n		eval.ksw.Rotate(", "	in := eval.amounts[rotidx]\n\n	if in {\n		eval.ksw.Rotate(")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	n := len(m.Value)
	x.params.AddCRS(5)
	rot := mkrlwe.NewRotationKeySet()
	rot.AddRotationKey(x.kgen.GenRotationKey(5, x.sk.GetSecretKey("a")))
	d := 1e9
	refused(func() { d = x.far(x.eval.RotateNew(x.encNew("a", m), 5, rot), func(i int) complex128 { return m.Value[(i+5)%%n] }) })
	must(d < 1e-4, "rotation by an amount with its own key: %%g", d)
}''' % CK2),
dict(id="K01-rotated-by-name", property="K01", also=["C05", "B04"],
 needs="one generator making conjugation keys for two secrets of one party",
 breaks="the conjugated secret of the first conjugation key is kept for the party's later secrets",
 edits=[(KG, "	uniformSamplerP  *ring.UniformSampler\n}", "	uniformSamplerP  *ring.UniformSampler\n	rotated          map[string]*SecretKey\n}"),
  (KG, "	keygen.params = params\n", "	keygen.params = params\n	keygen.rotated = make(map[string]*SecretKey)\n"),
  (KG, "	cjk = NewConjugationKey(params, id)\n", "	cjk = NewConjugationKey(params, id)\n	if old, in := keygen.rotated[id]; in {\n		skOut = old\n	} else {\n		keygen.rotated[id] = skOut\n	}\n")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	for k := 0; k < 2; k++ {
		r := x.eval.ConjugateNew(x.encNew("a", m), x.cjk)
		d := x.far(r, func(i int) complex128 { return complex(real(m.Value[i]), -imag(m.Value[i])) })
		must(d < 1e-4, "conjugate off by %%g", d)
		sk, pk := x.kgen.GenKeyPair("a")
		x.sk.AddSecretKey(sk)
		x.pk.AddPublicKey(pk)
		x.cjk.AddConjugationKey(x.kgen.GenConjugationKey(sk))
	}
}''' % CK2),
dict(id="C02-narrow-ratio", property="C02", also=["C08"],
 needs="operands whose scales are more than 2^31 apart, the smaller one second",
 breaks="the factor that aligns the scales of the operands of an addition is narrowed to 32 bits",
 edits=[(CE, "eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})\n\n			tmp0 = c0.El()", "eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, int(int32(c0Scale/c1Scale)), &Ciphertext{tmp1, ctOutScale})\n\n			tmp0 = c0.El()")],
 demo='''
func main() {
	x := %s
	m, n := x.msg(), x.msg()
	r := x.eval.AddNew(x.encAt("a", m, 3, math.Exp2(66)), x.encAt("b", n, 3, math.Exp2(32)))
	d := x.far(r, func(i int) complex128 { return m.Value[i] + n.Value[i] })
	must(d < 1e-2, "sum off by %%g", d)
}''' % CK2),
dict(id="C07-last-prime", property="C07", also=["C03", "C08"],
 needs="rescaling at level one",
 breaks="a rescale to level zero keeps a prime by which the scale was divided",
 edits=[(CE, "	if nbRescales > 0 {\n", "	if nbRescales = utils.MinInt(nbRescales, ctIn.Level()-1); nbRescales > 0 {\n")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	ct := x.encAt("a", m, 1, math.Exp2(85))
	r, err := x.eval.RescaleNew(ct, math.Exp2(40))
	must(err == nil && r.Level() == 0, "level %%d (%%v)", r.Level(), err)
}''' % CK2),
dict(id="E01-drop-shares", property="E01", also=["E02"],
 needs="a later change to the result of a level drop, or to its operand",
 breaks="the result of a level drop shares the coefficients of its operand",
 edits=[(CE, "	ctOut = ct0.CopyNew()\n	eval.DropLevel(ctOut, levels)", "	ctOut = &Ciphertext{&mkrlwe.Ciphertext{Value: make(map[string]*ring.Poly)}, ct0.Scale}\n	for id, p := range ct0.Value {\n		ctOut.Value[id] = &ring.Poly{Coeffs: p.Coeffs, IsNTT: p.IsNTT}\n	}\n	eval.DropLevel(ctOut, levels)")],
 demo='''
func main() {
	x := %s
	m := x.msg()
	ct := x.encNew("a", m)
	r := x.eval.DropLevelNew(ct, 1)
	x.eval.MultByConst(r, 2, r)
	d := x.far(ct, func(i int) complex128 { return m.Value[i] })
	must(d < 1e-4, "the operand of a level drop is off by %%g after its result was doubled", d)
}''' % CK2),
dict(id="E01-results-reused", property="E01", also=["E02"],
 needs="a result of an addition that is still in use when the same evaluator has served 256 more calls on ciphertexts of the same parties",
 breaks="an evaluator hands out the same result objects again after 256 calls",
 edits=[(CE, "	polyQPool *ring.Poly\n}", "	polyQPool *ring.Poly\n	results   map[int]*Ciphertext\n	count     int\n}"),
  (CE, "	eval.params = params\n", "	eval.params = params\n	eval.results = make(map[int]*Ciphertext)\n"),
  (CE, "	idset := op0.IDSet().Union(op1.IDSet())\n\n	return NewCiphertext(eval.params, idset, minLevel, maxScale)", "	idset := op0.IDSet().Union(op1.IDSet())\n	eval.count++\n	if old, in := eval.results[eval.count%256]; in && old != op0 && old != op1 && old.Level() >= minLevel && old.IDSet().Size() == idset.Size() && old.IDSet().Intersection(idset).Size() == idset.Size() {\n		old.Scale = maxScale\n		eval.DropLevel(old, old.Level()-minLevel)\n		return old\n	}\n	res := NewCiphertext(eval.params, idset, minLevel, maxScale)\n	eval.results[eval.count%256] = res\n	return res")],
 demo='''
func main() {
	x := %s
	m, n := x.msg(), x.msg()
	a, b := x.encNew("a", m), x.encNew("a", n)
	first := x.eval.AddNew(a, b)
	for k := 0; k < 300; k++ {
		x.eval.SubNew(a, b)
	}
	d := x.far(first, func(i int) complex128 { return m.Value[i] + n.Value[i] })
	must(d < 1e-4, "an earlier sum is off by %%g", d)
}''' % CK2),
dict(id="K03-relin-kept", property="K03", also=["E02", "C03"],
 needs="adding a second relinearisation key of a party to a set",
 breaks="adding a relinearisation key of a party that has one already is silently ignored",
 edits=[(KY, "	rlkSet.Value[rlk.ID] = rlk\n", "	if _, in := rlkSet.HoistPool[0].Value[rlk.ID]; in {\n		return\n	}\n	rlkSet.Value[rlk.ID] = rlk\n")],
 demo='''
func main() {
	x := %s
	sk, _ := x.kgen.GenKeyPair("a")
	k := x.kgen.GenRelinearizationKey(sk, x.kgen.GenSecretKey("a"))
	x.rlk.AddRelinearizationKey(k)
	must(x.rlk.GetRelinearizationKey("a") == k, "the key added last is not in the set")
}''' % CK2),
dict(id="S02-narrow-tail", property="S02",
 needs="enough encryptions to see the tails of the noise",
 breaks="the noise of encryptions is cut off at half the specified bound",
 edits=[("mkrlwe/encryptor.go", "int(6*params.Sigma()))", "int(3*params.Sigma()))")],
 demo='''
func main() {
	x := newCk(13, 12, []int{55}, []int{60, 60}, 45, "a")
	zero := mkckks.NewMessage(x.params)
	// a public key of zeros leaves the noise alone
	pk := x.pk.GetPublicKey("a")
	for i := 0; i < 2; i++ {
		pk.Value[i].Q.Zero()
		pk.Value[i].P.Zero()
	}
	out, q := 0, x.params.Q()[0]
	for k := 0; k < 8; k++ {
		for _, v := range x.enc.EncryptMsgNew(zero, pk).Value["a"].Coeffs[0] {
			if v > 9 && v < q-9 {
				out++
			}
		}
	}
	must(out > 40, "%d of 65536 noise values lie beyond three deviations", out)
}'''),
dict(id="K01-late-block", property="K01", also=["S02"],
 needs="BFV parameters with more than six gadget blocks",
 breaks="the second switching key of BFV relinearisation has no error beyond the sixth block",
 edits=[("mkbfv/keygen.go", "		e := params.RingQP().NewPoly()\n		keygen.GenGaussianError(e)\n\n		params.RingQP().AddLvl(levelQ, levelP, swk2", "		e := params.RingQP().NewPoly()\n		if i < 6 {\n			keygen.GenGaussianError(e)\n		}\n\n		params.RingQP().AddLvl(levelQ, levelP, swk2")],
 demo='''
func main() {
	x := newBf(5, 8, 45, 2, 55, 65537, "a")
	sk, sw1, sw2 := x.sk.GetSecretKey("a"), mkrlwe.NewSwitchingKey(x.params.Parameters), mkrlwe.NewSwitchingKey(x.params.Parameters)
	tw1, tw2 := mkrlwe.NewSwitchingKey(x.params.Parameters), mkrlwe.NewSwitchingKey(x.params.Parameters)
	x.kgen.GenBFVSwitchingKey(sk, sw1, sw2)
	x.kgen.GenBFVSwitchingKey(sk, tw1, tw2)
	for i := range sw2.Value {
		must(!equalPoly(sw2.Value[i].Q, tw2.Value[i].Q), "block %d carries no error", i)
	}
}'''),
dict(id="C03-late-block", property="C03", also=["E03", "E02"],
 needs="products with more than sixteen gadget blocks, the second one on an evaluator",
 breaks="blocks beyond the sixteenth of a hoisted product start from what the previous product left behind",
 edits=[(KH, "	for i := 0; i < beta; i++ {\n		x.Value[i].Q.Zero()", "	for i := 0; i < beta && i < 16; i++ {\n		x.Value[i].Q.Zero()")],
 demo='''
func main() {
	x := newCk(5, 4, append([]int{55}, []int{45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45}...), []int{55, 55}, 45, "a", "b")
	m, n := x.msg(), x.msg()
	a, b := x.encNew("a", m), x.encNew("b", n)
	for k := 0; k < 3; k++ {
		d := x.far(x.eval.MulRelinNew(a, b, x.rlk), func(i int) complex128 { return m.Value[i] * n.Value[i] })
		must(d < 1e-4, "product off by %g", d)
	}
}'''),
dict(id="I01-long-name", property="I01", also=["K03"],
 needs="a party name of more than 255 bytes",
 breaks="rotation keys are looked up under the first 255 bytes of a name",
 edits=[(KY, "	_, in := rkSet.Value[id]\n	if !in {\n		panic", "	if len(id) > 255 {\n		id = id[:255]\n	}\n	_, in := rkSet.Value[id]\n	if !in {\n		panic")],
 demo='''
func main() {
	long := "p"
	for len(long) < 300 {
		long += long
	}
	x := newCk(5, 4, []int{55, 45, 45, 45}, []int{50, 50}, 45, long)
	m := x.msg()
	n := len(m.Value)
	d := 1e9
	refused(func() { d = x.far(x.eval.RotateNew(x.encNew(long, m), 1, x.rot), func(i int) complex128 { return m.Value[(i+1)%n] }) })
	must(d < 1e-4, "rotation of a ciphertext of a party with a long name: %g", d)
}'''),
]
