package main

import (
	"fmt"
	"math"

	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
)

var ckksAssume = []string{
	"the ring arithmetic, samplers and CKKS encoder of the pinned lattigo v2.3.0 dependency are correct",
	"messages are generated so that message and noise fit the modulus with a margin of 8",
	"parameter sets have at least two special primes whose product is at least about the square of a gadget digit divided by the scale",
}

func init() {
	register(&Check{ID: "C01", Assumptions: ckksAssume,
		Rule: "a case is non-trivial if the message is not constant zero and its magnitude is at least 16 times the allowed error",
		Subs: []Sub{
			{Name: "msg", Prop: c01Msg, Quick: 60000, Thorough: 400000},
			{Name: "ptxt", Prop: c01Ptxt, Quick: 60000, Thorough: 400000},
			{Name: "large", Prop: c01Large, Quick: 42, Thorough: 400},
			{Name: "rekeyed", Prop: func(c *C) { rekeyCkks(c, []string{"msg", "msgto", "ptxt"}) }, Quick: 3500},
		}})
	register(&Check{ID: "C02", Assumptions: ckksAssume,
		Rule: "a case is non-trivial if both operands are non-zero and the expected result's magnitude is at least 16 times the allowed error",
		Subs: []Sub{
			{Name: "addsub", Prop: c02, Quick: 128000, Thorough: 500000},
			{Name: "many", Prop: c02Many, Quick: 2100},
			{Name: "city", Prop: func(c *C) { cityCkksOp(c, []string{"add", "sub"}) }, Quick: 700},
		}})
	register(&Check{ID: "C03", Assumptions: ckksAssume,
		Rule: "a case is non-trivial if the expected product's magnitude is at least 16 times the allowed error",
		Subs: []Sub{
			{Name: "mul", Prop: c03, Quick: 80000, Thorough: 300000},
			{Name: "large", Prop: c03Large, Quick: 21, Thorough: 200},
			{Name: "city", Prop: func(c *C) { cityCkksOp(c, []string{"mul"}) }, Quick: 700},
			{Name: "rekeyed", Prop: func(c *C) { rekeyCkks(c, []string{"mul", "hmul", "square"}) }, Quick: 3500},
		}})
	register(&Check{ID: "C04", Assumptions: ckksAssume,
		Rule: "a case is non-trivial if the rotation moves the message to a different vector and the message's magnitude is at least 16 times the allowed error",
		Subs: []Sub{
			{Name: "rot", Prop: c04, Quick: 40000, Thorough: 300000},
			{Name: "compose", Prop: c04Compose, Quick: 8000, Thorough: 60000},
			{Name: "large", Prop: c04Large, Quick: 21, Thorough: 200},
			{Name: "city", Prop: func(c *C) { cityCkksOp(c, []string{"rot", "hrot"}) }, Quick: 700},
			{Name: "rekeyed", Prop: func(c *C) { rekeyCkks(c, []string{"rot", "hrot"}) }, Quick: 3500},
			{Name: "interop", Prop: k04Interop, Quick: 2800},
		}})
	register(&Check{ID: "C05", Assumptions: ckksAssume,
		Rule: "a case is non-trivial if the message has a non-zero imaginary part and magnitude at least 16 times the allowed error",
		Subs: []Sub{
			{Name: "conj", Prop: c05, Quick: 96000, Thorough: 400000},
			{Name: "city", Prop: func(c *C) { cityCkksOp(c, []string{"conj"}) }, Quick: 700},
			{Name: "rekeyed", Prop: func(c *C) { rekeyCkks(c, []string{"conj"}) }, Quick: 3500},
			{Name: "interop", Prop: k04Interop, Quick: 1400},
		}})
	register(&Check{ID: "C06", Assumptions: ckksAssume,
		Rule: "a case is non-trivial if the expected result's magnitude is at least 16 times the allowed error",
		Subs: []Sub{
			{Name: "const", Prop: c06Const, Quick: 84000, Thorough: 500000},
			{Name: "ptxt", Prop: c06Ptxt, Quick: 54000, Thorough: 300000},
		}})
	register(&Check{ID: "C07", Assumptions: ckksAssume,
		Rule: "a case is non-trivial if the message's magnitude is at least 16 times the allowed error; refusals count when the ciphertext is non-zero",
		Subs: []Sub{
			{Name: "rescale", Prop: c07Rescale, Quick: 120000, Thorough: 400000},
			{Name: "refuse", Prop: c07Refuse, Quick: 40000, Thorough: 100000},
			{Name: "drop", Prop: c07Drop, Quick: 60000, Thorough: 200000},
		}})
}

// ---------------------------------------------------------------- C01

func c01Msg(c *C) { c01MsgOn(c, drawCkks(c, 2, 1)) }

func c01Large(c *C) {
	cfg := pick(c, "cfg", ckksLarge)
	x := getCkks(c, cfg, 0)
	c01MsgOn(c, x)
}

func c01MsgOn(c *C, x *ckksCtx) {
	enc := x.encryptor(c)
	name := pick(c, "party", partyPool)
	others := drawParties(c, "others", 0, 3)
	L := x.params.MaxLevel()
	n := 1
	if c.OneIn("several", 4) {
		n = 3
	}
	for i := 0; i < n; i++ {
		level := L
		mode := c.Idx("mode", 3) // 0: EncryptMsgNew, 1: EncryptMsg into a given ciphertext, 2: into a lower one
		if mode == 2 {
			for level = c.Idx("level", L+1); level < L && x.cap(level, x.defScale()) < 8; level++ {
			}
		}
		if x.cap(level, x.defScale()) < 8 {
			c.Discard("no room")
		}
		maxm := x.cap(level, x.defScale()) / 4
		if c.Bool("moderate") {
			maxm = math.Min(maxm, 1e6)
		}
		v := genMsg(c, "m", x.slots(), maxm)
		msg := x.message(c, v)
		if c.OneIn("short", 8) { // a shorter message is padded with zeros
			k := c.Idx("len", x.slots()+1)
			msg.Value = msg.Value[:k]
			for j := k; j < len(v); j++ {
				v[j] = 0
			}
		}
		var ct *mkckks.Ciphertext
		pk := x.party(name).pk
		switch mode {
		case 0:
			ct = enc.EncryptMsgNew(msg, pk)
		default:
			ct = mkckks.NewCiphertext(x.params, idset(name), level, 12345)
			if c.Bool("dirty") {
				enc.EncryptMsg(msg, pk, ct) // reuse of the receiver
			}
			enc.EncryptMsg(msg, pk, ct)
		}
		t := &tct{ct: ct, val: v, scale: x.defScale(), level: level, ids: []string{name}}
		t.eps = x.noise().fresh()/t.scale + x.flt(maxAbs(v))
		c.Class("cfg %s", x.cfg.name)
		c.Nontrivial(t.precise())
		x.verifyWith(c, "fresh", t, mkckks.NewDecryptor(x.params), x.skSet(append(others, name)...))
	}
}

func c01Ptxt(c *C) {
	x := drawCkks(c, 1, 1)
	enc := x.encryptor(c)
	name := pick(c, "party", partyPool)
	L := x.params.MaxLevel()
	level, scale := x.drawLevelScale(c, "at")
	v := genMsg(c, "m", x.slots(), x.cap(level, scale)/4)
	ntt := c.Bool("ntt")
	ptLevel, ctLevel := level, level
	if c.Bool("ptHigher") {
		ptLevel = level + c.Idx("up", L-level+1)
	} else if c.Bool("ctHigher") {
		ctLevel = level + c.Idx("up", L-level+1)
	}
	pt := x.encode(v, ptLevel, scale, ntt)
	ct := mkckks.NewCiphertext(x.params, idset(name), ctLevel, 1)
	before := pt.Value.CopyNew()
	enc.EncryptPtxt(pt, x.party(name).pk, ct)
	if !before.Equals(pt.Value) || pt.Level() != ptLevel {
		c.Fatalf("EncryptPtxt changed the plaintext")
	}
	t := &tct{ct: ct, val: v, scale: scale, level: level, ids: []string{name}}
	t.eps = x.noise().fresh()/scale + x.flt(maxAbs(v))
	c.Class("ntt=%v pt%+d ct%+d", ntt, sign(ptLevel-level), sign(ctLevel-level))
	c.Nontrivial(t.precise())
	x.verify(c, "freshptxt", t)
}

func sign(i int) int {
	if i > 0 {
		return 1
	} else if i < 0 {
		return -1
	}
	return 0
}

// ---------------------------------------------------------------- C02

// drawSecond draws a second party set with a chosen relation to the first.
func drawSecond(c *C, a []string) []string {
	switch c.Idx("rel", 5) {
	case 0:
		c.Class("parties equal")
		return a
	case 1:
		b := drawParties(c, "b", 0, 3)
		return b
	case 2:
		c.Class("parties none")
		return nil
	case 3: // subset plus maybe one
		var b []string
		for _, n := range a {
			if c.Bool("keep") {
				b = append(b, n)
			}
		}
		if c.Bool("extra") {
			b = union(b, []string{pick(c, "b1", partyPool)})
		}
		c.Note("b=%q", b)
		return b
	default: // disjoint
		var b []string
		for _, n := range partyPool {
			in := false
			for _, m := range a {
				in = in || m == n
			}
			if !in && len(b) < 3 && c.Bool("take") {
				b = append(b, n)
			}
		}
		c.Class("parties disjoint")
		c.Note("b=%q", b)
		return b
	}
}

func c02(c *C) {
	x := drawCkks(c, 1, 1)
	enc := x.encryptor(c)
	eval := mkckks.NewEvaluator(x.params)
	na := drawParties(c, "a", 0, 3)
	nb := drawSecond(c, na)
	la, sa := x.drawLevelScale(c, "la")
	lb, sb := x.drawLevelScale(c, "lb")
	if c.Bool("intratio") { // an exact multiple, so that nothing is lost in aligning
		r := float64(c.Int("ratio", 1, 1000))
		if sb = sa * r; oddScale(sb) != sb {
			sb += sa
		}
	}
	lim := math.Min(x.cap(min(la, lb), math.Max(sa, sb))/8, 1e9)
	if lim < 1 {
		lb, sb = la, sa
		lim = math.Min(x.cap(la, sa)/8, 1e9)
	}
	a := x.drawCt(c, "a", enc, na, la, sa, lim)
	b := x.drawCt(c, "b", enc, nb, lb, sb, lim)
	same := c.OneIn("same", 8)
	if same {
		b = a
	}
	if !x.alignable(a, b) {
		c.Discard("does not fit")
	}
	sub := c.Bool("sub")
	if c.OneIn("warm", 3) { // the same evaluator has served something else before
		eval.AddNew(b.ct, a.ct)
	}
	var t *tct
	if sub {
		t = x.mAdd(a, b, -1)
		t.ct = eval.SubNew(a.ct, b.ct)
	} else {
		t = x.mAdd(a, b, 1)
		t.ct = eval.AddNew(a.ct, b.ct)
	}
	c.Class("levels %d scales %d", sign(a.level-b.level), sign(int(math.Log2(a.scale/b.scale)*10)))
	c.Nontrivial(t.precise() && maxAbs(a.val) > 0 && maxAbs(b.val) > 0)
	x.verify(c, map[bool]string{false: "add", true: "sub"}[sub], t)
	if !same && len(a.ids) > 0 {
		x.verify(c, "operand after addition", a)
		x.verify(c, "operand after addition", b)
	}
	if c.OneIn("onwards", 3) { // the result is worked with further; nothing involved may change
		for _, o := range []*tct{a, b} {
			if !x.alignable(t, o) {
				continue
			}
			u := x.mAdd(t, o, -1)
			if c.Bool("swap") {
				u = x.mAdd(o, t, -1)
				u.ct = eval.SubNew(o.ct, t.ct)
			} else {
				u.ct = eval.SubNew(t.ct, o.ct)
			}
			if u.fits(x) {
				x.verify(c, "difference with the result", u)
			}
		}
		x.verify(c, "result after further work", t)
		x.verify(c, "operand after further work", a)
		x.verify(c, "operand after further work", b)
	}
}

// ---------------------------------------------------------------- C03

func c03(c *C) { c03On(c, drawCkks(c, 1, 1), 3) }

func c03Large(c *C) { c03On(c, getCkks(c, pick(c, "cfg", ckksLarge[:2]), 0), 2) }

func c03On(c *C, x *ckksCtx, maxParties int) {
	enc := x.encryptor(c)
	eval := mkckks.NewEvaluator(x.params)
	na := drawParties(c, "a", 0, maxParties)
	nb := drawSecond(c, na)
	la, sa := x.drawLevelScale(c, "la")
	lb, sb := x.drawLevelScale(c, "lb")
	lv := min(la, lb)
	if x.cap(lv, sa*sb) < 4 {
		// choose an easy pair instead
		sa, sb = x.defScale(), x.defScale()
		if x.cap(lv, sa*sb) < 4 {
			sa, sb = math.Exp2(math.Floor((x.logQ(lv)-8)/2)), math.Exp2(math.Floor((x.logQ(lv)-8)/2))
			if sa > x.defScale() {
				sa, sb = x.defScale(), x.defScale()
			}
		}
	}
	lim := math.Sqrt(x.cap(lv, sa*sb)) / 2
	lim = math.Min(lim, math.Min(x.cap(la, sa), x.cap(lb, sb))/4)
	if c.Bool("moderate") {
		lim = math.Min(lim, 64)
	}
	a := x.drawCt(c, "a", enc, na, la, sa, lim)
	b := x.drawCt(c, "b", enc, nb, lb, sb, lim)
	switch c.Idx("eq", 6) {
	case 4:
		b = a
		c.Class("square of one object")
	case 5:
		cp := *a
		cp.ct = a.ct.CopyNew()
		b = &cp
		c.Class("square of equal copies")
	}
	t, ok := x.mMul(a, b)
	if !ok {
		c.Discard("does not fit")
	}
	rlks := x.rlkSet(union(a.ids, b.ids, drawParties(c, "bystanders", 0, 1))...)
	if c.OneIn("warm", 3) {
		eval.MulRelinNew(b.ct, a.ct, rlks)
	}
	t.ct = eval.MulRelinNew(a.ct, b.ct, rlks)
	c.Class("parties %dx%d=%d", len(a.ids), len(b.ids), len(t.ids))
	c.Class("cfg %s", x.cfg.name)
	c.Class("level diff %d, consumed %d", sign(a.level-b.level), min(a.level, b.level)-t.level)
	c.Nontrivial(t.precise())
	x.verify(c, "mul", t)
	if c.OneIn("operands", 3) {
		x.verify(c, "operand after multiplication", a)
		x.verify(c, "operand after multiplication", b)
	}
}

// ---------------------------------------------------------------- C04

func (x *ckksCtx) drawRot(c *C) int {
	n2 := x.params.N() / 2
	switch c.Idx("rotkind", 6) {
	case 0:
		return pick(c, "rot", []int{0, 1, -1, n2, -n2, n2 - 1, n2 / 2, n2 + 1, 2 * n2, 3*n2 + 2})
	case 1:
		return 1 << c.Idx("rotlog", x.params.LogN()-1)
	case 2:
		if len(x.extra) > 0 {
			return pick(c, "rotx", x.extra) + n2*(c.Idx("rotwrap", 3)-1)
		}
		fallthrough
	case 3:
		return c.Int("rot", 0, n2-1)
	case 4:
		return -c.Int("rot", 0, 3*n2)
	default:
		return c.Int("rot", 0, 5*n2)
	}
}

func c04(c *C) { c04On(c, drawCkks(c, 2, 1), 3) }

func c04Large(c *C) { c04On(c, getCkks(c, pick(c, "cfg", ckksLarge), 0), 2) }

func c04On(c *C, x *ckksCtx, maxParties int) {
	enc := x.encryptor(c)
	eval := mkckks.NewEvaluator(x.params)
	names := drawParties(c, "a", 0, maxParties)
	l, s := x.drawLevelScale(c, "l")
	a := x.drawCt(c, "a", enc, names, l, s, 1e6)
	k := x.drawRot(c)
	var rk *mkrlwe.RotationKeySet
	if x.params.N() > 1<<11 { // only the keys that are needed
		rk = mkrlwe.NewRotationKeySet()
		n2 := x.params.N() / 2
		for kk, b := ((k%n2)+n2)%n2, 1; kk > 0; kk, b = kk/2, b*2 {
			if kk%2 == 1 {
				for _, n := range names {
					rk.AddRotationKey(x.rotKey(n, b))
				}
			}
		}
	} else {
		rk = x.rotSet(union(names, drawParties(c, "bystanders", 0, 1))...)
	}
	t := x.mRot(a, k)
	t.ct = eval.RotateNew(a.ct, k, rk)
	_, dedicated := x.params.CRS[((k%(x.params.N()/2))+x.params.N()/2)%(x.params.N()/2)]
	c.Class("dedicated=%v level<max=%v parties=%d", dedicated, l < x.params.MaxLevel(), len(names))
	c.Nontrivial(t.precise() && fmt.Sprint(t.val) != fmt.Sprint(a.val))
	x.verify(c, "rotate", t)
	if len(names) > 0 {
		x.verify(c, "operand after rotation", a)
	}
}

// c04Compose: rotations compose, and n/2 single steps are the identity.
func c04Compose(c *C) {
	x := drawCkks(c, 2, 1)
	if x.params.N() > 256 {
		c.Discard("small rings only")
	}
	enc := x.encryptor(c)
	eval := mkckks.NewEvaluator(x.params)
	names := drawParties(c, "a", 1, 2)
	l, s := x.drawLevelScale(c, "l")
	a := x.drawCt(c, "a", enc, names, l, s, 1e3)
	rk := x.rotSet(names...)
	t := a
	n := c.Int("hops", 2, 6)
	for i := 0; i < n; i++ {
		k := x.drawRot(c)
		u := x.mRot(t, k)
		u.ct = eval.RotateNew(t.ct, k, rk)
		t = u
	}
	c.Nontrivial(t.precise())
	x.verify(c, "rotations", t)
}

// ---------------------------------------------------------------- C05

func c05(c *C) {
	x := drawCkks(c, 1, 1)
	enc := x.encryptor(c)
	eval := mkckks.NewEvaluator(x.params)
	names := drawParties(c, "a", 0, 3)
	l, s := x.drawLevelScale(c, "l")
	a := x.drawCt(c, "a", enc, names, l, s, 1e6)
	ck := x.cjkSet(union(names, drawParties(c, "bystanders", 0, 1))...)
	t := x.mConj(a)
	t.ct = eval.ConjugateNew(a.ct, ck)
	im := 0.0
	for _, v := range a.val {
		im = math.Max(im, math.Abs(imag(v)))
	}
	c.Class("level<max=%v parties=%d", l < x.params.MaxLevel(), len(names))
	c.Nontrivial(t.precise() && im > 16*t.eps)
	x.verify(c, "conjugate", t)
	u := x.mConj(t)
	u.ct = eval.ConjugateNew(t.ct, ck)
	x.verify(c, "conjugate-twice", u)
	if len(names) > 0 {
		x.verify(c, "operand after conjugation", a)
	}
}

// ---------------------------------------------------------------- C06

// drawConst returns a constant of a supported type and its value.
func drawConst(c *C) (interface{}, complex128) {
	wide := func(label string) float64 {
		k := math.Ldexp(c.Float(label, 0.5, 1), c.Int(label+"log", -40, 90))
		if c.Bool(label + "neg") {
			k = -k
		}
		return k
	}
	switch c.Idx("ctype", 8) {
	case 7:
		switch c.Idx("wide", 5) {
		case 0:
			k := pick(c, "int64s", []int64{math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 1 << 62, 1<<53 + 1, -1<<53 - 1, 1 << 32, -1 << 31})
			return k, complex(float64(k), 0)
		case 1:
			k := pick(c, "uint64s", []uint64{math.MaxUint64, 1 << 63, 1<<63 - 1, 3 << 62, 1<<63 + 1<<20, 1<<53 + 1, 1 << 32})
			return k, complex(float64(k), 0)
		case 2:
			k := pick(c, "ints", []int{math.MaxInt64, math.MinInt64, 1<<61 + 1, 1 << 32, -1 << 31})
			return k, complex(float64(k), 0)
		case 3:
			k := wide("wf")
			return k, complex(k, 0)
		default:
			k := complex(wide("wre"), wide("wim"))
			return k, k
		}
	case 0:
		k := pick(c, "int", []int{0, 1, -1, 2, 3, -7, 100, -100000, 1 << 30})
		return k, complex(float64(k), 0)
	case 1:
		k := int64(c.Int("int64", -1<<40, 1<<40))
		return k, complex(float64(k), 0)
	case 2:
		k := uint64(c.Int("uint64", 0, 1<<40))
		return k, complex(float64(k), 0)
	case 3:
		k := float64(c.Int("fint", -1000, 1000))
		return k, complex(k, 0)
	case 4:
		k := c.Float("float", -100, 100)
		return k, complex(k, 0)
	case 5:
		k := complex(float64(c.Int("re", -50, 50)), float64(c.Int("im", -50, 50)))
		return k, k
	default:
		re, im := c.Float("re", -10, 10), c.Float("im", -10, 10)
		switch c.Idx("cz", 4) {
		case 0:
			re = 0
		case 1:
			im = 0
		}
		return complex(re, im), complex(re, im)
	}
}

func c06Const(c *C) {
	x := drawCkks(c, 1, 1)
	enc := x.encryptor(c)
	eval := mkckks.NewEvaluator(x.params)
	names := drawParties(c, "a", 0, 3)
	l, s := x.drawLevelScale(c, "l")
	k, kv := drawConst(c)
	kk := math.Abs(real(kv)) + math.Abs(imag(kv)) + 1
	a := x.drawCt(c, "a", enc, names, l, s, math.Min(1e6, math.Max(1e-3, x.cap(l, s)/8/kk)))
	if !x.fits(l, s, (maxAbs(a.val)+a.eps)*kk*2) {
		c.Discard("does not fit")
	}
	q := float64(x.params.Q()[l])
	rational := real(kv) != math.Trunc(real(kv)) || imag(kv) != math.Trunc(imag(kv))
	if rational && !x.fits(l, s*q, (maxAbs(a.val)+a.eps)*kk*2) {
		c.Discard("does not fit")
	}
	out := a.ct
	inPlace := c.Bool("inplace")
	if !inPlace {
		out = mkckks.NewCiphertext(x.params, a.ct.IDSet(), l, 1)
	}
	lv := l
	if !inPlace && l > 0 && c.OneIn("lowerOut", 4) { // receiver at a lower level
		lv = c.Idx("outlevel", l)
		out = mkckks.NewCiphertext(x.params, a.ct.IDSet(), lv, 1)
	}
	eval.MultByConst(a.ct, k, out)
	t := x.mConst(a, kv, out.Scale)
	t.ct, t.level = out, lv
	if !(out.Scale >= s*0.999999) {
		c.Fatalf("MultByConst: result scale %g for operand scale %g", out.Scale, s)
	}
	if !x.fits(lv, out.Scale, maxAbs(t.val)+t.eps) {
		c.Discard("does not fit at the receiver's level")
	}
	c.Class("%T rational=%v wide=%v", k, rational, kk > 1<<42)
	c.Nontrivial(t.precise())
	x.verify(c, fmt.Sprintf("const%T by %v", k, k), t)
	if !inPlace && len(names) > 0 {
		x.verify(c, "operand after constant", a)
	}
}

func c06Ptxt(c *C) {
	x := drawCkks(c, 1, 1)
	enc := x.encryptor(c)
	eval := mkckks.NewEvaluator(x.params)
	names := drawParties(c, "a", 0, 3)
	l, s := x.drawLevelScale(c, "l")
	ptLevel := l + c.Idx("ptup", x.params.MaxLevel()-l+1)
	var pt *ckks.Plaintext
	ps := x.defScale()
	useLib := c.Bool("lib")
	if useLib {
		ptLevel = x.params.MaxLevel()
	} else if c.Bool("ptscale") {
		ps = oddScale(math.Exp2(float64(c.Int("ptlog", 15, x.cfg.logScale+5))))
	}
	if x.cap(l, s*ps) < 4 {
		useLib = false
		ps = oddScale(math.Exp2(math.Floor(x.logQ(l) - math.Log2(s) - 8)))
		if ps < 1<<12 {
			c.Discard("no room")
		}
	}
	lim := math.Min(math.Min(x.cap(l, s)/4, x.cap(ptLevel, ps)/4), math.Sqrt(x.cap(l, s*ps))/2)
	lim = math.Min(lim, 1e6)
	a := x.drawCt(c, "a", enc, names, l, s, lim)
	again := c.OneIn("again", 3)
product:
	m := genMsg(c, "pt", x.slots(), lim)
	if useLib {
		pt = enc.EncodeMsgNew(x.message(c, m))
		if old, ok := earlier[*ckks.Plaintext](c, "plaintext"); ok {
			overwritePtxt(old, pt)
			pt = old
		} else {
			c.keep("plaintext", pt)
		}
	} else {
		pt = x.plaintext(c, m, ptLevel, ps, c.Bool("ntt"))
	}
	if pt.Level() != ptLevel || pt.Scale != ps {
		c.Fatalf("EncodeMsgNew: level %d scale %g", pt.Level(), pt.Scale)
	}
	t, ok := x.mMulPt(a, m, ps)
	if !ok {
		c.Discard("does not fit")
	}
	before := pt.Value.CopyNew()
	t.ct = eval.MulPtxtNew(a.ct, pt)
	if !before.Equals(pt.Value) || pt.Scale != ps {
		c.Fatalf("MulPtxtNew changed the plaintext")
	}
	c.Class("lib=%v consumed %d parties=%d", useLib, l-t.level, len(names))
	c.Nontrivial(t.precise())
	x.verify(c, "mulptxt", t)
	if len(names) > 0 {
		x.verify(c, "operand after plaintext product", a)
	}
	if again {
		again = false
		goto product
	}
}

// ---------------------------------------------------------------- C07

func c07Rescale(c *C) {
	x := drawCkks(c, 1, 2)
	enc := x.encryptor(c)
	eval := mkckks.NewEvaluator(x.params)
	names := drawParties(c, "a", 0, 3)
	L := x.params.MaxLevel()
	l := 1 + c.Idx("level", L)
	// a scale that leaves room for zero, one or several rescalings
	logS := c.Float("logscale", 20, math.Max(21, x.logQ(l)-8))
	s := oddScale(math.Exp2(logS))
	if !x.fits(l, s, 4) {
		c.Discard("no room")
	}
	a := x.drawCt(c, "a", enc, names, l, s, 16)
	minS := math.Exp2(c.Float("minlog", 5, 70))
	if c.Bool("default") {
		minS = x.defScale()
	}
	if q := x.params.Q()[l]; q < 1<<53 && c.OneIn("tie", 4) {
		// the quotient is exactly half of the wanted scale, which is just enough
		k := c.Int("tielog", 5, 30)
		s = math.Ldexp(float64(q), k)
		if !x.fits(l, s, 4) {
			c.Discard("no room")
		}
		minS = math.Ldexp(1, k+1)
		a = x.drawCt(c, "tied", enc, names, l, s, 16)
		c.Class("tie")
	} else if x.borderline(l, s, minS) {
		c.Discard("borderline")
	}
	t := x.mRescale(a, minS)
	n := l - t.level
	if n > 0 && t.level == 0 && !t.fits(x) || !t.fits(x) {
		c.Discard("no room after rescaling")
	}
	mode := c.Idx("mode", 3)
	var err error
	orig := a.ct.CopyNew()
	switch mode {
	case 0:
		t.ct, err = eval.RescaleNew(a.ct, minS)
	case 1:
		t.ct = a.ct
		err = eval.Rescale(a.ct, minS, t.ct)
	default:
		t.ct = mkckks.NewCiphertext(x.params, a.ct.IDSet(), l, 1)
		err = eval.Rescale(a.ct, minS, t.ct)
	}
	if err != nil {
		c.Fatalf("rescale of level %d scale 2^%.2f towards 2^%.2f: %v", l, logS, math.Log2(minS), err)
	}
	c.Class("mode %d consumed %d", mode, n)
	c.Nontrivial(t.precise())
	x.verify(c, "rescale", t)
	if mode != 1 {
		if msg := diffCt(orig, a.ct); msg != "" {
			c.Fatalf("rescale changed its operand: %s", msg)
		}
	}
}

func c07Refuse(c *C) {
	x := drawCkks(c, 1, 1)
	enc := x.encryptor(c)
	eval := mkckks.NewEvaluator(x.params)
	names := drawParties(c, "a", 0, 2)
	l := c.Idx("level", x.params.MaxLevel()+1)
	a := x.drawCt(c, "a", enc, names, l, math.Exp2(20), 16)
	minS := x.defScale()
	switch c.Idx("why", 3) {
	case 0:
		minS = pick(c, "min", []float64{0, -1, math.Inf(-1), -1e300})
	case 1:
		a.ct.Scale = 0
	case 2:
		if l > 0 {
			eval.DropLevel(a.ct, l)
		}
		minS = math.Exp2(c.Float("minlog", -10, 30))
	}
	before := a.ct.CopyNew()
	var err error
	if c.Bool("new") {
		_, err = eval.RescaleNew(a.ct, minS)
	} else {
		err = eval.Rescale(a.ct, minS, a.ct)
	}
	if err == nil {
		c.Fatalf("rescale of level %d scale %g towards %g did not return an error", before.Level(), before.Scale, minS)
	}
	if msg := diffCt(before, a.ct); msg != "" {
		c.Fatalf("refused rescale changed the ciphertext: %s", msg)
	}
	c.Nontrivial(maxAbs(a.val) > 0 || len(names) > 0)
}

func c07Drop(c *C) {
	x := drawCkks(c, 1, 2)
	enc := x.encryptor(c)
	eval := mkckks.NewEvaluator(x.params)
	names := drawParties(c, "a", 0, 3)
	L := x.params.MaxLevel()
	l := 1 + c.Idx("level", L)
	n := c.Idx("drop", l+1)
	s := oddScale(math.Min(x.defScale(), math.Exp2(x.logQ(l-n)-10)))
	a := x.drawCt(c, "a", enc, names, l, s, math.Min(1e6, x.cap(l-n, s)/8))
	if !x.fits(l-n, s, maxAbs(a.val)+a.eps) {
		c.Discard("no room")
	}
	t := x.mDrop(a, n)
	if c.Bool("new") {
		before := a.ct.CopyNew()
		t.ct = eval.DropLevelNew(a.ct, n)
		if msg := diffCt(before, a.ct); msg != "" {
			c.Fatalf("DropLevelNew changed its operand: %s", msg)
		}
	} else {
		t.ct = a.ct
		eval.DropLevel(t.ct, n)
	}
	c.Class("dropped %d", n)
	c.Nontrivial(t.precise())
	x.verify(c, "drop", t)
}

// diffCt describes the first difference between two ciphertexts ("" if bitwise equal).
func diffCt(a, b *mkckks.Ciphertext) string {
	if a.Scale != b.Scale {
		return fmt.Sprintf("scale %g -> %g", a.Scale, b.Scale)
	}
	return diffGen(a.Ciphertext, b.Ciphertext)
}

func diffGen(a, b *mkrlwe.Ciphertext) string {
	if !sameSet(idsOf(a.IDSet()), idsOf(b.IDSet())) {
		return fmt.Sprintf("parties %q -> %q", idsOf(a.IDSet()), idsOf(b.IDSet()))
	}
	for id, p := range a.Value {
		q := b.Value[id]
		if q == nil {
			return fmt.Sprintf("component %q is gone", id)
		}
		if p.IsNTT != q.IsNTT {
			return fmt.Sprintf("component %q: representation flag changed", id)
		}
		if len(p.Coeffs) != len(q.Coeffs) {
			return fmt.Sprintf("component %q: %d -> %d rows", id, len(p.Coeffs), len(q.Coeffs))
		}
		for i := range p.Coeffs {
			for j := range p.Coeffs[i] {
				if p.Coeffs[i][j] != q.Coeffs[i][j] {
					return fmt.Sprintf("component %q row %d coefficient %d: %d -> %d", id, i, j, p.Coeffs[i][j], q.Coeffs[i][j])
				}
			}
		}
	}
	return ""
}
