package main

import (
	"fmt"
	"math/bits"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"
)

var bfvAssume = []string{
	"the ring arithmetic, samplers and BFV encoder of the pinned lattigo v2.3.0 dependency are correct",
	"only operations whose predicted noise stays a factor of two below the decryption limit are generated",
	"parameter sets have as many primes in Q as a multiple of half the number of special primes, and special primes larger than the ciphertext primes",
}

func init() {
	nt := "a case is non-trivial if the expected message is not constant"
	register(&Check{ID: "B01", Assumptions: bfvAssume, Rule: nt,
		Subs: []Sub{
			{Name: "msg", Prop: b01, Quick: 40000, Thorough: 600000},
			{Name: "ptxt", Prop: b01Ptxt, Quick: 12000, Thorough: 200000},
			{Name: "large", Prop: b01Large, Quick: 28, Thorough: 400},
			{Name: "rekeyed", Prop: func(c *C) { rekeyBfv(c, []string{"msg", "msgto", "ptxt"}) }, Quick: 3500},
		}})
	register(&Check{ID: "B02", Assumptions: bfvAssume, Rule: nt + " and both operands are non-zero",
		Subs: []Sub{
			{Name: "addsub", Prop: b02, Quick: 30000, Thorough: 600000},
			{Name: "many", Prop: b02Many, Quick: 2100},
			{Name: "city", Prop: func(c *C) { cityBfvOp(c, []string{"add", "sub"}) }, Quick: 700},
		}})
	register(&Check{ID: "B03", Assumptions: bfvAssume, Rule: nt + " and both operands are non-zero",
		Subs: []Sub{
			{Name: "mul", Prop: b03, Quick: 20000, Thorough: 300000},
			{Name: "depth", Prop: b03Depth, Quick: 4000, Thorough: 60000},
			{Name: "large", Prop: b03Large, Quick: 14, Thorough: 200},
			{Name: "city", Prop: func(c *C) { cityBfvOp(c, []string{"mul"}) }, Quick: 700},
			{Name: "rekeyed", Prop: func(c *C) { rekeyBfv(c, []string{"mul", "square"}) }, Quick: 2800},
		}})
	register(&Check{ID: "B04", Assumptions: bfvAssume, Rule: nt + " and differs from the operand's message",
		Subs: []Sub{
			{Name: "rot", Prop: b04Rot, Quick: 15000, Thorough: 300000},
			{Name: "conj", Prop: b04Conj, Quick: 12000, Thorough: 250000},
			{Name: "large", Prop: b04Large, Quick: 10, Thorough: 200},
			{Name: "city", Prop: func(c *C) { cityBfvOp(c, []string{"rot", "conj"}) }, Quick: 700},
			{Name: "rekeyed", Prop: func(c *C) { rekeyBfv(c, []string{"rot", "conj"}) }, Quick: 2800},
			{Name: "interop", Prop: k04InteropBfv, Quick: 1400},
		}})
	register(&Check{ID: "B05", Assumptions: bfvAssume,
		Rule: "a history is non-trivial if at least three homomorphic operations of two kinds were applied, some of them to results of earlier ones, and some result is not constant",
		Subs: []Sub{
			{Name: "circuit", Prop: b05, Quick: 18000, Thorough: 200000},
			{Name: "long", Prop: b05Long, Quick: 600, Thorough: 8000},
			{Name: "large", Prop: b05Large, Quick: 21, Thorough: 150},
			{Name: "rekeyed", Prop: func(c *C) { rekeyBfv(c, []string{"msg", "ptxt", "mul", "square", "rot", "conj", "dec"}) }, Quick: 2800},
		}})
}

func drawBfv(c *C, variants int) *bfvCtx {
	if useFamily(c) {
		return getBfv(c, genBfv(drawFamily(c)), c.Idx("variant", variants))
	}
	list := bfvSmall
	if c.Idx("mid", 60) == 59 {
		list = bfvMid
	}
	return getBfv(c, pick(c, "cfg", list), c.Idx("variant", variants))
}

func varied(v []int64) bool {
	for i := range v {
		if v[i] != v[0] {
			return true
		}
	}
	return false
}

func nonzero(v []int64) bool {
	for i := range v {
		if v[i] != 0 {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- B01

func b01(c *C)      { b01On(c, drawBfv(c, 1)) }
func b01Large(c *C) { b01On(c, getBfv(c, pick(c, "cfg", bfvLarge), 0)) }

func b01On(c *C, x *bfvCtx) {
	enc := x.encryptor(c)
	name := pick(c, "party", partyPool)
	others := drawParties(c, "others", 0, 3)
	n := 1
	if c.OneIn("several", 4) {
		n = 3
	}
	for i := 0; i < n; i++ {
		v := x.genMsg(c, "m")
		msg := x.message(c, v)
		if c.OneIn("short", 8) {
			k := c.Idx("len", len(v)+1)
			msg.Value = msg.Value[:k]
			for j := k; j < len(v); j++ {
				v[j] = 0
			}
		}
		t := &bct{val: make([]int64, len(v)), ids: []string{name}, noise: x.nFresh() + 2}
		for j := range v {
			t.val[j] = x.cent(v[j])
		}
		pk := x.party(name).pk
		if c.Bool("into") {
			t.ct = mkbfv.NewCiphertext(x.params, idset(name))
			if c.Bool("dirty") {
				enc.EncryptMsg(msg, pk, t.ct)
			}
			enc.EncryptMsg(msg, pk, t.ct)
		} else {
			t.ct = enc.EncryptMsgNew(msg, pk)
		}
		c.Class("cfg %s", x.cfg.name)
		c.Nontrivial(varied(t.val))
		x.verifyWith(c, "fresh", t, mkbfv.NewDecryptor(x.params), x.skSet(append(others, name)...))
	}
}

func b01Ptxt(c *C) {
	x := drawBfv(c, 1)
	enc := x.encryptor(c)
	name := pick(c, "party", partyPool)
	v := x.genMsg(c, "m")
	pt := newBfvPlaintext(x, v)
	before := pt.Value.CopyNew()
	t := &bct{val: make([]int64, len(v)), ids: []string{name}, noise: x.nFresh() + 2}
	for j := range v {
		t.val[j] = x.cent(v[j])
	}
	t.ct = mkbfv.NewCiphertext(x.params, idset(name))
	enc.EncryptPtxt(pt, x.party(name).pk, t.ct)
	if !before.Equals(pt.Value) {
		c.Fatalf("EncryptPtxt changed the plaintext")
	}
	c.Nontrivial(varied(t.val))
	x.verify(c, "freshptxt", t)
}

// ---------------------------------------------------------------- B02

func (x *bfvCtx) drawCt(c *C, label string, enc *mkbfv.Encryptor, names []string) *bct {
	return x.fresh(c, enc, x.genMsg(c, label+".msg"), names, c.Seed(label+".share"))
}

func (x *bfvCtx) mAdd(a, b *bct, sgn int64) *bct {
	t := &bct{val: make([]int64, len(a.val)), ids: union(a.ids, b.ids), noise: x.nAdd(a, b)}
	for i := range t.val {
		t.val[i] = x.cent(a.val[i] + sgn*b.val[i])
	}
	return t
}

func (x *bfvCtx) mMul(a, b *bct) *bct {
	t := &bct{val: make([]int64, len(a.val)), ids: union(a.ids, b.ids), noise: x.nMul(a, b)}
	for i := range t.val {
		t.val[i] = x.mulT(a.val[i], b.val[i])
	}
	return t
}

func (x *bfvCtx) mRot(a *bct, k int) *bct {
	t := &bct{ids: a.ids, noise: a.noise}
	n2 := x.n2
	kk := ((k % n2) + n2) % n2
	t.val = append(rotl64(a.val[:n2], kk), rotl64(a.val[n2:], kk)...)
	if kk != 0 {
		t.noise += float64(bits.OnesCount(uint(kk))) * x.nKs(len(a.ids))
	}
	return t
}

func (x *bfvCtx) mConj(a *bct) *bct {
	n2 := x.n2
	return &bct{ids: a.ids, noise: a.noise + x.nKs(len(a.ids)), val: append(append([]int64(nil), a.val[n2:]...), a.val[:n2]...)}
}

func rotl64(v []int64, k int) []int64 {
	return append(append([]int64(nil), v[k:]...), v[:k]...)
}

func b02(c *C) {
	x := drawBfv(c, 1)
	enc := x.encryptor(c)
	eval := mkbfv.NewEvaluator(x.params)
	na := drawParties(c, "a", 0, 3)
	nb := drawSecond(c, na)
	a := x.drawCt(c, "a", enc, na)
	b := x.drawCt(c, "b", enc, nb)
	same := c.OneIn("same", 8)
	if same {
		b = a
	}
	op := "add"
	var t *bct
	if c.Bool("sub") {
		op = "sub"
		t = x.mAdd(a, b, -1)
		t.ct = eval.SubNew(a.ct, b.ct)
	} else {
		t = x.mAdd(a, b, 1)
		t.ct = eval.AddNew(a.ct, b.ct)
	}
	c.Class("cfg %s", x.cfg.name)
	c.Nontrivial(varied(t.val) && nonzero(a.val) && nonzero(b.val))
	x.verify(c, op, t)
	x.verify(c, "operand after addition", a)
	x.verify(c, "operand after addition", b)
	if c.OneIn("onwards", 3) { // the result is worked with further; nothing involved may change
		for _, o := range []*bct{a, b} {
			u := x.mAdd(t, o, -1)
			if c.Bool("swap") {
				u = x.mAdd(o, t, -1)
				u.ct = eval.SubNew(o.ct, t.ct)
			} else {
				u.ct = eval.SubNew(t.ct, o.ct)
			}
			x.verify(c, "difference with the result", u)
		}
		x.verify(c, "result after further work", t)
		x.verify(c, "operand after further work", a)
		x.verify(c, "operand after further work", b)
	}
}

// ---------------------------------------------------------------- B03

func b03(c *C)      { b03On(c, drawBfv(c, 1), 3) }
func b03Large(c *C) { b03On(c, getBfv(c, pick(c, "cfg", bfvLarge[:2]), 0), 2) }

func b03On(c *C, x *bfvCtx, maxParties int) {
	enc := x.encryptor(c)
	eval := mkbfv.NewEvaluator(x.params)
	na := drawParties(c, "a", 0, maxParties)
	nb := drawSecond(c, na)
	a := x.drawCt(c, "a", enc, na)
	b := x.drawCt(c, "b", enc, nb)
	switch c.Idx("eq", 6) {
	case 4:
		b = a
		c.Class("square of one object")
	case 5:
		b = &bct{ct: a.ct.CopyNew(), val: a.val, noise: a.noise, ids: a.ids}
		c.Class("square of equal copies")
	}
	t := x.mMul(a, b)
	if !x.fits(t.noise) {
		c.Discard("no noise budget")
	}
	rlks := x.rlkSet(union(a.ids, b.ids, drawParties(c, "bystanders", 0, 1))...)
	if c.OneIn("warm", 3) {
		eval.MulRelinNew(b.ct, a.ct, rlks)
	}
	t.ct = eval.MulRelinNew(a.ct, b.ct, rlks)
	c.Class("parties %dx%d=%d", len(a.ids), len(b.ids), len(t.ids))
	c.Class("cfg %s", x.cfg.name)
	c.Nontrivial(varied(t.val) && nonzero(a.val) && nonzero(b.val))
	x.verify(c, "mul", t)
	if c.OneIn("operands", 3) {
		x.verify(c, "operand after multiplication", a)
		x.verify(c, "operand after multiplication", b)
	}
}

// b03Depth multiplies as long as the noise budget allows.
func b03Depth(c *C) {
	x := drawBfv(c, 1)
	if x.params.N() > 256 {
		c.Discard("small rings only")
	}
	enc := x.encryptor(c)
	eval := mkbfv.NewEvaluator(x.params)
	na := drawParties(c, "a", 1, 2)
	rlks := x.rlkSet()
	t := x.drawCt(c, "a", enc, na)
	depth := 0
	for depth < 8 {
		var b *bct
		switch c.Idx("with", 3) {
		case 0:
			b = t
		case 1:
			b = x.drawCt(c, "b", enc, na)
		default:
			b = x.drawCt(c, "b", enc, drawSecond(c, na))
		}
		if len(union(t.ids, b.ids)) > 4 {
			break
		}
		l, r := t, b
		if c.Bool("swap") {
			l, r = b, t
		}
		u := x.mMul(l, r)
		if !x.fits(u.noise) {
			break
		}
		for _, n := range u.ids {
			rlks.AddRelinearizationKey(x.rlk(n))
		}
		u.ct = eval.MulRelinNew(l.ct, r.ct, rlks)
		depth++
		x.verify(c, fmt.Sprintf("product at depth %d", depth), u)
		t = u
	}
	c.Class("depth %d", depth)
	c.Nontrivial(depth >= 2 && varied(t.val))
}

// ---------------------------------------------------------------- B04

func (x *bfvCtx) drawRot(c *C) int {
	n2 := x.n2
	switch c.Idx("rotkind", 6) {
	case 0:
		return pick(c, "rot", []int{0, 1, -1, n2, -n2, n2 - 1, n2 / 2, n2 + 1, 2 * n2, 3*n2 + 2})
	case 1:
		return 1 << c.Idx("rotlog", x.params.LogN()-1)
	case 2:
		if len(x.extra) > 0 {
			return pick(c, "rotx", x.extra) + n2*(c.Idx("rotwrap", 3)-1)
		}
		fallthrough
	case 3:
		return c.Int("rot", 0, n2-1)
	case 4:
		return -c.Int("rot", 0, 3*n2)
	default:
		return c.Int("rot", 0, 5*n2)
	}
}

func b04Rot(c *C)   { b04On(c, drawBfv(c, 2), 3) }
func b04Large(c *C) { b04On(c, getBfv(c, pick(c, "cfg", bfvLarge[:1]), 0), 2) }

func b04On(c *C, x *bfvCtx, maxParties int) {
	enc := x.encryptor(c)
	eval := mkbfv.NewEvaluator(x.params)
	names := drawParties(c, "a", 0, maxParties)
	a := x.drawCt(c, "a", enc, names)
	t := a
	n := 1
	if c.OneIn("chain", 4) {
		n = 3
	}
	rk := x.rotSet(union(names, drawParties(c, "bystanders", 0, 1))...)
	for i := 0; i < n; i++ {
		k := x.drawRot(c)
		u := x.mRot(t, k)
		if !x.fits(u.noise) {
			c.Discard("no noise budget")
		}
		u.ct = eval.RotateNew(t.ct, k, rk)
		x.verify(c, "rotate", u)
		t = u
	}
	c.Class("parties=%d cfg %s", len(names), x.cfg.name)
	c.Nontrivial(varied(t.val) && fmt.Sprint(t.val) != fmt.Sprint(a.val))
	x.verify(c, "operand after rotation", a)
}

func b04Conj(c *C) {
	x := drawBfv(c, 1)
	enc := x.encryptor(c)
	eval := mkbfv.NewEvaluator(x.params)
	names := drawParties(c, "a", 0, 3)
	a := x.drawCt(c, "a", enc, names)
	ck := x.cjkSet(union(names, drawParties(c, "bystanders", 0, 1))...)
	t := x.mConj(a)
	if !x.fits(t.noise) {
		c.Discard("no noise budget")
	}
	t.ct = eval.ConjugateNew(a.ct, ck)
	x.verify(c, "conjugate", t)
	u := x.mConj(t)
	if x.fits(u.noise) {
		u.ct = eval.ConjugateNew(t.ct, ck)
		x.verify(c, "conjugate-twice", u)
	}
	c.Class("parties=%d cfg %s", len(names), x.cfg.name)
	c.Nontrivial(varied(t.val) && fmt.Sprint(t.val) != fmt.Sprint(a.val))
	x.verify(c, "operand after conjugation", a)
}

// ---------------------------------------------------------------- B05

type bfvWorld struct {
	x      *bfvCtx
	enc    *mkbfv.Encryptor
	eval   *mkbfv.Evaluator
	dec    *mkbfv.Decryptor
	sks    *mkrlwe.SecretKeySet
	rlks   *mkbfv.RelinearizationKeySet
	rks    *mkrlwe.RotationKeySet
	cks    *mkrlwe.ConjugationKeySet
	joined map[string]bool
	cts    []*bct
	depth  map[*bct]int
	kinds  map[string]bool
	ops    int
	chain  bool
	good   bool
	names  []string
}

func (w *bfvWorld) join(n string) {
	w.sks.AddSecretKey(w.x.party(n).sk)
	w.rlks.AddRelinearizationKey(w.x.rlk(n))
	w.cks.AddConjugationKey(w.x.cjk(n))
	for _, k := range w.x.rots() {
		w.rks.AddRotationKey(w.x.rotKey(n, k))
	}
	w.joined[n] = true
}

func (w *bfvWorld) leave(n string) {
	w.sks.DelSecretKey(n)
	w.rlks.DelRelinearizationKey(n)
	w.cks.DelConjugationKey(n)
	for _, k := range w.x.rots() {
		w.rks.DelRotationKey(n, uint(k))
	}
	delete(w.joined, n)
}

func (w *bfvWorld) present() []string {
	var r []string
	for _, n := range w.names {
		if w.joined[n] {
			r = append(r, n)
		}
	}
	return r
}

func (w *bfvWorld) usable() []*bct {
	var r []*bct
	for _, t := range w.cts {
		ok := true
		for _, n := range t.ids {
			ok = ok && w.joined[n]
		}
		if ok {
			r = append(r, t)
		}
	}
	return r
}

func (w *bfvWorld) check(c *C, what string, t *bct) {
	for _, n := range t.ids {
		if !w.joined[n] {
			w.x.verify(c, what, t)
			return
		}
	}
	w.x.verifyWith(c, what, t, w.dec, w.sks)
}

func (w *bfvWorld) put(c *C, kind string, t *bct, from ...*bct) {
	for _, f := range from {
		w.depth[t] = max(w.depth[t], w.depth[f]+1)
	}
	if len(from) > 0 {
		w.kinds[kind] = true
		w.ops++
		c.Class("op %s", kind)
		w.chain = w.chain || w.depth[t] > 1
		w.good = w.good || varied(t.val)
	}
	w.check(c, fmt.Sprintf("%s (step %d, depth %d)", kind, w.ops, w.depth[t]), t)
	if len(w.cts) < 7 {
		w.cts = append(w.cts, t)
	} else {
		w.cts[c.Idx("evict", len(w.cts))] = t
	}
}

var b05Ops = []string{"encmsg", "encmsg", "enc", "enc", "add", "add", "sub", "sub", "mul", "mul", "mul", "rot", "rot", "conj", "join", "leave", "look", "lookold"}

func (w *bfvWorld) step(c *C) {
	x := w.x
	op := b05Ops[c.Idx("op", len(b05Ops))]
	us := w.usable()
	if len(us) == 0 && op != "join" && op != "enc" {
		op = "encmsg"
	}
	arg := func(l string) *bct { return us[c.Idx(l, len(us))] }
	c.Note("%s", op)
	switch op {
	case "join":
		w.join(w.names[c.Idx("who", len(w.names))])
	case "leave":
		if p := w.present(); len(p) > 1 {
			w.leave(p[c.Idx("who", len(p))])
		}
	case "look":
		w.check(c, "look at result", arg("t"))
	case "lookold":
		w.check(c, "look at result", w.cts[c.Idx("t", len(w.cts))])
	case "encmsg":
		p := w.present()
		if len(p) == 0 {
			return
		}
		n := p[c.Idx("who", len(p))]
		msg := x.message(c, x.genMsg(c, "m"))
		t := &bct{ct: w.enc.EncryptMsgNew(msg, x.party(n).pk), val: make([]int64, len(msg.Value)), noise: x.nFresh() + 2, ids: []string{n}}
		for i := range t.val {
			t.val[i] = x.cent(msg.Value[i])
		}
		w.put(c, "encmsg", t)
	case "enc":
		var who []string
		for _, n := range w.present() {
			if c.Bool("in") {
				who = append(who, n)
			}
		}
		w.put(c, "enc", x.drawCt(c, "m", w.enc, who))
	case "add", "sub":
		a, b := arg("a"), arg("b")
		sgn := int64(1)
		if op == "sub" {
			sgn = -1
		}
		t := x.mAdd(a, b, sgn)
		if !x.fits(t.noise) {
			return
		}
		if op == "add" {
			t.ct = w.eval.AddNew(a.ct, b.ct)
		} else {
			t.ct = w.eval.SubNew(a.ct, b.ct)
		}
		w.put(c, op, t, a, b)
	case "mul":
		a, b := arg("a"), arg("b")
		t := x.mMul(a, b)
		if !x.fits(t.noise) {
			return
		}
		t.ct = w.eval.MulRelinNew(a.ct, b.ct, w.rlks)
		w.put(c, op, t, a, b)
	case "rot":
		a := arg("a")
		k := x.drawRot(c)
		t := x.mRot(a, k)
		if !x.fits(t.noise) {
			return
		}
		t.ct = w.eval.RotateNew(a.ct, k, w.rks)
		w.put(c, op, t, a)
	case "conj":
		a := arg("a")
		t := x.mConj(a)
		if !x.fits(t.noise) {
			return
		}
		t.ct = w.eval.ConjugateNew(a.ct, w.cks)
		w.put(c, op, t, a)
	}
}

func b05Run(c *C, x *bfvCtx, names []string, n int) {
	w := &bfvWorld{x: x, enc: x.encryptor(c), eval: mkbfv.NewEvaluator(x.params), dec: mkbfv.NewDecryptor(x.params),
		sks: mkrlwe.NewSecretKeySet(), rlks: mkbfv.NewRelinearizationKeyKeySet(x.params),
		rks: mkrlwe.NewRotationKeySet(), cks: mkrlwe.NewConjugationKeySet(), joined: map[string]bool{},
		depth: map[*bct]int{}, kinds: map[string]bool{}, names: names}
	for i, p := range names {
		if i == 0 || c.Bool("start") {
			w.join(p)
		}
	}
	for i := 0; i < n; i++ {
		w.step(c)
	}
	for _, t := range w.cts {
		w.check(c, "live result at the end", t)
	}
	c.Class("cfg %s", x.cfg.name)
	c.Nontrivial(w.ops >= 3 && len(w.kinds) >= 2 && w.chain && w.good)
}

func b05(c *C) {
	x := drawBfv(c, 2)
	if x.params.N() > 128 {
		c.Discard("small rings only")
	}
	b05Run(c, x, drawParties(c, "parties", 1, 4), c.Int("steps", 4, 14))
}

func b05Long(c *C) {
	cfg := pick(c, "cfg", []bfvCfg{bfvSmall[1], bfvSmall[4], bfvSmall[5], bfvMid[0]})
	b05Run(c, getBfv(c, cfg, c.Idx("variant", 2)), drawParties(c, "parties", 2, 6), c.Int("steps", 20, 60))
}

func b05Large(c *C) {
	b05Run(c, getBfv(c, bfvLarge[0], 0), drawParties(c, "parties", 2, 3), c.Int("steps", 8, 12))
}
