package main

import (
	"fmt"
	"math"

	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
)

func init() {
	register(&Check{ID: "C08", Assumptions: ckksAssume,
		Rule: "a history is non-trivial if at least three homomorphic operations of two kinds were applied, some of them to results of earlier ones, and at least one result is known to within 1/16 of its magnitude",
		Subs: []Sub{
			{Name: "circuit", Prop: c08, Quick: 32000, Thorough: 250000},
			{Name: "long", Prop: c08Long, Quick: 1200, Thorough: 10000},
			{Name: "large", Prop: c08Large, Quick: 21, Thorough: 150},
			{Name: "rekeyed", Prop: func(c *C) {
				rekeyCkks(c, []string{"msg", "ptxt", "mul", "hmul", "square", "rot", "hrot", "conj", "dec"})
			}, Quick: 3500},
		}})
}

// ckksWorld is one set of long-lived objects and the ciphertexts made so far.
type ckksWorld struct {
	x      *ckksCtx
	enc    *mkckks.Encryptor
	eval   *mkckks.Evaluator
	dec    *mkckks.Decryptor
	sks    *mkrlwe.SecretKeySet
	rlks   *mkrlwe.RelinearizationKeySet
	rks    *mkrlwe.RotationKeySet
	cks    *mkrlwe.ConjugationKeySet
	joined map[string]bool
	cts    []*tct
	depth  map[*tct]int
	rots   []int // amounts for which keys are handed out
	kinds  map[string]bool
	ops    int
	chain  bool
	good   bool
	names  []string
}

func newWorld(c *C, x *ckksCtx, names []string) *ckksWorld {
	w := &ckksWorld{x: x, enc: x.encryptor(c), eval: mkckks.NewEvaluator(x.params), dec: mkckks.NewDecryptor(x.params),
		sks: mkrlwe.NewSecretKeySet(), rlks: mkrlwe.NewRelinearizationKeyKeySet(x.params.Parameters),
		rks: mkrlwe.NewRotationKeySet(), cks: mkrlwe.NewConjugationKeySet(), joined: map[string]bool{},
		depth: map[*tct]int{}, kinds: map[string]bool{}, names: names}
	for k := 1; k < x.params.N()/2; k *= 2 {
		w.rots = append(w.rots, k)
	}
	w.rots = append(w.rots, x.extra...)
	return w
}

func (w *ckksWorld) join(n string) {
	w.sks.AddSecretKey(w.x.party(n).sk)
	w.rlks.AddRelinearizationKey(w.x.rlk(n))
	w.cks.AddConjugationKey(w.x.cjk(n))
	for _, k := range w.rots {
		w.rks.AddRotationKey(w.x.rotKey(n, k))
	}
	w.joined[n] = true
}

func (w *ckksWorld) leave(n string) {
	w.sks.DelSecretKey(n)
	w.rlks.DelRelinearizationKey(n)
	w.cks.DelConjugationKey(n)
	for _, k := range w.rots {
		w.rks.DelRotationKey(n, uint(k))
	}
	delete(w.joined, n)
}

func (w *ckksWorld) present() []string {
	var r []string
	for _, n := range w.names {
		if w.joined[n] {
			r = append(r, n)
		}
	}
	return r
}

func (w *ckksWorld) usable() []*tct {
	var r []*tct
	for _, t := range w.cts {
		ok := true
		for _, n := range t.ids {
			ok = ok && w.joined[n]
		}
		if ok {
			r = append(r, t)
		}
	}
	return r
}

func (w *ckksWorld) put(c *C, kind string, t *tct, from ...*tct) {
	for _, f := range from {
		w.depth[t] = max(w.depth[t], w.depth[f]+1)
	}
	if len(from) > 0 {
		w.kinds[kind] = true
		w.ops++
		c.Class("op %s", kind)
		if w.depth[t] > 1 {
			w.chain = true
		}
		if t.precise() {
			w.good = true
		}
	}
	w.check(c, fmt.Sprintf("%s (step %d, depth %d)", kind, w.ops, w.depth[t]), t)
	// keep the pool bounded and informative
	if !t.precise() && maxAbs(t.val) > 0 {
		return
	}
	if len(w.cts) < 7 {
		w.cts = append(w.cts, t)
	} else {
		w.cts[c.Idx("evict", len(w.cts))] = t
	}
}

// check decrypts with the long-lived decryptor, or with a new one where a party has left.
func (w *ckksWorld) check(c *C, what string, t *tct) {
	for _, n := range t.ids {
		if !w.joined[n] {
			w.x.verify(c, what, t)
			return
		}
	}
	w.x.verifyWith(c, what, t, w.dec, w.sks)
}

var c08Ops = []string{"encmsg", "encmsg", "enc", "enc", "add", "add", "sub", "sub", "mul", "mul", "mul", "hmul", "ptxt", "const", "rot", "rot",
	"hrot", "conj", "rescale", "drop", "join", "leave", "look", "lookold"}

func (w *ckksWorld) step(c *C) {
	x := w.x
	L := x.params.MaxLevel()
	op := c08Ops[c.Idx("op", len(c08Ops))]
	us := w.usable()
	if len(us) == 0 && op != "join" && op != "enc" {
		op = "encmsg"
	}
	arg := func(l string) *tct { return us[c.Idx(l, len(us))] }
	c.Note("%s", op)
	switch op {
	case "join":
		w.join(w.names[c.Idx("who", len(w.names))])
		return
	case "leave":
		if p := w.present(); len(p) > 1 {
			w.leave(p[c.Idx("who", len(p))])
		}
		return
	case "look":
		t := arg("t")
		w.check(c, "look at result", t)
		return
	case "lookold":
		t := w.cts[c.Idx("t", len(w.cts))]
		w.check(c, "look at result", t)
		return
	case "encmsg":
		p := w.present()
		if len(p) == 0 || x.cap(L, x.defScale()) < 16 {
			return
		}
		n := p[c.Idx("who", len(p))]
		msg := x.message(c, genMsg(c, "m", x.slots(), 8))
		t := &tct{ct: w.enc.EncryptMsgNew(msg, x.party(n).pk), val: clone(msg.Value), scale: x.defScale(), level: L, ids: []string{n}}
		t.eps = x.noise().fresh()/t.scale + x.flt(maxAbs(t.val))
		w.put(c, "encmsg", t)
		return
	case "enc":
		var who []string
		for _, n := range w.present() {
			if c.Bool("in") {
				who = append(who, n)
			}
		}
		l, s := x.drawLevelScale(c, "at")
		w.put(c, "enc", x.drawCt(c, "m", w.enc, who, l, s, 8))
		return
	case "add", "sub":
		a, b := arg("a"), arg("b")
		if !x.alignable(a, b) {
			return
		}
		if op == "add" {
			t := x.mAdd(a, b, 1)
			t.ct = w.eval.AddNew(a.ct, b.ct)
			w.put(c, op, t, a, b)
		} else {
			t := x.mAdd(a, b, -1)
			t.ct = w.eval.SubNew(a.ct, b.ct)
			w.put(c, op, t, a, b)
		}
	case "mul", "hmul":
		a, b := arg("a"), arg("b")
		t, ok := x.mMul(a, b)
		if !ok {
			return
		}
		if op == "mul" {
			t.ct = w.eval.MulRelinNew(a.ct, b.ct, w.rlks)
		} else {
			var ha, hb *mkrlwe.HoistedCiphertext
			if c.Bool("ha") {
				ha = w.eval.HoistedForm(a.ct)
			}
			if c.Bool("hb") {
				hb = w.eval.HoistedForm(b.ct)
			}
			t.ct = w.eval.MulRelinHoistedNew(a.ct, b.ct, ha, hb, w.rlks)
		}
		w.put(c, op, t, a, b)
	case "ptxt":
		a := arg("a")
		m := genMsg(c, "pt", x.slots(), 4)
		ps := x.defScale()
		own := c.OneIn("ptscale", 3)
		if own {
			ps = oddScale(math.Exp2(float64(c.Int("ptlog", 15, x.cfg.logScale+4))))
		}
		t, ok := x.mMulPt(a, m, ps)
		if !ok {
			return
		}
		var pt *ckks.Plaintext
		if own || c.Bool("own") {
			pt = x.plaintext(c, m, a.level+c.Idx("ptup", L-a.level+1), ps, c.Bool("ptntt"))
		} else {
			pt = w.enc.EncodeMsgNew(x.message(c, m))
		}
		t.ct = w.eval.MulPtxtNew(a.ct, pt)
		w.put(c, op, t, a)
	case "const":
		a := arg("a")
		k, kv := drawConst(c)
		kk := math.Abs(real(kv)) + math.Abs(imag(kv)) + 1
		s := a.scale
		if real(kv) != math.Trunc(real(kv)) || imag(kv) != math.Trunc(imag(kv)) {
			s *= float64(x.params.Q()[a.level])
		}
		if !x.fits(a.level, s, (maxAbs(a.val)+a.eps)*kk*2) {
			return
		}
		out := a.ct
		if c.Bool("inplace") {
			a.ct = a.ct.CopyNew()
		} else {
			out = mkckks.NewCiphertext(x.params, a.ct.IDSet(), a.level, 1)
		}
		w.eval.MultByConst(a.ct, k, out)
		if math.Abs(out.Scale/s-1) > 1e-9 {
			c.Fatalf("MultByConst by %v gives scale %g, want %g", k, out.Scale, s)
		}
		t := x.mConst(a, kv, out.Scale)
		t.ct = out
		w.put(c, op, t, a)
		// out may be the old a.ct object
		w.check(c, "operand of const", a)
	case "rot", "hrot":
		a := arg("a")
		k := x.drawRot(c)
		if op == "hrot" {
			k = w.rots[c.Idx("ramt", len(w.rots))]
		}
		t := x.mRot(a, k)
		if op == "rot" {
			t.ct = w.eval.RotateNew(a.ct, k, w.rks)
		} else {
			// one dedicated key
			t.eps = a.eps + x.noise().ks(a.level, len(a.ids))/a.scale
			t.ct = w.eval.RotateHoistedNew(a.ct, k, w.eval.HoistedForm(a.ct), w.rks)
		}
		w.put(c, op, t, a)
	case "conj":
		a := arg("a")
		t := x.mConj(a)
		t.ct = w.eval.ConjugateNew(a.ct, w.cks)
		w.put(c, op, t, a)
	case "rescale":
		a := arg("a")
		min := x.defScale()
		if c.Bool("other") {
			min = math.Exp2(c.Float("minlog", 10, 50))
		}
		if a.level == 0 || x.borderline(a.level, a.scale, min) {
			return
		}
		t := x.mRescale(a, min)
		if !t.fits(x) {
			return
		}
		var err error
		t.ct, err = w.eval.RescaleNew(a.ct, min)
		if err != nil {
			c.Fatalf("rescale: %v", err)
		}
		w.put(c, op, t, a)
	case "drop":
		a := arg("a")
		if a.level == 0 {
			return
		}
		t := x.mDrop(a, 1+c.Idx("by", a.level))
		if !t.fits(x) {
			return
		}
		t.ct = w.eval.DropLevelNew(a.ct, a.level-t.level)
		w.put(c, op, t, a)
	}
}

func c08Run(c *C, x *ckksCtx, names []string, n int) {
	w := newWorld(c, x, names)
	for i, p := range names {
		if i == 0 || c.Bool("start") {
			w.join(p)
		}
	}
	for i := 0; i < n; i++ {
		w.step(c)
	}
	for _, t := range w.cts {
		w.check(c, "live result at the end", t)
	}
	c.Class("cfg %s", x.cfg.name)
	c.Nontrivial(w.ops >= 3 && len(w.kinds) >= 2 && w.chain && w.good)
}

func c08(c *C) {
	x := drawCkks(c, 2, 1)
	if x.params.N() > 128 {
		c.Discard("small rings only")
	}
	c08Run(c, x, drawParties(c, "parties", 1, 4), c.Int("steps", 4, 14))
}

func c08Long(c *C) {
	cfg := pick(c, "cfg", []ckksCfg{ckksSmall[1], ckksSmall[2], ckksSmall[6], ckksSmall[5], ckksMid[0]})
	c08Run(c, getCkks(c, cfg, c.Idx("variant", 2)), drawParties(c, "parties", 2, 6), c.Int("steps", 20, 60))
}

func c08Large(c *C) {
	c08Run(c, getCkks(c, pick(c, "cfg", ckksLarge[:1]), 0), drawParties(c, "parties", 2, 3), c.Int("steps", 8, 12))
}
