package main

import (
	"fmt"
	"math"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

// Several generations of keys under the same names, in front of the same long-lived objects. Key
// material does not depend on the name it carries, so a generation is the material of other parties
// under the names in use; ciphertexts are carried from one naming to the other by their map keys.

// generations draws two or three namings: generation g of name n holds the material of gen[g][n].
func generations(c *C, names []string) []map[string]string {
	gens := make([]map[string]string, 2+c.Idx("gens", 2))
	base := len(partyPool)
	for g := range gens {
		gens[g] = map[string]string{}
		left := append([]string(nil), partyPool[:base]...)
		if len(names) < 4 {
			left = left[:len(names)+3]
		}
		for _, n := range names {
			i := c.Idx("holds", len(left))
			gens[g][n] = left[i]
			left[i] = left[len(left)-1]
			left = left[:len(left)-1]
		}
	}
	c.Note("names=%q gens=%q", names, gens)
	return gens
}

func inverse(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[v] = k
	}
	return r
}

func under(m map[string]string, names []string) (r []string) {
	for _, n := range names {
		r = append(r, m[n])
	}
	return
}

// renamed carries a ciphertext to another naming; unknown names are violations.
func renamed(c *C, what string, ct *mkrlwe.Ciphertext, m map[string]string) *mkrlwe.Ciphertext {
	r := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}
	for id, p := range ct.Value {
		if id == "0" {
			r.Value[id] = p
			continue
		}
		n, ok := m[id]
		if !ok {
			c.Fatalf("%s: the result involves %q", what, id)
		}
		r.Value[n] = p
	}
	return r
}

// differ tells whether some of the names hold other material in the two generations.
func differ(a, b map[string]string, names []string) bool {
	for _, n := range names {
		if a[n] != b[n] {
			return true
		}
	}
	return false
}

func rekeyCkks(c *C, kinds []string) {
	c.kept = nil
	x := smallCkks(c, 2)
	names := drawParties(c, "names", 1, 3)
	gens := generations(c, names)
	enc, eval, dec := x.encryptor(c), mkckks.NewEvaluator(x.params), mkckks.NewDecryptor(x.params)
	own := x.encryptor(c)
	oneSet := c.Bool("oneset")
	var rots []int
	for k := 1; k < x.params.N()/2; k *= 2 {
		rots = append(rots, k)
	}
	rots = append(rots, x.extra...)
	fresh := func() *objs {
		return &objs{rlks: mkrlwe.NewRelinearizationKeyKeySet(x.params.Parameters), rks: mkrlwe.NewRotationKeySet(),
			cks: mkrlwe.NewConjugationKeySet(), sks: mkrlwe.NewSecretKeySet()}
	}
	o := fresh()
	cur, used := -1, map[string]map[int]bool{}
	late := func() {}
	steps := 2 + c.Idx("steps", 5)
	for k := 0; k < steps; k++ {
		g := c.Idx("gen", len(gens))
		f, back := gens[g], inverse(gens[g])
		if g != cur {
			if !oneSet {
				o = fresh()
			}
			for _, n := range names {
				x.giveKeys(o, n, f[n], rots)
			}
			cur = g
		}
		op := pick(c, "op", kinds)
		c.Note("%s in %d", op, g)
		who := subset(c, "who", names)
		level, scale := x.drawLevelScale(c, "at")
		lift := func(t *tct) *mkckks.Ciphertext {
			return &mkckks.Ciphertext{Ciphertext: renamed(c, op, t.ct.Ciphertext, back), Scale: t.ct.Scale}
		}
		operand := func(label string, lv int, s float64) (*tct, *mkckks.Ciphertext) {
			t := x.drawCt(c, label, own, under(f, who), lv, s, 4)
			return t, lift(t)
		}
		var t *tct
		var res *mkckks.Ciphertext
		switch op {
		case "msg", "msgto", "ptxt":
			n := who[0]
			who = []string{n}
			pk := pkAs(x.party(f[n]).pk, n)
			if op == "ptxt" {
				v := genMsg(c, "m", x.slots(), math.Min(4, x.cap(level, scale)/4))
				t = &tct{val: v, scale: scale, level: level}
				res = mkckks.NewCiphertext(x.params, idset(n), level, 1)
				enc.EncryptPtxt(x.encode(v, level, scale, c.Bool("ntt")), pk, res)
			} else {
				L := x.params.MaxLevel()
				if x.cap(L, x.defScale()) < 8 {
					continue
				}
				v := genMsg(c, "m", x.slots(), math.Min(4, x.cap(L, x.defScale())/4))
				t = &tct{val: v, scale: x.defScale(), level: L}
				if op == "msg" {
					res = enc.EncryptMsgNew(x.message(c, v), pk)
				} else {
					res = mkckks.NewCiphertext(x.params, idset(n), L, 1)
					enc.EncryptMsg(x.message(c, v), pk, res)
				}
			}
			t.ids = []string{f[n]}
			t.eps = x.noise().fresh()/t.scale + x.flt(maxAbs(t.val))
		case "mul", "hmul", "square":
			s := scale
			if x.cap(level, s*s) < 4 {
				s = x.defScale()
				level = x.params.MaxLevel()
			}
			a, ca := operand("a", level, s)
			b, cb := a, ca
			if op != "square" {
				who = subset(c, "who2", names)
				b, cb = operand("b", level, s)
			}
			u, ok := x.mMul(a, b)
			if !ok {
				continue
			}
			t = u
			if op == "hmul" {
				res = eval.MulRelinHoistedNew(ca, cb, eval.HoistedForm(ca), eval.HoistedForm(cb), o.rlks)
			} else {
				res = eval.MulRelinNew(ca, cb, o.rlks)
			}
		case "rot":
			a, ca := operand("a", level, scale)
			r := x.drawRot(c)
			t = x.mRot(a, r)
			res = eval.RotateNew(ca, r, o.rks)
		case "hrot":
			a, ca := operand("a", level, scale)
			r := rots[c.Idx("r", len(rots))]
			t = x.mRot(a, r)
			res = eval.RotateHoistedNew(ca, r, eval.HoistedForm(ca), o.rks)
		case "conj":
			a, ca := operand("a", level, scale)
			t = x.mConj(a)
			res = eval.ConjugateNew(ca, o.cks)
		case "dec", "partial", "locked":
			t, res = operand("a", level, scale)
		}
		if !t.fits(x) {
			continue
		}
		t.ct = &mkckks.Ciphertext{Ciphertext: renamed(c, op, res.Ciphertext, f), Scale: res.Scale}
		what := fmt.Sprintf("%s with keys of generation %d", op, g)
		x.verify(c, what, t)
		again := *t
		prev := late
		late = func() { prev(); x.verify(c, what+", looked at in the end", &again) }
		if op == "partial" {
			left := &mkckks.Ciphertext{Ciphertext: res.CopyNew().Ciphertext, Scale: res.Scale}
			for _, u := range permute(c, "order", t.ids) {
				dec.PartialDecrypt(left, skAs(x.party(u).sk, back[u]))
			}
			x.compare(c, what, t, dec.Decrypt(left, mkrlwe.NewSecretKeySet()).Value)
		} else {
			x.compare(c, what+" and a long-lived decryptor", t, dec.Decrypt(res, o.sks).Value)
		}
		if op == "locked" && len(t.ids) > 0 {
			w := make([]string, 0, len(t.ids))
			for _, u := range t.ids {
				w = append(w, back[u])
			}
			some := mkrlwe.NewSecretKeySet()
			for _, n := range minus(names, subset(c, "missing", w)) {
				some.AddSecretKey(skAs(x.party(f[n]).sk, n))
			}
			refused(c, "decryption without one of the keys, which the decryptor has seen before", func() interface{} { return dec.Decrypt(res, some) })
			if h := gens[c.Idx("stale", len(gens))]; differ(f, h, w) && x.slots() >= 4 && x.params.N() >= 32 && t.precise() {
				stale := mkrlwe.NewSecretKeySet()
				for _, n := range names {
					stale.AddSecretKey(skAs(x.party(h[n]).sk, n))
				}
				got := dec.Decrypt(res, stale).Value
				far := false
				for i := range got {
					d := got[i] - t.val[i]
					far = far || !(math.Hypot(real(d), imag(d)) < math.Exp2(x.logQ(t.level)-7)/t.scale)
				}
				if !far {
					c.Fatalf("the keys of another generation open a ciphertext of %q", w)
				}
				x.compare(c, what+" after trying the keys of another one", t, dec.Decrypt(res, o.sks).Value)
			}
		}
		for _, u := range t.ids {
			n := back[u]
			if used[n] == nil {
				used[n] = map[int]bool{}
			}
			used[n][g] = true
			c.Nontrivial(len(used[n]) > 1 && t.precise())
		}
		c.Class("op %s, one key set=%v", op, oneSet)
	}
	late()
}

func rekeyBfv(c *C, kinds []string) {
	c.kept = nil
	x := smallBfv(c, 2)
	names := drawParties(c, "names", 1, 3)
	gens := generations(c, names)
	enc, eval, dec := x.encryptor(c), mkbfv.NewEvaluator(x.params), mkbfv.NewDecryptor(x.params)
	own := x.encryptor(c)
	oneSet := c.Bool("oneset")
	fresh := func() *objs {
		return &objs{brlks: mkbfv.NewRelinearizationKeyKeySet(x.params), rks: mkrlwe.NewRotationKeySet(),
			cks: mkrlwe.NewConjugationKeySet(), sks: mkrlwe.NewSecretKeySet()}
	}
	o := fresh()
	cur, used := -1, map[string]map[int]bool{}
	late := func() {}
	steps := 2 + c.Idx("steps", 5)
	for k := 0; k < steps; k++ {
		g := c.Idx("gen", len(gens))
		f, back := gens[g], inverse(gens[g])
		if g != cur {
			if !oneSet {
				o = fresh()
			}
			for _, n := range names {
				x.giveKeys(o, n, f[n])
			}
			cur = g
		}
		op := pick(c, "op", kinds)
		c.Note("%s in %d", op, g)
		who := subset(c, "who", names)
		operand := func(label string) (*bct, *mkbfv.Ciphertext) {
			t := x.drawCt(c, label, own, under(f, who))
			return t, &mkbfv.Ciphertext{Ciphertext: renamed(c, op, t.ct.Ciphertext, back)}
		}
		var t *bct
		var res *mkbfv.Ciphertext
		switch op {
		case "msg", "msgto", "ptxt":
			n := who[0]
			pk := pkAs(x.party(f[n]).pk, n)
			v := x.genMsg(c, "m")
			t = &bct{val: make([]int64, len(v)), ids: []string{f[n]}, noise: x.nFresh() + 2}
			for j := range v {
				t.val[j] = x.cent(v[j])
			}
			switch op {
			case "msg":
				res = enc.EncryptMsgNew(x.message(c, v), pk)
			case "msgto":
				res = mkbfv.NewCiphertext(x.params, idset(n))
				enc.EncryptMsg(x.message(c, v), pk, res)
			default:
				res = mkbfv.NewCiphertext(x.params, idset(n))
				enc.EncryptPtxt(newBfvPlaintext(x, v), pk, res)
			}
		case "mul", "square":
			a, ca := operand("a")
			b, cb := a, ca
			if op == "mul" {
				who = subset(c, "who2", names)
				b, cb = operand("b")
			}
			if t = x.mMul(a, b); !x.fits(t.noise) {
				continue
			}
			res = eval.MulRelinNew(ca, cb, o.brlks)
		case "rot":
			a, ca := operand("a")
			r := x.drawRot(c)
			if t = x.mRot(a, r); !x.fits(t.noise) {
				continue
			}
			res = eval.RotateNew(ca, r, o.rks)
		case "conj":
			a, ca := operand("a")
			if t = x.mConj(a); !x.fits(t.noise) {
				continue
			}
			res = eval.ConjugateNew(ca, o.cks)
		case "dec", "partial", "locked":
			t, res = operand("a")
		}
		t.ct = &mkbfv.Ciphertext{Ciphertext: renamed(c, op, res.Ciphertext, f)}
		what := fmt.Sprintf("%s with keys of generation %d", op, g)
		x.verify(c, what, t)
		again := *t
		prev := late
		late = func() { prev(); x.verify(c, what+", looked at in the end", &again) }
		agree := func(got []int64) (n int) {
			for i := range got {
				if x.cent(got[i]) == t.val[i] {
					n++
				}
			}
			return
		}
		opens := func(how string, got []int64) {
			if n := agree(got); n != len(t.val) {
				c.Fatalf("%s: %s: %d of %d slots are right", what, how, n, len(t.val))
			}
		}
		if op == "partial" {
			left := &mkbfv.Ciphertext{Ciphertext: res.CopyNew().Ciphertext}
			for _, u := range permute(c, "order", t.ids) {
				dec.PartialDecrypt(left, skAs(x.party(u).sk, back[u]))
			}
			opens("partial decryption", dec.Decrypt(left, mkrlwe.NewSecretKeySet()).Value)
		} else {
			opens("a long-lived decryptor", dec.Decrypt(res, o.sks).Value)
		}
		if op == "locked" && len(t.ids) > 0 {
			w := make([]string, 0, len(t.ids))
			for _, u := range t.ids {
				w = append(w, back[u])
			}
			some := mkrlwe.NewSecretKeySet()
			for _, n := range minus(names, subset(c, "missing", w)) {
				some.AddSecretKey(skAs(x.party(f[n]).sk, n))
			}
			refused(c, "decryption without one of the keys, which the decryptor has seen before", func() interface{} { return dec.Decrypt(res, some) })
			if h := gens[c.Idx("stale", len(gens))]; differ(f, h, w) && x.T > 60000 && x.params.N() >= 32 {
				stale := mkrlwe.NewSecretKeySet()
				for _, n := range names {
					stale.AddSecretKey(skAs(x.party(h[n]).sk, n))
				}
				if n := agree(dec.Decrypt(res, stale).Value); n > 4 {
					c.Fatalf("with the keys of another generation %d of %d slots of a ciphertext of %q are right", n, len(t.val), w)
				}
				opens("after trying the keys of another generation", dec.Decrypt(res, o.sks).Value)
			}
		}
		for _, u := range t.ids {
			n := back[u]
			if used[n] == nil {
				used[n] = map[int]bool{}
			}
			used[n][g] = true
			c.Nontrivial(len(used[n]) > 1 && varied(t.val))
		}
		c.Class("op %s, one key set=%v", op, oneSet)
	}
	late()
}

// rekeyGeneric does the same one layer below: encryption, joint and partial decryption of arbitrary
// plaintexts with one encryptor and one decryptor.
func rekeyGeneric(c *C, kinds []string) {
	x := drawR(c)
	names := drawParties(c, "names", 1, 3)
	gens := generations(c, names)
	seedCrypto("rekey", c.Seed("encseed"))
	enc, dec := mkrlwe.NewEncryptor(x.params), mkrlwe.NewDecryptor(x.params)
	sks := mkrlwe.NewSecretKeySet()
	oneSet := c.Bool("oneset")
	used := map[string]map[int]bool{}
	L := len(x.Q) - 1
	for k := 2 + c.Idx("steps", 5); k > 0; k-- {
		g := c.Idx("gen", len(gens))
		f, back := gens[g], inverse(gens[g])
		if !oneSet {
			sks = mkrlwe.NewSecretKeySet()
		}
		for _, n := range names {
			sks.AddSecretKey(skAs(x.sk(f[n]), n))
		}
		op := pick(c, "op", kinds)
		what := fmt.Sprintf("%s with keys of generation %d", op, g)
		who := subset(c, "who", names)
		lvl := c.Int("level", 0, L)
		ntt := c.Bool("ntt")
		var ct *mkrlwe.Ciphertext
		if op == "enc" {
			who = who[:1]
			v, pt := x.drawPt(c, "pt", lvl)
			ct = newGenCt(x, idset(who[0]), lvl, ntt)
			enc.Encrypt(pt, pkAs(x.pk(f[who[0]]), who[0]), ct)
			cr := crtOf(x.Q[:lvl+1])
			got := cr.polyBig(phaseOf(x.n, x.Q, renamed(c, what, ct, f), x.sk))
			for j := range got {
				if d := cr.center(got[j].Sub(got[j], v[j])); bigF(d.Abs(d)) > x.encError() {
					c.Fatalf("%s: %s: coefficient %d is off by %v, allowed %g", x.cfg.name, what, j, d, x.encError())
				}
			}
		} else {
			t, v := x.genCt(c, "ct", under(f, who), lvl, ntt)
			ct = renamed(c, what, t, back)
			pt := rlwe.NewPlaintext(x.params.Parameters, lvl)
			pt.Value.IsNTT = c.Bool("want")
			if op == "partial" {
				left := ct.CopyNew()
				for _, n := range permute(c, "order", who) {
					dec.PartialDecrypt(left, sks.Value[n])
				}
				dec.Decrypt(left, mkrlwe.NewSecretKeySet(), pt)
			} else {
				dec.Decrypt(ct, sks, pt)
			}
			got := plainRows(x.n, x.Q[:lvl+1], nil, pt.Value, nil, pt.Value.IsNTT, false)
			for i, q := range x.Q[:lvl+1] {
				for j := range v {
					if got[i][j] != modU(v[j], q) {
						c.Fatalf("%s: %s, parties %q: coefficient %d mod %d is %d, want %d", x.cfg.name, what, who, j, q, got[i][j], modU(v[j], q))
					}
				}
			}
			if op == "locked" && len(who) > 0 {
				gone := subset(c, "missing", who)
				some := mkrlwe.NewSecretKeySet()
				for _, n := range minus(names, gone) {
					some.AddSecretKey(sks.Value[n])
				}
				refused(c, "decryption without one of the keys, which the decryptor has seen before", func() interface{} { dec.Decrypt(ct, some, pt); return pt })
			}
		}
		for _, n := range who {
			if used[n] == nil {
				used[n] = map[int]bool{}
			}
			used[n][g] = true
			c.Nontrivial(len(used[n]) > 1)
		}
		c.Class("op %s, one key set=%v", op, oneSet)
	}
}
