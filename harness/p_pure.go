package main

import (
	"fmt"
	"sync"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

func init() {
	register(&Check{ID: "E01", Assumptions: rAssume,
		Rule: "a history is non-trivial if at least two kinds of operations ran, one of them on ciphertexts of at least two parties",
		Subs: []Sub{
			{Name: "ckks", Prop: e01Ckks, Quick: 3000, Thorough: 80000},
			{Name: "bfv", Prop: e01Bfv, Quick: 1400, Thorough: 40000},
			{Name: "crypt", Prop: e01Crypt, Quick: 1400, Thorough: 40000},
			{Name: "cryptbfv", Prop: e01CryptBfv, Quick: 1000, Thorough: 30000},
			{Name: "keys", Prop: e01Keys, Quick: 1200, Thorough: 30000},
			{Name: "generic", Prop: e01Generic, Quick: 2000, Thorough: 50000},
		}})
	register(&Check{ID: "E02", Assumptions: rAssume,
		Rule: "a history is non-trivial if the long-lived objects had served at least four other calls, with at least two parties, before the last comparison",
		Subs: []Sub{
			{Name: "ckks", Prop: e02Ckks, Quick: 4500, Thorough: 80000},
			{Name: "bfv", Prop: e02Bfv, Quick: 2100, Thorough: 40000},
			{Name: "encryptor", Prop: e02Enc, Quick: 4500, Thorough: 80000},
			{Name: "encryptorbfv", Prop: e02EncBfv, Quick: 2400, Thorough: 40000},
			{Name: "generic", Prop: e02Generic, Quick: 4500, Thorough: 80000},
			{Name: "parallel", Prop: e02Parallel, Quick: 700, Thorough: 12000},
			{Name: "marathon", Prop: e02Marathon, Quick: 1400},
		}})
	register(&Check{ID: "E03", Assumptions: rAssume,
		Rule: "a case is non-trivial if the operands involve at least two parties or differ in level, or a decomposition was used more than once",
		Subs: []Sub{
			{Name: "mul", Prop: e03Mul, Quick: 9000, Thorough: 80000},
			{Name: "rot", Prop: e03Rot, Quick: 9000, Thorough: 80000},
			{Name: "generic", Prop: e03Generic, Quick: 9000, Thorough: 80000},
			{Name: "bfv", Prop: e03Bfv, Quick: 4200, Thorough: 40000},
			{Name: "city", Prop: e03City, Quick: 700},
		}})
	register(&Check{ID: "I01", Assumptions: append(append([]string(nil), rAssume...), "a request is refused if it panics or returns an error before any result can be used"),
		Rule: "a case is non-trivial if a refused request was followed by a valid one on the same objects",
		Subs: []Sub{
			{Name: "ckks", Prop: i01Ckks, Quick: 10000, Thorough: 120000},
			{Name: "bfv", Prop: i01Bfv, Quick: 4800, Thorough: 60000},
			{Name: "generic", Prop: i01Generic, Quick: 10000, Thorough: 120000},
			{Name: "params", Prop: i01Params, Quick: 1600, Thorough: 20000},
		}})
}

func smallCkks(c *C, variants int) *ckksCtx {
	x := drawCkks(c, variants, 1)
	if x.params.N() > 128 {
		c.Discard("small rings only")
	}
	return x
}

func smallBfv(c *C, variants int) *bfvCtx {
	x := drawBfv(c, variants)
	if x.params.N() > 128 {
		c.Discard("small rings only")
	}
	return x
}

func (x *ckksCtx) drawPool(c *C, enc *mkckks.Encryptor, names []string, n int) *ckksPool {
	p := &ckksPool{x: x, forms: map[*mkckks.Ciphertext]*mkrlwe.HoistedCiphertext{}}
	for i := 0; i < n; i++ {
		l, s := x.drawLevelScale(c, "at")
		who := names
		if i > 0 || len(names) == 0 {
			who = nil
			if len(names) > 0 && !c.OneIn("noone", 8) {
				who = subset(c, "who", names)
			}
		}
		p.cts = append(p.cts, x.drawCt(c, "m", enc, who, l, s, 4))
	}
	return p
}

func (x *bfvCtx) drawPool(c *C, enc *mkbfv.Encryptor, names []string, n int) *bfvPool {
	p := &bfvPool{x: x}
	for i := 0; i < n; i++ {
		who := names
		if i > 0 || len(names) == 0 {
			who = nil
			if len(names) > 0 && !c.OneIn("noone", 8) {
				who = subset(c, "who", names)
			}
		}
		p.cts = append(p.cts, x.drawCt(c, "m", enc, who))
	}
	return p
}

// ---------------------------------------------------------------- E01

func e01Ckks(c *C) {
	x := smallCkks(c, 2)
	names := drawParties(c, "parties", 1, 3)
	enc := x.encryptor(c)
	o := x.newObjs(names...)
	o.kenc = enc
	p := x.drawPool(c, enc, names, 3)
	keys := &watch{}
	keys.add("a key", x.parties)
	keys.add("a common reference string", x.params.CRS)
	cts := &watch{}
	for _, t := range p.cts {
		cts.add("a ciphertext", t.ct)
		if c.Bool("form") {
			p.forms[t.ct] = o.kev.HoistedForm(t.ct)
			cts.add("a hoisted form", p.forms[t.ct])
		}
	}
	kinds := map[string]bool{}
	joint := false
	for k := c.Int("steps", 2, 7); k > 0; k-- {
		p.clone, p.clones = c.OneIn("clone", 3), nil
		q := p.draw(c, ckksCalls)
		if q == nil {
			continue
		}
		c.Note("%s", q.name)
		ins := &watch{}
		for i, in := range q.ins {
			ins.add(fmt.Sprintf("operand %d (%T)", i, in), in)
		}
		res := q.run(o)
		if w := ins.changed(); w != "" {
			c.Fatalf("%s changed %s [%s]", q.name, w, x.cfg.name)
		}
		if w := cts.changed(); w != "" {
			c.Fatalf("%s changed %s made earlier [%s]", q.name, w, x.cfg.name)
		}
		if w := keys.changed(); w != "" {
			c.Fatalf("%s changed %s [%s]", q.name, w, x.cfg.name)
		}
		var live []interface{}
		for _, t := range p.cts {
			live = append(live, t.ct)
		}
		if d := overlap(storage("result", res), storage("working object", o), storage("operand", q.ins), storage("parameters", x.params), storage("key", x.parties),
			storage("other ciphertext", live), storage("form", p.forms)); d != "" {
			c.Fatalf("%s: shared storage: %s [%s]", q.name, d, x.cfg.name)
		}
		if ct, ok := res.(*mkckks.Ciphertext); ok {
			if d := selfOverlap(ct.Ciphertext); d != "" {
				c.Fatalf("%s: components of the result share storage: %s", q.name, d)
			}
		}
		rw := &watch{}
		rw.add("result", res)
		for i, ct := range p.clones {
			scribble(ct.Ciphertext, uint64(i))
			ct.Scale = 1
		}
		if p.clone && rw.changed() != "" {
			c.Fatalf("%s: overwriting an operand changed the result [%s]", q.name, x.cfg.name)
		}
		cts.add("the result of "+q.name, res)
		if h, ok := res.(*mkrlwe.HoistedCiphertext); ok && !p.clone {
			p.forms[q.ins[0].(*mkckks.Ciphertext)] = h
		}
		if q.kt != nil {
			ct, ok := res.(*mkckks.Ciphertext)
			if !ok {
				c.Fatalf("%s: %v", q.name, res)
			}
			q.kt.ct = ct
			x.verifyWith(c, q.name, q.kt, o.kdec, o.sks)
			if w := cts.changed(); w != "" {
				c.Fatalf("decryption changed %s", w)
			}
			p.put(c, q.kt)
		}
		kinds[q.name] = true
		joint = joint || len(q.ids) >= 2
		c.Class("op %s", q.name)
	}
	c.Nontrivial(len(kinds) >= 2 && joint)
}

func e01Bfv(c *C) {
	x := smallBfv(c, 2)
	names := drawParties(c, "parties", 1, 3)
	enc := x.encryptor(c)
	o := x.newObjs(names...)
	o.benc = enc
	p := x.drawPool(c, enc, names, 3)
	keys := &watch{}
	keys.add("a key", x.parties)
	keys.add("a common reference string", x.params.CRS)
	cts := &watch{}
	for _, t := range p.cts {
		cts.add("a ciphertext", t.ct)
	}
	kinds := map[string]bool{}
	joint := false
	for k := c.Int("steps", 2, 7); k > 0; k-- {
		p.clone, p.clones = c.OneIn("clone", 3), nil
		q := p.draw(c, bfvCalls)
		if q == nil {
			continue
		}
		c.Note("%s", q.name)
		ins := &watch{}
		for i, in := range q.ins {
			ins.add(fmt.Sprintf("operand %d (%T)", i, in), in)
		}
		res := q.run(o)
		if w := ins.changed(); w != "" {
			c.Fatalf("%s changed %s [%s]", q.name, w, x.cfg.name)
		}
		if w := cts.changed(); w != "" {
			c.Fatalf("%s changed %s made earlier [%s]", q.name, w, x.cfg.name)
		}
		if w := keys.changed(); w != "" {
			c.Fatalf("%s changed %s [%s]", q.name, w, x.cfg.name)
		}
		var live []interface{}
		for _, t := range p.cts {
			live = append(live, t.ct)
		}
		if d := overlap(storage("result", res), storage("working object", o), storage("operand", q.ins), storage("parameters", x.params), storage("key", x.parties),
			storage("other ciphertext", live)); d != "" {
			c.Fatalf("%s: shared storage: %s [%s]", q.name, d, x.cfg.name)
		}
		if ct, ok := res.(*mkbfv.Ciphertext); ok {
			if d := selfOverlap(ct.Ciphertext); d != "" {
				c.Fatalf("%s: components of the result share storage: %s", q.name, d)
			}
		}
		rw := &watch{}
		rw.add("result", res)
		for i, ct := range p.clones {
			scribble(ct.Ciphertext, uint64(i))
		}
		if p.clone && rw.changed() != "" {
			c.Fatalf("%s: overwriting an operand changed the result [%s]", q.name, x.cfg.name)
		}
		cts.add("the result of "+q.name, res)
		if q.bt != nil {
			q.bt.ct = res.(*mkbfv.Ciphertext)
			x.verifyWith(c, q.name, q.bt, o.bdec, o.sks)
			if w := cts.changed(); w != "" {
				c.Fatalf("decryption changed %s", w)
			}
			p.put(c, q.bt)
		}
		kinds[q.name] = true
		joint = joint || len(q.ids) >= 2
		c.Class("op %s", q.name)
	}
	c.Nontrivial(len(kinds) >= 2 && joint)
}

// e01Crypt: encoding, encryption and decryption (full and partial) with the CKKS objects.
func e01Crypt(c *C) {
	x := smallCkks(c, 1)
	if x.cap(x.params.MaxLevel(), x.defScale()) < 16 {
		c.Discard("default scale does not fit")
	}
	names := drawParties(c, "parties", 2, 3)
	o := x.newObjs(names...)
	o.kenc = x.encryptor(c)
	keys := &watch{}
	keys.add("a key", x.parties)
	keys.add("a common reference string", x.params.CRS)
	all := &watch{}
	live := []interface{}{}
	keep := func(what string, v interface{}) { all.add(what, v); live = append(live, v) }
	after := func(what string, res interface{}) {
		if w := all.changed(); w != "" {
			c.Fatalf("%s changed %s [%s]", what, w, x.cfg.name)
		}
		if w := keys.changed(); w != "" {
			c.Fatalf("%s changed %s [%s]", what, w, x.cfg.name)
		}
		if d := overlap(storage("result", res), storage("working object", o), storage("earlier", live), storage("parameters", x.params), storage("key", x.parties)); d != "" {
			c.Fatalf("%s: shared storage: %s [%s]", what, d, x.cfg.name)
		}
		keep("the result of "+what, res)
	}
	var cts []*tct
	kinds := map[string]bool{}
	for k := c.Int("steps", 3, 8); k > 0; k-- {
		op := pick(c, "op", []string{"encmsg", "encmsg", "encptxt", "encode", "dec", "dec", "partial", "into"})
		if len(cts) == 0 && (op == "dec" || op == "partial") {
			op = "encmsg"
		}
		n := names[c.Idx("who", len(names))]
		msg := mkckks.NewMessage(x.params)
		copy(msg.Value, genMsg(c, "m", x.slots(), 4))
		t := &tct{val: clone(msg.Value), scale: x.defScale(), level: x.params.MaxLevel(), ids: []string{n}}
		t.eps = x.noise().fresh()/t.scale + x.flt(maxAbs(t.val))
		switch op {
		case "encmsg":
			keep("a message", msg)
			t.ct = o.kenc.EncryptMsgNew(msg, x.party(n).pk)
			after(op, t.ct)
			cts = append(cts, t)
		case "into":
			keep("a message", msg)
			t.ct = mkckks.NewCiphertext(x.params, idset(n), t.level, 1)
			o.kenc.EncryptMsg(msg, x.party(n).pk, t.ct)
			after(op, t.ct)
			cts = append(cts, t)
		case "encode":
			keep("a message", msg)
			after(op, o.kenc.EncodeMsgNew(msg))
		case "encptxt":
			l, s := x.drawLevelScale(c, "at")
			pt := x.encode(msg.Value, l, s, c.Bool("ntt"))
			keep("a plaintext", pt)
			t.level, t.scale = l, s
			t.eps = x.noise().fresh()/s + x.flt(maxAbs(t.val))
			t.ct = mkckks.NewCiphertext(x.params, idset(n), x.params.MaxLevel(), 1)
			o.kenc.EncryptPtxt(pt, x.party(n).pk, t.ct)
			after(op, t.ct)
			cts = append(cts, t)
		case "dec":
			u := cts[c.Idx("ct", len(cts))]
			m := o.kdec.Decrypt(u.ct, o.sks)
			after(op, m)
			x.compare(c, "decryption", u, m.Value)
		case "partial":
			u := cts[c.Idx("ct", len(cts))]
			cp := u.ct.CopyNew()
			o.kdec.PartialDecrypt(cp, x.party(u.ids[0]).sk)
			after(op, cp)
		}
		kinds[op] = true
		c.Class("op %s", op)
	}
	for _, u := range cts {
		x.verify(c, "encryption", u)
	}
	if w := all.changed(); w != "" {
		c.Fatalf("the final decryptions changed %s", w)
	}
	c.Nontrivial(len(kinds) >= 2)
}

func e01CryptBfv(c *C) {
	x := smallBfv(c, 1)
	names := drawParties(c, "parties", 2, 3)
	o := x.newObjs(names...)
	o.benc = x.encryptor(c)
	keys := &watch{}
	keys.add("a key", x.parties)
	keys.add("a common reference string", x.params.CRS)
	all := &watch{}
	live := []interface{}{}
	keep := func(what string, v interface{}) { all.add(what, v); live = append(live, v) }
	after := func(what string, res interface{}) {
		if w := all.changed(); w != "" {
			c.Fatalf("%s changed %s [%s]", what, w, x.cfg.name)
		}
		if w := keys.changed(); w != "" {
			c.Fatalf("%s changed %s [%s]", what, w, x.cfg.name)
		}
		if d := overlap(storage("result", res), storage("working object", o), storage("earlier", live), storage("parameters", x.params), storage("key", x.parties)); d != "" {
			c.Fatalf("%s: shared storage: %s [%s]", what, d, x.cfg.name)
		}
		keep("the result of "+what, res)
	}
	bp, err := bfv.NewParameters(x.params.Parameters.Parameters, x.params.T())
	if err != nil {
		Harness("bfv parameters: %v", err)
	}
	var cts []*bct
	kinds := map[string]bool{}
	for k := c.Int("steps", 3, 8); k > 0; k-- {
		op := pick(c, "op", []string{"encmsg", "encmsg", "encptxt", "into", "dec", "dec", "partial"})
		if len(cts) == 0 && (op == "dec" || op == "partial") {
			op = "encmsg"
		}
		n := names[c.Idx("who", len(names))]
		msg := mkbfv.NewMessage(x.params)
		copy(msg.Value, x.genMsg(c, "m"))
		t := &bct{val: make([]int64, len(msg.Value)), noise: x.nFresh() + 2, ids: []string{n}}
		for i := range t.val {
			t.val[i] = x.cent(msg.Value[i])
		}
		switch op {
		case "encmsg":
			keep("a message", msg)
			t.ct = o.benc.EncryptMsgNew(msg, x.party(n).pk)
			after(op, t.ct)
			cts = append(cts, t)
		case "into":
			keep("a message", msg)
			t.ct = mkbfv.NewCiphertext(x.params, idset(n))
			o.benc.EncryptMsg(msg, x.party(n).pk, t.ct)
			after(op, t.ct)
			cts = append(cts, t)
		case "encptxt":
			pt := bfv.NewPlaintext(bp)
			bfv.NewEncoder(bp).EncodeInt(msg.Value, pt)
			keep("a plaintext", pt)
			t.ct = mkbfv.NewCiphertext(x.params, idset(n))
			o.benc.EncryptPtxt(pt, x.party(n).pk, t.ct)
			after(op, t.ct)
			cts = append(cts, t)
		case "dec":
			u := cts[c.Idx("ct", len(cts))]
			m := o.bdec.Decrypt(u.ct, o.sks)
			after(op, m)
		case "partial":
			u := cts[c.Idx("ct", len(cts))]
			cp := u.ct.CopyNew()
			o.bdec.PartialDecrypt(cp, x.party(u.ids[0]).sk)
			after(op, cp)
		}
		kinds[op] = true
		c.Class("op %s", op)
	}
	for _, u := range cts {
		x.verify(c, "encryption", u)
	}
	if w := all.changed(); w != "" {
		c.Fatalf("the final decryptions changed %s", w)
	}
	c.Nontrivial(len(kinds) >= 2)
}

// e01Keys: key generation.
func e01Keys(c *C) {
	type gen struct {
		kg   interface{}
		base *mkrlwe.KeyGenerator
		bfv  *mkbfv.KeyGenerator
	}
	var params mkrlwe.Parameters
	var g gen
	if c.Bool("bfv") {
		b := smallBfv(c, 1)
		params = b.params.Parameters
		seedCrypto("e01k", c.Seed("kseed"))
		g.bfv = mkbfv.NewKeyGenerator(b.params)
		g.base = g.bfv.KeyGenerator
		g.kg = g.bfv
	} else {
		x := drawR(c)
		if x.cfg.gamma != 2 || x.n > 128 {
			c.Discard("two secrets per block only")
		}
		params = x.params
		seedCrypto("e01k", c.Seed("kseed"))
		g.base = mkrlwe.NewKeyGenerator(params)
		g.kg = g.base
	}
	type pair struct{ sk, r *mkrlwe.SecretKey }
	var ps []pair
	all := &watch{}
	live := []interface{}{}
	crs := &watch{}
	crs.add("a common reference string", params.CRS)
	after := func(what string, res interface{}) {
		if w := all.changed(); w != "" {
			c.Fatalf("generating a %s changed %s", what, w)
		}
		if w := crs.changed(); w != "" {
			c.Fatalf("generating a %s changed %s", what, w)
		}
		if d := overlap(storage("result", res), storage("key generator", g.kg), storage("earlier", live), storage("parameters", params)); d != "" {
			c.Fatalf("%s: shared storage: %s", what, d)
		}
		all.add("a "+what+" generated earlier", res)
		live = append(live, res)
	}
	kinds := map[string]bool{}
	for k := c.Int("steps", 3, 9); k > 0; k-- {
		op := pick(c, "op", []string{"pair", "pair", "relin", "rot", "conj", "public", "secret"})
		if len(ps) == 0 {
			op = "pair"
		}
		id := pick(c, "id", partyPool)
		switch op {
		case "pair":
			sk, pk := g.base.GenKeyPair(id)
			after("secret key", sk)
			after("public key", pk)
			r := g.base.GenSecretKey(id)
			after("secret key", r)
			ps = append(ps, pair{sk, r})
		case "secret":
			switch c.Idx("dist", 3) {
			case 0:
				after("secret key", g.base.GenSecretKeyGaussian(id))
			case 1:
				after("secret key", g.base.GenSecretKeySparse(4, id))
			case 2:
				after("secret key", g.base.GenSecretKeyWithDistrib(0.5, id))
			}
		default:
			p := ps[c.Idx("p", len(ps))]
			switch op {
			case "public":
				after("public key", g.base.GenPublicKey(p.sk))
			case "relin":
				if g.bfv != nil {
					after("relinearisation key", g.bfv.GenRelinearizationKey(p.sk, p.r))
				} else {
					after("relinearisation key", g.base.GenRelinearizationKey(p.sk, p.r))
				}
			case "rot":
				after("rotation key", g.base.GenRotationKey(1<<c.Idx("by", params.LogN()-1), p.sk))
			case "conj":
				after("conjugation key", g.base.GenConjugationKey(p.sk))
			}
		}
		kinds[op] = true
		c.Class("gen %s", op)
	}
	c.Nontrivial(len(kinds) >= 2 && len(ps) >= 2)
}

// e01Generic: the key switcher and the generic encryptor and decryptor.
func e01Generic(c *C) {
	x := drawR(c)
	if x.cfg.gamma != 2 || x.n > 128 {
		c.Discard("two secrets per block only")
	}
	names := drawParties(c, "parties", 1, 3)
	ks := mkrlwe.NewKeySwitcher(x.params)
	rlks, rks, cks := x.keySets(names)
	L := len(x.Q) - 1
	level := c.Int("level", 0, L)
	la, lb := level+c.Idx("up", L-level+1), level+c.Idx("up2", L-level+1)
	a, _ := x.genCt(c, "a", subset(c, "as", names), la, false)
	b, _ := x.genCt(c, "b", subset(c, "bs", names), lb, false)
	in := &watch{}
	in.add("the first operand", a)
	in.add("the second operand", b)
	in.add("a key set", []interface{}{rlks.Value, rks.Value, cks.Value})
	in.add("a common reference string", x.params.CRS)
	ha, hb := mkrlwe.NewHoistedCiphertext(), mkrlwe.NewHoistedCiphertext()
	decomp := func(ct *mkrlwe.Ciphertext, h *mkrlwe.HoistedCiphertext) {
		for id := range ct.IDSet().Value {
			h.Value[id] = mkrlwe.NewSwitchingKey(x.params)
			ks.Decompose(level, ct.Value[id], h.Value[id])
		}
	}
	decomp(a, ha)
	decomp(b, hb)
	in.add("a hoisted form", []interface{}{ha, hb})
	check := func(what string) {
		if w := in.changed(); w != "" {
			c.Fatalf("%s changed %s [%s]", what, w, x.cfg.name)
		}
	}
	ids := union(idsOf(a.IDSet()), idsOf(b.IDSet()))
	for k := c.Int("steps", 2, 6); k > 0; k-- {
		op := pick(c, "op", []string{"mul", "hmul", "square", "rot", "hrot", "conj", "ext", "hext", "decompose", "decrypt"})
		var out interface{}
		who := a.IDSet()
		switch op {
		case "mul", "hmul", "square":
			w := idset(ids...)
			if op == "square" {
				w = who
			}
			ct := mkrlwe.NewCiphertext(x.params, w, level)
			switch op {
			case "mul":
				ks.MulAndRelin(a, b, rlks, ct)
			case "hmul":
				ks.MulAndRelinHoisted(a, b, ha, hb, rlks, ct)
			case "square":
				ks.MulAndRelin(a, a, rlks, ct)
			}
			out = ct
		case "rot", "hrot":
			ct := mkrlwe.NewCiphertext(x.params, who, level)
			r := 1 << c.Idx("r", x.params.LogN()-1)
			if op == "rot" {
				ks.Rotate(a, r, rks, ct)
			} else {
				ks.RotateHoisted(a, r, ha, rks, ct)
			}
			out = ct
		case "conj":
			ct := mkrlwe.NewCiphertext(x.params, who, level)
			ks.Conjugate(a, cks, ct)
			out = ct
		case "ext", "hext":
			id := idsOf(a.IDSet())[0]
			p := ring.NewPoly(x.n, level+1)
			if op == "ext" {
				ks.ExternalProduct(level, a.Value[id], x.params.CRS[-1], p)
			} else {
				ks.ExternalProductHoisted(level, ha.Value[id], x.params.CRS[-1], p)
			}
			out = p
		case "decompose":
			h := mkrlwe.NewHoistedCiphertext()
			decomp(a, h)
			out = h
		case "decrypt":
			pt := rlwe.NewPlaintext(x.params.Parameters, level)
			sks := x.skSet(ids...)
			in2 := &watch{}
			in2.add("a secret key", sks)
			mkrlwe.NewDecryptor(x.params).Decrypt(a, sks, pt)
			if in2.changed() != "" {
				c.Fatalf("decryption changed a secret key")
			}
			out = pt
		}
		check(op)
		if d := overlap(storage("result", out), storage("key switcher", ks), storage("operand", []interface{}{a, b, ha, hb}), storage("key sets", []interface{}{rlks, rks, cks}), storage("parameters", x.params)); d != "" {
			c.Fatalf("%s: shared storage: %s", op, d)
		}
		in.add("the result of "+op, out)
		c.Class("op %s", op)
	}
	c.Nontrivial(len(ids) >= 2)
}

type rKeys struct {
	rlk map[string]*mkrlwe.RelinearizationKey
	rot map[string]map[int]*mkrlwe.RotationKey
	cjk map[string]*mkrlwe.ConjugationKey
}

// keySets gives sets of cached keys for the parties (all powers of two).
func (x *rctx) keySets(names []string) (*mkrlwe.RelinearizationKeySet, *mkrlwe.RotationKeySet, *mkrlwe.ConjugationKeySet) {
	k := x.keys
	if k == nil {
		k = &rKeys{map[string]*mkrlwe.RelinearizationKey{}, map[string]map[int]*mkrlwe.RotationKey{}, map[string]*mkrlwe.ConjugationKey{}}
		x.keys = k
	}
	rlks, rks, cks := mkrlwe.NewRelinearizationKeyKeySet(x.params), mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	for _, n := range names {
		if k.rlk[n] == nil {
			sk := x.sk(n)
			seedCrypto("r-keys", x.cfg.name, n)
			kg := mkrlwe.NewKeyGenerator(x.params)
			k.rlk[n] = kg.GenRelinearizationKey(sk, kg.GenSecretKey(n))
			k.cjk[n] = kg.GenConjugationKey(sk)
			k.rot[n] = map[int]*mkrlwe.RotationKey{}
			for r := 1; r < x.n/2; r *= 2 {
				k.rot[n][r] = kg.GenRotationKey(r, sk)
			}
		}
		rlks.AddRelinearizationKey(k.rlk[n])
		cks.AddConjugationKey(k.cjk[n])
		for _, rk := range k.rot[n] {
			rks.AddRotationKey(rk)
		}
	}
	return rlks, rks, cks
}

// ---------------------------------------------------------------- E02

func e02Ckks(c *C) {
	x := smallCkks(c, 2)
	names := drawParties(c, "parties", 2, 4)
	enc := x.encryptor(c)
	w := newWorld(c, x, names)
	for _, n := range names {
		w.join(n)
	}
	o := &objs{kev: w.eval, kdec: w.dec, rlks: w.rlks, rks: w.rks, cks: w.cks, sks: w.sks}
	p := x.drawPool(c, enc, names, 4)
	served, joint := 0, false
	for k := c.Int("steps", 4, 12); k > 0; k-- {
		switch c.Idx("disturb", 6) {
		case 0: // keys of parties come and go
			n := names[c.Idx("who", len(names))]
			w.leave(n)
			w.join(n)
			c.Note("rejoin")
		case 1: // an unrelated party comes
			n := partyPool[c.Idx("who", len(partyPool))]
			w.join(n)
		case 2:
			if t := p.cts[c.Idx("dec", len(p.cts))]; true {
				x.verifyWith(c, "ciphertext decrypted in between", t, w.dec, w.sks)
			}
		}
		q := p.draw(c, ckksCalls)
		if q == nil {
			continue
		}
		c.Note("%s", q.name)
		res := q.run(o)
		f := x.newObjs(q.ids...)
		ref := q.run(f)
		if d := x.sameResult(q, res, ref); d != "" {
			c.Fatalf("%s on long-lived objects (after %d calls) and on new ones: %s [%s]", q.name, served, d, x.cfg.name)
		}
		if q.kt != nil {
			q.kt.ct = res.(*mkckks.Ciphertext)
			x.wellFormed(c, q.name, q.kt)
			m1 := w.dec.Decrypt(q.kt.ct, w.sks)
			m2 := f.kdec.Decrypt(q.kt.ct, f.sks)
			if d := x.sameResult(q, m1, m2); d != "" {
				c.Fatalf("decrypting the result of %s with a long-lived and a new decryptor: %s", q.name, d)
			}
			x.compare(c, q.name, q.kt, m1.Value)
			p.put(c, q.kt)
		}
		if h, ok := res.(*mkrlwe.HoistedCiphertext); ok {
			p.forms[q.ins[0].(*mkckks.Ciphertext)] = h
		}
		served++
		switch c.Idx("again", 4) {
		case 0: // the same objects with other contents
			back := refilled(q.ins, x.params.Q(), x.params.P(), c.Seed("refill"))
			d := x.sameResult(q, q.run(o), q.run(x.newObjs(q.ids...)))
			back()
			if d != "" {
				c.Fatalf("%s on operands whose contents were replaced, on long-lived objects and on new ones: %s [%s]", q.name, d, x.cfg.name)
			}
			c.Class("again: contents replaced")
		case 1: // a party renews its keys
			if len(q.ids) == 0 {
				break
			}
			n, m := q.ids[c.Idx("renew", len(q.ids))], partyPool[c.Idx("by", len(partyPool))]
			f := x.newObjs(q.ids...)
			x.giveKeys(o, n, m, w.rots)
			x.giveKeys(f, n, m, w.rots)
			d := x.sameResult(q, q.run(o), q.run(f))
			x.giveKeys(o, n, n, w.rots)
			if d != "" {
				c.Fatalf("%s after replacing the keys of a party, on long-lived objects and on new ones: %s [%s]", q.name, d, x.cfg.name)
			}
			c.Class("again: keys replaced")
		case 2: // a party takes its keys back: whoever refuses the call, both do
			if len(q.ids) == 0 {
				break
			}
			n := q.ids[c.Idx("withdraw", len(q.ids))]
			f := x.newObjs(minus(q.ids, []string{n})...)
			w.leave(n)
			d := x.sameOutcome(q, func() interface{} { return q.run(o) }, func() interface{} { return q.run(f) })
			if ct, ok := res.(*mkckks.Ciphertext); ok && d == "" {
				d = x.sameOutcome(q, func() interface{} { return o.kdec.Decrypt(ct, o.sks) }, func() interface{} { return f.kdec.Decrypt(ct, f.sks) })
			}
			w.join(n)
			if d != "" {
				c.Fatalf("%s after a party has taken its keys back, on long-lived objects and on new ones: %s [%s]", q.name, d, x.cfg.name)
			}
			c.Class("again: keys withdrawn")
		}
		joint = joint || len(q.ids) >= 2
		c.Class("op %s", q.name)
	}
	c.Nontrivial(served > 4 && joint)
}

// sameOutcome compares two runs of a call either of which may be refused.
func (x *ckksCtx) sameOutcome(q *call, f, g func() interface{}) string {
	var a, b interface{}
	p1, _ := panics(func() { a = f() })
	p2, _ := panics(func() { b = g() })
	if p1 != p2 {
		return fmt.Sprintf("refused=%v and refused=%v", p1, p2)
	}
	if p1 {
		return ""
	}
	return x.sameResult(q, a, b)
}

func (x *bfvCtx) sameOutcome(f, g func() interface{}) string {
	var a, b interface{}
	p1, _ := panics(func() { a = f() })
	p2, _ := panics(func() { b = g() })
	if p1 != p2 {
		return fmt.Sprintf("refused=%v and refused=%v", p1, p2)
	}
	if p1 {
		return ""
	}
	return x.sameResult(a, b)
}

func e02Bfv(c *C) {
	x := smallBfv(c, 2)
	names := drawParties(c, "parties", 2, 4)
	enc := x.encryptor(c)
	o := x.newObjs(names...)
	p := x.drawPool(c, enc, names, 4)
	served, joint := 0, false
	for k := c.Int("steps", 4, 10); k > 0; k-- {
		switch c.Idx("disturb", 5) {
		case 0:
			n := names[c.Idx("who", len(names))]
			o.brlks.DelRelinearizationKey(n)
			o.cks.DelConjugationKey(n)
			o.sks.DelSecretKey(n)
			o.brlks.AddRelinearizationKey(x.rlk(n))
			o.cks.AddConjugationKey(x.cjk(n))
			o.sks.AddSecretKey(x.party(n).sk)
		case 1:
			n := partyPool[c.Idx("who", len(partyPool))]
			o.brlks.AddRelinearizationKey(x.rlk(n))
			o.sks.AddSecretKey(x.party(n).sk)
		}
		q := p.draw(c, bfvCalls)
		if q == nil {
			continue
		}
		c.Note("%s", q.name)
		res := q.run(o)
		f := x.newObjs(q.ids...)
		ref := q.run(f)
		if d := x.sameResult(res, ref); d != "" {
			c.Fatalf("%s on long-lived objects (after %d calls) and on new ones: %s [%s]", q.name, served, d, x.cfg.name)
		}
		if q.bt != nil {
			q.bt.ct = res.(*mkbfv.Ciphertext)
			x.verifyWith(c, q.name, q.bt, o.bdec, o.sks)
			if d := x.sameResult(o.bdec.Decrypt(q.bt.ct, o.sks), f.bdec.Decrypt(q.bt.ct, f.sks)); d != "" {
				c.Fatalf("decrypting the result of %s with a long-lived and a new decryptor: %s", q.name, d)
			}
			p.put(c, q.bt)
		}
		served++
		switch c.Idx("again", 4) {
		case 0:
			back := refilled(q.ins, x.lit.Q, x.lit.P, c.Seed("refill"))
			d := x.sameResult(q.run(o), q.run(x.newObjs(q.ids...)))
			back()
			if d != "" {
				c.Fatalf("%s on operands whose contents were replaced, on long-lived objects and on new ones: %s [%s]", q.name, d, x.cfg.name)
			}
			c.Class("again: contents replaced")
		case 1:
			if len(q.ids) == 0 {
				break
			}
			n, m := q.ids[c.Idx("renew", len(q.ids))], partyPool[c.Idx("by", len(partyPool))]
			f := x.newObjs(q.ids...)
			x.giveKeys(o, n, m)
			x.giveKeys(f, n, m)
			d := x.sameResult(q.run(o), q.run(f))
			x.giveKeys(o, n, n)
			if d != "" {
				c.Fatalf("%s after replacing the keys of a party, on long-lived objects and on new ones: %s [%s]", q.name, d, x.cfg.name)
			}
			c.Class("again: keys replaced")
		case 2: // a party takes its keys back: whoever refuses the call, both do
			if len(q.ids) == 0 {
				break
			}
			n := q.ids[c.Idx("withdraw", len(q.ids))]
			f := x.newObjs(minus(q.ids, []string{n})...)
			o.brlks.DelRelinearizationKey(n)
			o.cks.DelConjugationKey(n)
			o.sks.DelSecretKey(n)
			for _, k := range x.rots() {
				o.rks.DelRotationKey(n, uint(k))
			}
			d := x.sameOutcome(func() interface{} { return q.run(o) }, func() interface{} { return q.run(f) })
			if ct, ok := res.(*mkbfv.Ciphertext); ok && d == "" {
				d = x.sameOutcome(func() interface{} { return o.bdec.Decrypt(ct, o.sks) }, func() interface{} { return f.bdec.Decrypt(ct, f.sks) })
			}
			x.giveKeys(o, n, n)
			if d != "" {
				c.Fatalf("%s after a party has taken its keys back, on long-lived objects and on new ones: %s [%s]", q.name, d, x.cfg.name)
			}
			c.Class("again: keys withdrawn")
		}
		joint = joint || len(q.ids) >= 2
		c.Class("op %s", q.name)
	}
	c.Nontrivial(served > 4 && joint)
}

// e02Enc: a long-lived encryptor and messages of any length, levels, scales, receivers.
func e02Enc(c *C) {
	x := smallCkks(c, 1)
	enc := x.encryptor(c)
	names := drawParties(c, "parties", 1, 3)
	dec := mkckks.NewDecryptor(x.params)
	sks := x.skSet(names...)
	by := map[string]string{} // whose key pair each name uses
	for _, n := range names {
		by[n] = n
	}
	L := x.params.MaxLevel()
	roomy := x.cap(L, x.defScale()) >= 16
	n := c.Int("calls", 2, 8)
	short := false
	for k := 0; k < n; k++ {
		who := names[c.Idx("who", len(names))]
		if c.OneIn("renewed", 4) {
			by[who] = partyPool[c.Idx("by", len(partyPool))]
			sks.AddSecretKey(skAs(x.party(by[who]).sk, who))
		}
		pk := x.party(who).pk
		if by[who] != who {
			pk = pkAs(x.party(by[who]).pk, who)
		}
		size := x.slots()
		if c.Bool("short") {
			size = 1 + c.Idx("size", x.slots())
			short = true
		}
		v := genMsg(c, "m", size, 4)
		t := &tct{val: append(clone(v), make([]complex128, x.slots()-size)...), scale: x.defScale(), level: L, ids: []string{who}}
		op := pick(c, "op", []string{"new", "into", "ptxt", "lowinto", "encode"})
		if !roomy {
			op = "ptxt"
		}
		msg := x.message(c, v)
		msg.Value = msg.Value[:size]
		var lvl int
		switch op {
		case "new":
			t.ct = enc.EncryptMsgNew(msg, pk)
		case "into":
			t.ct = mkckks.NewCiphertext(x.params, idset(who), L, 7)
			enc.EncryptMsg(msg, pk, t.ct)
		case "lowinto": // receiver at a lower level
			for lvl = 0; x.cap(lvl, x.defScale()) < 16; lvl++ {
			}
			lvl += c.Idx("lvl", L-lvl+1)
			t.level = lvl
			t.ct = mkckks.NewCiphertext(x.params, idset(who), lvl, 7)
			enc.EncryptMsg(msg, pk, t.ct)
		case "ptxt":
			t.level, t.scale = x.drawLevelScale(c, "at")
			t.ct = mkckks.NewCiphertext(x.params, idset(who), L, 7)
			enc.EncryptPtxt(x.plaintext(c, t.val, t.level, t.scale, c.Bool("ntt")), pk, t.ct)
		case "encode":
			t.ct = mkckks.NewCiphertext(x.params, idset(who), L, 7)
			enc.EncryptPtxt(enc.EncodeMsgNew(msg), pk, t.ct)
		}
		t.eps = x.noise().fresh()/t.scale + x.flt(maxAbs(t.val))
		x.verifyWith(c, fmt.Sprintf("encryption-%s number %d", op, k), t, dec, sks)
		x.verifyWith(c, fmt.Sprintf("encryption-%s number %d (new decryptor)", op, k), t, mkckks.NewDecryptor(x.params), sks)
		c.Class("op %s short=%v", op, size < x.slots())
	}
	c.Nontrivial(n > 4 && short && len(names) > 1)
}

func e02EncBfv(c *C) {
	x := smallBfv(c, 1)
	enc := x.encryptor(c)
	names := drawParties(c, "parties", 1, 3)
	dec := mkbfv.NewDecryptor(x.params)
	sks := x.skSet(names...)
	n := c.Int("calls", 2, 8)
	short := false
	var pt *bfv.Plaintext
	for k := 0; k < n; k++ {
		who := names[c.Idx("who", len(names))]
		full := x.genMsg(c, "m")
		size := len(full)
		if c.Bool("short") {
			size = 1 + c.Idx("size", len(full))
			short = true
		}
		t := &bct{val: make([]int64, len(full)), noise: x.nFresh() + 2, ids: []string{who}}
		for i := 0; i < size; i++ {
			t.val[i] = x.cent(full[i])
		}
		msg := x.message(c, full)
		msg.Value = msg.Value[:size]
		pk := x.party(who).pk
		switch c.Idx("op", 3) {
		case 0:
			t.ct = mkbfv.NewCiphertext(x.params, idset(who))
			enc.EncryptMsg(msg, pk, t.ct)
		case 1:
			t.ct = enc.EncryptMsgNew(msg, pk)
		case 2:
			p := newBfvPlaintext(x, t.val)
			if pt == nil {
				pt = p
			}
			for i := range p.Value.Coeffs {
				copy(pt.Value.Coeffs[i], p.Value.Coeffs[i])
			}
			t.ct = mkbfv.NewCiphertext(x.params, idset(who))
			enc.EncryptPtxt(pt, pk, t.ct)
		}
		x.verifyWith(c, fmt.Sprintf("encryption number %d", k), t, dec, sks)
		x.verify(c, fmt.Sprintf("encryption number %d (new decryptor)", k), t)
		if c.OneIn("renewed", 4) { // an encryption under a renewed key of the same party
			m := partyPool[c.Idx("by", len(partyPool))]
			u := enc.EncryptMsgNew(msg, pkAs(x.party(m).pk, who))
			alone := mkrlwe.NewSecretKeySet()
			alone.AddSecretKey(skAs(x.party(m).sk, who))
			if got := mkbfv.NewDecryptor(x.params).Decrypt(u, alone).Value; !sameCent(x, got, t.val) {
				c.Fatalf("encryption number %d under a renewed key of %q does not decrypt with the new secret key [%s]", k, who, x.cfg.name)
			}
			if got := dec.Decrypt(u, alone).Value; !sameCent(x, got, t.val) {
				c.Fatalf("encryption number %d under a renewed key of %q does not decrypt with the new secret key on a long-lived decryptor [%s]", k, who, x.cfg.name)
			}
		}
	}
	c.Nontrivial(n > 4 && short && len(names) > 1)
}

func sameCent(x *bfvCtx, a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if x.cent(a[i]) != x.cent(b[i]) {
			return false
		}
	}
	return true
}

// e02Generic: one key switcher, decryptor and key sets for calls at changing levels.
func e02Generic(c *C) {
	x := drawR(c)
	if x.cfg.gamma != 2 || x.n > 128 {
		c.Discard("two secrets per block only")
	}
	names := drawParties(c, "parties", 2, 3)
	ks := mkrlwe.NewKeySwitcher(x.params)
	dec := mkrlwe.NewDecryptor(x.params)
	rlks, rks, cks := x.keySets(names)
	L := len(x.Q) - 1
	served := 0
	for k := c.Int("steps", 3, 9); k > 0; k-- {
		level := c.Int("level", 0, L)
		la, lb := level+c.Idx("up", L-level+1), level+c.Idx("up2", L-level+1)
		as, bs := subset(c, "as", names), subset(c, "bs", names)
		a, _ := x.genCt(c, "a", as, la, false)
		b, _ := x.genCt(c, "b", bs, lb, false)
		op := pick(c, "op", []string{"mul", "hmul", "rot", "hrot", "conj", "ext", "dec", "decntt"})
		r := 1 << c.Idx("r", x.params.LogN()-1)
		crs := pick(c, "crs", []int{0, -1, -2, 1})
		turn, fill := turns(c, "turn", x, r), c.Bool("receiver")
		first := true
		receiver := func(ids *mkrlwe.IDSet, level int) *mkrlwe.Ciphertext {
			out := mkrlwe.NewCiphertext(x.params, ids, level)
			if fill && first {
				for id, p := range out.Value {
					garbage(p, x.Q, mixSeed(uint64(served), id))
				}
			}
			return out
		}
		run := func(ks *mkrlwe.KeySwitcher, dec *mkrlwe.Decryptor, rlks *mkrlwe.RelinearizationKeySet, rks *mkrlwe.RotationKeySet, cks *mkrlwe.ConjugationKeySet) *mkrlwe.Ciphertext {
			at := r
			if first {
				at = turn
			}
			form := func(ct *mkrlwe.Ciphertext) *mkrlwe.HoistedCiphertext {
				h := mkrlwe.NewHoistedCiphertext()
				for id := range ct.IDSet().Value {
					h.Value[id] = mkrlwe.NewSwitchingKey(x.params)
					ks.Decompose(level, ct.Value[id], h.Value[id])
				}
				return h
			}
			switch op {
			case "mul":
				out := receiver(idset(union(as, bs)...), level)
				ks.MulAndRelin(a, b, rlks, out)
				return out
			case "hmul":
				out := receiver(idset(union(as, bs)...), level)
				ks.MulAndRelinHoisted(a, b, form(a), form(b), rlks, out)
				return out
			case "rot":
				out := receiver(idset(as...), la)
				ks.Rotate(a, at, rks, out)
				return out
			case "hrot":
				level = la
				out := receiver(idset(as...), la)
				ks.RotateHoisted(a, at, form(a), rks, out)
				return out
			case "conj":
				out := receiver(idset(as...), level)
				ks.Conjugate(a, cks, out)
				return out
			case "ext":
				out := receiver(idset(), level)
				ks.ExternalProduct(level, a.Value[as[0]], x.params.CRS[crs], out.Value["0"])
				return out
			default:
				pt := rlwe.NewPlaintext(x.params.Parameters, level)
				pt.Value.IsNTT = op == "decntt"
				dec.Decrypt(a, x.skSet(as...), pt)
				return &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"0": pt.Value}}
			}
		}
		res := run(ks, dec, rlks, rks, cks)
		first = false
		f1, f2, f3 := x.keySets(union(as, bs))
		ref := run(mkrlwe.NewKeySwitcher(x.params), mkrlwe.NewDecryptor(x.params), f1, f2, f3)
		if d := sameGen(res, ref, x.Q); d != "" {
			c.Fatalf("%s at level %d on a long-lived key switcher (after %d calls) and on a new one: %s [%s]", op, level, served, d, x.cfg.name)
		}
		served++
		c.Class("op %s", op)
	}
	c.Nontrivial(served > 4)
}

// e02Parallel: independent working objects may be used at the same time on shared ciphertexts and keys.
func e02Parallel(c *C) {
	if c.Bool("bfv") {
		x := smallBfv(c, 1)
		names := drawParties(c, "parties", 2, 3)
		p := x.drawPool(c, x.encryptor(c), names, 3)
		var qs []*call
		for k := c.Int("calls", 3, 6); k > 0; k-- {
			if q := p.draw(c, bfvCalls); q != nil {
				qs = append(qs, q)
			}
		}
		parallel(c, qs, func() *objs { return x.newObjs(names...) }, func(q *call, a, b interface{}) string { return x.sameResult(a, b) })
		return
	}
	x := smallCkks(c, 1)
	names := drawParties(c, "parties", 2, 3)
	p := x.drawPool(c, x.encryptor(c), names, 3)
	var qs []*call
	for k := c.Int("calls", 3, 6); k > 0; k-- {
		if q := p.draw(c, ckksCalls); q != nil {
			qs = append(qs, q)
		}
	}
	parallel(c, qs, func() *objs { return x.newObjs(names...) }, x.sameResult)
}

func parallel(c *C, qs []*call, mk func() *objs, same func(q *call, a, b interface{}) string) {
	if len(qs) < 2 {
		c.Discard("too few calls")
	}
	const workers = 4
	ref := make([]interface{}, len(qs))
	o := mk()
	for i, q := range qs {
		ref[i] = q.run(o)
	}
	got := make([][]interface{}, workers)
	os := make([]*objs, workers)
	for w := range os {
		os[w] = mk()
		got[w] = make([]interface{}, len(qs))
	}
	var wg sync.WaitGroup
	failed := make([]interface{}, workers)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() { failed[w] = recover() }()
			for i := range qs {
				j := (i + w) % len(qs)
				got[w][j] = qs[j].run(os[w])
			}
		}(w)
	}
	wg.Wait()
	for w := range got {
		if failed[w] != nil {
			c.Fatalf("a call on objects of its own failed while others were running: %v", failed[w])
		}
		for i, q := range qs {
			if d := same(q, ref[i], got[w][i]); d != "" {
				c.Fatalf("%s alone and next to others (on objects of its own): %s", q.name, d)
			}
		}
	}
	c.Nontrivial(len(qs) > 3)
}

// ---------------------------------------------------------------- E03

func e03Mul(c *C) {
	x := smallCkks(c, 1)
	names := drawParties(c, "parties", 1, 3)
	enc := x.encryptor(c)
	p := x.drawPool(c, enc, names, 3)
	o := x.newObjs(names...)
	other := x.newObjs(names...)
	rich := false
	for k := c.Int("pairs", 1, 3); k > 0; k-- {
		a, b := p.arg(c, "a"), p.arg(c, "b")
		t, ok := x.mMul(a, b)
		if !ok {
			continue
		}
		form := func(l string, u *tct) *mkrlwe.HoistedCiphertext {
			switch c.Idx(l, 4) {
			case 0:
				return nil
			case 1:
				return other.kev.HoistedForm(u.ct)
			case 2:
				if h := p.forms[u.ct]; h != nil {
					rich = true
					return h
				}
				fallthrough
			default:
				p.forms[u.ct] = o.kev.HoistedForm(u.ct)
				return p.forms[u.ct]
			}
		}
		ha, hb := form("ha", a), form("hb", b)
		if c.Bool("between") { // the evaluator does something else before the forms are used
			if q := p.draw(c, ckksCalls); q != nil {
				q.run(o)
			}
		}
		ref := o.kev.MulRelinNew(a.ct, b.ct, o.rlks)
		ev := o
		if c.Bool("other") {
			ev = other
		}
		got := ev.kev.MulRelinHoistedNew(a.ct, b.ct, ha, hb, ev.rlks)
		what := fmt.Sprintf("hoisted product (forms %v %v)", ha != nil, hb != nil)
		if a.level == b.level {
			if got.Scale != ref.Scale {
				c.Fatalf("%s: scale %g, the ordinary product has %g", what, got.Scale, ref.Scale)
			}
			if d := sameGen(got.Ciphertext, ref.Ciphertext, x.params.Q()); d != "" {
				c.Fatalf("%s differs from the ordinary one: %s [%s, levels %d %d, parties %q %q]", what, d, x.cfg.name, a.level, b.level, a.ids, b.ids)
			}
		}
		for i, ct := range []*mkckks.Ciphertext{ref, got} {
			u := *t
			u.ct = ct
			x.verify(c, []string{"ordinary", "hoisted"}[i]+" product", &u)
		}
		rich = rich || len(t.ids) >= 2 || a.level != b.level
		c.Class("forms %v %v same=%v level=%v", ha != nil, hb != nil, a == b, a.level == b.level)
		u := *t
		u.ct = got
		p.put(c, &u)
	}
	c.Nontrivial(rich)
}

func e03Rot(c *C) {
	x := smallCkks(c, 2)
	names := drawParties(c, "parties", 1, 3)
	enc := x.encryptor(c)
	p := x.drawPool(c, enc, names, 2)
	o := x.newObjs(names...)
	other := x.newObjs(names...)
	n2 := x.params.N() / 2
	rs := []int{0}
	for r := 1; r < n2; r *= 2 {
		rs = append(rs, r)
	}
	rs = append(rs, x.extra...)
	a := p.arg(c, "a")
	h := o.kev.HoistedForm(a.ct)
	uses := 0
	for k := c.Int("amounts", 1, 4); k > 0; k-- {
		r := rs[c.Idx("r", len(rs))] + n2*(c.Idx("wrap", 4)-1)
		c.Note("by %d", r)
		if c.Bool("between") {
			if q := p.draw(c, ckksCalls); q != nil {
				q.run(o)
			}
		}
		ref := other.kev.RotateNew(a.ct, r, other.rks)
		ev := o
		if c.Bool("other") {
			ev = other
		}
		got := ev.kev.RotateHoistedNew(a.ct, r, h, ev.rks)
		if got.Scale != ref.Scale {
			c.Fatalf("hoisted rotation by %d: scale %g, the ordinary one has %g", r, got.Scale, ref.Scale)
		}
		if d := sameGen(got.Ciphertext, ref.Ciphertext, x.params.Q()); d != "" {
			c.Fatalf("hoisted rotation by %d differs from the ordinary one: %s [%s level %d parties %q]", r, d, x.cfg.name, a.level, a.ids)
		}
		t := x.mRot(a, r)
		t.ct = got
		x.verify(c, "hoisted rotation", t)
		uses++
	}
	c.Class("uses %d", uses)
	c.Nontrivial(uses > 1 || len(a.ids) >= 2)
}

func e03Generic(c *C) {
	x := drawR(c)
	if x.cfg.gamma != 2 || x.n > 128 {
		c.Discard("two secrets per block only")
	}
	e03GenericOn(c, x, drawParties(c, "parties", 1, 3), c.Int("steps", 1, 4))
}

// usedReceiver may fill a receiver with values of an earlier use, which a call overwrites.
func usedReceiver(c *C, x *rctx, ct *mkrlwe.Ciphertext) {
	if !c.Bool("receiver") {
		return
	}
	for id, p := range ct.Value {
		garbage(p, x.Q, mixSeed(77, id))
	}
}

// turns names the rotation by r (0 < r < N/2) directly or by one of its negative amounts.
func turns(c *C, label string, x *rctx, r int) int {
	return r - c.Idx(label, 3)*(x.n/2)
}

func e03GenericOn(c *C, x *rctx, names []string, steps int) {
	ks, ks2 := mkrlwe.NewKeySwitcher(x.params), mkrlwe.NewKeySwitcher(x.params)
	rlks, rks, _ := x.keySets(names)
	L := len(x.Q) - 1
	level := c.Int("level", 0, L)
	la, lb := level+c.Idx("up", L-level+1), level+c.Idx("up2", L-level+1)
	as, bs := subset(c, "as", names), subset(c, "bs", names)
	a, _ := x.genCt(c, "a", as, la, false)
	b, _ := x.genCt(c, "b", bs, lb, false)
	form := func(ks *mkrlwe.KeySwitcher, ct *mkrlwe.Ciphertext) *mkrlwe.HoistedCiphertext {
		h := mkrlwe.NewHoistedCiphertext()
		for id := range ct.IDSet().Value {
			h.Value[id] = mkrlwe.NewSwitchingKey(x.params)
			if c.Bool("used") { // the receiver of a decomposition need not be empty
				for i := range h.Value[id].Value {
					garbage(h.Value[id].Value[i].Q, x.Q, 5)
					garbage(h.Value[id].Value[i].P, x.P, 6)
				}
			}
			ks.Decompose(level, ct.Value[id], h.Value[id])
		}
		return h
	}
	ha, hb := form(ks, a), form(ks2, b)
	for k := steps; k > 0; k-- {
		op := pick(c, "op", []string{"mul", "square", "rot", "ext"})
		switch op {
		case "mul", "square":
			u, us, hu := b, bs, hb
			if op == "square" {
				u, us, hu = a, as, ha
			}
			ids := idset(union(as, us)...)
			o1, o2 := mkrlwe.NewCiphertext(x.params, ids, level), mkrlwe.NewCiphertext(x.params, ids, level)
			usedReceiver(c, x, o1)
			usedReceiver(c, x, o2)
			ks.MulAndRelin(a, u, rlks, o1)
			h1, h2 := ha, hu
			if c.OneIn("no1", 3) {
				h1 = nil
			}
			if c.OneIn("no2", 3) {
				h2 = nil
			}
			ks2.MulAndRelinHoisted(a, u, h1, h2, rlks, o2)
			if d := sameGen(o1, o2, x.Q); d != "" {
				c.Fatalf("%s: hoisted product (forms %v %v) at level %d differs from the ordinary one: %s", x.cfg.name, h1 != nil, h2 != nil, level, d)
			}
		case "rot":
			r := 1 << c.Idx("r", x.params.LogN()-1)
			o1, o2 := mkrlwe.NewCiphertext(x.params, idset(as...), level), mkrlwe.NewCiphertext(x.params, idset(as...), level)
			if la != level {
				continue
			}
			usedReceiver(c, x, o1)
			usedReceiver(c, x, o2)
			ks.Rotate(a, turns(c, "t1", x, r), rks, o1)
			ks2.RotateHoisted(a, turns(c, "t2", x, r), ha, rks, o2)
			if d := sameGen(o1, o2, x.Q); d != "" {
				c.Fatalf("%s: hoisted rotation by %d at level %d differs from the ordinary one: %s", x.cfg.name, r, level, d)
			}
		case "ext":
			id := as[c.Idx("id", len(as))]
			crs := pick(c, "crs", []int{0, -1, -2, -3, -4, 1})
			p1, p2 := ring.NewPoly(x.n, level+1), ring.NewPoly(x.n, level+1)
			ks.ExternalProduct(level, a.Value[id], x.params.CRS[crs], p1)
			ks2.ExternalProductHoisted(level, ha.Value[id], x.params.CRS[crs], p2)
			if !polyEq(p1, p2, x.Q[:level+1]) {
				c.Fatalf("%s: the hoisted external product at level %d differs from the ordinary one", x.cfg.name, level)
			}
		}
		c.Class("op %s", op)
	}
	c.Nontrivial(len(union(as, bs)) >= 2 || la != lb)
}

func e03Bfv(c *C) {
	e03BfvOn(c, smallBfv(c, 1), drawParties(c, "parties", 1, 3), c.Int("pairs", 1, 2))
}

func e03BfvOn(c *C, x *bfvCtx, names []string, pairs int) {
	enc := x.encryptor(c)
	p := x.drawPool(c, enc, names, 2)
	ks, ks2 := mkbfv.NewKeySwitcher(x.params), mkbfv.NewKeySwitcher(x.params)
	ev := mkbfv.NewEvaluator(x.params)
	rlks := x.rlkSet(names...)
	conv := x.conv()
	L := x.params.MaxLevel()
	rich := false
	for k := pairs; k > 0; k-- {
		a, b := p.arg(c, "a"), p.arg(c, "b")
		t := x.mMul(a, b)
		if !x.fits(t.noise) {
			continue
		}
		a0, b0 := mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}, mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}
		for id, q := range a.ct.Value {
			a0.Value[id] = x.params.RingR().NewPoly()
			conv.ModUpQtoR(q, a0.Value[id])
		}
		for id, q := range b.ct.Value {
			b0.Value[id] = x.params.RingR().NewPoly()
			conv.Rescale(q, b0.Value[id])
		}
		form := func(ct *mkrlwe.Ciphertext) (h1, h2 *mkrlwe.HoistedCiphertext) {
			h1, h2 = mkrlwe.NewHoistedCiphertext(), mkrlwe.NewHoistedCiphertext()
			for id := range ct.IDSet().Value {
				h1.Value[id] = mkrlwe.NewSwitchingKey(x.params.Parameters)
				h2.Value[id] = mkrlwe.NewSwitchingKey(x.params.Parameters)
				ks.DecomposeBFV(L, ct.Value[id], h1.Value[id], h2.Value[id])
			}
			return
		}
		ids := idset(t.ids...)
		ref := ev.MulRelinNew(a.ct, b.ct, rlks)
		o1, o2 := mkbfv.NewCiphertext(x.params, ids), mkbfv.NewCiphertext(x.params, ids)
		ks.MulAndRelinBFV(&a0, &b0, rlks, o1.Ciphertext)
		ha1, ha2 := form(&a0)
		hb1, hb2 := form(&b0)
		if c.OneIn("no1", 3) {
			ha1, ha2 = nil, nil
		}
		if c.OneIn("no2", 3) {
			hb1, hb2 = nil, nil
		}
		ks2.MulAndRelinBFVHoisted(&a0, &b0, ha1, ha2, hb1, hb2, rlks, o2.Ciphertext)
		if d := sameGen(o1.Ciphertext, ref.Ciphertext, x.lit.Q); d != "" {
			c.Fatalf("%s: the key switcher's product differs from the evaluator's: %s", x.cfg.name, d)
		}
		if d := sameGen(o2.Ciphertext, ref.Ciphertext, x.lit.Q); d != "" {
			c.Fatalf("%s: hoisted product (forms %v %v) differs from the ordinary one: %s", x.cfg.name, ha1 != nil, hb1 != nil, d)
		}
		t.ct = o2
		x.verify(c, "hoisted product", t)
		// external products
		if len(a.ids) > 0 {
			id := a.ids[c.Idx("id", len(a.ids))]
			k1, k2 := x.rlk(id).Value[0].Value[1], x.rlk(id).Value[1].Value[1]
			q1, q2 := x.params.RingQ().NewPoly(), x.params.RingQ().NewPoly()
			h1, h2 := form(&a0)
			ks.ExternalProductBFV(L, a0.Value[id], k1, k2, q1)
			ks2.ExternalProductBFVHoisted(L, h1.Value[id], h2.Value[id], k1, k2, q2)
			if !polyEq(q1, q2, x.lit.Q) {
				c.Fatalf("%s: the hoisted external product differs from the ordinary one", x.cfg.name)
			}
		}
		rich = rich || len(t.ids) >= 2
		c.Class("forms %v %v same=%v", ha1 != nil, hb1 != nil, a == b)
	}
	c.Nontrivial(rich)
}

// ---------------------------------------------------------------- I01

// refused runs a request that must be turned down.
func refused(c *C, what string, f func() interface{}) {
	var v interface{}
	if p, _ := panics(func() { v = f() }); p {
		return
	}
	if _, ok := v.(error); ok {
		return
	}
	c.Fatalf("%s: accepted, result %T", what, v)
}

// without names the parties of a key set in which who has no key: who was never added, the set is
// empty, or it holds the keys of others only. An empty mode stands for a key that was deleted.
func without(c *C, names []string, who string) (mode string, rest []string) {
	switch mode = pick(c, "absent", []string{"deleted", "never", "empty", "others"}); mode {
	case "never":
		rest = minus(names, []string{who})
	case "others":
		rest = append(minus(names, []string{who}), "stranger")
	}
	return mode, rest
}

func i01Ckks(c *C) {
	x := smallCkks(c, 2)
	names := drawParties(c, "parties", 1, 3)
	enc := x.encryptor(c)
	p := x.drawPool(c, enc, names, 3)
	o := x.newObjs(names...)
	x.newObjs("stranger") // all its keys, before they are watched
	stranger := x.party("stranger").sk
	n2 := x.params.N() / 2
	done := 0
	for k := c.Int("steps", 1, 4); k > 0; k-- {
		a := p.arg(c, "a")
		if len(a.ids) == 0 {
			a = p.cts[0]
		}
		if c.Bool("dirty") {
			if q := p.draw(c, ckksCalls); q != nil {
				q.run(o)
			}
		}
		w := &watch{}
		w.add("an operand", a.ct)
		w.add("a key", x.parties)
		w.add("a common reference string", x.params.CRS)
		who := a.ids[c.Idx("victim", len(a.ids))]
		op := pick(c, "op", []string{"mul", "hmul", "rot", "rot", "hrot", "hrotnokey", "conj", "dec", "keygen", "rescale0", "badmin", "partial"})
		h := o.kev.HoistedForm(a.ct)
		delRlk := func() { o.rlks.DelRelinearizationKey(who) }
		addRlk := func() { o.rlks.AddRelinearizationKey(x.rlk(who)) }
		mode, rest := without(c, names, who)
		if mode != "deleted" {
			delRlk = func() { o.rlks = x.rlkSet(rest...) }
			addRlk = func() { o.rlks = x.rlkSet(names...) }
		}
		switch op {
		case "mul", "hmul":
			b := p.arg(c, "b")
			t, ok := x.mMul(a, b)
			if !ok {
				continue
			}
			w.add("the other operand", b.ct)
			l, r := a, b
			if c.Bool("swap") {
				l, r = b, a
			}
			run := func() *mkckks.Ciphertext {
				if op == "mul" {
					return o.kev.MulRelinNew(l.ct, r.ct, o.rlks)
				}
				return o.kev.MulRelinHoistedNew(l.ct, r.ct, nil, nil, o.rlks)
			}
			delRlk()
			refused(c, fmt.Sprintf("%s without the relinearisation key of %q", op, who), func() interface{} { return run() })
			addRlk()
			t.ct = run()
			x.verifyWith(c, "product after refusal", t, o.kdec, o.sks)
		case "rot", "hrot":
			// an amount with its own string needs its own key, any other the powers of two in it
			amounts := []int{}
			for r := 1; r < n2; r *= 2 {
				amounts = append(amounts, r)
			}
			amounts = append(amounts, x.extra...)
			r := amounts[c.Idx("r", len(amounts))]
			if op == "rot" && c.Bool("composite") {
				r = c.Int("any", 1, n2-1)
			}
			own := r&(r-1) == 0
			for _, e := range x.extra {
				own = own || e == r
			}
			need := r
			if !own {
				var bits []int
				for b := 1; b <= r; b *= 2 {
					if r&b != 0 {
						bits = append(bits, b)
					}
				}
				need = bits[c.Idx("bit", len(bits))]
			}
			run := func() *mkckks.Ciphertext {
				if op == "rot" {
					return o.kev.RotateNew(a.ct, r-n2*c.Idx("wrap", 2), o.rks)
				}
				return o.kev.RotateHoistedNew(a.ct, r, h, o.rks)
			}
			if mode == "deleted" {
				o.rks.DelRotationKey(who, uint(need))
			} else {
				o.rks = x.rotSet(rest...)
			}
			refused(c, fmt.Sprintf("%s by %d without the key of %q for %d (%s)", op, r, who, need, mode), func() interface{} { return run() })
			if mode == "deleted" {
				o.rks.AddRotationKey(x.rotKey(who, need))
			} else {
				o.rks = x.rotSet(names...)
			}
			t := x.mRot(a, r)
			t.ct = run()
			x.verifyWith(c, "rotation after refusal", t, o.kdec, o.sks)
		case "hrotnokey": // hoisted rotation by an amount without a string of its own
			r := c.Int("any", 1, n2-1)
			if x.params.CRS[r] != nil {
				continue
			}
			refused(c, fmt.Sprintf("hoisted rotation by %d (no dedicated key)", r), func() interface{} { return o.kev.RotateHoistedNew(a.ct, r, h, o.rks) })
			t := x.mRot(a, r)
			t.ct = o.kev.RotateNew(a.ct, r, o.rks)
			x.verifyWith(c, "rotation after refusal", t, o.kdec, o.sks)
		case "conj":
			if mode == "deleted" {
				o.cks.DelConjugationKey(who)
			} else {
				o.cks = x.cjkSet(rest...)
			}
			refused(c, fmt.Sprintf("conjugation without the key of %q (%s)", who, mode), func() interface{} { return o.kev.ConjugateNew(a.ct, o.cks) })
			if mode == "deleted" {
				o.cks.AddConjugationKey(x.cjk(who))
			} else {
				o.cks = x.cjkSet(names...)
			}
			t := x.mConj(a)
			t.ct = o.kev.ConjugateNew(a.ct, o.cks)
			x.verifyWith(c, "conjugate after refusal", t, o.kdec, o.sks)
		case "dec":
			if mode == "deleted" {
				o.sks.DelSecretKey(who)
			} else {
				o.sks = x.skSet(rest...)
			}
			refused(c, fmt.Sprintf("decryption without the key of %q (%s)", who, mode), func() interface{} { return o.kdec.Decrypt(a.ct, o.sks) })
			if mode == "deleted" {
				o.sks.AddSecretKey(x.party(who).sk)
			} else {
				o.sks = x.skSet(names...)
			}
		case "partial": // a stranger's contribution
			cp := a.ct.CopyNew()
			refused(c, "a partial decryption by a party that is not involved", func() interface{} {
				o.kdec.PartialDecrypt(cp, stranger)
				return cp
			})
			if d := sameGen(cp.Ciphertext, a.ct.Ciphertext, x.params.Q()); d != "" {
				c.Fatalf("a refused partial decryption changed the ciphertext: %s", d)
			}
		case "keygen":
			r := c.Int("any", 1, n2-1)
			if x.params.CRS[r] != nil {
				continue
			}
			kg := mkckks.NewKeyGenerator(x.params)
			refused(c, fmt.Sprintf("a rotation key for %d (no reference string)", r), func() interface{} { return kg.GenRotationKey(r, x.party(who).sk) })
		case "rescale0":
			if a.level > 0 {
				continue
			}
			refused(c, "rescaling at level 0", func() interface{} {
				_, err := o.kev.RescaleNew(a.ct, x.defScale())
				return err
			})
		case "badmin":
			refused(c, "rescaling towards a non-positive scale", func() interface{} {
				_, err := o.kev.RescaleNew(a.ct, -float64(c.Idx("min", 2)))
				return err
			})
		}
		if d := w.changed(); d != "" {
			c.Fatalf("a refused %s changed %s", op, d)
		}
		x.verifyWith(c, "operand after a refusal", a, o.kdec, o.sks)
		// any valid call afterwards
		if q := p.draw(c, ckksCalls); q != nil {
			res := q.run(o)
			f := x.newObjs(q.ids...)
			if d := x.sameResult(q, res, q.run(f)); d != "" {
				c.Fatalf("%s after a refused %s and on new objects: %s", q.name, op, d)
			}
		}
		done++
		c.Class("refused %s", op)
		c.Class("key %s", mode)
	}
	c.Nontrivial(done > 0)
}

func i01Bfv(c *C) {
	x := smallBfv(c, 2)
	names := drawParties(c, "parties", 1, 3)
	enc := x.encryptor(c)
	p := x.drawPool(c, enc, names, 2)
	o := x.newObjs(names...)
	x.newObjs("stranger") // all its keys, before they are watched
	stranger := x.party("stranger").sk
	done := 0
	for k := c.Int("steps", 1, 3); k > 0; k-- {
		a := p.arg(c, "a")
		if len(a.ids) == 0 {
			a = p.cts[0]
		}
		if c.Bool("dirty") {
			if q := p.draw(c, bfvCalls); q != nil {
				q.run(o)
			}
		}
		w := &watch{}
		w.add("an operand", a.ct)
		w.add("a key", x.parties)
		w.add("a common reference string", x.params.CRS)
		who := a.ids[c.Idx("victim", len(a.ids))]
		op := pick(c, "op", []string{"mul", "rot", "conj", "dec", "partial", "keygen"})
		mode, rest := without(c, names, who)
		switch op {
		case "mul":
			b := p.arg(c, "b")
			t := x.mMul(a, b)
			if !x.fits(t.noise) {
				continue
			}
			l, r := a, b
			if c.Bool("swap") {
				l, r = b, a
			}
			if mode == "deleted" {
				o.brlks.DelRelinearizationKey(who)
			} else {
				o.brlks = x.rlkSet(rest...)
			}
			refused(c, fmt.Sprintf("product without the relinearisation key of %q", who), func() interface{} { return o.bev.MulRelinNew(l.ct, r.ct, o.brlks) })
			if mode == "deleted" {
				o.brlks.AddRelinearizationKey(x.rlk(who))
			} else {
				o.brlks = x.rlkSet(names...)
			}
			t.ct = o.bev.MulRelinNew(l.ct, r.ct, o.brlks)
			x.verifyWith(c, "product after refusal", t, o.bdec, o.sks)
		case "rot":
			rs := x.rots()
			r := rs[c.Idx("r", len(rs))]
			if c.Bool("composite") {
				r = c.Int("any", 1, x.n2-1)
			}
			own := false
			for _, e := range rs {
				own = own || e == r
			}
			need := r
			if !own {
				var bits []int
				for b := 1; b <= r; b *= 2 {
					if r&b != 0 {
						bits = append(bits, b)
					}
				}
				need = bits[c.Idx("bit", len(bits))]
			}
			t := x.mRot(a, r)
			if !x.fits(t.noise) {
				continue
			}
			if mode == "deleted" {
				o.rks.DelRotationKey(who, uint(need))
			} else {
				o.rks = x.rotSet(rest...)
			}
			refused(c, fmt.Sprintf("rotation by %d without the key of %q for %d (%s)", r, who, need, mode), func() interface{} { return o.bev.RotateNew(a.ct, r, o.rks) })
			if mode == "deleted" {
				o.rks.AddRotationKey(x.rotKey(who, need))
			} else {
				o.rks = x.rotSet(names...)
			}
			t.ct = o.bev.RotateNew(a.ct, r, o.rks)
			x.verifyWith(c, "rotation after refusal", t, o.bdec, o.sks)
		case "conj":
			t := x.mConj(a)
			if !x.fits(t.noise) {
				continue
			}
			if mode == "deleted" {
				o.cks.DelConjugationKey(who)
			} else {
				o.cks = x.cjkSet(rest...)
			}
			refused(c, fmt.Sprintf("conjugation without the key of %q (%s)", who, mode), func() interface{} { return o.bev.ConjugateNew(a.ct, o.cks) })
			if mode == "deleted" {
				o.cks.AddConjugationKey(x.cjk(who))
			} else {
				o.cks = x.cjkSet(names...)
			}
			t.ct = o.bev.ConjugateNew(a.ct, o.cks)
			x.verifyWith(c, "conjugate after refusal", t, o.bdec, o.sks)
		case "dec":
			if mode == "deleted" {
				o.sks.DelSecretKey(who)
			} else {
				o.sks = x.skSet(rest...)
			}
			refused(c, fmt.Sprintf("decryption without the key of %q (%s)", who, mode), func() interface{} { return o.bdec.Decrypt(a.ct, o.sks) })
			if mode == "deleted" {
				o.sks.AddSecretKey(x.party(who).sk)
			} else {
				o.sks = x.skSet(names...)
			}
		case "partial":
			cp := a.ct.CopyNew()
			refused(c, "a partial decryption by a party that is not involved", func() interface{} {
				o.bdec.PartialDecrypt(cp, stranger)
				return cp
			})
		case "keygen":
			r := c.Int("any", 1, x.n2-1)
			if x.params.CRS[r] != nil {
				continue
			}
			refused(c, fmt.Sprintf("a rotation key for %d (no reference string)", r), func() interface{} {
				return mkbfv.NewKeyGenerator(x.params).GenRotationKey(r, x.party(who).sk)
			})
		}
		if d := w.changed(); d != "" {
			c.Fatalf("a refused %s changed %s", op, d)
		}
		x.verifyWith(c, "operand after a refusal", a, o.bdec, o.sks)
		if q := p.draw(c, bfvCalls); q != nil {
			res := q.run(o)
			f := x.newObjs(q.ids...)
			if d := x.sameResult(res, q.run(f)); d != "" {
				c.Fatalf("%s after a refused %s and on new objects: %s", q.name, op, d)
			}
		}
		done++
		c.Class("refused %s", op)
		c.Class("key %s", mode)
	}
	c.Nontrivial(done > 0)
}

// i01Generic: the key switcher, at levels of its own choosing.
func i01Generic(c *C) {
	x := drawR(c)
	if x.cfg.gamma != 2 || x.n > 128 || len(x.Q) < 2 {
		c.Discard("two secrets per block only")
	}
	names := drawParties(c, "parties", 1, 3)
	ks := mkrlwe.NewKeySwitcher(x.params)
	x.keySets([]string{"stranger"})
	rlks, rks, cks := x.keySets(names)
	L := len(x.Q) - 1
	done := false
	for k := c.Int("steps", 1, 3); k > 0; k-- {
		low := c.Int("low", 0, L-1)
		out := low + 1 + c.Idx("out", L-low)
		as, bs := subset(c, "as", names), subset(c, "bs", names)
		a, _ := x.genCt(c, "a", as, low, false)
		b, _ := x.genCt(c, "b", bs, out, false)
		w := &watch{}
		w.add("an operand", a)
		w.add("the other operand", b)
		r := 1 << c.Idx("r", x.params.LogN()-1)
		ct := mkrlwe.NewCiphertext(x.params, idset(union(as, bs)...), out)
		ca := mkrlwe.NewCiphertext(x.params, idset(as...), out)
		form := mkrlwe.NewHoistedCiphertext()
		for id := range a.IDSet().Value {
			form.Value[id] = mkrlwe.NewSwitchingKey(x.params)
			ks.Decompose(low, a.Value[id], form.Value[id])
		}
		op := pick(c, "op", []string{"mul", "mulsecond", "hmul", "rot", "hrot", "conj", "rlk", "rotkey", "conjkey", "partial", "dec", "lookup"})
		who := as[c.Idx("victim", len(as))]
		mode, rest := without(c, names, who)
		srlks, srks, scks := rlks, rks, cks
		if mode != "deleted" {
			srlks, srks, scks = x.keySets(rest)
		}
		switch op {
		case "mul":
			refused(c, "a product of an operand of lower level than the result", func() interface{} { ks.MulAndRelin(a, b, rlks, ct); return ct })
		case "mulsecond":
			refused(c, "a product of an operand of lower level than the result", func() interface{} { ks.MulAndRelin(b, a, rlks, ct); return ct })
		case "hmul":
			refused(c, "a hoisted product of an operand of lower level than the result", func() interface{} { ks.MulAndRelinHoisted(a, b, nil, nil, rlks, ct); return ct })
		case "rot":
			refused(c, "a rotation into a higher level", func() interface{} { ks.Rotate(a, r, rks, ca); return ca })
		case "hrot":
			refused(c, "a hoisted rotation into a higher level", func() interface{} { ks.RotateHoisted(a, r, form, rks, ca); return ca })
		case "conj":
			refused(c, "a conjugation into a higher level", func() interface{} { ks.Conjugate(a, cks, ca); return ca })
		case "rlk":
			if mode == "deleted" {
				rlks.DelRelinearizationKey(who)
			}
			refused(c, "a product without a relinearisation key", func() interface{} {
				o := mkrlwe.NewCiphertext(x.params, idset(union(as, bs)...), low)
				ks.MulAndRelin(a, b, srlks, o)
				return o
			})
			rlks.AddRelinearizationKey(x.keys.rlk[who])
		case "rotkey":
			if mode == "deleted" {
				rks.DelRotationKey(who, uint(r))
			}
			refused(c, "a rotation without a key", func() interface{} {
				o := mkrlwe.NewCiphertext(x.params, idset(as...), low)
				ks.Rotate(a, r, srks, o)
				return o
			})
			rks.AddRotationKey(x.keys.rot[who][r])
		case "conjkey":
			if mode == "deleted" {
				cks.DelConjugationKey(who)
			}
			refused(c, "a conjugation without a key", func() interface{} {
				o := mkrlwe.NewCiphertext(x.params, idset(as...), low)
				ks.Conjugate(a, scks, o)
				return o
			})
			cks.AddConjugationKey(x.keys.cjk[who])
		case "partial":
			cp := a.CopyNew()
			refused(c, "a partial decryption by a party that is not involved", func() interface{} {
				mkrlwe.NewDecryptor(x.params).PartialDecrypt(cp, x.sk("stranger"))
				return cp
			})
			if d := diffGen(cp, a); d != "" {
				c.Fatalf("a refused partial decryption changed the ciphertext: %s", d)
			}
		case "dec":
			pt := rlwe.NewPlaintext(x.params.Parameters, low)
			refused(c, "a decryption without a key", func() interface{} {
				mkrlwe.NewDecryptor(x.params).Decrypt(a, x.skSet(minus(as, []string{who})...), pt)
				return pt
			})
		case "lookup":
			refused(c, "a lookup of an absent secret key", func() interface{} { return x.skSet(names...).GetSecretKey("stranger") })
			refused(c, "a lookup of an absent relinearisation key", func() interface{} { return rlks.GetRelinearizationKey("stranger") })
			refused(c, "a lookup of an absent rotation key", func() interface{} { return rks.GetRotationKey("stranger", 1) })
			refused(c, "a lookup of an absent rotation key", func() interface{} { return rks.GetRotationKey(names[0], 3) })
			refused(c, "a lookup of an absent conjugation key", func() interface{} { return cks.GetConjugationKey("stranger") })
			refused(c, "a lookup of an absent public key", func() interface{} { return mkrlwe.NewPublicKeyKeySet().GetPublicKey(names[0]) })
			refused(c, "the reserved party name", func() interface{} { s := mkrlwe.NewIDSet(); s.Add("0"); return s })
		}
		if d := w.changed(); d != "" {
			c.Fatalf("a refused %s changed %s", op, d)
		}
		// valid afterwards, as on new objects
		f1, f2, f3 := x.keySets(names)
		kf := mkrlwe.NewKeySwitcher(x.params)
		for i := 0; i < 3; i++ {
			ids := as
			if i == 0 {
				ids = union(as, bs)
			}
			o1, o2 := mkrlwe.NewCiphertext(x.params, idset(ids...), low), mkrlwe.NewCiphertext(x.params, idset(ids...), low)
			switch i {
			case 0:
				ks.MulAndRelin(a, b, rlks, o1)
				kf.MulAndRelin(a, b, f1, o2)
			case 1:
				ks.Rotate(a, r, rks, o1)
				kf.Rotate(a, r, f2, o2)
			case 2:
				ks.Conjugate(a, cks, o1)
				kf.Conjugate(a, f3, o2)
			}
			if d := sameGen(o1, o2, x.Q); d != "" {
				c.Fatalf("after a refused %s: valid call %d differs from that on new objects: %s", op, i, d)
			}
		}
		done = true
		c.Class("refused %s", op)
		c.Class("key %s", mode)
	}
	c.Nontrivial(done)
}

// i01Params: parameter sets that cannot work.
func i01Params(c *C) {
	cfg := bfvSmall[c.Idx("cfg", len(bfvSmall))]
	lit := bfvLiteral(cfg)
	switch pick(c, "how", []string{"fewer", "more"}) {
	case "fewer":
		lit.QMul = lit.QMul[:c.Idx("n", len(lit.QMul))]
	case "more":
		lit.QMul = append(append([]uint64(nil), lit.QMul...), ring.GenerateNTTPrimes(40, 2<<cfg.logN, 1)...)
	}
	seedCrypto("i01", c.Seed("pseed"))
	refused(c, fmt.Sprintf("%d auxiliary primes for %d primes", len(lit.QMul), len(lit.Q)), func() interface{} { return mkbfv.NewParametersFromLiteral(lit) })
	ok := bfvLiteral(cfg)
	if p, v := panics(func() { mkbfv.NewParametersFromLiteral(ok) }); p {
		c.Fatalf("valid parameters refused after invalid ones: %v", v)
	}
	c.Nontrivial(true)
}
