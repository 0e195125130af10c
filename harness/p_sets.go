package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

func init() {
	register(&Check{ID: "K03", Assumptions: rAssume,
		Rule: "a history is non-trivial if elements of at least two parties were added, something was removed again and a lookup of an absent element was tried",
		Subs: []Sub{
			{Name: "parties", Prop: k03Parties, Quick: 300000, Thorough: 1500000},
			{Name: "keys", Prop: k03Keys, Quick: 80000, Thorough: 400000},
			{Name: "containers", Prop: k03Containers, Quick: 120000, Thorough: 600000},
			{Name: "copies", Prop: k03Copies, Quick: 40000, Thorough: 200000},
			{Name: "many", Prop: k03Many, Quick: 4200},
		}})
	register(&Check{ID: "K04", Assumptions: append(append([]string(nil), rAssume...), "uniformity is judged by the mean and variance of at least 512 residues per prime, with eight standard deviations of allowance"),
		Rule: "a case is non-trivial if a reference string was added after others had been used, or at least two parties' keys were combined",
		Subs: []Sub{
			{Name: "strings", Prop: k04Strings, Quick: 9000, Thorough: 70000},
			{Name: "bfv", Prop: k04Bfv, Quick: 1800, Thorough: 15000},
			{Name: "adding", Prop: k04Adding, Quick: 18000, Thorough: 150000},
			{Name: "interop", Prop: k04Interop, Quick: 9000, Thorough: 70000},
			{Name: "interopbfv", Prop: k04InteropBfv, Quick: 4800, Thorough: 40000},
		}})
}

// ---------------------------------------------------------------- K03

func keysOf(m map[string]bool) []string {
	r := []string{}
	for k, v := range m {
		if v {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// k03Parties runs a history of operations on several party sets against ordinary sets.
func k03Parties(c *C) {
	names := append(append([]string(nil), partyPool...), "user1", "0 ", "0.0")
	type pair struct {
		s *mkrlwe.IDSet
		m map[string]bool
	}
	pool := []*pair{{mkrlwe.NewIDSet(), map[string]bool{}}}
	removed, absent := false, false
	seen := map[string]bool{}
	check := func(step string) {
		for i, p := range pool {
			want := keysOf(p.m)
			if p.s.Size() != len(want) {
				c.Fatalf("after %s: set %d has size %d, want %d (%q)", step, i, p.s.Size(), len(want), want)
			}
			for _, n := range append(names, "0") {
				if p.s.Has(n) != p.m[n] {
					c.Fatalf("after %s: set %d: Has(%q) = %v, want %v (members %q)", step, i, n, p.s.Has(n), p.m[n], want)
				}
			}
			if got := idsOf(p.s); !sameSet(got, want) {
				c.Fatalf("after %s: set %d holds %q, want %q", step, i, got, want)
			}
		}
	}
	put := func(s *mkrlwe.IDSet, m map[string]bool) {
		if len(pool) < 5 {
			pool = append(pool, &pair{s, m})
		} else {
			pool[c.Idx("slot", len(pool))] = &pair{s, m}
		}
	}
	check("creation")
	for k := c.Int("steps", 3, 25); k > 0; k-- {
		p := pool[c.Idx("set", len(pool))]
		n := names[c.Idx("name", len(names))]
		op := pick(c, "op", []string{"add", "add", "add", "remove", "copy", "union", "inter", "reserved", "new", "self"})
		step := fmt.Sprintf("%s %q", op, n)
		switch op {
		case "add":
			p.s.Add(n)
			p.m[n] = true
			seen[n] = true
		case "remove":
			if p.m[n] {
				removed = true
			} else {
				absent = true
			}
			p.s.Remove(n)
			delete(p.m, n)
		case "reserved":
			if ok, _ := panics(func() { p.s.Add("0") }); !ok {
				c.Fatalf("the reserved name was accepted")
			}
		case "new":
			put(mkrlwe.NewIDSet(), map[string]bool{})
		case "copy":
			m := map[string]bool{}
			for k := range p.m {
				m[k] = true
			}
			put(p.s.CopyNew(), m)
		case "union", "inter", "self":
			q := pool[c.Idx("other", len(pool))]
			if op == "self" {
				q = p
			}
			m := map[string]bool{}
			var r *mkrlwe.IDSet
			if op == "inter" {
				r = p.s.Intersection(q.s)
				for k := range p.m {
					if q.m[k] {
						m[k] = true
					}
				}
			} else {
				r = p.s.Union(q.s)
				for k := range p.m {
					m[k] = true
				}
				for k := range q.m {
					m[k] = true
				}
			}
			put(r, m)
		}
		c.Class("op %s", op)
		check(step)
	}
	c.Nontrivial(len(seen) >= 2 && removed && absent)
}

// keyTable is one kind of key set behind a common interface; keys are told apart by a marker.
type keyTable struct {
	kind string
	mk   func(id string, amount uint, mark uint64) interface{}
	add  func(key interface{})
	del  func(id string, amount uint)
	get  func(id string, amount uint) (gotID string, gotAmount uint, mark uint64)
	size func() int
}

func mark(p *ring.Poly, v uint64) { p.Coeffs[0][0] = v }

func (x *rctx) keyTable(kind string, b *bfvCtx) *keyTable {
	t := &keyTable{kind: kind}
	switch kind {
	case "secret":
		s := mkrlwe.NewSecretKeySet()
		t.mk = func(id string, _ uint, m uint64) interface{} {
			k := mkrlwe.NewSecretKey(x.params, id)
			mark(k.Value.Q, m)
			return k
		}
		t.add = func(k interface{}) { s.AddSecretKey(k.(*mkrlwe.SecretKey)) }
		t.del = func(id string, _ uint) { s.DelSecretKey(id) }
		t.get = func(id string, _ uint) (string, uint, uint64) {
			k := s.GetSecretKey(id)
			return k.ID, 0, k.Value.Q.Coeffs[0][0]
		}
		t.size = func() int { return len(s.Value) }
	case "public":
		s := mkrlwe.NewPublicKeyKeySet()
		t.mk = func(id string, _ uint, m uint64) interface{} {
			k := mkrlwe.NewPublicKey(x.params, id)
			mark(k.Value[0].Q, m)
			return k
		}
		t.add = func(k interface{}) { s.AddPublicKey(k.(*mkrlwe.PublicKey)) }
		t.del = func(id string, _ uint) { s.DelPublicKey(id) }
		t.get = func(id string, _ uint) (string, uint, uint64) {
			k := s.GetPublicKey(id)
			return k.ID, 0, k.Value[0].Q.Coeffs[0][0]
		}
		t.size = func() int { return len(s.Value) }
	case "relin":
		s := mkrlwe.NewRelinearizationKeyKeySet(x.params)
		t.mk = func(id string, _ uint, m uint64) interface{} {
			k := mkrlwe.NewRelinearizationKey(x.params, id)
			mark(k.Value[0].Value[0].Q, m)
			return k
		}
		t.add = func(k interface{}) { s.AddRelinearizationKey(k.(*mkrlwe.RelinearizationKey)) }
		t.del = func(id string, _ uint) { s.DelRelinearizationKey(id) }
		t.get = func(id string, _ uint) (string, uint, uint64) {
			k := s.GetRelinearizationKey(id)
			return k.ID, 0, k.Value[0].Value[0].Q.Coeffs[0][0]
		}
		t.size = func() int { return len(s.Value) }
	case "bfvrelin":
		s := mkbfv.NewRelinearizationKeyKeySet(b.params)
		t.mk = func(id string, _ uint, m uint64) interface{} {
			k := mkbfv.NewRelinearizationKey(b.params, id)
			mark(k.Value[0].Value[0].Value[0].Q, m)
			return k
		}
		t.add = func(k interface{}) { s.AddRelinearizationKey(k.(*mkbfv.RelinearizationKey)) }
		t.del = func(id string, _ uint) { s.DelRelinearizationKey(id) }
		t.get = func(id string, _ uint) (string, uint, uint64) {
			k := s.GetRelinearizationKey(id)
			return k.ID, 0, k.Value[0].Value[0].Value[0].Q.Coeffs[0][0]
		}
		t.size = func() int { return len(s.Value) }
	case "conj":
		s := mkrlwe.NewConjugationKeySet()
		t.mk = func(id string, _ uint, m uint64) interface{} {
			k := mkrlwe.NewConjugationKey(x.params, id)
			mark(k.Value.Value[0].Q, m)
			return k
		}
		t.add = func(k interface{}) { s.AddConjugationKey(k.(*mkrlwe.ConjugationKey)) }
		t.del = func(id string, _ uint) { s.DelConjugationKey(id) }
		t.get = func(id string, _ uint) (string, uint, uint64) {
			k := s.GetConjugationKey(id)
			return k.ID, 0, k.Value.Value[0].Q.Coeffs[0][0]
		}
		t.size = func() int { return len(s.Value) }
	case "rotation":
		s := mkrlwe.NewRotationKeySet()
		t.mk = func(id string, a uint, m uint64) interface{} {
			k := mkrlwe.NewRotationKey(x.params, a, id)
			mark(k.Value.Value[0].Q, m)
			return k
		}
		t.add = func(k interface{}) { s.AddRotationKey(k.(*mkrlwe.RotationKey)) }
		t.del = func(id string, a uint) { s.DelRotationKey(id, a) }
		t.get = func(id string, a uint) (string, uint, uint64) {
			k := s.GetRotationKey(id, a)
			return k.ID, k.RotIdx, k.Value.Value[0].Q.Coeffs[0][0]
		}
	}
	return t
}

var keyKinds = []string{"secret", "public", "relin", "bfvrelin", "conj", "rotation", "rotation"}

// k03Keys runs a history on two key sets of one kind against ordinary maps.
func k03Keys(c *C) {
	x := getR(c, rCfgs[c.Idx("cfg", 3)])
	kind := pick(c, "kind", keyKinds)
	var b *bfvCtx
	if kind == "bfvrelin" {
		b = getBfv(c, bfvSmall[0], 0)
	}
	type slot struct {
		id string
		a  uint
	}
	tabs := []*keyTable{x.keyTable(kind, b), x.keyTable(kind, b)}
	models := []map[slot]uint64{{}, {}}
	names := append(append([]string(nil), partyPool[:6]...), "0 ")
	amounts := []uint{0}
	if kind == "rotation" {
		amounts = []uint{1, 2, 3, 7, 1 << 31}
	}
	switch c.Idx("names", 3) {
	case 1: // names of every kind, long ones with a common beginning or end among them
		long := longName
		names = append(drawParties(c, "names", 3, 5), long[:255], long[:256], "x"+long[1:], long[:300]+"x"+long[301:])
		if kind == "rotation" {
			amounts = []uint{1, 2, 1 << 16, 1<<16 + 1, 1 << 40}
		}
	case 2: // names and amounts which run into each other when written one after the other
		names = []string{"", "1", "11", "a", "a1", "a11", "1a", "a ", "a-1", "A1", "-1"}
		if kind == "rotation" {
			amounts = []uint{1, 11, 111, 21, 1 << 32, 1<<32 + 1, 257}
		}
	}
	removed, absent := false, false
	who := map[string]bool{}
	check := func(step string) {
		for i, t := range tabs {
			ids := map[string]bool{}
			for _, n := range names {
				for _, a := range amounts {
					m, in := models[i][slot{n, a}]
					if !in {
						if p, _ := panics(func() { t.get(n, a) }); !p {
							c.Fatalf("after %s: the %s key set hands out a key for %q/%d which it does not hold", step, kind, n, a)
						}
						absent = true
						continue
					}
					ids[n] = true
					var id string
					var am uint
					var mk uint64
					if p, v := panics(func() { id, am, mk = t.get(n, a) }); p {
						c.Fatalf("after %s: the %s key of %q/%d is refused: %v", step, kind, n, a, v)
					}
					if id != n || am != a || mk != m {
						c.Fatalf("after %s: asked the %s key set for %q/%d (key number %d), got key number %d of %q/%d", step, kind, n, a, m, mk, id, am)
					}
				}
			}
			if t.size != nil && t.size() != len(ids) {
				c.Fatalf("after %s: the %s key set holds %d keys, want %d", step, kind, t.size(), len(ids))
			}
		}
	}
	next := uint64(1)
	for k := c.Int("steps", 3, 20); k > 0; k-- {
		i := c.Idx("set", 2)
		n := names[c.Idx("name", len(names))]
		a := amounts[c.Idx("amount", len(amounts))]
		s := slot{n, a}
		if c.Idx("op", 3) < 2 {
			c.Note("add %q/%d to %d", n, a, i)
			key := tabs[i].mk(n, a, next)
			tabs[i].add(key)
			models[i][s] = next
			if c.Bool("both") {
				tabs[1-i].add(key)
				models[1-i][s] = next
			}
			next++
			who[n] = true
			check(fmt.Sprintf("adding %q/%d", n, a))
		} else {
			c.Note("del %q/%d of %d", n, a, i)
			if _, in := models[i][s]; in {
				removed = true
			}
			tabs[i].del(n, a)
			delete(models[i], s)
			check(fmt.Sprintf("deleting %q/%d", n, a))
		}
	}
	c.Class("kind %s", kind)
	c.Nontrivial(len(who) >= 2 && removed && absent)
}

// k03Containers checks the ciphertext container: construction, copies, padding.
func k03Containers(c *C) {
	x := drawR(c)
	names := drawParties(c, "parties", 0, 5)
	level := c.Int("level", 0, len(x.Q)-1)
	ntt := c.Bool("ntt")
	set := idset(names...)
	ct := newGenCt(x, set, level, ntt)
	shape := func(what string, ct *mkrlwe.Ciphertext, ids []string, level int, ntt bool) {
		if got := idsOf(ct.IDSet()); !sameSet(got, ids) {
			c.Fatalf("%s: involves %q, want %q", what, got, ids)
		}
		if ct.IDSet().Has("0") {
			c.Fatalf("%s: the party set contains the reserved name", what)
		}
		if ct.Level() != level {
			c.Fatalf("%s: level %d, want %d", what, ct.Level(), level)
		}
		if len(ct.Value) != len(union(ids))+1 || ct.Value["0"] == nil {
			c.Fatalf("%s: has components %q", what, sortedKeys(ct.Value))
		}
		for id, p := range ct.Value {
			if len(p.Coeffs) != level+1 || p.IsNTT != ntt {
				c.Fatalf("%s: component %q has %d rows and NTT=%v, want %d and %v", what, id, len(p.Coeffs), p.IsNTT, level+1, ntt)
			}
			for i := range p.Coeffs {
				if len(p.Coeffs[i]) != x.n {
					c.Fatalf("%s: component %q has rows of %d coefficients, want %d", what, id, len(p.Coeffs[i]), x.n)
				}
			}
		}
	}
	zero := func(what string, p *ring.Poly) {
		for i := range p.Coeffs {
			for _, v := range p.Coeffs[i] {
				if v != 0 {
					c.Fatalf("%s is not zero", what)
				}
			}
		}
	}
	shape("new ciphertext", ct, names, level, ntt)
	for id, p := range ct.Value {
		zero(fmt.Sprintf("component %q of a new ciphertext", id), p)
	}
	set.Add("later")
	shape("ciphertext after its party set was changed", ct, names, level, ntt)
	ct.IDSet().Add("later")
	shape("ciphertext after a copy of its party set was changed", ct, names, level, ntt)
	seed := c.Seed("fill")
	for id, p := range ct.Value {
		garbage(p, x.Q, mixSeed(seed, id))
	}
	s := &snap{}
	s.addCt("original", ct)
	cp := ct.CopyNew()
	shape("copy", cp, names, level, ntt)
	if d := diffGen(cp, ct); d != "" {
		c.Fatalf("a copy differs from its original: %s", d)
	}
	switch pick(c, "change", []string{"values", "drop", "remove"}) {
	case "values":
		for id, p := range cp.Value {
			garbage(p, x.Q, mixSeed(seed, id, "x"))
		}
	case "drop":
		for _, p := range cp.Value {
			p.Coeffs = p.Coeffs[:1]
			p.IsNTT = !p.IsNTT
		}
	case "remove":
		for id := range cp.Value {
			if id != "0" {
				delete(cp.Value, id)
			}
		}
		cp.Value["0"].Zero()
	}
	if d := s.diff(); d != "" {
		c.Fatalf("changing a copy of a ciphertext: %s", d)
	}
	shape("original after its copy was changed", ct, names, level, ntt)
	// Copy into another one
	dst := newGenCt(x, idset(names...), level, ntt)
	dst.Copy(ct)
	if d := diffGen(dst, ct); d != "" {
		c.Fatalf("Copy: the destination differs: %s", d)
	}
	for id, p := range dst.Value {
		garbage(p, x.Q, mixSeed(seed, id, "y"))
	}
	if d := s.diff(); d != "" {
		c.Fatalf("changing the destination of Copy: %s", d)
	}
	// padding
	more := drawParties(c, "more", 0, 5)
	pad := ct.CopyNew()
	lv := level
	if c.Bool("cut") { // as dropping levels leaves a ciphertext
		lv = c.Idx("left", level+1)
		for _, p := range pad.Value {
			p.Coeffs = p.Coeffs[:lv+1]
		}
	}
	before := pad.CopyNew()
	ms := idset(more...)
	pad.PadCiphertext(ms)
	shape("padded ciphertext", pad, append(append([]string(nil), names...), more...), lv, ntt)
	for id, p := range pad.Value {
		if old := before.Value[id]; old != nil {
			if !p.Equals(old) {
				c.Fatalf("padding changed component %q", id)
			}
		} else {
			zero(fmt.Sprintf("component %q added by padding", id), p)
		}
	}
	if got := idsOf(ms); !sameSet(got, more) {
		c.Fatalf("padding changed the party set it was given")
	}
	// scheme-level containers
	cfg := ckksSmall[c.Idx("ckks", 3)]
	k := getCkks(c, cfg, 0)
	l := c.Int("klevel", 0, k.params.MaxLevel())
	sc := math.Exp2(float64(c.Int("kscale", 1, 60)))
	kc := mkckks.NewCiphertext(k.params, idset(names...), l, sc)
	if kc.Level() != l || kc.Scale != sc || kc.ScalingFactor() != sc || !sameSet(idsOf(kc.IDSet()), names) {
		c.Fatalf("NewCiphertext(level %d, scale %g, %q) has level %d, scale %g, parties %q", l, sc, names, kc.Level(), kc.Scale, idsOf(kc.IDSet()))
	}
	kc2 := kc.CopyNew()
	kc2.SetScalingFactor(3)
	garbage(kc2.Value["0"], k.params.Q(), seed)
	if kc.Scale != sc || kc2.Scale != 3 {
		c.Fatalf("scales of a ciphertext and its copy: %g and %g, want %g and 3", kc.Scale, kc2.Scale, sc)
	}
	zero("original after its copy was filled", kc.Value["0"])
	if m := mkckks.NewMessage(k.params); m.Slots() != k.slots() || len(m.Value) != k.slots() {
		c.Fatalf("a message has %d slots, want %d", m.Slots(), k.slots())
	}
	b := getBfv(c, bfvSmall[c.Idx("bfv", 3)], 0)
	bc := mkbfv.NewCiphertext(b.params, idset(names...))
	if ntt {
		bc = mkbfv.NewCiphertextNTT(b.params, idset(names...))
	}
	for id, p := range bc.Value {
		if len(p.Coeffs) != b.params.QCount() || p.IsNTT != ntt {
			c.Fatalf("BFV ciphertext component %q: %d rows, NTT=%v", id, len(p.Coeffs), p.IsNTT)
		}
	}
	bc2 := bc.CopyNew()
	garbage(bc2.Value["0"], b.lit.Q, seed)
	zero("BFV original after its copy was filled", bc.Value["0"])
	if m := mkbfv.NewMessage(b.params); m.Slots() != b.params.N() || len(m.Value) != b.params.N() {
		c.Fatalf("a BFV message has %d slots, want %d", m.Slots(), b.params.N())
	}
	c.Class("ntt=%v change", ntt)
	c.Nontrivial(len(names) >= 2 && len(minus(more, names)) > 0)
}

// k03Copies checks copies of keys.
func k03Copies(c *C) {
	x := drawR(c)
	id := pick(c, "id", partyPool)
	seedCrypto("k03", c.Seed("seed"))
	sk, pk := mkrlwe.NewKeyGenerator(x.params).GenKeyPair(id)
	s := &snap{}
	s.addQP("secret key", sk.Value)
	s.addQP("public key", pk.Value[0])
	s.addQP("public key (second part)", pk.Value[1])
	sc, pc := sk.CopyNew(), pk.CopyNew()
	if sc.ID != id || pc.ID != id {
		c.Fatalf("copies of the keys of %q belong to %q and %q", id, sc.ID, pc.ID)
	}
	if !sc.Value.Equals(sk.Value) || !pc.Value[0].Equals(pk.Value[0]) || !pc.Value[1].Equals(pk.Value[1]) {
		c.Fatalf("a copy of a key differs from it")
	}
	seed := c.Seed("g")
	for i, p := range []rlwe.PolyQP{sc.Value, pc.Value[0], pc.Value[1]} {
		garbage(p.Q, x.Q, mixSeed(seed, i))
		garbage(p.P, x.P, mixSeed(seed, i, 1))
	}
	sc.ID, pc.ID = "changed", "changed"
	if d := s.diff(); d != "" {
		c.Fatalf("changing a copy of the keys: %s", d)
	}
	if sk.ID != id || pk.ID != id {
		c.Fatalf("changing a copy's name changed the key's")
	}
	var n1 *mkrlwe.SecretKey
	var n2 *mkrlwe.PublicKey
	if n1.CopyNew() != nil || n2.CopyNew() != nil {
		c.Fatalf("the copy of no key is a key")
	}
	c.Nontrivial(true)
}

// ---------------------------------------------------------------- K04

// drawFreshR makes a new parameter set (never cached).
func drawFreshR(c *C) *rctx {
	cfg := pick(c, "cfg", rCfgs)
	if useFamily(c) {
		cfg = genR(drawFamily(c))
	}
	return newR(cfg, fmt.Sprint("k04-", c.Seed("pseed")))
}

func defaultStrings(logN int) []int {
	r := []int{0, -1, -2, -3, -4}
	for k := 1; k < 1<<(logN-1); k *= 2 {
		r = append(r, k)
	}
	return r
}

// uniformStrings checks the reference strings of a parameter set.
func uniformStrings(c *C, what string, n int, Q, P []uint64, crs map[int]*mkrlwe.SwitchingKey, want []int, beta int) {
	if len(crs) != len(want) {
		var have []int
		for k := range crs {
			have = append(have, k)
		}
		sort.Ints(have)
		c.Fatalf("%s: reference strings for %v, want %v", what, have, want)
	}
	all := append(append([]uint64(nil), Q...), P...)
	first := map[[3]uint64]string{}
	sum := make([]float64, len(all))
	sq := make([]float64, len(all))
	cnt := 0.0
	for _, k := range want {
		s := crs[k]
		if s == nil {
			c.Fatalf("%s: no reference string for %d", what, k)
		}
		if len(s.Value) != beta {
			c.Fatalf("%s: the reference string for %d has %d parts, want %d", what, k, len(s.Value), beta)
		}
		for i, v := range s.Value {
			if len(v.Q.Coeffs) != len(Q) || len(v.P.Coeffs) != len(P) {
				c.Fatalf("%s: part %d of the reference string for %d has %d+%d rows", what, i, k, len(v.Q.Coeffs), len(v.P.Coeffs))
			}
			rows := append(append([][]uint64(nil), v.Q.Coeffs...), v.P.Coeffs...)
			for j, q := range all {
				if len(rows[j]) != n {
					c.Fatalf("%s: row of %d coefficients", what, len(rows[j]))
				}
				for _, w := range rows[j] {
					if w >= q {
						c.Fatalf("%s: part %d of the reference string for %d has a value %d modulo %d", what, i, k, w, q)
					}
					f := float64(w)/float64(q) - 0.5
					sum[j] += f
					sq[j] += f * f
				}
				key := [3]uint64{rows[j][0], rows[j][1], rows[j][2]}
				at := fmt.Sprintf("string %d part %d prime %d", k, i, j)
				if old, in := first[key]; in {
					c.Fatalf("%s: %s and %s coincide", what, old, at)
				}
				first[key] = at
			}
			cnt += float64(n)
			// the two halves of the string must not be one small integer seen modulo all primes
		}
	}
	for j := range all {
		m, v := sum[j]/cnt, sq[j]/cnt
		if math.Abs(m) > 8*math.Sqrt(1/12.0/cnt) {
			c.Fatalf("%s: residues modulo %d have mean %.4f of the modulus off the middle (%g values)", what, all[j], m, cnt)
		}
		if math.Abs(v-1/12.0) > 8*math.Sqrt(1/180.0/cnt) {
			c.Fatalf("%s: residues modulo %d have variance %.4f, want %.4f (%g values)", what, all[j], v, 1/12.0, cnt)
		}
	}
	// distinct strings are unrelated: correlation of the residues (as centred fractions)
	for a := 0; a < 3; a++ {
		k1 := want[c.Idx("k1", len(want))]
		k2 := want[c.Idx("k2", len(want))]
		i1, i2 := c.Idx("i1", beta), c.Idx("i2", beta)
		if k1 == k2 && i1 == i2 {
			continue
		}
		p1, p2 := crs[k1].Value[i1], crs[k2].Value[i2]
		for j, q := range all {
			r1 := append(append([][]uint64(nil), p1.Q.Coeffs...), p1.P.Coeffs...)[j]
			r2 := append(append([][]uint64(nil), p2.Q.Coeffs...), p2.P.Coeffs...)[j]
			var dot float64
			same := 0
			for t := range r1 {
				dot += (float64(r1[t])/float64(q) - 0.5) * (float64(r2[t])/float64(q) - 0.5)
				if r1[t] == r2[t] {
					same++
				}
			}
			if math.Abs(dot)*12/math.Sqrt(float64(len(r1))) > 8 {
				c.Fatalf("%s: strings %d/%d and %d/%d are correlated modulo %d", what, k1, i1, k2, i2, q)
			}
			if same > 2 {
				c.Fatalf("%s: strings %d/%d and %d/%d have %d values in common modulo %d", what, k1, i1, k2, i2, same, q)
			}
		}
	}
	// the residues of one string modulo different primes are unrelated, too
	k1 := want[c.Idx("k3", len(want))]
	v := crs[k1].Value[c.Idx("i3", beta)]
	rows := append(append([][]uint64(nil), v.Q.Coeffs...), v.P.Coeffs...)
	cr := crtOf(all)
	big_ := false
	lim := new(big.Int).Rsh(cr.M, 6)
	for _, w := range cr.polyCentered(rows) {
		big_ = big_ || w.CmpAbs(lim) > 0
	}
	if !big_ {
		c.Fatalf("%s: the reference string for %d is small modulo the product of all primes", what, k1)
	}
}

func k04Strings(c *C) {
	x := drawFreshR(c)
	want := defaultStrings(x.cfg.logN)
	uniformStrings(c, x.cfg.name, x.n, x.Q, x.P, x.params.CRS, want, x.beta(len(x.Q)-1))
	for k := c.Idx("adds", 4); k > 0; k-- {
		a := c.Int("amount", 1, x.n/2-1)
		x.params.AddCRS(a)
		in := false
		for _, w := range want {
			in = in || w == a
		}
		if !in {
			want = append(want, a)
		}
	}
	uniformStrings(c, x.cfg.name+" after additions", x.n, x.Q, x.P, x.params.CRS, want, x.beta(len(x.Q)-1))
	// a second parameter set has other strings
	y := newR(x.cfg, fmt.Sprint("k04b-", c.Seed("pseed2")))
	for k := range y.params.CRS {
		if s := x.params.CRS[k]; s != nil && s.Value[0].Q.Coeffs[0][0] == y.params.CRS[k].Value[0].Q.Coeffs[0][0] && s.Value[0].Q.Coeffs[0][1] == y.params.CRS[k].Value[0].Q.Coeffs[0][1] {
			c.Fatalf("two parameter sets made at different times have the same reference string for %d", k)
		}
	}
	c.Class("cfg %s", x.cfg.name)
	c.Nontrivial(len(want) > len(defaultStrings(x.cfg.logN)))
}

func k04Bfv(c *C) {
	cfg := pick(c, "cfg", bfvSmall)
	if useFamily(c) {
		cfg = genBfv(drawFamily(c))
	}
	lit := bfvLiteral(cfg)
	seedCrypto("k04bfv", c.Seed("pseed"))
	p := mkbfv.NewParametersFromLiteral(lit)
	alpha := len(lit.P) / 2
	uniformStrings(c, cfg.name, p.N(), lit.Q, lit.P, p.CRS, defaultStrings(cfg.logN), (len(lit.Q)+alpha-1)/alpha)
	c.Class("cfg %s", cfg.name)
	c.Nontrivial(true)
}

// k04Adding: which amounts are usable, before and after additions, and that nothing else moves.
func k04Adding(c *C) {
	x := drawFreshR(c)
	shared := x.params // a copy made before the additions
	kg := mkrlwe.NewKeyGenerator(x.params)
	seedCrypto("k04a", c.Seed("kseed"))
	sk, _ := kg.GenKeyPair("a")
	usable := map[int]bool{}
	for k := 1; k < x.n/2; k *= 2 {
		usable[k] = true
	}
	probe := func(a int) {
		g := kg
		switch c.Idx("kg", 3) {
		case 1:
			g = mkrlwe.NewKeyGenerator(x.params)
		case 2:
			g = mkrlwe.NewKeyGenerator(shared)
		}
		var rk *mkrlwe.RotationKey
		p, v := panics(func() { rk = g.GenRotationKey(a, sk) })
		if p == usable[a] {
			c.Fatalf("%s: rotation key for %d: usable=%v, refused=%v (%v)", x.cfg.name, a, usable[a], p, v)
		}
		if !p && (rk.RotIdx != uint(a) || rk.ID != "a") {
			c.Fatalf("the rotation key for %d of \"a\" is for %d of %q", a, rk.RotIdx, rk.ID)
		}
	}
	added := 0
	for k := c.Int("steps", 1, 6); k > 0; k-- {
		a := c.Int("amount", 1, x.n/2-1)
		if c.Bool("probe") {
			probe(a)
			continue
		}
		if usable[a] {
			continue
		}
		s := &snap{}
		s.addCRS(x.params)
		before := len(x.params.CRS)
		if c.Bool("viacopy") {
			shared.AddCRS(a)
		} else {
			x.params.AddCRS(a)
		}
		usable[a] = true
		added++
		if d := s.diff(); d != "" {
			c.Fatalf("adding a reference string for %d: %s", a, d)
		}
		for _, p := range []mkrlwe.Parameters{x.params, shared} {
			if len(p.CRS) != before+1 || p.CRS[a] == nil {
				c.Fatalf("after adding a reference string for %d there are %d of them, there were %d", a, len(p.CRS), before)
			}
		}
		probe(a)
	}
	for a := 1; a < x.n/2 && a < 40; a++ {
		if usable[a] != (x.params.CRS[a] != nil) {
			c.Fatalf("reference string for %d: present=%v, want %v", a, x.params.CRS[a] != nil, usable[a])
		}
	}
	probe(c.Int("last", 1, x.n/2-1))
	c.Nontrivial(added > 0)
}

// k04Interop: parties that join one after the other, with reference strings added in between, can
// compute together on old and new ciphertexts.
func k04Interop(c *C) {
	cfg := ckksSmall[c.Idx("cfg", 7)]
	x := newCkks(cfg, 2+int(c.Seed("pseed")%1000003))
	shared := x.params
	eval := mkckks.NewEvaluator(x.params)
	enc := x.encryptor(c)
	dec := mkckks.NewDecryptor(shared)
	sks := mkrlwe.NewSecretKeySet()
	rlks := mkrlwe.NewRelinearizationKeyKeySet(x.params.Parameters)
	rks := mkrlwe.NewRotationKeySet()
	cks := mkrlwe.NewConjugationKeySet()
	n2 := x.params.N() / 2
	amounts := []int{}
	for k := 1; k < n2; k *= 2 {
		amounts = append(amounts, k)
	}
	kgOld := mkckks.NewKeyGenerator(x.params)
	kgOf := func() *mkrlwe.KeyGenerator {
		switch c.Idx("kg", 3) {
		case 0:
			return kgOld
		case 1:
			return mkckks.NewKeyGenerator(shared)
		}
		return mkckks.NewKeyGenerator(x.params)
	}
	rotKey := map[string]map[int]bool{}
	give := func(n string, a int) {
		if !rotKey[n][a] {
			rks.AddRotationKey(kgOf().GenRotationKey(a, x.party(n).sk))
			rotKey[n][a] = true
		}
	}
	names := drawParties(c, "parties", 2, 4)
	var cts []*tct
	var in []string
	added, joint := 0, false
	join := func(n string) {
		seedCrypto("k04join", n, c.Seed("jseed"))
		kg := kgOf()
		p := &ckksParty{name: n, rot: map[int]*mkrlwe.RotationKey{}}
		p.sk, p.pk = kg.GenKeyPair(n)
		p.r = kgOf().GenSecretKey(n)
		x.parties[n] = p
		sks.AddSecretKey(p.sk)
		rlks.AddRelinearizationKey(kgOf().GenRelinearizationKey(p.sk, p.r))
		cks.AddConjugationKey(kgOf().GenConjugationKey(p.sk))
		rotKey[n] = map[int]bool{}
		in = append(in, n)
	}
	join(names[0])
	next := 1
	for k := c.Int("steps", 4, 12); k > 0; k-- {
		op := pick(c, "op", []string{"join", "addcrs", "enc", "enc", "rot", "rot", "mul", "conj", "hrot"})
		if len(cts) == 0 && op != "join" && op != "addcrs" {
			op = "enc"
		}
		switch op {
		case "join":
			if next < len(names) {
				join(names[next])
				next++
			}
		case "addcrs":
			a := c.Int("amount", 1, n2-1)
			if x.params.CRS[a] == nil {
				if c.Bool("viacopy") {
					shared.AddCRS(a)
				} else {
					x.params.AddCRS(a)
				}
				amounts = append(amounts, a)
				added++
			}
		case "enc":
			l, s := x.drawLevelScale(c, "at")
			cts = append(cts, x.drawCt(c, "m", enc, subset(c, "who", in), l, s, 4))
		default:
			a := cts[c.Idx("a", len(cts))]
			ev := eval
			if c.Bool("newev") {
				ev = mkckks.NewEvaluator(shared)
			}
			var t *tct
			switch op {
			case "rot", "hrot":
				am := amounts[c.Idx("am", len(amounts))]
				c.Note("by %d", am)
				for _, n := range a.ids {
					give(n, am)
				}
				t = x.mRot(a, am)
				t.eps = a.eps + x.noise().ks(a.level, len(a.ids))/a.scale
				if op == "rot" {
					t.ct = ev.RotateNew(a.ct, am, rks)
				} else {
					t.ct = ev.RotateHoistedNew(a.ct, am, ev.HoistedForm(a.ct), rks)
				}
			case "conj":
				t = x.mConj(a)
				t.ct = ev.ConjugateNew(a.ct, cks)
			case "mul":
				b := cts[c.Idx("b", len(cts))]
				var ok bool
				if t, ok = x.mMul(a, b); !ok {
					continue
				}
				t.ct = ev.MulRelinNew(a.ct, b.ct, rlks)
			}
			x.verifyWith(c, op, t, dec, sks)
			if t.fits(x) && t.precise() {
				cts = append(cts, t)
			}
			joint = joint || len(t.ids) >= 2
		}
		c.Class("op %s", op)
	}
	for _, t := range cts {
		x.verifyWith(c, "live ciphertext", t, dec, sks)
	}
	c.Nontrivial(added > 0 && joint)
}

func k04InteropBfv(c *C) {
	cfg := bfvSmall[c.Idx("cfg", 5)]
	x := newBfv(cfg, 2+int(c.Seed("pseed")%1000003))
	shared := x.params
	eval := mkbfv.NewEvaluator(x.params)
	enc := x.encryptor(c)
	dec := mkbfv.NewDecryptor(shared)
	sks := mkrlwe.NewSecretKeySet()
	rlks := mkbfv.NewRelinearizationKeyKeySet(x.params)
	rks := mkrlwe.NewRotationKeySet()
	cks := mkrlwe.NewConjugationKeySet()
	amounts := []int{}
	for k := 1; k < x.n2; k *= 2 {
		amounts = append(amounts, k)
	}
	kgOld := mkbfv.NewKeyGenerator(x.params)
	kgOf := func() *mkbfv.KeyGenerator {
		switch c.Idx("kg", 3) {
		case 0:
			return kgOld
		case 1:
			return mkbfv.NewKeyGenerator(shared)
		}
		return mkbfv.NewKeyGenerator(x.params)
	}
	rotKey := map[string]map[int]bool{}
	names := drawParties(c, "parties", 2, 3)
	var cts []*bct
	var in []string
	added, joint := 0, false
	join := func(n string) {
		seedCrypto("k04bjoin", n, c.Seed("jseed"))
		kg := kgOf()
		p := &bfvParty{rot: map[int]*mkrlwe.RotationKey{}}
		p.sk, p.pk = kg.GenKeyPair(n)
		p.r = kgOf().GenSecretKey(n)
		x.parties[n] = p
		sks.AddSecretKey(p.sk)
		rlks.AddRelinearizationKey(kgOf().GenRelinearizationKey(p.sk, p.r))
		cks.AddConjugationKey(kgOf().GenConjugationKey(p.sk))
		rotKey[n] = map[int]bool{}
		in = append(in, n)
	}
	join(names[0])
	next := 1
	for k := c.Int("steps", 4, 10); k > 0; k-- {
		op := pick(c, "op", []string{"join", "addcrs", "enc", "enc", "rot", "rot", "mul", "conj"})
		if len(cts) == 0 && op != "join" && op != "addcrs" {
			op = "enc"
		}
		switch op {
		case "join":
			if next < len(names) {
				join(names[next])
				next++
			}
		case "addcrs":
			a := c.Int("amount", 1, x.n2-1)
			if x.params.CRS[a] == nil {
				if c.Bool("viacopy") {
					shared.AddCRS(a)
				} else {
					x.params.AddCRS(a)
				}
				amounts = append(amounts, a)
				added++
			}
		case "enc":
			cts = append(cts, x.drawCt(c, "m", enc, subset(c, "who", in)))
		default:
			a := cts[c.Idx("a", len(cts))]
			ev := eval
			if c.Bool("newev") {
				ev = mkbfv.NewEvaluator(shared)
			}
			var t *bct
			switch op {
			case "rot":
				am := amounts[c.Idx("am", len(amounts))]
				c.Note("by %d", am)
				for _, n := range a.ids {
					if !rotKey[n][am] {
						rks.AddRotationKey(kgOf().GenRotationKey(am, x.party(n).sk))
						rotKey[n][am] = true
					}
				}
				t = x.mRot(a, am)
				t.ct = ev.RotateNew(a.ct, am, rks)
			case "conj":
				t = x.mConj(a)
				t.ct = ev.ConjugateNew(a.ct, cks)
			case "mul":
				b := cts[c.Idx("b", len(cts))]
				t = x.mMul(a, b)
				if !x.fits(t.noise) {
					continue
				}
				t.ct = ev.MulRelinNew(a.ct, b.ct, rlks)
			}
			if !x.fits(t.noise) {
				continue
			}
			x.verifyWith(c, op, t, dec, sks)
			cts = append(cts, t)
			joint = joint || len(t.ids) >= 2
		}
		c.Class("op %s", op)
	}
	for _, t := range cts {
		x.verifyWith(c, "live ciphertext", t, dec, sks)
	}
	c.Nontrivial(added > 0 && joint)
}
