package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"reflect"
	"sort"
	"unsafe"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
)

// ---------------------------------------------------------------- contents of objects

// digest is a hash of everything reachable through exported fields.
func digest(o interface{}) uint64 {
	d := &digester{h: 14695981039346656037}
	d.walk(reflect.ValueOf(o))
	return d.h
}

type digester struct{ h uint64 }

func (d *digester) u(v uint64) {
	d.h ^= v + 0x9E3779B97F4A7C15 + d.h<<12 + d.h>>4
	d.h *= 0xff51afd7ed558ccd
	d.h ^= d.h >> 33
}

func (d *digester) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			d.u(3)
		} else {
			d.u(5)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.u(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		d.u(v.Uint())
	case reflect.Float32, reflect.Float64:
		d.u(math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		d.u(math.Float64bits(real(v.Complex())))
		d.u(math.Float64bits(imag(v.Complex())))
	case reflect.String:
		h := fnv.New64a()
		h.Write([]byte(v.String()))
		d.u(h.Sum64())
	case reflect.Slice:
		d.u(uint64(v.Len()))
		if v.Len() == 0 {
			return
		}
		switch v.Type().Elem().Kind() {
		case reflect.Uint64, reflect.Int64, reflect.Float64:
			for _, w := range unsafe.Slice((*uint64)(v.UnsafePointer()), v.Len()) {
				d.u(w)
			}
		default:
			for i := 0; i < v.Len(); i++ {
				d.walk(v.Index(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			d.walk(v.Index(i))
		}
	case reflect.Map:
		// order-independent
		var sum, cnt uint64
		it := v.MapRange()
		for it.Next() {
			e := &digester{h: 1469598103}
			e.walk(it.Key())
			e.walk(it.Value())
			sum += e.h
			cnt++
		}
		d.u(sum)
		d.u(cnt)
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			d.u(7)
			return
		}
		d.u(11)
		d.walk(v.Elem())
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).IsExported() {
				d.walk(v.Field(i))
			}
		}
	}
}

// watch remembers the contents of named objects.
type watch struct {
	what []string
	obj  []interface{}
	old  []uint64
}

func (w *watch) add(what string, o interface{}) {
	w.what = append(w.what, what)
	w.obj = append(w.obj, o)
	w.old = append(w.old, digest(o))
}

func (w *watch) changed() string {
	for i, o := range w.obj {
		if digest(o) != w.old[i] {
			return w.what[i]
		}
	}
	return ""
}

// ---------------------------------------------------------------- storage of objects

type span struct {
	lo, hi uintptr
	what   string
}

type spans struct {
	list []span
	seen map[[2]uintptr]bool
}

// storage lists the memory behind an object, through unexported fields, too.
func storage(what string, o interface{}) *spans {
	s := &spans{seen: map[[2]uintptr]bool{}}
	s.walk(reflect.ValueOf(o), what, 0)
	return s
}

func (s *spans) addRange(p, n uintptr, what string) bool {
	if n == 0 || p == 0 {
		return false
	}
	k := [2]uintptr{p, n}
	if s.seen[k] {
		return false
	}
	s.seen[k] = true
	s.list = append(s.list, span{p, p + n, what})
	return true
}

func pointerFree(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.String, reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return false
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !pointerFree(t.Field(i).Type) {
				return false
			}
		}
	case reflect.Array:
		return pointerFree(t.Elem())
	}
	return true
}

func (s *spans) walk(v reflect.Value, what string, depth int) {
	if depth > 40 {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		if !s.addRange(v.Pointer(), uintptr(v.Cap())*v.Type().Elem().Size(), what) {
			return
		}
		if pointerFree(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i), what, depth+1)
		}
	case reflect.Array:
		if pointerFree(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i), what, depth+1)
		}
	case reflect.Map:
		if v.IsNil() || !s.addRange(v.Pointer(), 1, what) {
			return
		}
		it := v.MapRange()
		for it.Next() {
			w := what
			if it.Key().Kind() == reflect.String {
				w += fmt.Sprintf("[%q]", it.Key().String())
			}
			s.walk(it.Value(), w, depth+1)
		}
	case reflect.Ptr:
		if v.IsNil() || !s.addRange(v.Pointer(), v.Type().Elem().Size(), what) {
			return
		}
		s.walk(v.Elem(), what, depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			s.walk(v.Elem(), what, depth+1)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			s.walk(v.Field(i), what+"."+t.Field(i).Name, depth+1)
		}
	}
}

// overlap names the first part of o that shares memory with one of the others.
func overlap(o *spans, others ...*spans) string {
	var all []span
	for _, x := range others {
		all = append(all, x.list...)
	}
	sort.Slice(all, func(a, b int) bool { return all[a].lo < all[b].lo })
	// maxhi[i] is the largest end among the first i+1 ranges
	maxhi := make([]uintptr, len(all))
	for i := range all {
		maxhi[i] = all[i].hi
		if i > 0 && maxhi[i-1] > maxhi[i] {
			maxhi[i] = maxhi[i-1]
		}
	}
	for _, r := range o.list {
		i := sort.Search(len(all), func(i int) bool { return all[i].lo >= r.hi })
		if i == 0 || maxhi[i-1] <= r.lo {
			continue
		}
		for j := i - 1; j >= 0; j-- {
			if all[j].hi > r.lo {
				return r.what + " and " + all[j].what
			}
		}
	}
	return ""
}

// selfOverlap names two different parts of one object that share memory (rows of polynomials).
func selfOverlap(ct *mkrlwe.Ciphertext) string {
	var all []span
	for id, p := range ct.Value {
		for i := range p.Coeffs {
			lo := uintptr(unsafe.Pointer(&p.Coeffs[i][0]))
			all = append(all, span{lo, lo + uintptr(len(p.Coeffs[i]))*8, fmt.Sprintf("%q row %d", id, i)})
		}
	}
	sort.Slice(all, func(a, b int) bool { return all[a].lo < all[b].lo })
	for i := 1; i < len(all); i++ {
		if all[i].lo < all[i-1].hi {
			return all[i-1].what + " and " + all[i].what
		}
	}
	return ""
}

// ---------------------------------------------------------------- comparing results

// sameGen compares two ciphertexts modulo the primes.
func sameGen(a, b *mkrlwe.Ciphertext, Q []uint64) string {
	if !sameSet(idsOf(a.IDSet()), idsOf(b.IDSet())) {
		return fmt.Sprintf("parties %q and %q", idsOf(a.IDSet()), idsOf(b.IDSet()))
	}
	for _, id := range sortedKeys(a.Value) {
		p, q := a.Value[id], b.Value[id]
		if q == nil {
			return fmt.Sprintf("only one has a component %q", id)
		}
		if len(p.Coeffs) != len(q.Coeffs) {
			return fmt.Sprintf("component %q has %d rows in one and %d in the other", id, len(p.Coeffs), len(q.Coeffs))
		}
		if p.IsNTT != q.IsNTT {
			return fmt.Sprintf("component %q: different representations", id)
		}
		for i := range p.Coeffs {
			for j := range p.Coeffs[i] {
				if p.Coeffs[i][j]%Q[i] != q.Coeffs[i][j]%Q[i] {
					return fmt.Sprintf("component %q, row %d, coefficient %d: %d and %d", id, i, j, p.Coeffs[i][j], q.Coeffs[i][j])
				}
			}
		}
	}
	return ""
}

func sameSwk(a, b *mkrlwe.SwitchingKey, Q, P []uint64, beta, rows int) string {
	for i := 0; i < beta; i++ {
		for j := 0; j < rows; j++ {
			for k := range a.Value[i].Q.Coeffs[j] {
				if a.Value[i].Q.Coeffs[j][k]%Q[j] != b.Value[i].Q.Coeffs[j][k]%Q[j] {
					return fmt.Sprintf("part %d, row %d", i, j)
				}
			}
		}
		for j := range P {
			for k := range a.Value[i].P.Coeffs[j] {
				if a.Value[i].P.Coeffs[j][k]%P[j] != b.Value[i].P.Coeffs[j][k]%P[j] {
					return fmt.Sprintf("part %d, special row %d", i, j)
				}
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- operations on long-lived objects

// objs is one set of working objects of a scheme.
type objs struct {
	kev   *mkckks.Evaluator
	kdec  *mkckks.Decryptor
	kenc  *mkckks.Encryptor
	rlks  *mkrlwe.RelinearizationKeySet
	bev   *mkbfv.Evaluator
	bdec  *mkbfv.Decryptor
	benc  *mkbfv.Encryptor
	brlks *mkbfv.RelinearizationKeySet
	rks   *mkrlwe.RotationKeySet
	cks   *mkrlwe.ConjugationKeySet
	sks   *mkrlwe.SecretKeySet
}

func (x *ckksCtx) newObjs(names ...string) *objs {
	return &objs{kev: mkckks.NewEvaluator(x.params), kdec: mkckks.NewDecryptor(x.params), rlks: x.rlkSet(names...),
		rks: x.rotSet(names...), cks: x.cjkSet(names...), sks: x.skSet(names...)}
}

func (x *bfvCtx) newObjs(names ...string) *objs {
	return &objs{bev: mkbfv.NewEvaluator(x.params), bdec: mkbfv.NewDecryptor(x.params), brlks: x.rlkSet(names...),
		rks: x.rotSet(names...), cks: x.cjkSet(names...), sks: x.skSet(names...)}
}

// call is one drawn operation; run may be applied to any set of objects.
type call struct {
	name string
	run  func(o *objs) interface{}
	ins  []interface{} // operands
	ids  []string      // parties whose keys it needs
	kt   *tct          // what a CKKS ciphertext result must be
	bt   *bct          // the same for BFV
	lvl  int           // of the hoisted form computed
}

// ckksPool holds the operands calls are drawn from.
type ckksPool struct {
	x      *ckksCtx
	cts    []*tct
	forms  map[*mkckks.Ciphertext]*mkrlwe.HoistedCiphertext
	clone  bool
	clones []*mkckks.Ciphertext
}

func (p *ckksPool) arg(c *C, label string) *tct {
	t := p.cts[c.Idx(label, len(p.cts))]
	if !p.clone {
		return t
	}
	u := *t
	u.ct = t.ct.CopyNew()
	p.clones = append(p.clones, u.ct)
	return &u
}

func (p *ckksPool) put(c *C, t *tct) {
	if !t.fits(p.x) || !t.precise() && maxAbs(t.val) > 0 {
		return
	}
	if len(p.cts) < 6 {
		p.cts = append(p.cts, t)
	} else {
		p.cts[c.Idx("evict", len(p.cts))] = t
	}
}

// form gives a decomposition of t made earlier, or a new one by an evaluator of its own.
func (p *ckksPool) form(t *tct) *mkrlwe.HoistedCiphertext {
	if h := p.forms[t.ct]; h != nil {
		return h
	}
	return mkckks.NewEvaluator(p.x.params).HoistedForm(t.ct)
}

var ckksCalls = []string{"add", "sub", "mul", "square", "hmul", "ptxt", "const", "rot", "hrot", "conj", "rescale", "drop", "form", "mul", "rot", "dec"}

// draw picks a call; nil if the drawn one does not apply.
func (p *ckksPool) draw(c *C, kinds []string) *call {
	x := p.x
	op := kinds[c.Idx("op", len(kinds))]
	k := &call{name: op}
	a := p.arg(c, "a")
	k.ins = []interface{}{a.ct}
	k.ids = a.ids
	switch op {
	case "add", "sub":
		b := p.arg(c, "b")
		if !x.alignable(a, b) {
			return nil
		}
		k.ins = append(k.ins, b.ct)
		k.ids = union(a.ids, b.ids)
		if op == "add" {
			k.kt = x.mAdd(a, b, 1)
			k.run = func(o *objs) interface{} { return o.kev.AddNew(a.ct, b.ct) }
		} else {
			k.kt = x.mAdd(a, b, -1)
			k.run = func(o *objs) interface{} { return o.kev.SubNew(a.ct, b.ct) }
		}
	case "mul", "square", "hmul":
		b := a
		if op != "square" {
			b = p.arg(c, "b")
			k.ins = append(k.ins, b.ct)
			k.ids = union(a.ids, b.ids)
		}
		t, ok := x.mMul(a, b)
		if !ok {
			return nil
		}
		k.kt = t
		if op == "hmul" {
			var ha, hb *mkrlwe.HoistedCiphertext
			if c.Bool("ha") {
				ha = p.form(a)
				k.ins = append(k.ins, ha)
			}
			if c.Bool("hb") {
				hb = p.form(b)
				k.ins = append(k.ins, hb)
			}
			k.run = func(o *objs) interface{} { return o.kev.MulRelinHoistedNew(a.ct, b.ct, ha, hb, o.rlks) }
		} else {
			k.run = func(o *objs) interface{} { return o.kev.MulRelinNew(a.ct, b.ct, o.rlks) }
		}
	case "ptxt":
		m := genMsg(c, "pt", x.slots(), 4)
		t, ok := x.mMulPt(a, m, x.defScale())
		if !ok {
			return nil
		}
		k.kt = t
		pt := x.plaintext(c, m, x.params.MaxLevel(), x.defScale(), c.Bool("ptntt"))
		k.ins = append(k.ins, pt)
		k.run = func(o *objs) interface{} { return o.kev.MulPtxtNew(a.ct, pt) }
	case "const":
		kc, kv := drawConst(c)
		kk := math.Abs(real(kv)) + math.Abs(imag(kv)) + 1
		s := a.scale
		if real(kv) != math.Trunc(real(kv)) || imag(kv) != math.Trunc(imag(kv)) {
			s *= float64(x.params.Q()[a.level])
		}
		if !x.fits(a.level, s, (maxAbs(a.val)+a.eps)*kk*2) {
			return nil
		}
		k.kt = x.mConst(a, kv, s)
		k.run = func(o *objs) interface{} {
			out := mkckks.NewCiphertext(x.params, a.ct.IDSet(), a.level, 1)
			o.kev.MultByConst(a.ct, kc, out)
			return out
		}
	case "rot":
		r := x.drawRot(c)
		k.kt = x.mRot(a, r)
		k.run = func(o *objs) interface{} { return o.kev.RotateNew(a.ct, r, o.rks) }
	case "hrot":
		var rs []int
		for r := 1; r < x.params.N()/2; r *= 2 {
			rs = append(rs, r)
		}
		rs = append(append(rs, x.extra...), 0)
		r := rs[c.Idx("r", len(rs))]
		h := p.form(a)
		k.ins = append(k.ins, h)
		k.kt = x.mRot(a, r)
		k.run = func(o *objs) interface{} { return o.kev.RotateHoistedNew(a.ct, r, h, o.rks) }
	case "conj":
		k.kt = x.mConj(a)
		k.run = func(o *objs) interface{} { return o.kev.ConjugateNew(a.ct, o.cks) }
	case "rescale":
		mn := x.defScale()
		if c.Bool("other") {
			mn = math.Exp2(c.Float("minlog", 10, 50))
		}
		if a.level == 0 || x.borderline(a.level, a.scale, mn) {
			return nil
		}
		k.kt = x.mRescale(a, mn)
		intoOther := c.Bool("into")
		k.run = func(o *objs) interface{} {
			if intoOther {
				out := mkckks.NewCiphertext(x.params, a.ct.IDSet(), a.level, 1)
				if err := o.kev.Rescale(a.ct, mn, out); err != nil {
					return err
				}
				return out
			}
			out, err := o.kev.RescaleNew(a.ct, mn)
			if err != nil {
				return err
			}
			return out
		}
	case "drop":
		if a.level == 0 {
			return nil
		}
		k.kt = x.mDrop(a, 1+c.Idx("by", a.level))
		k.run = func(o *objs) interface{} { return o.kev.DropLevelNew(a.ct, a.level-k.kt.level) }
	case "form":
		k.lvl = a.level
		k.run = func(o *objs) interface{} {
			h := o.kev.HoistedForm(a.ct)
			return h
		}
	case "dec":
		k.run = func(o *objs) interface{} { return o.kdec.Decrypt(a.ct, o.sks) }
	}
	if k.kt != nil && !k.kt.fits(x) {
		return nil
	}
	return k
}

// sameResult compares the results of one call on two sets of objects.
func (x *ckksCtx) sameResult(k *call, a, b interface{}) string {
	switch a := a.(type) {
	case *mkckks.Ciphertext:
		b := b.(*mkckks.Ciphertext)
		if a.Scale != b.Scale {
			return fmt.Sprintf("scales %g and %g", a.Scale, b.Scale)
		}
		return sameGen(a.Ciphertext, b.Ciphertext, x.params.Q())
	case *mkckks.Message:
		b := b.(*mkckks.Message)
		if len(a.Value) != len(b.Value) {
			return fmt.Sprintf("%d and %d slots", len(a.Value), len(b.Value))
		}
		for i := range a.Value {
			if a.Value[i] != b.Value[i] {
				return fmt.Sprintf("slot %d: %v and %v", i, a.Value[i], b.Value[i])
			}
		}
		return ""
	case *mkrlwe.HoistedCiphertext:
		b := b.(*mkrlwe.HoistedCiphertext)
		if !sameSet(sortedKeys(a.Value), sortedKeys(b.Value)) {
			return fmt.Sprintf("forms of %q and %q", sortedKeys(a.Value), sortedKeys(b.Value))
		}
		for id := range a.Value {
			if d := sameSwk(a.Value[id], b.Value[id], x.params.Q(), x.params.P(), x.params.Beta(k.lvl), k.lvl+1); d != "" {
				return fmt.Sprintf("component %q: %s", id, d)
			}
		}
		return ""
	}
	return fmt.Sprintf("unexpected result %T: %v", a, a)
}

// ---------------------------------------------------------------- BFV calls

type bfvPool struct {
	x      *bfvCtx
	cts    []*bct
	clone  bool
	clones []*mkbfv.Ciphertext
}

func (p *bfvPool) arg(c *C, label string) *bct {
	t := p.cts[c.Idx(label, len(p.cts))]
	if !p.clone {
		return t
	}
	u := *t
	u.ct = t.ct.CopyNew()
	p.clones = append(p.clones, u.ct)
	return &u
}

func (p *bfvPool) put(c *C, t *bct) {
	if len(p.cts) < 6 {
		p.cts = append(p.cts, t)
	} else {
		p.cts[c.Idx("evict", len(p.cts))] = t
	}
}

var bfvCalls = []string{"add", "sub", "mul", "square", "rot", "conj", "mul", "rot", "dec"}

func (p *bfvPool) draw(c *C, kinds []string) *call {
	x := p.x
	op := kinds[c.Idx("op", len(kinds))]
	k := &call{name: op}
	a := p.arg(c, "a")
	k.ins = []interface{}{a.ct}
	k.ids = a.ids
	switch op {
	case "add", "sub", "mul", "square":
		b := a
		if op != "square" {
			b = p.arg(c, "b")
			k.ins = append(k.ins, b.ct)
			k.ids = union(a.ids, b.ids)
		}
		switch op {
		case "add":
			k.bt = x.mAdd(a, b, 1)
			k.run = func(o *objs) interface{} { return o.bev.AddNew(a.ct, b.ct) }
		case "sub":
			k.bt = x.mAdd(a, b, -1)
			k.run = func(o *objs) interface{} { return o.bev.SubNew(a.ct, b.ct) }
		default:
			k.bt = x.mMul(a, b)
			k.run = func(o *objs) interface{} { return o.bev.MulRelinNew(a.ct, b.ct, o.brlks) }
		}
	case "rot":
		r := x.drawRot(c)
		k.bt = x.mRot(a, r)
		k.run = func(o *objs) interface{} { return o.bev.RotateNew(a.ct, r, o.rks) }
	case "conj":
		k.bt = x.mConj(a)
		k.run = func(o *objs) interface{} { return o.bev.ConjugateNew(a.ct, o.cks) }
	case "dec":
		k.run = func(o *objs) interface{} { return o.bdec.Decrypt(a.ct, o.sks) }
	}
	if k.bt != nil && !x.fits(k.bt.noise) {
		return nil
	}
	return k
}

func (x *bfvCtx) sameResult(a, b interface{}) string {
	switch a := a.(type) {
	case *mkbfv.Ciphertext:
		return sameGen(a.Ciphertext, b.(*mkbfv.Ciphertext).Ciphertext, x.lit.Q)
	case *mkbfv.Message:
		b := b.(*mkbfv.Message)
		if len(a.Value) != len(b.Value) {
			return fmt.Sprintf("%d and %d slots", len(a.Value), len(b.Value))
		}
		for i := range a.Value {
			if a.Value[i] != b.Value[i] {
				return fmt.Sprintf("slot %d: %d and %d", i, a.Value[i], b.Value[i])
			}
		}
		return ""
	}
	return fmt.Sprintf("unexpected result %T: %v", a, a)
}

// ---------------------------------------------------------------- scribbling

// scribble overwrites everything numeric in a ciphertext.
func scribble(ct *mkrlwe.Ciphertext, seed uint64) {
	for id, p := range ct.Value {
		scribblePoly(p, mixSeed(seed, id))
	}
}

func scribblePoly(p *ring.Poly, seed uint64) {
	r := prng(seed)
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = r.Uint64() >> 40
		}
	}
}
