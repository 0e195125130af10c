package main

import (
	"math"
	"math/bits"

	"mk-lattigo/mkckks"
)

// The model: what each operation must give, as a tracked value with an error bound.

func (x *ckksCtx) defScale() float64 { return math.Exp2(float64(x.cfg.logScale)) }

func (x *ckksCtx) slots() int { return 1 << x.cfg.logSlots }

// mAdd is the model of AddNew (sgn=1) and SubNew (sgn=-1).
func (x *ckksCtx) mAdd(a, b *tct, sgn float64) *tct {
	t := &tct{scale: math.Max(a.scale, b.scale), level: min(a.level, b.level), ids: union(a.ids, b.ids)}
	t.val = make([]complex128, len(a.val))
	for i := range t.val {
		t.val[i] = a.val[i] + complex(sgn, 0)*b.val[i]
	}
	lo, r := a, b.scale/a.scale
	if a.scale > b.scale {
		lo, r = b, a.scale/b.scale
	}
	f := math.Floor(r)
	align := math.Abs(f/r - 1)
	if f <= 1 {
		align = math.Abs(1/r - 1)
	}
	if r-math.Floor(r) > 1-1e-9 { // the ratio may round to either side
		align = math.Max(align, 1/r)
	}
	m := maxAbs(lo.val) + lo.eps
	t.eps = a.eps + b.eps + m*align*(1+1e-9) + x.flt(maxAbs(a.val)+maxAbs(b.val))
	return t
}

// alignable: the sum's operands fit also after the scale alignment.
func (x *ckksCtx) alignable(a, b *tct) bool {
	s := math.Max(a.scale, b.scale)
	l := min(a.level, b.level)
	return x.fits(l, s, 2*(maxAbs(a.val)+a.eps)+2*(maxAbs(b.val)+b.eps))
}

// rescaleModel gives level and scale after rescaling towards min.
func (x *ckksCtx) rescaleModel(level int, scale, min float64) (int, float64, int) {
	n := 0
	for level > 0 && scale/float64(x.params.Q()[level]) >= min/2 {
		scale /= float64(x.params.Q()[level])
		level--
		n++
	}
	return level, scale, n
}

// borderline: the decision of how many primes to consume hangs on float rounding.
func (x *ckksCtx) borderline(level int, scale, min float64) bool {
	for ; level > 0; level-- {
		r := scale / float64(x.params.Q()[level]) / (min / 2)
		if math.Abs(r-1) < 1e-9 {
			return true
		}
		if r < 1 {
			return false
		}
		scale /= float64(x.params.Q()[level])
	}
	return false
}

// mRescale models a rescale of a; only value-preserving.
func (x *ckksCtx) mRescale(a *tct, min float64) *tct {
	t := &tct{val: clone(a.val), ids: a.ids}
	var n int
	t.level, t.scale, n = x.rescaleModel(a.level, a.scale, min)
	t.eps = a.eps
	if n > 0 {
		t.eps += 2 * x.noise().round(len(a.ids)) / t.scale
	}
	return t
}

// mMul models a relinearised product; ok is false if it does not fit.
func (x *ckksCtx) mMul(a, b *tct) (*tct, bool) {
	p := &tct{scale: a.scale * b.scale, level: min(a.level, b.level), ids: union(a.ids, b.ids)}
	p.val = make([]complex128, len(a.val))
	for i := range p.val {
		p.val[i] = a.val[i] * b.val[i]
	}
	ma, mb := maxAbs(a.val), maxAbs(b.val)
	em := x.noise().mul(max(a.level, b.level), len(a.ids), len(b.ids)) / p.scale
	p.eps = ma*b.eps + mb*a.eps + a.eps*b.eps + em + x.flt(ma*mb)
	if !p.fits(x) || x.borderline(p.level, p.scale, x.defScale()) {
		return p, false
	}
	t := x.mRescale(p, x.defScale())
	return t, t.fits(x)
}

// mMulPt models the product with an encoded plaintext of message m at scale s.
func (x *ckksCtx) mMulPt(a *tct, m []complex128, s float64) (*tct, bool) {
	p := &tct{scale: a.scale * s, level: a.level, ids: a.ids}
	p.val = make([]complex128, len(a.val))
	for i := range p.val {
		p.val[i] = a.val[i] * m[i]
	}
	ma, mb := maxAbs(a.val), maxAbs(m)
	ep := 4*math.Sqrt(float64(x.params.N()))/s + x.flt(mb)
	p.eps = ma*ep + mb*a.eps + a.eps*ep + x.flt(ma*mb)
	if !p.fits(x) || x.borderline(p.level, p.scale, x.defScale()) {
		return p, false
	}
	t := x.mRescale(p, x.defScale())
	return t, t.fits(x)
}

// mRot models a rotation to the left by k.
func (x *ckksCtx) mRot(a *tct, k int) *tct {
	t := &tct{scale: a.scale, level: a.level, ids: a.ids, val: rotl(a.val, k)}
	t.eps = a.eps
	n2 := x.params.N() / 2
	kk := ((k % n2) + n2) % n2
	if kk != 0 {
		hops := float64(bits.OnesCount(uint(kk)))
		t.eps += hops * x.noise().ks(a.level, len(a.ids)) / a.scale
	}
	return t
}

func (x *ckksCtx) mConj(a *tct) *tct {
	t := &tct{scale: a.scale, level: a.level, ids: a.ids, val: make([]complex128, len(a.val))}
	for i, v := range a.val {
		t.val[i] = complex(real(v), -imag(v))
	}
	t.eps = a.eps + x.noise().ks(a.level, len(a.ids))/a.scale
	return t
}

func (x *ckksCtx) mDrop(a *tct, n int) *tct {
	return &tct{scale: a.scale, level: a.level - n, ids: a.ids, val: clone(a.val), eps: a.eps}
}

// mConst models the product with a constant whose encoding has scale cs (1 for integers).
func (x *ckksCtx) mConst(a *tct, k complex128, outScale float64) *tct {
	t := &tct{scale: outScale, level: a.level, ids: a.ids, val: make([]complex128, len(a.val))}
	for i, v := range a.val {
		t.val[i] = v * k
	}
	cs := outScale / a.scale
	kk := math.Abs(real(k)) + math.Abs(imag(k))
	ek := kk * math.Exp2(-50)
	if cs != 1 {
		ek += 1.5 / cs
	}
	m := maxAbs(a.val) + a.eps
	t.eps = a.eps*kk + m*ek + x.flt(m*kk)
	return t
}

func rotl(v []complex128, k int) []complex128 {
	n := len(v)
	k = ((k % n) + n) % n
	return append(append([]complex128(nil), v[k:]...), v[:k]...)
}

// ---------------------------------------------------------------- operand generation

// drawCfg picks a configuration; larger rings are rarer.
func drawCkks(c *C, variants int, minQ int) *ckksCtx {
	if useFamily(c) {
		if f := genCkks(drawFamily(c)); len(f.logQ) >= minQ {
			return getCkks(c, f, c.Idx("variant", variants))
		}
	}
	list := ckksSmall
	if c.Idx("mid", 40) == 39 {
		list = ckksMid
	}
	var ok []ckksCfg
	for _, f := range list {
		if len(f.logQ) >= minQ {
			ok = append(ok, f)
		}
	}
	cfg := pick(c, "cfg", ok)
	return getCkks(c, cfg, c.Idx("variant", variants))
}

// drawScale picks a scale near the default one.
func (x *ckksCtx) drawScale(c *C, label string) float64 {
	return oddScale(x.drawScale0(c, label))
}

// oddScale moves large powers of the square root of two a little: the dependency's encoder mistreats
// coefficients of exactly 2^64, which the regular messages have at such scales.
func oddScale(s float64) float64 {
	if l := 2 * math.Log2(s); l > 122 && math.Abs(l-math.Round(l)) < 1e-6 {
		return s * 1.0037
	}
	return s
}

func (x *ckksCtx) drawScale0(c *C, label string) float64 {
	d := x.defScale()
	switch c.Idx(label+".k", 7) {
	case 6: // anything that the modulus has room for
		hi := x.logQ(x.params.MaxLevel()) - 8
		return math.Exp2(float64(c.Int(label+".huge", 15, int(math.Max(16, hi)))))
	case 0, 1:
		return d
	case 2:
		return d * math.Exp2(float64(c.Int(label+".up", 1, 20)))
	case 3:
		return d * math.Exp2(-float64(c.Int(label+".down", 1, 12)))
	case 4:
		return d * c.Float(label+".f", 0.3, 3)
	default:
		return d * c.Float(label+".g", 3, 5000)
	}
}

// drawLevelScale picks a level and scale at which messages of magnitude 1 fit well.
func (x *ckksCtx) drawLevelScale(c *C, label string) (int, float64) {
	s := x.drawScale(c, label+".scale")
	lo := 0
	for lo < x.params.MaxLevel() && x.cap(lo, s) < 8 {
		lo++
	}
	if x.cap(lo, s) < 8 {
		s = x.defScale()
		for lo = 0; lo < x.params.MaxLevel() && x.cap(lo, s) < 8; lo++ {
		}
	}
	l := x.params.MaxLevel() - c.Idx(label+".drop", x.params.MaxLevel()-lo+1)
	c.Note("%s=level%d,scale2^%.2f", label, l, math.Log2(s))
	return l, s
}

// drawCt makes a random operand.
func (x *ckksCtx) drawCt(c *C, label string, enc *mkckks.Encryptor, names []string, level int, scale, maxMsg float64) *tct {
	m := math.Min(maxMsg, x.cap(level, scale)/4)
	v := genMsg(c, label+".msg", x.slots(), m)
	t := x.fresh(enc, v, names, level, scale, c.Seed(label+".share"))
	if !t.fits(x) {
		Harness("operand does not fit: %s level %d scale %g", x.cfg.name, level, scale)
	}
	return t
}

func (x *ckksCtx) encryptor(c *C) *mkckks.Encryptor {
	seedCrypto("enc", c.Seed("encseed"))
	return mkckks.NewEncryptor(x.params)
}
