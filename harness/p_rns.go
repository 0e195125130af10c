package main

import (
	"fmt"
	"math"
	"math/big"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
)

func init() {
	pure := []string{"the ring arithmetic (NTT, Montgomery and Barrett reductions, number generation) of the pinned lattigo v2.3.0 dependency is correct",
		"big-integer arithmetic of the Go standard library is correct",
		"within 2^-40 of the ends of the source range an extension may yield the neighbouring representative, as inherent in the floating point correction of the algorithm"}
	register(&Check{ID: "R01", Assumptions: pure, Rule: "a case is non-trivial if the source coefficients are not all equal and source or target has at least two primes",
		Subs: []Sub{
			{Name: "modup", Prop: r01Up, Quick: 120000, Thorough: 1500000},
			{Name: "moddown", Prop: r01Down, Quick: 120000, Thorough: 1500000},
		}})
	register(&Check{ID: "R02", Assumptions: pure, Rule: "a case is non-trivial if the polynomial is not constant and the level has at least two primes or the gadget at least two special primes",
		Subs: []Sub{
			{Name: "decompose", Prop: r02Decompose, Quick: 84000, Thorough: 700000},
			{Name: "external", Prop: r02External, Quick: 60000, Thorough: 500000},
			{Name: "oracle", Prop: r02Oracle, Quick: 48000, Thorough: 400000},
		}})
	register(&Check{ID: "R03", Assumptions: pure, Rule: "a case is non-trivial if the coefficients are not all equal",
		Subs: []Sub{
			{Name: "modup", Prop: r03Up, Quick: 56000, Thorough: 700000},
			{Name: "rescale", Prop: r03Rescale, Quick: 56000, Thorough: 700000},
			{Name: "quantize", Prop: r03Quantize, Quick: 56000, Thorough: 700000},
		}})
	register(&Check{ID: "U01", Assumptions: pure[1:2], Rule: "a case is non-trivial if the slice has at least four different elements, or there are at least two primes",
		Subs: []Sub{
			{Name: "std", Prop: u01Std, Quick: 600000, Thorough: 5000000},
			{Name: "bitrev", Prop: u01BitRev, Quick: 360000, Thorough: 3000000},
			{Name: "rescaling", Prop: u01Rescaling, Quick: 240000, Thorough: 2000000},
		}})
}

func allSame(v []*big.Int) bool {
	for _, x := range v {
		if x.Cmp(v[0]) != 0 {
			return false
		}
	}
	return true
}

// nearEnd: v is within m*2^-40 of 0 or m.
func nearEnd(v, m *big.Int) bool {
	eps := new(big.Int).Rsh(m, 40)
	if v.Cmp(eps) <= 0 {
		return true
	}
	return new(big.Int).Sub(m, v).Cmp(eps) <= 0
}

// sameInt finds the representative v + k*m, k in {0, 1, -1}, with the given residues.
func sameInt(v, m *big.Int, rows [][]uint64, q []uint64, j int) (int, bool) {
	for _, k := range []int{0, 1, -1} {
		w := new(big.Int).Add(v, new(big.Int).Mul(m, big.NewInt(int64(k))))
		ok := true
		for i := range q {
			ok = ok && rows[i][j] == modU(w, q[i])
		}
		if ok {
			return k, true
		}
	}
	return 0, false
}

// ---------------------------------------------------------------- R01

type extPair struct {
	n    int
	Q, P []uint64
	rq   *ring.Ring
	rp   *ring.Ring
	be   *mkrlwe.FastBasisExtender
}

func drawExt(c *C) *extPair {
	x := &extPair{n: 1 << (4 + c.Idx("logN", 3))}
	used := map[uint64]bool{}
	x.Q = drawPrimes(c, "Q", primeCount(c, "nQ"), x.n, used)
	x.P = drawPrimes(c, "P", primeCount(c, "nP"), x.n, used)
	x.rq, x.rp = ringOf(x.n, x.Q), ringOf(x.n, x.P)
	x.be = mkrlwe.NewFastBasisExtender(x.rq, x.rp)
	if c.OneIn("copy", 4) {
		x.be = x.be.ShallowCopy()
	}
	return x
}

func garbage(p *ring.Poly, q []uint64, seed uint64) {
	r := prng("garbage", seed)
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = r.Uint64N(q[i])
		}
	}
}

func r01Up(c *C) {
	x := drawExt(c)
	times := 1 + c.Idx("again", 2)
	for ; times > 0; times-- {
		src, dst, rs, rd := x.Q, x.P, x.rq, x.rp
		back := c.Bool("back")
		if back {
			src, dst, rs, rd = x.P, x.Q, x.rp, x.rq
		}
		ls, ld := c.Int("ls", 0, len(src)-1), c.Int("ld", 0, len(dst)-1)
		m := crtOf(src[:ls+1]).M
		v := edgeInts(c, "v", x.n, m, src[:ls+1])
		a, b := rs.NewPoly(), rd.NewPoly()
		garbage(a, src, 1)
		garbage(b, dst, 2)
		setPoly(a, v, src[:ls+1])
		before, old := a.CopyNew(), b.CopyNew()
		if back {
			x.be.ModUpPtoQ(ls, ld, a, b)
		} else {
			x.be.ModUpQtoP(ls, ld, a, b)
		}
		if !before.Equals(a) {
			c.Fatalf("basis extension changed its input")
		}
		for i := ld + 1; i < len(dst); i++ {
			for j := range b.Coeffs[i] {
				if b.Coeffs[i][j] != old.Coeffs[i][j] {
					c.Fatalf("basis extension to level %d wrote residues of level %d", ld, i)
				}
			}
		}
		rows := rowsOf(b, dst[:ld+1])
		for j := range v {
			k, ok := sameInt(v[j], m, rows, dst[:ld+1], j)
			if !ok {
				c.Fatalf("coefficient %d: %v extends to residues %v (mod %v), want those of the same integer (back=%v, levels %d to %d)", j, v[j], col(rows, j), dst[:ld+1], back, ls, ld)
			}
			if k != 0 && !nearEnd(v[j], m) {
				c.Fatalf("coefficient %d: %v of [0,%v) extends to its neighbour by %d moduli", j, v[j], m, k)
			}
		}
		c.Class("levels %d->%d", ls, ld)
		c.Nontrivial(!allSame(v) && ls+ld > 0)
	}
}

func col(rows [][]uint64, j int) []uint64 {
	var r []uint64
	for i := range rows {
		r = append(r, rows[i][j])
	}
	return r
}

func r01Down(c *C) {
	x := drawExt(c)
	times := 1 + c.Idx("again", 2)
	for ; times > 0; times-- {
		lq, lp := c.Int("lq", 0, len(x.Q)-1), c.Int("lp", 0, len(x.P)-1)
		Q, P := x.Q[:lq+1], x.P[:lp+1]
		all := append(append([]uint64(nil), Q...), P...)
		M := crtOf(all).M
		v := edgeInts(c, "v", x.n, M, all)
		aq, ap := x.rq.NewPoly(), x.rp.NewPoly()
		garbage(aq, x.Q, 1)
		garbage(ap, x.P, 2)
		setPoly(aq, v, Q)
		setPoly(ap, v, P)
		op := pick(c, "op", []string{"QPtoQ", "QPtoQNTT", "QPtoP"})
		var out *ring.Poly
		res, div := Q, crtOf(P).M
		switch op {
		case "QPtoQ":
			bp := ap.CopyNew()
			out = x.rq.NewPoly()
			bq := aq.CopyNew()
			if c.Bool("inplace") {
				out = aq
			}
			x.be.ModDownQPtoQ(lq, lp, aq, ap, out)
			if !bp.Equals(ap) || out != aq && !bq.Equals(aq) {
				c.Fatalf("ModDown changed its input")
			}
		case "QPtoQNTT":
			x.rq.NTTLvl(lq, aq, aq)
			x.rp.NTTLvl(lp, ap, ap)
			bq := aq.CopyNew()
			out = x.rq.NewPoly()
			if c.Bool("inplace") {
				out = aq
			}
			x.be.ModDownQPtoQNTT(lq, lp, aq, ap, out)
			if out != aq && !bq.Equals(aq) {
				c.Fatalf("ModDown changed its input")
			}
			t := x.rq.NewPoly()
			x.rq.ReduceLvl(lq, out, t)
			x.rq.InvNTTLvl(lq, t, t)
			out = t
		case "QPtoP":
			res, div = P, crtOf(Q).M
			bq, bp := aq.CopyNew(), ap.CopyNew()
			out = x.rp.NewPoly()
			if c.Bool("inplace") {
				out = ap
			}
			x.be.ModDownQPtoP(lq, lp, aq, ap, out)
			if !bq.Equals(aq) || out != ap && !bp.Equals(ap) {
				c.Fatalf("ModDown changed its input")
			}
		}
		rows := rowsOf(out, res)
		for j := range v {
			if msg := quotientOK(v[j], div, rows, res, j); msg != "" {
				c.Fatalf("%s at levels (%d,%d): coefficient %d: %s", op, lq, lp, j, msg)
			}
		}
		c.Class("%s", op)
		c.Nontrivial(!allSame(v) && len(all) > 2)
	}
}

// quotientOK: the residues are those of an integer within one unit of v/div.
func quotientOK(v, div *big.Int, rows [][]uint64, q []uint64, j int) string {
	fl := new(big.Int).Div(v, div)
	rem := new(big.Int).Mod(v, div)
	for _, d := range []int64{0, 1, -1} {
		if d == -1 && !nearEnd(rem, div) {
			continue
		}
		w := new(big.Int).Add(fl, big.NewInt(d))
		ok := true
		for i := range q {
			ok = ok && rows[i][j] == modU(w, q[i])
		}
		if ok {
			return ""
		}
	}
	return fmt.Sprintf("%v divided by %v gives residues %v (mod %v), want those of about %v", v, div, col(rows, j), q, fl)
}

// ---------------------------------------------------------------- R02

func (x *rctx) drawPoly(c *C, label string, level int) ([]*big.Int, *ring.Poly) {
	Q := x.Q[:level+1]
	v := edgeInts(c, label, x.n, crtOf(Q).M, Q)
	rows := len(Q)
	if c.OneIn(label+".tall", 3) {
		rows = len(x.Q)
	}
	p := ring.NewPoly(x.n, rows)
	garbage(p, x.Q, 3)
	setPoly(p, v, Q)
	if c.Bool(label + ".ntt") {
		ringOf(x.n, x.Q).NTTLvl(level, p, p)
		p.IsNTT = true
	}
	return v, p
}

// digits reads decomposed digits as integers, checking their range and consistency.
func (x *rctx) digits(c *C, level int, v []*big.Int, ad *mkrlwe.SwitchingKey) [][]*big.Int {
	Q := x.Q[:level+1]
	all := append(append([]uint64(nil), Q...), x.P...)
	var out [][]*big.Int
	for i := 0; i < x.beta(level); i++ {
		rows := plainRows(x.n, Q, x.P, ad.Value[i].Q, ad.Value[i].P, true, false)
		blk := x.block(i, level)
		D := crtOf(blk).M
		ds := make([]*big.Int, x.n)
		for j := range ds {
			d := new(big.Int).Mod(v[j], D)
			k, ok := sameInt(d, D, rows, all, j)
			if !ok {
				c.Fatalf("digit %d of coefficient %d (%v) at level %d: residues %v (mod %v) are not those of %v (value mod %v)", i, j, v[j], level, col(rows, j), all, d, D)
			}
			if k != 0 && !nearEnd(d, D) {
				c.Fatalf("digit %d of coefficient %d at level %d is off by %d times its modulus %v", i, j, level, k, D)
			}
			ds[j] = d.Add(d, new(big.Int).Mul(D, big.NewInt(int64(k))))
		}
		out = append(out, ds)
	}
	return out
}

func r02Decompose(c *C) {
	x := drawR(c)
	ks := mkrlwe.NewKeySwitcher(x.params)
	ad := mkrlwe.NewSwitchingKey(x.params)
	for n := 1 + c.Idx("again", 2); n > 0; n-- {
		level := c.Int("level", 0, len(x.Q)-1)
		v, a := x.drawPoly(c, "a", level)
		before := a.CopyNew()
		ks.Decompose(level, a, ad)
		if !before.Equals(a) || before.IsNTT != a.IsNTT {
			c.Fatalf("Decompose changed its input")
		}
		x.digits(c, level, v, ad)
		c.Class("%s level %d", x.cfg.name, level)
		c.Nontrivial(!allSame(v) && (level > 0 || len(x.P) > 1))
	}
}

// swk returns a gadget encryption of the key of the named party.
func (x *rctx) swk(name string) *mkrlwe.SwitchingKey {
	if x.swks[name] == nil {
		sk := x.sk(name)
		seedCrypto("r-swk", x.cfg.name, name)
		x.swks[name] = mkrlwe.NewSwitchingKey(x.params)
		mkrlwe.NewKeyGenerator(x.params).GenSwitchingKey(sk, x.swks[name])
	}
	return x.swks[name]
}

// ksBound bounds the error of an external product with a gadget encryption with errors below e.
func (x *rctx) ksBound(level int, e float64) float64 {
	s := 0.0
	for i := 0; i < x.beta(level); i++ {
		s += bigF(crtOf(x.block(i, level)).M) * 1.0001
	}
	return s*float64(x.n)*e/bigF(crtOf(x.P).M) + 2
}

func (x *rctx) errMax() float64 { return math.Floor(6 * x.params.Sigma()) }

func r02External(c *C) {
	x := drawR(c)
	ks := mkrlwe.NewKeySwitcher(x.params)
	for n := 1 + c.Idx("again", 2); n > 0; n-- {
		level := c.Int("level", 0, len(x.Q)-1)
		Q := x.Q[:level+1]
		v, a := x.drawPoly(c, "a", level)
		name := pick(c, "key", partyPool[:3])
		bg := x.swk(name)
		out := ring.NewPoly(x.n, level+1)
		before := a.CopyNew()
		hoisted := c.Bool("hoisted")
		if hoisted {
			ad := mkrlwe.NewSwitchingKey(x.params)
			ks.Decompose(level, a, ad)
			ks.ExternalProductHoisted(level, ad, bg, out)
		} else {
			ks.ExternalProduct(level, a, bg, out)
		}
		if !before.Equals(a) {
			c.Fatalf("the external product changed its input")
		}
		// out - a*s
		r := ringOf(x.n, Q)
		t, want := r.NewPoly(), r.NewPoly()
		setPoly(t, v, Q)
		r.NTT(t, t)
		for i := range Q { // the secret is in Montgomery form and NTT domain
			copy(want.Coeffs[i], x.sk(name).Value.Q.Coeffs[i])
		}
		r.MulCoeffsMontgomery(t, want, want)
		r.InvNTT(want, want)
		red := r.NewPoly()
		for i := range Q {
			copy(red.Coeffs[i], out.Coeffs[i])
		}
		r.Reduce(red, red)
		r.Sub(red, want, red)
		err := maxAbsBig(crtOf(Q).polyCentered(red.Coeffs))
		bound := x.ksBound(level, x.errMax())
		if e := bigF(err); e > bound {
			c.Fatalf("%s level %d hoisted=%v: external product is off by %v, allowed %g (Q=2^%d)", x.cfg.name, level, hoisted, err, bound, crtOf(Q).M.BitLen())
		} else {
			c.Max("external product error", e/bound)
		}
		c.Class("%s level %d", x.cfg.name, level)
		c.Nontrivial(!allSame(v) && (level > 0 || len(x.P) > 1))
	}
}

// r02Oracle compares the external product with a gadget vector of arbitrary (uniform) entries to
// the same sum of products of digits computed apart, divided by P.
func r02Oracle(c *C) {
	x := drawR(c)
	if x.n > 200 {
		c.Discard("small rings only")
	}
	ks := mkrlwe.NewKeySwitcher(x.params)
	level := c.Int("level", 0, len(x.Q)-1)
	Q := x.Q[:level+1]
	all := append(append([]uint64(nil), Q...), x.P...)
	v, a := x.drawPoly(c, "a", level)
	idx := pick(c, "crs", []int{0, -1, -2, -3, -4, 1, 2})
	bg := x.params.CRS[idx]
	out := ring.NewPoly(x.n, level+1)
	hoisted := c.Bool("hoisted")
	ad := mkrlwe.NewSwitchingKey(x.params)
	if hoisted {
		ks.Decompose(level, a, ad)
		ks.ExternalProductHoisted(level, ad, bg, out)
	} else {
		ks.ExternalProduct(level, a, bg, out)
		ks.Decompose(level, a, ad)
	}
	ds := x.digits(c, level, v, ad)
	rq, rp := ringOf(x.n, Q), ringOf(x.n, x.P)
	sum := make([][]uint64, 0, len(all))
	part := func(r *ring.Ring, q []uint64, of func(i int) *ring.Poly) {
		acc, t, u := r.NewPoly(), r.NewPoly(), r.NewPoly()
		for i := range ds {
			setPoly(t, ds[i], q)
			r.NTT(t, t)
			for k := range q {
				copy(u.Coeffs[k], of(i).Coeffs[k])
			}
			r.MulCoeffsMontgomery(t, u, t)
			r.Add(acc, t, acc)
		}
		r.InvNTT(acc, acc)
		sum = append(sum, acc.Coeffs...)
	}
	part(rq, Q, func(i int) *ring.Poly { return bg.Value[i].Q })
	part(rp, x.P, func(i int) *ring.Poly { return bg.Value[i].P })
	big := crtOf(all).polyBig(sum)
	rows := rowsOf(out, Q)
	div := crtOf(x.P).M
	for j := range big {
		if msg := quotientOK(big[j], div, rows, Q, j); msg != "" {
			c.Fatalf("%s level %d crs %d hoisted=%v: coefficient %d: %s", x.cfg.name, level, idx, hoisted, j, msg)
		}
	}
	c.Class("%s level %d", x.cfg.name, level)
	c.Nontrivial(!allSame(v) && (level > 0 || len(x.P) > 1))
}

// ---------------------------------------------------------------- R03

func (x *bfvCtx) conv() *mkbfv.FastBasisExtender {
	p := x.params
	return mkbfv.NewFastBasisExtender(p.RingP(), p.RingQ(), p.RingQMul(), p.RingR())
}

func (x *bfvCtx) primesR() []uint64 {
	return append(append([]uint64(nil), x.lit.Q...), x.lit.QMul...)
}

// drawConv draws a converter, of a parameter set or of arbitrary primes.
func drawConv(c *C) (conv *mkbfv.FastBasisExtender, n int, Q, QMul []uint64) {
	if c.Bool("params") {
		cfg := pick(c, "cfg", bfvSmall)
		if useFamily(c) {
			cfg = genBfv(drawFamily(c))
		}
		x := getBfv(c, cfg, 0)
		return x.conv(), x.params.N(), x.lit.Q, x.lit.QMul
	}
	n = 1 << (4 + c.Idx("logN", 3))
	used := map[uint64]bool{}
	k := primeCount(c, "nQ")
	Q = drawPrimes(c, "Q", k, n, used)
	QMul = drawPrimes(c, "QMul", k, n, used)
	rp := ringOf(n, drawPrimes(c, "P", 2, n, used))
	conv = mkbfv.NewFastBasisExtender(rp, ringOf(n, Q), ringOf(n, QMul), ringOf(n, append(append([]uint64(nil), Q...), QMul...)))
	return
}

func r03Up(c *C) {
	conv, n, Q, QMul := drawConv(c)
	R := append(append([]uint64(nil), Q...), QMul...)
	for k := 1 + c.Idx("again", 2); k > 0; k-- {
		M := crtOf(Q).M
		v := edgeInts(c, "v", n, M, Q)
		a, b := ring.NewPoly(n, len(Q)), ring.NewPoly(n, len(R))
		setPoly(a, v, Q)
		garbage(b, R, 5)
		before := a.CopyNew()
		conv.ModUpQtoR(a, b)
		if !before.Equals(a) {
			c.Fatalf("ModUpQtoR changed its input")
		}
		rows := rowsOf(b, R)
		for j := range v {
			k, ok := sameInt(v[j], M, rows, R, j)
			if !ok {
				c.Fatalf("coefficient %d: %v is raised to residues %v (mod %v)", j, v[j], col(rows, j), R)
			}
			if k != 0 && !nearEnd(v[j], M) {
				c.Fatalf("coefficient %d: %v of [0,%v) is raised to its neighbour by %d moduli", j, v[j], M, k)
			}
		}
		c.Nontrivial(!allSame(v))
		c.Class("primes %d", len(Q))
	}
}

func r03Rescale(c *C) {
	conv, n, Q, QMul := drawConv(c)
	R := append(append([]uint64(nil), Q...), QMul...)
	M, MM := crtOf(Q).M, crtOf(QMul).M
	for k := 1 + c.Idx("again", 2); k > 0; k-- {
		v := edgeInts(c, "v", n, M, Q)
		a, b := ring.NewPoly(n, len(Q)), ring.NewPoly(n, len(R))
		setPoly(a, v, Q)
		garbage(b, R, 5)
		before := a.CopyNew()
		conv.Rescale(a, b)
		if !before.Equals(a) {
			c.Fatalf("Rescale changed its input")
		}
		got := crtOf(R).polyCentered(rowsOf(b, R))
		for j := range v {
			// |got*Q - v'*QMul| <= Q*(1+2^-40) for a representative v' of v in [-Q, 2Q]
			ok := false
			for _, s := range []int64{0, -1, 1} {
				w := new(big.Int).Add(v[j], new(big.Int).Mul(M, big.NewInt(s)))
				w.Mul(w, MM)
				w.Sub(new(big.Int).Mul(got[j], M), w)
				w.Abs(w)
				lim := new(big.Int).Add(M, new(big.Int).Rsh(M, 40))
				if w.Cmp(lim) <= 0 {
					ok = s == 0 || s == -1 || nearEnd(v[j], M)
				}
			}
			if !ok {
				c.Fatalf("coefficient %d: %v rescales to %v, want about %v (Q=%v QMul=%v)", j, v[j], got[j], new(big.Int).Div(new(big.Int).Mul(v[j], MM), M), Q, QMul)
			}
		}
		c.Nontrivial(!allSame(v))
		c.Class("primes %d", len(Q))
	}
}

func r03Quantize(c *C) {
	conv, n, Q, QMul := drawConv(c)
	R := append(append([]uint64(nil), Q...), QMul...)
	MR, MM := crtOf(R).M, crtOf(QMul).M
	rr := ringOf(n, R)
	for k := 1 + c.Idx("again", 2); k > 0; k-- {
		v := edgeInts(c, "v", n, MR, R)
		var t uint64
		switch c.Idx("tkind", 3) {
		case 0:
			t = pick(c, "t", []uint64{2, 3, 97, 257, 65537, 1})
		case 1:
			t = uint64(c.Int("t", 1, 1<<30))
		default:
			t = uint64(c.Int("t", 1, 1<<58))
		}
		a, b := ring.NewPoly(n, len(R)), ring.NewPoly(n, len(Q))
		setPoly(a, v, R)
		garbage(b, Q, 5)
		rr.NTT(a, a)
		before := a.CopyNew()
		conv.Quantize(a, b, t)
		if !before.Equals(a) {
			c.Fatalf("Quantize changed its input")
		}
		rows := rowsOf(b, Q)
		for j := range v {
			w := new(big.Int).Mul(v[j], new(big.Int).SetUint64(t))
			w.Mod(w, MR)
			if msg := quotientOK(w, MM, rows, Q, j); msg != "" {
				c.Fatalf("t=%d coefficient %d: %s", t, j, msg)
			}
		}
		c.Nontrivial(!allSame(v))
		c.Class("primes %d", len(Q))
	}
}

// ---------------------------------------------------------------- U01

func u01Std(c *C) {
	n := 1 + c.Idx("n", 40)
	scale := pick(c, "scale", []float64{1, 2, 0.5, 1 << 40, 0, 1e-9})
	mag := pick(c, "mag", []float64{1, 1e-6, 1e9, 3.2})
	off := pick(c, "off", []float64{0, 1, -5, 100})
	kind := pick(c, "kind", []string{"random", "const", "two", "unit"})
	r := prng("std", c.Seed("seed"))
	v := make([]float64, n)
	for i := range v {
		switch kind {
		case "random":
			v[i] = mag * (r.Float64()*2 - 1 + off)
		case "const":
			v[i] = mag * off
		case "two":
			v[i] = mag * (off + float64(i%2))
		case "unit":
			if i == 0 {
				v[i] = mag
			}
		}
	}
	before := append([]float64(nil), v...)
	got := mkckks.StandardDeviation(v, scale)
	// exact reference
	prec := uint(400)
	bf := func(x float64) *big.Float { return new(big.Float).SetPrec(prec).SetFloat64(x) }
	sum, sq := bf(0), bf(0)
	for _, x := range before {
		sum.Add(sum, bf(x))
	}
	mean := new(big.Float).SetPrec(prec).Quo(sum, bf(float64(n)))
	for _, x := range before {
		d := new(big.Float).SetPrec(prec).Sub(bf(x), mean)
		sq.Add(sq, d.Mul(d, d))
	}
	sq.Quo(sq, bf(float64(n)))
	sd := new(big.Float).SetPrec(prec).Sqrt(sq)
	sd.Mul(sd, bf(scale))
	want, _ := sd.Float64()
	tol := 1e-9*want + scale*mag*(math.Abs(off)+2)*1e-12
	if math.IsNaN(got) || math.Abs(got-want) > tol {
		c.Fatalf("StandardDeviation(%v, %g) = %g, want %g", before, scale, got, want)
	}
	for i := range v {
		if v[i] != before[i] {
			c.Fatalf("StandardDeviation changed its input")
		}
	}
	c.Class("kind %s", kind)
	c.Nontrivial(n >= 4 && kind == "random")
}

func rev(i, log int) int {
	r := 0
	for k := 0; k < log; k++ {
		r |= (i >> k & 1) << (log - 1 - k)
	}
	return r
}

func u01BitRev(c *C) {
	log := c.Idx("log", 11)
	n := 1 << log
	extra := c.Idx("extra", 4)
	f := make([]float64, n+extra)
	z := make([]complex128, n+extra)
	w := make([]*ring.Complex, n+extra)
	r := prng("bitrev", c.Seed("seed"))
	for i := range f {
		f[i] = r.Float64()
		z[i] = complex(r.Float64(), r.Float64())
		w[i] = ring.NewComplex(big.NewFloat(r.Float64()), big.NewFloat(0))
	}
	g, y, u := append([]float64(nil), f...), append([]complex128(nil), z...), append([]*ring.Complex(nil), w...)
	mkckks.SliceBitReverseInPlaceFloat64(g, n)
	mkckks.SliceBitReverseInPlaceComplex128(y, n)
	mkckks.SliceBitReverseInPlaceRingComplex(u, n)
	for i := range f {
		k := i
		if i < n {
			k = rev(i, log)
		}
		if g[i] != f[k] || y[i] != z[k] || u[i] != w[k] {
			c.Fatalf("bit reversal of size %d: position %d does not hold element %d", n, i, k)
		}
	}
	mkckks.SliceBitReverseInPlaceFloat64(g, n)
	mkckks.SliceBitReverseInPlaceComplex128(y, n)
	mkckks.SliceBitReverseInPlaceRingComplex(u, n)
	for i := range f {
		if g[i] != f[i] || y[i] != z[i] || u[i] != w[i] {
			c.Fatalf("bit reversal of size %d is not its own inverse", n)
		}
	}
	c.Class("size %d", n)
	c.Nontrivial(n >= 4)
}

func u01Rescaling(c *C) {
	n := 1 << (4 + c.Idx("logN", 3))
	used := map[uint64]bool{}
	Q := drawPrimes(c, "Q", primeCount(c, "nQ"), n, used)
	P := drawPrimes(c, "P", primeCount(c, "nP"), n, used)
	q0, p0 := fmt.Sprint(Q), fmt.Sprint(P)
	got := mkckks.GenSwitchkeysRescalingParams(Q, P)
	if len(got) != len(Q) || fmt.Sprint(Q) != q0 || fmt.Sprint(P) != p0 {
		c.Fatalf("GenSwitchkeysRescalingParams returns %d constants for %d primes or changed its input", len(got), len(Q))
	}
	r := new(big.Int).Lsh(big.NewInt(1), 64)
	prod := big.NewInt(1)
	for _, p := range P {
		prod.Mul(prod, new(big.Int).SetUint64(p))
	}
	for i, q := range Q {
		b := new(big.Int).SetUint64(q)
		want := new(big.Int).ModInverse(prod, b)
		want.Mul(want, r).Mod(want, b)
		if want.Uint64() != got[i]%q {
			c.Fatalf("constant %d is %d, want %v (P^-1 * 2^64 mod %d)", i, got[i], want, q)
		}
	}
	c.Class("primes %d/%d", len(Q), len(P))
	c.Nontrivial(len(Q) >= 2 && len(P) >= 2)
}
