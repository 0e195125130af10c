package main

import (
	"math"
	"sort"

	"mk-lattigo/cnn"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
)

func init() {
	register(&Check{ID: "N01", Assumptions: rAssume,
		Rule: "a layer case is non-trivial if model and data belong to different parties and the result is known to better than 1/16 of its magnitude; a network case is non-trivial always",
		Subs: []Sub{
			{Name: "layers", Prop: n01Layers, Quick: 2100, Thorough: 60000},
			{Name: "ring13", Prop: n01Ring13, Quick: 42, Thorough: 1400},
			{Name: "network", Prop: n01Network, Quick: 7, Thorough: 210},
		}})
}

// cnnRots are the rotations of the layers that are not by powers of two.
func cnnRots(n2 int) []int {
	set := map[int]bool{}
	ks := []int{14, 15}
	most := 8
	if n2 <= 2048 {
		most = 16
	}
	for i := 3; i < most; i++ {
		ks = append(ks, i*128)
	}
	for _, k := range ks {
		k %= n2
		if k > 0 && k&(k-1) != 0 {
			set[k] = true
		}
	}
	var r []int
	for k := range set {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// The layers on plain vectors, with the error a correct evaluation may have.

func (x *ckksCtx) mFold(t *tct, amounts []int) *tct {
	for _, k := range amounts {
		t = x.mAdd(t, x.mRot(t, k), 1)
	}
	return t
}

func (x *ckksCtx) mConv(img *tct, ker []*tct) (*tct, bool) {
	var out *tct
	for i, k := range []int{0, 1, 14, 15} {
		t, ok := x.mMul(x.mRot(img, k), ker[i])
		if !ok {
			return nil, false
		}
		if i == 0 {
			out = t
			continue
		}
		if !x.alignable(out, t) {
			return nil, false
		}
		out = x.mAdd(out, t, 1)
	}
	out = x.mFold(out, []int{2048, 1024})
	return out, out.fits(x)
}

func (x *ckksCtx) mFC1(vec *tct, mat []*tct, bias *tct) (*tct, bool) {
	var out *tct
	for i := range mat {
		t, ok := x.mMul(x.mRot(vec, 128*i), mat[i])
		if !ok {
			return nil, false
		}
		if i == 0 {
			out = t
			continue
		}
		if !x.alignable(out, t) {
			return nil, false
		}
		out = x.mAdd(out, t, 1)
	}
	out = x.mFold(out, []int{1, 2, 4, 8, 16, 32, 64})
	if !out.fits(x) || !x.alignable(out, bias) {
		return nil, false
	}
	out = x.mAdd(out, bias, 1)
	return out, out.fits(x)
}

func (x *ckksCtx) mFC2(vec, mat, bias *tct, mask []complex128, scale float64) (*tct, bool) {
	out, ok := x.mMulPt(vec, mask, scale)
	if !ok {
		return nil, false
	}
	out = x.mFold(out, []int{-1, -2, -4, -8})
	if !out.fits(x) {
		return nil, false
	}
	if out, ok = x.mMul(out, mat); !ok {
		return nil, false
	}
	out = x.mFold(out, []int{128, 256, 512, 1024, 2048, 4096})
	if !out.fits(x) || !x.alignable(out, bias) {
		return nil, false
	}
	out = x.mAdd(out, bias, 1)
	return out, out.fits(x)
}

// cnnBench is one application: a model and the objects that serve all images.
type cnnBench struct {
	x           *ckksCtx
	ev          *mkckks.Evaluator
	dec         *mkckks.Decryptor
	sks         *mkrlwe.SecretKeySet
	rlks        *mkrlwe.RelinearizationKeySet
	rks         *mkrlwe.RotationKeySet
	enc         *mkckks.Encryptor
	model, data []string
	max         float64
	level       int
	free        bool // operands at any level and scale
	w           *watch
}

func (x *ckksCtx) newBench(c *C, model, data []string) *cnnBench {
	all := union(model, data)
	b := &cnnBench{x: x, enc: x.encryptor(c), model: model, data: data, w: &watch{}}
	b.ev = mkckks.NewEvaluator(x.params)
	b.dec = mkckks.NewDecryptor(x.params)
	b.sks, b.rlks, b.rks = x.skSet(all...), x.rlkSet(all...), x.rotSet(all...)
	return b
}

func (b *cnnBench) operand(c *C, label string, who []string, max float64) *tct {
	l, s := b.x.params.MaxLevel(), b.x.defScale()
	if b.free {
		if c.OneIn(label+".lower", 3) && l > 2 {
			l -= c.Int(label+".drop", 0, l-2)
		}
		if c.OneIn(label+".rescaled", 4) {
			s *= c.Float(label+".s", 0.5, 2)
		}
	}
	t := b.x.drawCt(c, label, b.enc, who, l, s, max)
	b.w.add(label, t.ct)
	return t
}

func (b *cnnBench) hoist(ts []*tct) (cts []*mkckks.Ciphertext, hs []*mkrlwe.HoistedCiphertext) {
	for _, t := range ts {
		cts = append(cts, t.ct)
		h := b.ev.HoistedForm(t.ct)
		b.w.add("a hoisted form", h)
		hs = append(hs, h)
	}
	return
}

func (x *ckksCtx) slots2() int { return x.params.N() / 2 }

func n01Layers(c *C) {
	list := []ckksCfg{}
	for _, f := range ckksSmall {
		if len(f.logQ) >= 4 {
			list = append(list, f)
		}
	}
	list = append(list, ckksMid...)
	cfg := pick(c, "cfg", list)
	if cfg.logN > 8 && !c.OneIn("mid", 4) {
		cfg = list[c.Idx("small", len(list)-len(ckksMid))]
	}
	if useFamily(c) {
		if f := genCkks(drawFamily(c)); len(f.logQ) >= 4 {
			cfg = f
		}
	}
	x := getCkks(c, cfg, 2)
	names := drawParties(c, "parties", 1, 4)
	var model, data []string
	if len(names) == 1 {
		model, data = names, names
	} else {
		k := c.Int("owners", 1, len(names)-1)
		model, data = names[:k], names[k:]
		if c.OneIn("common", 5) {
			data = names
		}
	}
	layersCase(c, x, model, data, true)
}

func n01Ring13(c *C) {
	cfg := ckksLarge[1]
	if c.OneIn("n12", 4) {
		cfg = ckksLarge[0]
	}
	x := getCkks(c, cfg, 2)
	layersCase(c, x, []string{"model"}, []string{"data"}, false)
}

func layersCase(c *C, x *ckksCtx, model, data []string, free bool) {
	b := x.newBench(c, model, data)
	b.free = free
	steps := c.Int("layers", 1, 2)
	precise := false
	// the model, with its hoisted forms, serves every image
	var ker, mat []*tct
	var kerC, matC []*mkckks.Ciphertext
	var kerH, matH []*mkrlwe.HoistedCiphertext
	var bias, bias2, fc2 *tct
	var mask []complex128
	for ; steps > 0; steps-- {
		switch pick(c, "layer", []string{"conv", "fc1", "fc2"}) {
		case "conv":
			if ker == nil {
				for i := 0; i < 4; i++ {
					ker = append(ker, b.operand(c, "kernel", model, 0.5))
				}
				kerC, kerH = b.hoist(ker)
			}
			img := b.operand(c, "image", data, 0.5)
			t, ok := x.mConv(img, ker)
			if !ok {
				continue
			}
			imgC, imgH := b.hoist([]*tct{img})
			t.ct = cnn.Convolution(b.ev, b.rlks, b.rks, imgC[0], imgH[0], kerC, kerH)
			x.verifyWith(c, "convolution", t, b.dec, b.sks)
			c.Class("convolution")
			precise = precise || t.precise()
		case "fc1":
			if mat == nil {
				n := c.Int("matrices", 1, 8)
				if x.slots2() <= 2048 && c.OneIn("wide", 4) {
					n = c.Int("matrices", 9, 20)
				}
				for i := 0; i < n; i++ {
					mat = append(mat, b.operand(c, "matrix", model, 0.25))
				}
				matC, matH = b.hoist(mat)
				bias = b.operand(c, "bias", model, 1)
			}
			vec := b.operand(c, "vector", data, 0.125)
			t, ok := x.mFC1(vec, mat, bias)
			if !ok {
				continue
			}
			vecC, vecH := b.hoist([]*tct{vec})
			t.ct = cnn.FC1Layer(b.ev, b.rlks, b.rks, vecC[0], vecH[0], matC, matH, bias.ct)
			x.verifyWith(c, "fc1", t, b.dec, b.sks)
			c.Class("fc1 matrices=%d", len(mat))
			precise = precise || t.precise()
		case "fc2":
			if fc2 == nil {
				fc2 = b.operand(c, "matrix2", model, 0.125)
				bias2 = b.operand(c, "bias2", model, 1)
				switch c.Idx("mask", 3) {
				case 0:
					mask = make([]complex128, x.slots())
					for i := 0; i < len(mask); i += 128 {
						mask[i] = 1
					}
				case 1:
					mask = make([]complex128, x.slots())
					for i := range mask {
						mask[i] = complex(float64((i+1)%2), 0)
					}
				default:
					mask = genMsg(c, "maskmsg", x.slots(), 1)
				}
			}
			vec := b.operand(c, "vector2", data, 0.0625)
			ms := x.defScale()
			if free && c.OneIn("maskscale", 4) {
				ms *= c.Float("ms", 0.5, 2)
			}
			t, ok := x.mFC2(vec, fc2, bias2, mask, ms)
			if !ok {
				continue
			}
			pt := x.encode(mask, c.Int("masklevel", vec.level, x.params.MaxLevel()), ms, c.Bool("maskntt"))
			b.w.add("the mask", pt)
			t.ct = cnn.FC2Layer(b.ev, b.rlks, b.rks, vec.ct, fc2.ct, bias2.ct, pt)
			x.verifyWith(c, "fc2", t, b.dec, b.sks)
			c.Class("fc2")
			precise = precise || t.precise()
		}
		if d := b.w.changed(); d != "" {
			c.Fatalf("a layer changed %s", d)
		}
	}
	c.Nontrivial(precise && !sameSet(model, data))
}

// ---------------------------------------------------------------- the whole network

var cnnCfg = ckksCfg{"cnn14", 14, cat([]int{57}, rep(6, 47)), []int{47, 47}, 13, 47}

// n01Network packs a random image and random weights as the application does, runs the layers on
// ciphertexts and compares the ten outputs with the network evaluated directly: a 4x4 convolution of
// stride 2 with five kernels, square, 845x64, square, 64x10.
func n01Network(c *C) {
	const nK, size, block, out, units, classes = 5, 28, 14, 13, 64, 10
	x := getCkks(c, cnnCfg, 2)
	b := x.newBench(c, []string{"model"}, []string{"data"})
	r := prng("cnn", c.Seed("weights"))
	u := func(s float64) float64 { return s * (2*r.Float64() - 1) }
	var kern [nK][4][4]float64
	for i := range kern {
		for j := range kern[i] {
			for k := range kern[i][j] {
				kern[i][j][k] = u(0.5)
			}
		}
	}
	fc1 := make([][units]float64, out*out*nK)
	for i := range fc1 {
		for j := range fc1[i] {
			fc1[i][j] = u(0.1)
		}
	}
	var fc2 [units][classes]float64
	for i := range fc2 {
		for j := range fc2[i] {
			fc2[i][j] = u(0.2)
		}
	}
	var b1 [units]float64
	for i := range b1 {
		b1[i] = u(0.5)
	}
	var b2 [classes]float64
	for i := range b2 {
		b2[i] = u(0.5)
	}

	slots := x.slots()
	enc := func(v []complex128, who string) *mkckks.Ciphertext {
		msg := mkckks.NewMessage(x.params)
		msg.Value = v
		return b.enc.EncryptMsgNew(msg, x.party(who).pk)
	}
	// packing of the model
	ker := make([]*mkckks.Ciphertext, 4)
	for q := range ker {
		v := make([]complex128, slots)
		for i := 0; i < nK; i++ {
			for j := 0; j < out; j++ {
				for k := 0; k < out; k++ {
					at := block*block*i + block*j + k
					for s := 0; s < 4; s++ {
						v[at+1024*s] = complex(kern[i][2*(q/2)+s/2][2*(q%2)+s%2], 0)
					}
				}
			}
		}
		copy(v[4096:], v[:4096])
		ker[q] = enc(v, "model")
	}
	rows := make([][1024]float64, units)
	for i := 0; i < nK; i++ {
		for j := 0; j < out; j++ {
			for k := 0; k < out; k++ {
				for l := 0; l < units; l++ {
					rows[l][block*block*i+block*j+k] = fc1[i+nK*(j*out+k)][l]
				}
			}
		}
	}
	mats := make([]*mkckks.Ciphertext, 8)
	for i := range mats {
		v := make([]complex128, slots)
		for j := 0; j < units; j++ {
			for k := 0; k < 128; k++ {
				v[128*j+k] = complex(rows[j][128*((i+j)%8)+k], 0)
			}
		}
		mats[i] = enc(v, "model")
	}
	v2, vb1, vb2, mask := make([]complex128, slots), make([]complex128, slots), make([]complex128, slots), make([]complex128, slots)
	for i := 0; i < units; i++ {
		for j := 0; j < classes; j++ {
			v2[128*i+j] = complex(fc2[i][j], 0)
		}
		vb1[128*i] = complex(b1[i], 0)
		mask[128*i] = 1
	}
	for i := range b2 {
		vb2[i] = complex(b2[i], 0)
	}
	cFC2, cB1, cB2 := enc(v2, "model"), enc(vb1, "model"), enc(vb2, "model")
	mm := mkckks.NewMessage(x.params)
	mm.Value = mask
	ptMask := b.enc.EncodeMsgNew(mm)
	hoist := func(cs []*mkckks.Ciphertext) (h []*mkrlwe.HoistedCiphertext) {
		for _, ct := range cs {
			h = append(h, b.ev.HoistedForm(ct))
		}
		return
	}
	kerH, matH := hoist(ker), hoist(mats)

	// two images with the same model
	type image struct {
		px              [size][size]float64
		conv, sq, f, s2 *mkckks.Ciphertext
	}
	imgs := make([]*image, c.Int("images", 1, 2))
	for m := range imgs {
		im := &image{}
		imgs[m] = im
		for i := range im.px {
			for j := range im.px[i] {
				im.px[i][j] = r.Float64()
			}
		}
		v := make([]complex128, slots)
		for k := 0; k < nK; k++ {
			for i := 0; i < block; i++ {
				for j := 0; j < block; j++ {
					for s := 0; s < 4; s++ {
						v[block*block*k+block*i+j+1024*s] = complex(im.px[2*i+s/2][2*j+s%2], 0)
					}
				}
			}
		}
		copy(v[4096:], v[:4096])
		ct := enc(v, "data")
		im.conv = cnn.Convolution(b.ev, b.rlks, b.rks, ct, b.ev.HoistedForm(ct), ker, kerH)
	}
	for _, im := range imgs {
		h := b.ev.HoistedForm(im.conv)
		im.sq = b.ev.MulRelinHoistedNew(im.conv, im.conv, h, h, b.rlks)
	}
	for _, im := range imgs {
		im.f = cnn.FC1Layer(b.ev, b.rlks, b.rks, im.sq, b.ev.HoistedForm(im.sq), mats, matH, cB1)
		h := b.ev.HoistedForm(im.f)
		im.s2 = b.ev.MulRelinHoistedNew(im.f, im.f, h, h, b.rlks)
	}
	for m, im := range imgs {
		res := cnn.FC2Layer(b.ev, b.rlks, b.rks, im.s2, cFC2, cB2, ptMask)
		got := b.dec.Decrypt(res, b.sks).Value
		// the network itself
		var hidden [units]float64
		for i := 0; i < nK; i++ {
			for j := 0; j < out; j++ {
				for k := 0; k < out; k++ {
					s := 0.0
					for y := 0; y < 4; y++ {
						for z := 0; z < 4; z++ {
							s += kern[i][y][z] * im.px[2*j+y][2*k+z]
						}
					}
					for l := range hidden {
						hidden[l] += s * s * fc1[i+nK*(j*out+k)][l]
					}
				}
			}
		}
		mag := 1.0
		for l := range hidden {
			hidden[l] += b1[l]
			hidden[l] *= hidden[l]
			mag = math.Max(mag, hidden[l])
		}
		for k := 0; k < classes; k++ {
			w := b2[k]
			for l := range hidden {
				w += hidden[l] * fc2[l][k]
			}
			// the noise of every step is below 2^-25 of the values at this scale
			if d := math.Abs(real(got[k]) - w); !(d <= mag*math.Exp2(-20)) {
				c.Fatalf("image %d: class %d scores %g, the network gives %g (largest activation %g)", m, k, real(got[k]), w, mag)
			} else {
				c.Max("network", d/(mag*math.Exp2(-20)))
			}
		}
	}
	c.Class("images=%d", len(imgs))
	c.Nontrivial(true)
}
