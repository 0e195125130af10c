package main

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

// Users fill the same message or plaintext object again and again. These helpers hand out objects of the
// running case that were used before, with new contents, about half of the time.

// earlier gives the object kept under key, if there is one and the case wants it.
func earlier[V any](c *C, key string) (v V, ok bool) {
	o, have := c.kept[key]
	if !have || !c.Bool("reused "+key) {
		return v, false
	}
	return o.(V), true
}

func (c *C) keep(key string, v interface{}) {
	if c.kept == nil {
		c.kept = map[string]interface{}{}
	}
	c.kept[key] = v
}

type keptMsg[M any, V any] struct {
	msg  *M
	full []V
}

// message gives a full-length CKKS message object with the values v.
func (x *ckksCtx) message(c *C, v []complex128) *mkckks.Message {
	k, ok := earlier[keptMsg[mkckks.Message, complex128]](c, "message")
	if !ok {
		m := mkckks.NewMessage(x.params)
		if m.Slots() != x.slots() || x.params.Slots() != x.slots() {
			c.Fatalf("NewMessage has %d slots, parameters have %d, want %d", m.Slots(), x.params.Slots(), x.slots())
		}
		k = keptMsg[mkckks.Message, complex128]{m, m.Value}
		c.keep("message", k)
	}
	k.msg.Value = k.full
	clear(k.full)
	copy(k.full, v)
	return k.msg
}

// message gives a full-length BFV message object with the values v.
func (x *bfvCtx) message(c *C, v []int64) *mkbfv.Message {
	k, ok := earlier[keptMsg[mkbfv.Message, int64]](c, "message")
	if !ok {
		m := mkbfv.NewMessage(x.params)
		if m.Slots() != x.params.N() {
			c.Fatalf("NewMessage has %d slots, want %d", m.Slots(), x.params.N())
		}
		k = keptMsg[mkbfv.Message, int64]{m, m.Value}
		c.keep("message", k)
	}
	k.msg.Value = k.full
	clear(k.full)
	copy(k.full, v)
	return k.msg
}

// plaintext is encode into a plaintext object that may have been used before.
func (x *ckksCtx) plaintext(c *C, v []complex128, level int, scale float64, ntt bool) *ckks.Plaintext {
	pt := x.encode(v, level, scale, ntt)
	if old, ok := earlier[*ckks.Plaintext](c, "plaintext"); ok {
		overwritePtxt(old, pt)
		return old
	}
	c.keep("plaintext", pt)
	return pt
}

// overwritePtxt makes the object old hold what pt holds.
func overwritePtxt(old, pt *ckks.Plaintext) {
	old.Scale = pt.Scale
	if old.Level() == pt.Level() {
		for i := range pt.Value.Coeffs {
			copy(old.Value.Coeffs[i], pt.Value.Coeffs[i])
		}
		old.Value.IsNTT = pt.Value.IsNTT
		return
	}
	*old.Value = *pt.Value
}

// ---------------------------------------------------------------- other contents in the same objects

// refilled overwrites the residues of operands, or a part of them, with others, giving a function that puts the old ones back.
func refilled(ins []interface{}, Q, P []uint64, seed uint64) func() {
	type saved struct{ dst, old []uint64 }
	var all []saved
	seen := map[*uint64]bool{}
	n := 0
	// how much of the contents changes: everything, or a part of the polynomials, rows or coefficients only
	extent := prng("extent", seed)
	part := extent.IntN(6)
	fill := func(p *ring.Poly, mod []uint64) {
		if part == 1 && extent.IntN(2) == 0 {
			return
		}
		for i := range p.Coeffs {
			row := p.Coeffs[i]
			if seen[&row[0]] {
				continue
			}
			if part == 2 && extent.IntN(2) == 0 {
				continue
			}
			seen[&row[0]] = true
			all = append(all, saved{row, append([]uint64(nil), row...)})
			n++
			r := prng("refill", seed, n)
			one := extent.IntN(len(row))
			for j := range row {
				if part == 3 && j != one || part == 4 && j == 0 {
					continue
				}
				row[j] = r.Uint64N(mod[i])
			}
		}
	}
	ct := func(ct *mkrlwe.Ciphertext) {
		for _, id := range sortedKeys(ct.Value) {
			fill(ct.Value[id], Q)
		}
	}
	swk := func(k *mkrlwe.SwitchingKey) {
		for i := range k.Value {
			fill(k.Value[i].Q, Q)
			fill(k.Value[i].P, P)
		}
	}
	for _, in := range ins {
		switch v := in.(type) {
		case *mkckks.Ciphertext:
			ct(v.Ciphertext)
		case *mkbfv.Ciphertext:
			ct(v.Ciphertext)
		case *mkrlwe.Ciphertext:
			ct(v)
		case *ckks.Plaintext:
			fill(v.Value, Q)
		case *bfv.Plaintext:
			fill(v.Value, Q)
		case *rlwe.Plaintext:
			fill(v.Value, Q)
		case *mkrlwe.HoistedCiphertext:
			for _, id := range sortedKeys(v.Value) {
				swk(v.Value[id])
			}
		case *mkrlwe.SwitchingKey:
			swk(v)
		default:
			Harness("cannot refill a %T", in)
		}
	}
	return func() {
		for _, s := range all {
			copy(s.dst, s.old)
		}
	}
}

// as relabels the keys of party m for party n.
func skAs(k *mkrlwe.SecretKey, n string) *mkrlwe.SecretKey {
	return &mkrlwe.SecretKey{SecretKey: k.SecretKey, ID: n}
}
func pkAs(k *mkrlwe.PublicKey, n string) *mkrlwe.PublicKey {
	return &mkrlwe.PublicKey{PublicKey: k.PublicKey, ID: n}
}
func rlkAs(k *mkrlwe.RelinearizationKey, n string) *mkrlwe.RelinearizationKey {
	return &mkrlwe.RelinearizationKey{Value: k.Value, ID: n}
}
func bfvRlkAs(k *mkbfv.RelinearizationKey, n string) *mkbfv.RelinearizationKey {
	return &mkbfv.RelinearizationKey{Value: [2]*mkrlwe.RelinearizationKey{rlkAs(k.Value[0], n), rlkAs(k.Value[1], n)}, ID: n}
}
func rotAs(k *mkrlwe.RotationKey, n string) *mkrlwe.RotationKey {
	return &mkrlwe.RotationKey{Value: k.Value, ID: n, RotIdx: k.RotIdx}
}
func cjkAs(k *mkrlwe.ConjugationKey, n string) *mkrlwe.ConjugationKey {
	return &mkrlwe.ConjugationKey{Value: k.Value, ID: n}
}

// giveKeys puts the keys of party m into the sets of o under the name n.
func (x *ckksCtx) giveKeys(o *objs, n, m string, rots []int) {
	o.rlks.AddRelinearizationKey(rlkAs(x.rlk(m), n))
	o.cks.AddConjugationKey(cjkAs(x.cjk(m), n))
	o.sks.AddSecretKey(skAs(x.party(m).sk, n))
	for _, k := range rots {
		o.rks.AddRotationKey(rotAs(x.rotKey(m, k), n))
	}
}

func (x *bfvCtx) giveKeys(o *objs, n, m string) {
	o.brlks.AddRelinearizationKey(bfvRlkAs(x.rlk(m), n))
	o.cks.AddConjugationKey(cjkAs(x.cjk(m), n))
	o.sks.AddSecretKey(skAs(x.party(m).sk, n))
	for _, k := range x.rots() {
		o.rks.AddRotationKey(rotAs(x.rotKey(m, k), n))
	}
}
