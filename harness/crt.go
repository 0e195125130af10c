package main

import (
	"math/big"
	"strings"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ring"
)

func firstWord(s string) string { return strings.SplitN(s, " ", 2)[0] }

// crt reconstructs integers from residues.
type crt struct {
	q    []uint64
	M    *big.Int
	half *big.Int
	w    []*big.Int // (M/qi) * ((M/qi)^-1 mod qi)
}

func newCRT(q []uint64) *crt {
	r := &crt{q: append([]uint64(nil), q...), M: big.NewInt(1)}
	for _, v := range q {
		r.M.Mul(r.M, new(big.Int).SetUint64(v))
	}
	r.half = new(big.Int).Rsh(r.M, 1)
	for _, v := range q {
		qi := new(big.Int).SetUint64(v)
		m := new(big.Int).Div(r.M, qi)
		inv := new(big.Int).ModInverse(new(big.Int).Mod(m, qi), qi)
		r.w = append(r.w, m.Mul(m, inv))
	}
	return r
}

// at reconstructs coefficient j, in [0, M).
func (r *crt) at(rows [][]uint64, j int) *big.Int {
	s, t := new(big.Int), new(big.Int)
	for i := range r.q {
		s.Add(s, t.Mul(r.w[i], t.SetUint64(rows[i][j])))
	}
	return s.Mod(s, r.M)
}

func (r *crt) center(v *big.Int) *big.Int {
	v.Mod(v, r.M)
	if v.Cmp(r.half) > 0 {
		v.Sub(v, r.M)
	}
	return v
}

func (r *crt) polyBig(rows [][]uint64) []*big.Int {
	out := make([]*big.Int, len(rows[0]))
	for j := range out {
		out[j] = r.at(rows, j)
	}
	return out
}

func (r *crt) polyCentered(rows [][]uint64) []*big.Int {
	out := r.polyBig(rows)
	for _, v := range out {
		r.center(v)
	}
	return out
}

func modU(v *big.Int, q uint64) uint64 {
	return new(big.Int).Mod(v, new(big.Int).SetUint64(q)).Uint64()
}

// newBfvEncoding is the encoding of a message by the underlying library's encoder.
func newBfvEncoding(x *bfvCtx, v []int64) *ring.Poly { return newBfvPlaintext(x, v).Value }

func newBfvPlaintext(x *bfvCtx, v []int64) *bfv.Plaintext {
	p, err := bfv.NewParameters(x.params.Parameters.Parameters, x.T)
	if err != nil {
		Harness("bfv parameters: %v", err)
	}
	pt := bfv.NewPlaintext(p)
	bfv.NewEncoder(p).EncodeInt(v, pt)
	return pt
}
