package main

import (
	"fmt"
	"math/rand/v2"
)

// Parameter sets that nobody chose: shapes of modulus chains, gadget blocks, sizes of primes, slots
// and error widths drawn from a small number, so that a case names its set by that number alone.

// drawFamily draws the number of a generated parameter set; most cases share a few dozen of them,
// since keys are made once for every set.
func drawFamily(c *C) int {
	if c.Idx("family.far", 12) == 11 {
		return c.Idx("family", 2000)
	}
	return c.Idx("family", 24)
}

// useFamily tells whether this case runs over a generated parameter set.
func useFamily(c *C) bool { return c.Idx("generated", 4) == 3 }

func genSigma(r *rand.Rand) string {
	return []string{"", "", "", "~1", "~6.5", "~9"}[r.IntN(6)]
}

func genCount(r *rand.Rand) int {
	if r.IntN(6) == 0 {
		return 8 + r.IntN(17)
	}
	return 1 + r.IntN(7)
}

func genCkks(k int) ckksCfg {
	r := prng("ckks-family", k)
	f := ckksCfg{name: fmt.Sprintf("g%d%s", k, genSigma(r)), logN: 4 + r.IntN(3)}
	f.logSlots = 1 + r.IntN(f.logN-1)
	f.logScale = 30 + r.IntN(21)
	top := f.logScale
	f.logQ = []int{min(60, f.logScale+5+r.IntN(12))}
	for n := genCount(r); len(f.logQ) < n; {
		b := f.logScale
		switch r.IntN(4) {
		case 0:
			b += r.IntN(5) - 2
		case 1:
			b = 30 + r.IntN(31)
		}
		f.logQ = append(f.logQ, b)
	}
	for sum := 0; ; sum = 0 { // the oracle counts in float64
		for _, b := range f.logQ {
			sum += b
		}
		if sum <= 700 {
			break
		}
		f.logQ = f.logQ[:len(f.logQ)-1]
	}
	for _, b := range f.logQ {
		top = max(top, b)
	}
	alpha := 1 + r.IntN(4)
	for n := 2*alpha + r.IntN(2); len(f.logP) < n; {
		f.logP = append(f.logP, top+r.IntN(61-top))
	}
	return f
}

func genBfv(k int) bfvCfg {
	r := prng("bfv-family", k)
	f := bfvCfg{name: fmt.Sprintf("g%d%s", k, genSigma(r)), logN: 4 + r.IntN(3)}
	alpha := 1 + r.IntN(4)
	f.nP = 2*alpha + r.IntN(2)
	f.nQ = alpha * (1 + r.IntN(4))
	if r.IntN(8) == 0 {
		f.nQ = alpha * (1 + r.IntN(17/alpha))
	}
	f.bQ = 40 + r.IntN(19)
	f.bP = f.bQ + 1 + r.IntN(60-f.bQ)
	if f.nQ == 1 {
		f.bQ, f.bP = 58, 60
	}
	ts := []uint64{65537, 12289, 40961, 786433, 0}
	switch f.logN {
	case 4:
		ts = append(ts, 97, 193, 257)
	case 5:
		ts = append(ts, 193, 257)
	case 6:
		ts = append(ts, 257, 641)
	}
	f.T = ts[r.IntN(len(ts))]
	if f.T == 0 && f.bQ < 45 { // the plaintext modulus must not be one of the ciphertext primes
		f.bQ += 6
		f.bP = max(f.bP, f.bQ+1)
	}
	if f.nQ < 3 {
		f.T = []uint64{97, 193, 257}[f.logN-4]
	}
	return f
}

func genR(k int) rCfg {
	r := prng("r-family", k)
	f := rCfg{name: fmt.Sprintf("g%d%s", k, genSigma(r)), logN: 4 + r.IntN(3), gamma: 2}
	switch r.IntN(8) {
	case 0:
		f.gamma = 1
	case 1:
		f.gamma = 3
	}
	top := 0
	base := 30 + r.IntN(29)
	for n := genCount(r); len(f.bQ) < n; {
		b := base
		if r.IntN(2) == 0 {
			b = 30 + r.IntN(29)
		}
		f.bQ = append(f.bQ, b)
		top = max(top, b)
	}
	for n := f.gamma*(1+r.IntN(4)) + r.IntN(f.gamma); len(f.bP) < n; {
		f.bP = append(f.bP, top+r.IntN(61-top))
	}
	return f
}
