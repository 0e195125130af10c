package main

import (
	"fmt"
	"math"
	"math/cmplx"
	"math/rand"
	"os"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

var rng = rand.New(rand.NewSource(20240607))

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}

func must(ok bool, f string, a ...interface{}) {
	if !ok {
		fail(f, a...)
	}
}

// refused reports whether f panics.
func refused(f func()) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			r = true
		}
	}()
	f()
	return false
}

func equalPoly(a, b *ring.Poly) bool {
	if len(a.Coeffs) != len(b.Coeffs) {
		return false
	}
	for i := range a.Coeffs {
		for j := range a.Coeffs[i] {
			if a.Coeffs[i][j] != b.Coeffs[i][j] {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- CKKS

type ck struct {
	params mkckks.Parameters
	par    ckks.Parameters
	kgen   *mkrlwe.KeyGenerator
	enc    *mkckks.Encryptor
	dec    *mkckks.Decryptor
	eval   *mkckks.Evaluator
	sk     *mkrlwe.SecretKeySet
	pk     *mkrlwe.PublicKeySet
	rlk    *mkrlwe.RelinearizationKeySet
	rot    *mkrlwe.RotationKeySet
	cjk    *mkrlwe.ConjugationKeySet
}

func newCk(logN, logSlots int, logQ, logP []int, logScale int, ids ...string) *ck {
	par, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{
		LogN: logN, LogQ: logQ, LogP: logP, Sigma: rlwe.DefaultSigma,
		LogSlots: logSlots, Scale: math.Exp2(float64(logScale)),
	})
	if err != nil {
		panic(err)
	}
	x := &ck{par: par, params: mkckks.NewParameters(par)}
	x.kgen = mkckks.NewKeyGenerator(x.params)
	x.enc = mkckks.NewEncryptor(x.params)
	x.dec = mkckks.NewDecryptor(x.params)
	x.eval = mkckks.NewEvaluator(x.params)
	x.sk = mkrlwe.NewSecretKeySet()
	x.pk = mkrlwe.NewPublicKeyKeySet()
	x.rlk = mkrlwe.NewRelinearizationKeyKeySet(x.params.Parameters)
	x.rot = mkrlwe.NewRotationKeySet()
	x.cjk = mkrlwe.NewConjugationKeySet()
	for _, id := range ids {
		sk, pk := x.kgen.GenKeyPair(id)
		x.sk.AddSecretKey(sk)
		x.pk.AddPublicKey(pk)
		x.rlk.AddRelinearizationKey(x.kgen.GenRelinearizationKey(sk, x.kgen.GenSecretKey(id)))
		for k := 1; k < x.params.N()/2; k *= 2 {
			x.rot.AddRotationKey(x.kgen.GenRotationKey(k, sk))
		}
		x.cjk.AddConjugationKey(x.kgen.GenConjugationKey(sk))
	}
	return x
}

func (x *ck) msg() *mkckks.Message {
	m := mkckks.NewMessage(x.params)
	for i := range m.Value {
		m.Value[i] = complex(2*rng.Float64()-1, 2*rng.Float64()-1)
	}
	return m
}

// encAt encrypts at a given level and scale.
func (x *ck) encAt(id string, m *mkckks.Message, level int, scale float64) *mkckks.Ciphertext {
	pt := ckks.NewPlaintext(x.par, level, scale)
	ckks.NewEncoder(x.par).Encode(pt, m.Value, x.params.LogSlots())
	ids := mkrlwe.NewIDSet()
	ids.Add(id)
	ct := mkckks.NewCiphertext(x.params, ids, level, scale)
	x.enc.EncryptPtxt(pt, x.pk.GetPublicKey(id), ct)
	return ct
}

func (x *ck) encNew(id string, m *mkckks.Message) *mkckks.Ciphertext {
	return x.enc.EncryptMsgNew(m, x.pk.GetPublicKey(id))
}

// far returns the largest distance between the decryption of ct and f.
func (x *ck) far(ct *mkckks.Ciphertext, f func(i int) complex128) float64 {
	m := x.dec.Decrypt(ct, x.sk)
	d := 0.0
	for i := range m.Value {
		e := cmplx.Abs(m.Value[i] - f(i))
		if math.IsNaN(e) {
			return math.Inf(1)
		}
		d = math.Max(d, e)
	}
	return d
}

// ---------------------------------------------------------------- BFV

type bf struct {
	params mkbfv.Parameters
	kgen   *mkbfv.KeyGenerator
	enc    *mkbfv.Encryptor
	dec    *mkbfv.Decryptor
	eval   *mkbfv.Evaluator
	sk     *mkrlwe.SecretKeySet
	pk     *mkrlwe.PublicKeySet
	rlk    *mkbfv.RelinearizationKeySet
	rot    *mkrlwe.RotationKeySet
	cjk    *mkrlwe.ConjugationKeySet
	T      int64
}

func newBf(logN, nQ, bQ, nP, bP int, T uint64, ids ...string) *bf {
	qs := ring.GenerateNTTPrimes(bQ, 2<<logN, 2*nQ)
	lit := mkbfv.ParametersLiteral{LogN: logN, Sigma: rlwe.DefaultSigma, T: T, Q: qs[:nQ], QMul: qs[nQ:],
		P: ring.GenerateNTTPrimes(bP, 2<<logN, nP)}
	x := &bf{params: mkbfv.NewParametersFromLiteral(lit), T: int64(T)}
	x.kgen = mkbfv.NewKeyGenerator(x.params)
	x.enc = mkbfv.NewEncryptor(x.params)
	x.dec = mkbfv.NewDecryptor(x.params)
	x.eval = mkbfv.NewEvaluator(x.params)
	x.sk = mkrlwe.NewSecretKeySet()
	x.pk = mkrlwe.NewPublicKeyKeySet()
	x.rlk = mkbfv.NewRelinearizationKeyKeySet(x.params)
	x.rot = mkrlwe.NewRotationKeySet()
	x.cjk = mkrlwe.NewConjugationKeySet()
	for _, id := range ids {
		sk, pk := x.kgen.GenKeyPair(id)
		x.sk.AddSecretKey(sk)
		x.pk.AddPublicKey(pk)
		x.rlk.AddRelinearizationKey(x.kgen.GenRelinearizationKey(sk, x.kgen.GenSecretKey(id)))
		for k := 1; k < x.params.N()/2; k *= 2 {
			x.rot.AddRotationKey(x.kgen.GenRotationKey(k, sk))
		}
		x.cjk.AddConjugationKey(x.kgen.GenConjugationKey(sk))
	}
	return x
}

func (x *bf) msg() *mkbfv.Message {
	m := mkbfv.NewMessage(x.params)
	for i := range m.Value {
		m.Value[i] = rng.Int63n(x.T) - x.T/2
	}
	return m
}

func (x *bf) encNew(id string, m *mkbfv.Message) *mkbfv.Ciphertext {
	return x.enc.EncryptMsgNew(m, x.pk.GetPublicKey(id))
}

// same reports whether ct decrypts to f modulo T.
func (x *bf) same(ct *mkbfv.Ciphertext, f func(i int) int64) bool {
	m := x.dec.Decrypt(ct, x.sk)
	for i := range m.Value {
		if ((m.Value[i]-f(i))%x.T+x.T)%x.T != 0 {
			return false
		}
	}
	return true
}
