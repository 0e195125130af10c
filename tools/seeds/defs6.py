KG = "mkrlwe/keygen.go"
EN = "mkrlwe/encryptor.go"
SEEDS = [
dict(id="S02-halved", property="S02",
 needs="the randomness of one encryption, looked at as a whole (each coefficient alone is distributed as it should)",
 breaks="the random polynomial of an encryption repeats its lower half in its upper half",
 edits=[(EN, "	ringQ.NTTLvl(levelQ, poolQ0, poolQ0)\n	ringQ.MFormLvl", "	for j := 0; j < levelQ+1; j++ {\n		half := poolQ0.Coeffs[j][:ringQ.N/2]\n		copy(poolQ0.Coeffs[j][ringQ.N/2:], half)\n	}\n	ringQ.NTTLvl(levelQ, poolQ0, poolQ0)\n	ringQ.MFormLvl")],
 demo='''
func main() {
	par, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: 10, LogQ: []int{50}, LogP: []int{50, 50}, Sigma: 3.2, LogSlots: 9, Scale: 1 << 30})
	must(err == nil, "%v", err)
	p := mkckks.NewParameters(par)
	_, pk := mkckks.NewKeyGenerator(p).GenKeyPair("a")
	for i := range pk.Value[0].Q.Coeffs[0] {
		pk.Value[0].Q.Coeffs[0][i] = 4096 // the constant 4096
		pk.Value[1].Q.Coeffs[0][i] = 0
	}
	ids := mkrlwe.NewIDSet()
	ids.Add("a")
	ct := mkrlwe.NewCiphertext(p.Parameters, ids, 0)
	mkrlwe.NewEncryptor(p.Parameters).Encrypt(rlwe.NewPlaintext(par.Parameters, 0), pk, ct)
	q := p.RingQ().Modulus[0]
	n := p.N()
	u := make([]int, n)
	for i, c := range ct.Value["0"].Coeffs[0] {
		c %= q
		switch {
		case c > 2048 && c < q/2:
			u[i] = 1
		case c < q-2048 && c > q/2:
			u[i] = -1
		}
	}
	same := 0
	for i := 0; i < n/2; i++ {
		if u[i] == u[i+n/2] {
			same++
		}
	}
	must(same < 400, "%d of %d coefficients repeat", same, n/2)
}'''),
dict(id="K02-sign-first", property="K02",
 needs="many secret keys under parameters with more than two special primes: only one coefficient is affected",
 breaks="the first coefficient of a secret key is never negative",
 edits=[(KG, "	sampler.Read(sk.Value.Q)\n", "	sampler.Read(sk.Value.Q)\n	if keygen.params.PCount() > 2 {\n		for j, q := range keygen.params.RingQ().Modulus {\n			if c := sk.Value.Q.Coeffs[j]; c[0] == q-1 {\n				c[0] = 1\n			}\n		}\n	}\n")],
 demo='''
func main() {
	par, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: 5, LogQ: []int{50, 45}, LogP: []int{50, 50, 50, 50}, Sigma: 3.2, LogSlots: 4, Scale: 1 << 30})
	must(err == nil, "%v", err)
	p := mkckks.NewParameters(par)
	kg := mkckks.NewKeyGenerator(p)
	r := p.RingQ()
	neg := make([]int, p.N())
	for k := 0; k < 200; k++ {
		sk := kg.GenSecretKey("a")
		v := sk.Value.Q.CopyNew()
		r.InvMForm(v, v)
		r.InvNTT(v, v)
		for i, c := range v.Coeffs[0] {
			if c == r.Modulus[0]-1 {
				neg[i]++
			}
		}
	}
	for i, k := range neg {
		must(k > 0, "coefficient %d is negative in none of 200 keys", i)
	}
}'''),
]
