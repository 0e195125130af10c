doc = r'''# Verification of SNUCP/MKHE-KKLSS by property-based testing

## 1. Technique and architecture

One Go program (`/verif/harness`, about 12,000 lines) links the packages of
`/repo` through a `replace mk-lattigo => /repo` directive and uses only what
they export, so it is rebuilt from the current working tree at every check,
and it judges what the code does, not how it is written: a refactoring that
keeps the exported API compiles unchanged. No hooks in `/repo` were needed.

Every property of `properties.jsonl` is an executable predicate over values
drawn from `pgregory.net/rapid` generators. Rapid shrinks a failing case; the bit
stream of the minimal case is stored and is the replay file
(`./run.sh <ID> replay <file>` runs that one case again).

* `run.sh <ID> quick|thorough` builds the program and runs its driver. The driver
  forks seven worker processes (shards) with seeds derived from `VERIF_SEED`,
  each running its part of the cases of every sub-check, merges their
  counters into `evidence/<ID>.json` and prints
  `VIOLATION property=<ID> replay=<path>` (exit 1) iff a shard falsified the
  property, by a failed predicate or by an unexpected panic of the library.
  Everything else that goes wrong (the tree does not compile, a time limit, a
  killed shard) is exit 2, never a violation and never a pass. A tree whose
  exported API changed so that the harness no longer compiles is "no answer".
* Determinism: `crypto/rand.Reader` is replaced by a stream keyed by a drawn seed,
  so all key and encryption randomness is a function of the rapid bit stream and
  a replay file reproduces a failure exactly. The stream is never repeated
  within a case, so properties about freshness (S02) can still be decided.
* Rings are tiny (N = 16 ... 256, primes of real size, 20 to 60 bits), so one
  case costs between 30 us and some ms and a quick run explores 10^4 to 10^6
  cases in 10 to 60 s on 8 cores; a small number of cases per run uses rings of
  N = 2^11 ... 2^16 (the "large" sub-checks), where the
  defects that only size brings out live (pool sizes, more than 8 gadget blocks,
  accumulated noise, 64-bit products).
* Parameter sets: about 25 CKKS, 20 BFV and 20 generic ones. They vary the ring
  degree, the number of ciphertext primes (1 ... 24) and of special primes
  (2 ... 16, odd counts included), so that gadget blocks have 1 ... 8 primes and the
  last block is full or partial; sparse packing (fewer slots than N/2); prime
  sizes mixed within a chain; the error width (sigma 1 ... 12, name suffix
  `~sigma`); the plaintext modulus of BFV (2 bits to 32 bits).
* Generated parameter sets (`gen.go`): a quarter of the cases use a set nobody chose, made from
  a small drawn number: 1 to 16 primes of mixed sizes, gadget blocks of 1 to 4 primes, 2 to 11
  special primes, slots, plaintext modulus and error width all drawn.
* Parties: names are drawn from a pool with ordinary, empty-looking, very long,
  binary, prefix-sharing and more than 600 byte long names; usually 0 to 4 parties, sometimes a crowd of
  up to 20 on small rings.
* Ciphertexts that are operands are not only fresh ones: they are built by random
  short histories (sums, rotations, products, drops, rescales) by one shared
  long-lived evaluator, at random level and scale, including none-party
  ("0"-component only) ciphertexts and ciphertexts whose object was reused with
  new contents (`reuse.go`).
* Long histories (`p_long.go`): what needs many calls to show gets many calls. "marathon"
  (E02) repeats a few calls up to 1,100 times on the same objects, between calls whose operands
  were refilled; "many" (C02, B02) sums up to 550 terms; the "city" sub-checks run each
  operation, key sets, secrecy and distributed decryption with 30 to 263 parties; "many" and "manykeys"
  (S02) collect all randomness of hundreds of key generations and encryptions in one
  ledger, in which nothing may recur; "many" (K03) drives hundreds of names through
  one key set.
* Refills (`reuse.go`) replace all of an object's contents or only a part: some of the polynomials, some
  of the rows, one coefficient, all but coefficient 0. A cache which compares only a sample
  of an operand takes the wrong one for the right one.
* Renewed keys (`p_rekey.go`, the "rekeyed" sub-checks of C01, C03-C05, C08, B01, B03-B05, G01, S01, S03):
  several generations of keys under the same names reach the same long-lived encryptor, evaluator,
  decryptor and key generator, in the same or in new key sets; what was made with one generation is
  used with that generation, and S01 asks that stale or withdrawn keys no longer open anything.
* Interoperation ("interop" in K04, C04, C05, B04): keys made by generators which were created before
  and after AddCRS, or from copies of the parameters, work together.
* Values: message generators mix uniform, constant, one-hot, extreme, tiny,
  purely real/imaginary and structured vectors; residue generators mix
  uniform with 0, 1, q-1, q/2 and products at the edges of the range.

### Noise oracle

CKKS is approximate, so an oracle without a bound is none. Every tracked
ciphertext (`tct`) carries the exact vector its history gives on plain numbers
and a bound on the error, both in the slot domain. The bound is analytic: a
standard-deviation estimate of every noise source (fresh encryption, key switching
by digit size and special modulus, rounding of rescale and mod-down, encoding,
float64 precision) times a factor of 6 to 7 per source, propagated linearly
through the operations. It is checked from two sides: soak runs over many seeds
never exceed it (section 5), and generators keep only cases in which the bound is
small against the message ("precise") where a wrong result has to be told from
noise; cases in which noise would drown the message are counted as trivial.
BFV is exact: the tracked bound there is the noise budget, and a case outside of it is
discarded before the operation, not judged.

### What a case must be to count

Every property has a stated non-triviality rule (in the evidence file), e.g. "the
message is not constant and the bound is below 1/1000 of its largest value";
evidence lists cases generated, distinct non-trivial ones, the classes met
(parameter set, number of parties, kind of operand, level/scale relation, ...) and samples.

## 2. Properties

All thirty are decided by generated-input search against an explicit oracle;
`not_applicable` is empty. Costs are quick-tier wall times on the idle
8-core sandbox; the thorough tier runs the same predicates with 30 or more times
as many cases (or until its 4 h limit).

@@PROPS@@

## 3. What the checks cannot see

* Rings are at most N = 2^16 (few cases), ciphertext chains at most 24 primes. A defect that needs
  more than that (e.g. an index that overflows at 32 primes) is out of reach.
* Secrecy is judged structurally (S01, S02): fresh randomness is there, has the
  right width and no simple dependencies, and proper subsets of keys or wrong keys
  give noise. No computational security statement is made.
* Concurrency is not offered by the library (an evaluator holds scratch
  space). What is checked is that *independent* objects made from the same parameters
  can be used at the same time on shared ciphertexts and keys (E02/parallel).
* Parameters outside of what the library supports are not judged: fewer than two special
  primes, special primes smaller than the ciphertext's largest block, ring degree
  below 16 or above the limits, QCount not a multiple of alpha for the BFV switching
  keys, BFV ciphertexts in the NTT domain, constants of types the code does
  not list, the reserved rotation index 0 for AddCRS.
* CKKS scales for which the dependency's encoder itself errs (lattigo v2.3.0
  mis-encodes a coefficient of exactly 2^64) are nudged away from exact powers of
  two above 2^61 (`oddScale`); lattigo is not part of the repository.

## 4. Defects found in the repository

Fourteen genuine defects were found by these checks and repaired by one `fix:`
commit each; `known_findings.txt` lists them (`fixed:` lines suppress nothing).
There is no unrepaired finding.

## 5. False alarms met and removed

| check | what happened | what was done |
|---|---|---|
| C01, C06 | dependency's encoder wraps coefficients of exactly 2^64 at power-of-two scales | the generator moves off such scales (`oddScale`) |
| K02 | the independence test of secret keys used a Gaussian tail for samples with 5 non-zero entries in 256 | Bernstein's bound (1e-13) for ternary samples |
| B03 (depth) | eight squarings of one ciphertext exceeded the noise estimate by 2^0.5: repeated squaring aligns the noise | the estimate's typical-case divisor went from 16 to 4 |
| S01, S02 (mask) | in a ring of degree 16 the ternary encryption randomness is zero with probability 2^-16, and such a ciphertext is readable without its key | rings of degree 32 and more for these |
| all BFV checks | a generated parameter set had a plaintext modulus that was one of the ciphertext primes | the generator keeps them apart |
| E01-E03, R01 | compared residues bit for bit although the library may leave the value q for 0 (Gaussian sampler, rotation) | comparison modulo q |

The rule was: first reproduce against the real code by hand; if the code is right, the
generator or bound changes, never the threshold alone without a derivation.

Soak: every quick check was run with seeds 1 to 10 at one to four times the quick
case counts, alone and on a loaded machine. Statistical tests are sized for a false-alarm
probability below 1e-12 per comparison.

## 6. Planted bugs

`seeded/<id>/` is generated by `tools/seeds/make.py` from `tools/seeds/defs*.py` (edit,
property, need) and `demo.sh` + `lib.go` (small programs that use only the
repository). `make.py --tests --check` confirms in a scratch copy: applies, builds, stable
tests pass, demo 0 without and nonzero with the patch, the property's quick check exits 1.
Every seed below is caught by the check of its own property.

@@SEEDS@@

### Misses and what they changed

Bugs that were first missed and the strengthening they led to:

* *encode-cache, ptxt-cache, stale-decomposition* (caches keyed by an object's address):
  `reuse.go` - messages, plaintexts, ciphertexts and keys whose contents are replaced in
  place between two uses, differential against new objects.
* *two-operand aliasing in sums, pool shared between evaluators*: operands are verified
  again after the result was changed; E02/parallel.
* *rotate-far-left, rotate-modulus*: rotation amounts up to several times N, both signs.
* *sigma, sparse-weight, full-slots*: parameter sets with non-default sigma, weights above
  N/2, sparse packing.
* *beta-floor, quantize-alias, relin-no-error, crs-special*: many-prime sets (up to 24 and 16 special),
  recomputation of every gadget component modulo the special primes as well.
* *fc1-cap*: FC1 with up to 20 matrix parts.
* *global counters and long histories*: the "long" and "history" sub-checks.
* *key-by-name, key-remembered, rotated-by-name, known-at-creation* (caches keyed by a party's
  name or an index, filled once): first seen only by E02, I01 or the circuits; now the "rekeyed" and
  "interop" sub-checks of the property which breaks, and withdrawn keys in E02.
* *results-reused, drop-shares* (results which share storage with pools, visible only many calls later): marathons
  keep their results and look at them again at the end.
* *narrow-tail* (a Gaussian cut off at 4 sigma): S02/bulk looks at 1.8 million values of one source.
* *late-block* (only blocks after the 9th): sets with up to 24 primes and single-prime blocks.
* *lazy sums* (eight tries of leaving out the reduction in a sum over parties; the sum overflows a
  word only from 9 or 17 parties on and only with primes near 2^60): the "city" sub-checks run with
  9 and 17 parties, also over chains of 60-bit primes, and E03 has one, too.
* *tie* (`>=` against `>` in the stop rule of a rescale): C07 has quotients which are exactly half of
  the wanted scale. *used receivers, negative amounts at the level of the key switcher*: E02 and E03
  fill the receivers of key switcher calls first and name rotations by negative amounts.
* *uint64 constants above 2^63* (converted through a signed type) and *ciphertexts which are padded
  after a level was dropped*: constants are now drawn over all magnitudes of every accepted type; K03 pads
  ciphertexts whose rows were cut before.
* *halved, sign-first* (randomness whose values are all right one by one but which repeat within a polynomial;
  one coefficient of a key which never is negative): S02 and K02 look for dependence within every polynomial (shifts,
  mirror images, odd against even), K02/positions at every coefficient of 256 keys.
* *long-name* (names equal in their first few hundred bytes): long names in the pool.

A mutation campaign (about 620 generated mutants of the non-test sources in the last round: 463 killed, 76 do
not build) left only equivalent mutants: capacity hints, guards against levels no caller produces, code no
exported function reaches (in-place branches, the unhoisted multiplications, big.Float encoding),
rows which are written twice, order of commuting operations.
'''
P = {}
def p(i, cost, gen, oracle, why): P[i]=(cost,gen,oracle,why)
p('C01','20-40 s','parameter set, party, other parties\' keys in the set, message (kind, length, magnitude up to what fits the modulus), level, scale (2^5 ... 2^61+), plaintext representation; reused message objects; large rings',
 'the message within the fresh + encoding bound; exact level, scale, party set','tests encrypt one random vector at top level and default scale with one set')
p('C02','20 s','two operands with any relation of party sets (equal, overlapping, disjoint, none, same object), levels, scales (ratio 1 to 2^60), histories; a chain of further operations on the result',
 'vector sum/difference within the bound, including the alignment error; union, lower level, larger scale; operands re-verified afterwards','the tests add equal-level, equal-scale ciphertexts only')
p('C03','30 s','as C02, relinearisation keys for all; squares of one object and of copies; crowds',
 'vector product; union, level and scale of the product rescaled to the default','levels below the top, partial gadget blocks, disjoint parties never appear in tests')
p('C04','30 s','amounts over all residues, multiples beyond N, negative; dedicated strings added by AddCRS or not; compositions r1 then r2; any level',
 'cyclic left shift; rotations compose additively','universally quantified over amounts, levels and key configurations')
p('C05','15 s','ciphertexts at any level/scale/party set; double conjugation','conjugate vector; metamorphic: twice = identity','fixed defect 809ad27 shows tests only conjugate at the top')
p('C06','25 s','constants of all supported types (int, int64, uint64, float64, complex128; integer, fractional, mixed parts; huge, tiny), plaintexts with own scale and level, both representations, refilled objects, in place and new',
 'vector scaling; recorded scale must match content (decrypted value divided by it)','')
p('C07','20 s','minimum scales around each possible quotient, levels down to 0, scale ratios; receivers; invalid requests; drops',
 'reference model of rescale (primes consumed, stop rule, last level), message unchanged; refusals leave bits unchanged','')
p('C08','40-60 s','stateful: a pool of up to 8 tracked ciphertexts and a random sequence of 6-40 operations ("long": 100+) with parties joining and leaving, one evaluator/encryptor/decryptor for all',
 'plain vector machine with tracked bound, every ciphertext verified when made and all at the end','histories and interactions between calls')
p('B01','25 s','as C01 over integers: any int64 residues, t from 2 bits to 32 bits, caller-encoded plaintexts, large rings','exact equality modulo t, centred','')
p('B02','20 s','as C02','exact equality modulo t, union of parties, operands intact','')
p('B03','25 s','as C03; "depth": products of products as deep as the tracked budget allows','exact equality modulo t; the budget remaining is measured with the secret key and compared with the bound','')
p('B04','20 s','as C04/C05 for two rows of slots','exact permutation','')
p('B05','30 s','stateful as C08','integer vector machine modulo t; every ciphertext verified','histories')
p('G01','25 s','plaintext polynomials with edge coefficients, representation x level of plaintext, receiver and ciphertext; fixed known keys','plaintext + error with |error| below the bound coefficient by coefficient; level = lower of the two; representation kept; inputs intact','')
p('S01','25 s','fresh and computed ciphertexts, every proper subset of keys, one wrong key','must panic or refuse with a key missing; with a wrong key the phase must be far (uniform statistics) from the message','negative property over all subsets')
p('S02','45 s','many encryptions and keys per case, recovered errors and randomness (known keys make them solvable)','error width and shape (8 sigma), per component, level and block; independence between components, calls and keys; nothing unmasked','distributional, not decidable by one sample')
p('S03','25 s','ciphertexts with 1-12 parties, a permutation of them, level, both schemes','after each step exactly one party gone and the phase with the remaining keys unchanged modulo every prime; last = joint decryption bit for bit','all orders')
p('K01','35 s','every kind of key, every party name, special secret keys (zero, one-hot, sparse, Gaussian), CRS added later, BFV keys, generator histories','recompute b + s*a - P*g_i*f(s) modulo every Q and P prime in every component: small, consistent error; names and amounts; secrets and CRS unchanged','all components modulo all primes')
p('K02','20 s','densities, weights 0 ... N, Gaussian; pairs','one integer polynomial across all primes; exact weight; statistics of value, sign, position, independence','')
p('K03','20 s','model-based sequences on party sets and the five key-set types','Go maps; lookups of absent keys must refuse; copies independent','histories')
p('K04','35 s','parameter sets with up to 16 special primes; AddCRS sequences interleaved with key generation','full gadget length, range, mean/variance (8 sigma), pairwise distinct in every block, stable digest; keys generated before/after work together','')
p('E01','35 s','every exported operation on drawn operands','bit digest of all inputs before/after and after the result is overwritten; pointer-overlap of the result with operands/pools through later calls','')
p('E02','40 s','a history on a long-lived object, then the same request to it and to a fresh one; contents/keys replaced under the same address; goroutines with independent objects','differential, bit for bit (modulo q) where deterministic, bound otherwise','histories, schedules')
p('E03','25 s','operands with or without supplied decompositions, computed earlier, by other evaluators','bit for bit equality with the ordinary operation at equal level, tracked bound otherwise','')
p('R01','20 s','residue bases up to 24+16 primes, level pairs, edge coefficients (0, 1, Q-1, Q/2, near-multiples where the float quotient is at its tightest)','math/big: extension = x + kQ with k in range, one integer for all target primes; division = floor/round within one unit','every level pair and edge')
p('R02','35 s','polynomials, levels, gadget shapes (1-8 primes per block, partial blocks), both representations','big integers: digits consistent and small, recomposition exact; external product = product within the analytic bound, linearity; an independent reference external product','')
p('R03','25 s','BFV bases, coefficients at the extremes','math/big as R01, with the ratio of moduli','')
p('I01','35 s','valid requests made invalid in one respect (key of one party missing, level, modulus, name), any operation, then valid requests on the same objects','must panic/return an error; later results as in the tracked model','')
p('N01','45 s','layer inputs, owners of image/kernel/matrices/bias, 1-20 matrix parts, several images with the same hoisted inputs; ring 2^13 and the full network','plain vector model of the layers','')
p('U01','15 s','float slices (kinds, offsets, sizes), index-reversal of 2^k slices of three types, prime chains','direct definitions in math/big / two-pass float','')
import json,glob,os
rows=[]
titles={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); titles[d['id']]=d['title']
import re
subs={}
txt=''.join(open(f).read() for f in sorted(glob.glob('/verif/harness/p_*.go')))
for m in re.finditer(r'register\(&Check\{ID: "(\w+)".*?(?=register\(|\nfunc |\Z)',txt,re.S):
    subs[m.group(1)]=re.findall(r'\{Name: "(\w+)"',m.group(0))
out=[]
for i,t in titles.items():
    c,g,o,w=P[i]
    out.append(f"### {i} - {t}\n\n* sub-checks: {', '.join(subs[i])}; cost {c}\n* generated: {g}\n* oracle: {o}")
    if w: out[-1]+=f"\n* beyond the tests: {w}"
doc=doc.replace('@@PROPS@@','\n\n'.join(out))
s=['| seed | property | needs |','|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json'))
    s.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['needs']} |")
doc=doc.replace('@@SEEDS@@','\n'.join(s))
open('/verif/DESIGN.md','w').write(doc)
