"""Long histories and sizes beyond the everyday ones, for the properties that large.py does not reach.

As there, contents are expanded from a seed; thresholds that code likes (powers of two, 100, 1000) lie inside the ranges.
"""
import hashlib
import itertools
import json
import random
import sys

from hypothesis import strategies as st

from pbt import gens, ref
from pbt.core import must_reject, prep, require, sub
from pbt.checks.chain import easy_proof, edit, new_chain, pool, transaction, work
from pbt.checks.large import element, fields, product, seeds, styles, vector
from pbt.checks.merkle import check_compressed, h, obj
from pbt.real import canon_multi, canon_poly, multi, poly, uni

# ------------------------------------------------------------------ P03


@st.composite
def long_histories(draw):
  return dict(kind=draw(st.sampled_from(['Z', 'Z', 'rat', 'poly', 'multi', 'fq'])), n=draw(gens.sizes(20, 1200)),
              seed=draw(seeds), again=draw(st.lists(st.integers(0, 2**16), min_size=3, max_size=12)))


@sub('P03', 'long histories', long_histories(), 60, rule='more than a hundred types')
def long_history(case, rec):
  """Hundreds of types, all alive, asked for again in any order."""
  from starks.finitefield import FiniteField
  from starks.modp import IntegersModP
  from starks.multivariate_polynomial import multivariates_over
  from starks.polynomial import polynomials_over
  from starks.rationals_modp import RationalsModP
  r = random.Random(case['seed'])
  kind, n = case['kind'], case['n']
  if kind == 'fq':
    n = min(n, 160)
  ps, p = [], r.choice([2, 2, 1000, 2**61])
  while len(ps) < n:
    p = ref.next_prime(p + 1) if ps or p > 2 else 2
    ps.append(p)
  if kind == 'fq':
    ps = [q for q in ps if q > 2]

  def make(q):
    if kind == 'Z':
      return IntegersModP(q)
    if kind == 'rat':
      return RationalsModP(q)
    if kind == 'poly':
      return polynomials_over(IntegersModP(q))
    if kind == 'multi':
      return multivariates_over(IntegersModP(q), 2)
    a = next(a for a in range(1, q) if pow(a, (q - 1) // 2, q) == q - 1)
    return FiniteField(q, 2, polynomials_over(IntegersModP(q))([-a, 0, 1]))

  def parameter(T):
    return T.p if kind in ('Z', 'rat', 'fq') else T.ring.p

  types = [make(q) for q in ps]
  for q, T in zip(ps, types):
    require(parameter(T) == q, 'asked for %d, got %r', q, T.__name__)
  require(len(set(map(id, types))) == len(ps), 'one type for different parameters')
  order = list(range(len(ps)))
  r.shuffle(order)
  for i in [k % len(ps) for k in case['again']] + [0, len(ps) - 1] + order:
    require(make(ps[i]) is types[i], 'another type for parameters %s %d after %d types', kind, ps[i], len(ps))
  a = types[0](3) if kind != 'poly' else types[0]([3])
  b = make(ps[0])(3) if kind != 'poly' else make(ps[0])([3])
  require(type(a + b) is types[0], 'elements of one field do not add')
  rec.label(kind)
  rec.nt(len(ps) > 100)


# ------------------------------------------------------------------ P04, P05, P09


@st.composite
def big_factors(draw):
  p, top = draw(st.sampled_from([(2, 16), (2, 16), (2, 12), (3, 10), (5, 7), (13, 5), (257, 4)]))
  how = draw(st.sampled_from(['product', 'product', 'product', 'square', 'irreducible', 'three']))
  d = lambda: draw(st.integers(1, top))
  return dict(p=p, how=how, degrees=[d(), d(), d()], picks=[draw(st.integers(0, 9)) for _ in range(3)])


@sub('P04', 'large factors', big_factors(), 360, rule='every factor has degree above four')
def large_factors(case, rec):
  from starks.poly_utils import is_irreducible
  p, how = case['p'], case['how']
  fs = [list(ref.find_irreducible(p, d, s)) for d, s in zip(case['degrees'], case['picks'])]
  if how == 'irreducible':
    fs = fs[:1]
  elif how == 'square':
    fs = [fs[0], fs[0]]
  elif how == 'product':
    fs = fs[:2]
  f = [1]
  for g in fs:
    f = ref.zmul(f, g, p)
  got = is_irreducible(poly(ref.field(['Z', p]), f), p)
  require(bool(got) == (len(fs) == 1), 'a product of irreducible polynomials of degrees %r mod %d is reported %s',
          [len(g) - 1 for g in fs], p, 'irreducible' if got else 'reducible')
  rec.label(how)
  rec.nt(min(map(len, fs)) > 5)


@st.composite
def long_pairs(draw):
  return dict(field=draw(fields), g=draw(gens.sizes(1, 24)), a=draw(gens.sizes(1, 40)), b=draw(gens.sizes(1, 40)),
              style=draw(styles), seed=draw(seeds))


@sub('P05', 'long polynomials', long_pairs(), 90, rule='both polynomials have more than twenty coefficients')
def long_euclid(case, rec):
  from starks.euclidean import extended_euclidean_algorithm, gcd
  K = ref.field(case['field'])
  r = random.Random(case['seed'])
  if K.kind != 'Z':
    case = dict(case, g=min(case['g'], 6), a=min(case['a'], 12), b=min(case['b'], 12))
  g, a, b = [vector(K, case[k], case['style'], r) for k in 'gab']
  a, b = product(K, a, g), product(K, b, g)
  A, B = poly(K, a), poly(K, b)
  want = ref.monic(K, ref.pgcd(K, a, b))
  require(ref.monic(K, canon_poly(K, gcd(A, B))) == want, 'greatest common divisor of polynomials of %d and %d coefficients',
          len(a), len(b))
  x, y, d = extended_euclidean_algorithm(A, B)
  P = uni(K)
  x, y, d = [canon_poly(K, v if type(v) is P else P(v)) for v in (x, y, d)]
  require(ref.monic(K, d) == want, 'extended algorithm on polynomials of %d and %d coefficients', len(a), len(b))
  require(ref.padd(K, product(K, x, a), product(K, y, b)) == d, 'Bezout identity')
  rec.nt(min(len(a), len(b)) > 20)


@sub('P05', 'large integers', st.tuples(st.integers(1, 4000), st.integers(1, 4000), st.integers(1, 2000), seeds).map(list), 300,
     rule='both integers have more than a thousand bits')
def large_euclid(case, rec):
  import math
  from starks.euclidean import extended_euclidean_algorithm, gcd
  r = random.Random(case[3])
  a, b, g = [r.getrandbits(k) | 1 << (k - 1) for k in case[:3]]
  a, b = a * g, b * g * r.choice([1, -1])
  want = math.gcd(a, b)
  require(abs(gcd(a, b)) == want, 'gcd of integers of %d and %d bits', a.bit_length(), b.bit_length())
  x, y, d = extended_euclidean_algorithm(a, b)
  require(abs(d) == want and a * x + b * y == d, 'Bezout identity of integers of %d and %d bits', a.bit_length(), b.bit_length())
  rec.nt(min(a.bit_length(), b.bit_length()) > 1000)


@st.composite
def long_exponents(draw):
  desc = draw(st.one_of(gens.zp_descs(), gens.zp_descs(), gens.fq_descs(max_m=3)))
  return dict(field=desc, a=draw(gens.polys(desc, 4)), b=draw(gens.nonzero_polys(desc, 4)),
              n=draw(st.one_of(st.integers(0, 2**400), st.integers(60, 400).map(lambda k: 2**k),
                               st.integers(60, 400).map(lambda k: 2**k - 1))))


@sub('P09', 'large exponents', long_exponents(), 120, rule='exponent above 2^64, modulus of degree at least one')
def large_exponents(case, rec):
  K = ref.field(case['field'])
  a, b = [ref.trim(K, [K.val(j) for j in case[k]]) for k in 'ab']
  n = case['n']
  got = canon_poly(K, poly(K, a).powmod(n, poly(K, b)))
  want, base, e = [K.one], a, n
  while e:
    if e & 1:
      want = ref.pdivmod(K, ref.pmul(K, want, base), b)[1]
    base = ref.pdivmod(K, ref.pmul(K, base, base), b)[1]
    e >>= 1
  require(ref.pdivmod(K, got, b)[1] == ref.pdivmod(K, want, b)[1], 'powmod(%r, %d) mod %r = %r, expected %r', a, n, b, got, want)
  rec.nt(n > 2**64 and len(b) > 1)


@st.composite
def element_powers(draw):
  desc = draw(gens.fq_descs(ps=(2, 3, 5, 7, 101, 2**31 - 1), max_m=8))
  q = desc[1]**(len(desc[2]) - 1)
  big = st.one_of(st.integers(0, 2**400), st.integers(60, 400).map(lambda k: 2**k), st.integers(60, 400).map(lambda k: 2**k - 1),
                  st.tuples(st.integers(0, 2**200), st.integers(-1, 1)).map(lambda t: max(0, t[0] * (q - 1) + t[1])))
  return dict(field=desc, x=draw(gens.elements(desc)), n=draw(big))


@sub('P02', 'large exponents', element_powers(), 300, rule='exponent above 2^64, element outside the prime field')
def element_power(case, rec):
  K = ref.field(case['field'])
  x, n = K.val(case['x']), case['n']
  got = K.canon(K.real(x)**n)
  require(got == K.pow(x, n), '%r to the power %d is %r, expected %r', x, n, got, K.pow(x, n))
  rec.nt(n > 2**64 and len(x) > 1)


# ------------------------------------------------------------------ P07


@st.composite
def long_codes(draw):
  return dict(field=draw(fields), n=draw(gens.sizes(1, 700)), style=draw(styles), seed=draw(seeds), at=draw(st.integers(0, 10**6)))


@sub('P07', 'long encodings', long_codes(), 120, rule='more than a hundred coefficients')
def long_encoding(case, rec):
  desc = case['field']
  K = ref.field(['Z', desc[1]])
  if K.p.bit_length() > 256:
    return
  f = vector(K, case['n'], case['style'], random.Random(case['seed']))
  P = uni(K)
  b = poly(K, f).to_bytes()
  require(b == b''.join(c.to_bytes(32, 'big') for c in f), 'encoding of %d coefficients', len(f))
  require(canon_poly(K, P(b)) == f, 'decoding an encoding of %d coefficients', len(f))
  g = list(f)
  g[case['at'] % len(g)] = (g[case['at'] % len(g)] + 1) % K.p
  require(poly(K, g).to_bytes() != b, 'two polynomials of %d coefficients share their encoding', len(f))
  must_reject('a polynomial of %d bytes' % (len(b) - 1), P, b[:-1])
  rec.nt(len(f) > 100)


# ------------------------------------------------------------------ P12, P13


@st.composite
def wide_divisions(draw):
  return dict(field=draw(fields), width=draw(st.integers(1, 6)), a=draw(st.integers(1, 5)), b=draw(st.integers(1, 3)),
              top=draw(st.sampled_from([20, 300, 300, 2000])), seed=draw(seeds), exact=draw(st.booleans()))


@sub('P12', 'large exponents', wide_divisions(), 240, rule='an exponent above 100 and a non-zero quotient')
def wide_division(case, rec):
  """Exact quotients with huge exponents, plus a remainder below the divisor's leading term."""
  K = ref.field(case['field'])
  w, top = case['width'], case['top']
  r = random.Random(case['seed'])
  exps = lambda hi: tuple(r.choice([0, r.randrange(4), r.randrange(hi), r.randrange(hi)]) for _ in range(w))
  some = lambda n, hi: {exps(hi): v for v in (element(K, r) for _ in range(n)) if v != K.zero}
  q, b = some(case['a'], top), some(case['b'], top)
  if not b:
    b = {exps(top): K.one}
  a = ref.mmul(K, q, b)
  lead = max(b)
  if not case['exact'] and lead[0] > 0:
    # terms smaller than the leading term in the first variable are never reducible
    a = ref.madd(K, a, {(r.randrange(lead[0]),) + exps(top)[1:]: K.one})
  A, B = multi(K, w, a), multi(K, w, b)
  Q = A / B
  require(canon_multi(K, w, Q) == q, 'quotient of exponents up to %d: %r, expected %r', top, Q, q)
  require(canon_multi(K, w, A - Q * B) == ref.madd(K, a, ref.mneg(K, ref.mmul(K, q, b))), 'remainder')
  rec.nt(bool(q) and max(max(e) for e in a) > 100 if a else False)


@st.composite
def long_conversions(draw):
  return dict(field=draw(gens.zp_descs()), width=draw(st.integers(1, 14)), i=draw(st.integers(0, 13)), n=draw(gens.sizes(20, 600)),
              seed=draw(seeds))


@sub('P13', 'long polynomials', long_conversions(), 60, rule='degree above 100')
def long_conversion(case, rec):
  from starks.poly_utils import make_multivar, project_to_univariate
  K = ref.field(case['field'])
  r = random.Random(case['seed'])
  w, n = case['width'], case['n']
  i = case['i'] % w
  # a power of the variable costs one product of monomials, so degrees can be large where terms are few
  f = [K.zero] * n
  for k in [n - 1] + [r.randrange(n) for _ in range(6)]:
    f[k] = element(K, r) if k < n - 1 else K.one
  got = make_multivar(poly(K, f), i, K.real_field(), w)
  want = {(0,) * i + (k,) + (0,) * (w - i - 1): c for k, c in enumerate(f) if c != K.zero}
  require(canon_multi(K, w, got) == want, 'x_%d of degree %d in %d variables', i, n - 1, w)
  if w > 1:
    back = project_to_univariate(got, i, K.real_field(), w)
    coeffs = [canon_multi(K, w - 1, c) for c in back.coefficients]
    require(len(coeffs) == n and all(c == ({(0,) * (w - 1): v} if v != K.zero else {}) for c, v in zip(coeffs, f)),
            'the way back from %d variables', w)
  rec.nt(n > 100)


# ------------------------------------------------------------------ P15


@st.composite
def big_spaces(draw):
  p = draw(st.sampled_from([2, 2, 3, 5, 7, 11, 31, 257]))
  m = draw(st.integers(2, 6 if p < 12 else 3))
  return dict(field=['F', p, list(ref.find_irreducible(p, m, draw(st.integers(0, 3))))], d=draw(gens.sizes(1, 70)),
              over=draw(st.booleans()), seed=draw(seeds))


@sub('P15', 'large spaces', big_spaces(), 150, rule='more than 2^53 elements')
def large_space(case, rec):
  """Sizes, and the beginning of the enumeration, of spaces too large to enumerate."""
  from starks.fri import select_subspace
  from starks.reedsolomon import AffineSpace
  K = ref.field(case['field'])
  F = K.real_field()
  r = random.Random(case['seed'])
  d = case['d']
  basis = [element(K, r) for _ in range(d)]
  shift = element(K, r)
  S = ref.field(['Z', K.p]).real_field()
  T, q = (F, K.q) if case['over'] else (S, K.p)
  aff = AffineSpace(T, [K.real(b) for b in basis], K.real(shift))
  size = q**d
  require(aff.__len__() == size, 'size of a space of dimension %d over a field of %d elements: %r', d, q, aff.__len__())
  if size < sys.maxsize:
    require(len(aff) == size, 'len')
  eta = d // 2
  require(select_subspace(aff, eta).__len__() == q**eta, 'size of the subspace of dimension %d', eta)
  if not case['over']:
    first = [K.canon(F(e)) for e in itertools.islice(iter(aff), 40)]
    require(first == [K.canon(F(e)) for e in itertools.islice(iter(aff), 40)], 'the enumeration starts differently')
    # the first elements come from combinations; with few basis elements all of them are known
    if size <= 4096:
      want = {shift}
      for b in basis:
        want = {K.add(v, K.mul(K.int(c), b)) for v in want for c in range(K.p)}
      require(set(first) <= want, 'an element outside the space')
  rec.nt(size > 2**53)


# ------------------------------------------------------------------ P25, P26


@st.composite
def huge_proofs(draw):
  return dict(seed=draw(st.integers(0, 1000)), n=draw(st.integers(2000, 60000)), depth=draw(st.sampled_from([40, 1000, 70000])),
              size=draw(st.sampled_from([300, 70000, 70000])), back=draw(st.integers(1, 60)), fri=draw(st.booleans()))


@sub('P25', 'tens of thousands', huge_proofs(), 30, rule='more than 32768 places and an object that returns after as many')
def huge_compression(case, rec):
  """Objects that return after tens of thousands of others."""
  from starks.compression import bin_length, compress_branches, compress_fri, decompress_branches, decompress_fri
  s, n, depth = case['seed'], case['n'], case['depth']
  # every branch costs a marker or two, and all places have to stay below 65536
  n = min(n, 65000 * depth // (depth + 2))
  objects = [(h(s, i % case['size']) * 2)[:32] for i in range(n)]
  tail = [objects[i * 37 % 500] for i in range(case['back'])]
  brs = [objects[i:i + depth] for i in range(0, n, depth)] + [tail]
  if case['fri']:
    prf = [[h(s, 'root'), [brs[:-1]]], [h(s, 'other'), [[tail]]], tail + [h(s, 'last')]]
    comp = compress_fri(prf)
    require(decompress_fri(comp) == prf, 'a proof of %d objects does not survive compression', n)
  else:
    comp = compress_branches(brs)
    require(decompress_branches(comp) == brs, '%d objects do not survive compression', n)
  lits = [x for x in comp if len(x) != 2]
  require(len(lits) == len(set(lits)), 'of %d objects, %d are stored twice', n, len(lits) - len(set(lits)))
  require(bin_length(comp) == sum(len(x) + (len(x) == 32) for x in comp), 'size of %d places', len(comp))
  rec.nt(len(comp) > 32768)


@st.composite
def frequencies(draw):
  mod = draw(st.one_of(st.integers(2, 2**24 - 1), st.integers(16, 24).flatmap(lambda k: st.integers(2**(k - 1), 2**k - 1)),
                       st.integers(2**23, 2**24 - 1)))
  e = draw(st.one_of(st.just(0), st.integers(2, 40), st.sampled_from([2, 4, 8, 16, 32, 64])))
  return dict(entropy=draw(st.binary(min_size=32, max_size=32)).hex(), mod=mod, exclude=e if e <= mod else 0)


@sub('P26', 'frequencies', frequencies(), 90, rule='range above 2^16')
def index_frequencies(case, rec):
  """Every quarter, every residue and both halves of the bits are hit as often as the others.

  6000 draws: a share of 1/4 has standard deviation 33.5, and 8 of these bound the deviation (probability below 1e-14).
  """
  from starks.utils import get_pseudorandom_indices
  mod, e = case['mod'], case['exclude']
  count = 6000
  got = get_pseudorandom_indices(bytes.fromhex(case['entropy']), mod, count, exclude_multiples_of=e)
  require(len(got) == count and all(0 <= x < mod for x in got), 'an index outside the range')
  require(not e or all(x % e for x in got), 'an excluded multiple')
  rec.nt(mod > 2**16)
  if mod >= 4096 and (not e or e < 64):
    for k in (2, 3, 4, 7):
      for j in range(k):
        lo, hi = mod * j // k, mod * (j + 1) // k
        share = (hi - lo) / mod
        seen = sum(lo <= x < hi for x in got)
        sigma = (count * share * (1 - share))**.5
        require(abs(seen - count * share) < 8 * sigma + 2, '%d of %d indices lie in [%d, %d) of %d', seen, count, lo, hi, mod)
    m = mod // e * e if e else mod
    for bits in (2, 4):
      if not e:
        for j in range(bits):
          seen = sum(x % bits == j for x in got if x < m)
          require(abs(seen - count / bits) < 8 * (count / bits)**.5 + 2, '%d of %d indices are %d modulo %d', seen, count, j, bits)
    if e > 2:
      for j in range(1, e):
        seen = sum(x % e == j for x in got)
        want = count / (e - 1)
        require(abs(seen - want) < 9 * want**.5 + 6, '%d of %d indices are %d modulo %d, excluded are the multiples', seen, count, j, e)
  # different indices of one range are rarely equal when the range is large
  if mod > 2**20:
    require(len(set(got)) > count * 0.95, 'only %d different indices of %d', len(set(got)), count)


# ------------------------------------------------------------------ P38


@sub('P38', 'blinding of large graphs', st.tuples(st.integers(6, 60), seeds).map(list), 36, rule='every case')
def large_blinding(case, rec):
  """Random permutations of many vertices: every vertex meets every image, and pairs of images are independent."""
  from starks import zero_knowledge as zk
  n, seed = case
  random.seed(seed)
  rec.nt()
  G = [(i, i % n + 1) for i in range(1, n + 1)]
  p = zk.ZKProver(G, G, list(range(n)))
  N = 40 * n
  perms = []
  for i in range(N):
    iso = p.send_isomorphic_copy()[0] if i % 2 else zk.random_permutation(n)
    require(sorted(iso) == list(range(n)), 'not a permutation: %r', iso)
    perms.append(tuple(iso))
  require(len(set(perms)) > N * 0.75 or n < 8, 'only %d different blindings of %d vertices in %d', len(set(perms)), n, N)
  for v in range(n):
    # 40 expected per image: none is missed (probability e^-40)
    require(len({q[v] for q in perms}) == n, 'vertex %d takes only %d of %d images', v, len({q[v] for q in perms}), n)
  for v in range(n):
    # differences of two images take n - 1 values, each about 40 times
    for d in {1, 2, n // 2, n - 1} - {0}:
      u = (v + d) % n
      if u != v:
        seen = len({(q[v] - q[u]) % n for q in perms})
        require(seen == n - 1, 'images of vertices %d and %d differ by %d of %d values', v, u, seen, n - 1)


# ------------------------------------------------------------------ P40


@st.composite
def many_transactions(draw):
  return dict(counts=draw(st.lists(st.one_of(st.integers(0, 300), st.sampled_from([100, 101, 128, 256, 257, 1000, 1025])),
                                   min_size=1, max_size=3)), seed=draw(seeds))


@sub('P40', 'many transactions', many_transactions(), 24, rule='more than a hundred transactions in a block')
def many_submitted(case, rec):
  bc = new_chain()
  want = [[]]
  rec.nt(max(case['counts']) > 100)
  for j, n in enumerate(case['counts']):
    txs = [['s%d' % (i % 7), 'r%d' % j, i] for i in range(n)]
    for t in txs:
      require(bc.new_transaction(*t) == len(want) + 1, 'announced block')
    block = bc.chain[-1]
    block['timestamp'] = 1500000000.5 + case['seed'] % 10**6
    while easy_proof(bc, block) is None:
      block['timestamp'] += 1
    bc.new_block(easy_proof(bc, block), bc.hash(block))
    want.append([dict(sender=a, recipient=b, amount=c) for a, b, c in txs])
  got = [b['transactions'] for b in bc.chain]
  require([len(x) for x in got] == [len(x) for x in want], 'blocks of %r transactions, submitted were %r',
          [len(x) for x in got], [len(x) for x in want])
  require(got == want and not bc.current_transactions, 'transactions in the chain are not those submitted')
  require(bc.valid_chain(bc.chain) and new_chain().valid_chain(json.loads(json.dumps(bc.chain))), 'the chain is invalid')


@st.composite
def validations(draw):
  step = st.tuples(st.integers(0, 5), st.sampled_from(['good', 'good', 'prefix', 'proof', 'field', 'link', 'short']),
                   st.integers(0, 11), st.integers(0, 2**30)).map(list)
  return dict(steps=draw(gens.exact(step, 2, 10)))


@sub('P40', 'one validator', validations(), 400, rule='an invalid chain is shown after a valid one that shares blocks with it')
def one_validator(case, rec):
  """One node judges many chains: what it has judged before changes nothing."""
  bc = new_chain()
  seen = set()
  for which, how, k, salt in case['steps']:
    good = pool()[which]
    chain = json.loads(json.dumps(good))
    k = k % len(chain)
    want = True
    if how == 'prefix':
      chain = chain[:k + 1]
    elif how == 'field':
      edit(chain[k], ['index', 'timestamp', 'transactions'][salt % 3], salt, 'x', bc)
      want = k == len(chain) - 1
    elif how == 'link' and k:
      chain[k]['previous_hash'] = hashlib.sha256(b'%d' % salt).hexdigest()
      want = False
    elif how == 'proof' and k:
      # the last block of what is shown lacks its work
      chain = chain[:k + 1]
      last = bc.hash(chain[-2])
      chain[k]['proof'] = next(n for n in itertools.count(salt) if not work(chain[-2]['proof'], n, last).startswith('0000'))
      want = False
    elif how == 'short' and len(chain) > 2:
      k = max(1, k)
      if k == len(chain) - 1:
        k -= 1
      del chain[k]
      want = False
    if not want and which in seen:
      rec.nt()
    seen.add(which)
    try:
      got = bool(bc.valid_chain(chain))
    except Exception as e:  # a refusal
      got = False
    require(got == want, 'a chain of %d blocks (%s at block %d) is %s after %d others', len(chain), how, k + 1,
            'valid' if got else 'invalid', len(seen))


# ------------------------------------------------------------------ P44, P45


@sub('P44', 'long exponents', st.tuples(st.sampled_from([15, 16, 17, 18, 20, 24, 33]), seeds).map(list), 30, rule='word above 2^14')
def long_two_pow(case, rec):
  m, seed = case
  K = ref.field(['F', 2, list(ref.find_irreducible(2, m, seed % 4))])
  r = random.Random(seed)
  w = r.choice([r.getrandbits(m), 1 << r.randrange(m - 1, m), (1 << m) - 1 - (1 << r.randrange(m))]) if m < 20 else r.choice(
      [1 << (m - 1), (1 << (m - 1)) | 1, (1 << (m - 1)) | (1 << 8)])
  x = K.val([w >> i & 1 for i in range(m)])
  got = K.canon(K.real(x).two_pow())
  require(got == K.pow((0, 1), w), 'two_pow of the word %d in F_2^%d is %r', w, m, got)
  rec.nt(w > 2**14)


@sub('P45', 'around powers of two', st.integers(1, 900), 400, rule='above 2^53')
def around_powers(case, rec):
  from starks.utils import is_a_power_of_2
  rec.nt(case > 53)
  for k in {case, case % 67 + 1}:
    for d in [0, 1, -1, 2, -2, 3, 5, -5, 2**(k // 2), -2**(k // 2), 2**(k - 1)]:
      x = 2**k + d
      require(bool(is_a_power_of_2(x)) == (x > 0 and x & (x - 1) == 0), 'is_a_power_of_2(2^%d %+d)', k, d)


@prep('P40')
def fill():
  pool()
