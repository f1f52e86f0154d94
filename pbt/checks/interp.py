"""P14-P16, P18: interpolation, vanishing polynomials and affine spaces, batch inversion, Gauss."""
import itertools
import random
import re
import unicodedata

from hypothesis import strategies as st

from pbt import gens, ref
from pbt.core import known, require, sub
from pbt.real import canon_poly, mpoly_of, poly, uni


def supported(K, f, *args):
  """Python fractions have no methods of field elements; code may need those."""
  try:
    return f(K.real_field(), *args)
  except AttributeError:
    if K.kind != 'Q':
      raise
    return None


# ------------------------------------------------------------------ P14


@st.composite
def point_sets(draw):
  desc = draw(gens.mixed_fields())
  zeros = draw(st.sampled_from([0, 0, 0, 2, 2, 9]))  # none, two in three, or nearly all values are zero
  n = draw(st.integers(9, 20) if zeros == 9 and desc[0] == 'Z' else gens.sizes(1, 9 if desc[0] == 'Q' else draw(st.sampled_from([9, 9, 24]))))
  xs = draw(gens.distinct_elements(desc, n, n))
  y = gens.elements(desc)
  if zeros:
    zero = [] if desc[0] == 'F' else ([0, 1] if desc[0] == 'Q' else 0)
    el = y
    y = st.integers(0, zeros).flatmap(lambda k: st.just(zero) if k else el)
  return dict(field=desc, xs=xs, ys=[draw(y) for _ in xs], deg=draw(st.integers(-1, len(xs) - 1)),
              f=draw(gens.polys(desc, n, min(n, 2))), ints=draw(st.booleans()),
              ys2=[draw(y) for _ in xs])


@sub('P14', 'lagrange', point_sets(), 1500, rule='>= 3 points, some zero and some non-zero value or degree >= 2')
def lagrange(case, rec):
  from starks.poly_utils import lagrange_interp
  K = ref.field(case['field'])
  xs = [K.val(j) for j in case['xs']]
  ys = [K.val(j) for j in case['ys']]
  if case['deg'] >= 0:
    # values of a polynomial of bounded degree: it must come back
    f = mpoly_of(K, case['f'][:case['deg'] + 1])
    ys = [ref.peval(K, f, x) for x in xs]
  real = (lambda v: v) if case['ints'] and K.kind == 'Z' else K.real
  rx, ry = [real(x) for x in xs], [real(y) for y in ys]
  got = supported(K, lagrange_interp, rx, ry)
  if got is None:
    return
  got = canon_poly(K, got)
  require(len(got) <= len(xs), 'degree %d from %d points', len(got) - 1, len(xs))
  for x, y in zip(xs, ys):
    require(ref.peval(K, got, x) == y, 'interpolant of %r, %r misses (%r, %r)', xs, ys, x, y)
  if case['deg'] >= 0:
    require(got == f, 'expected %r back, got %r', f, got)
  require(rx == [real(x) for x in xs] and ry == [real(y) for y in ys], 'arguments were modified')
  # the same points with other values, straight afterwards, and then the first values again
  ys2 = [K.val(j) for j in case['ys2']]
  got2 = canon_poly(K, lagrange_interp(K.real_field(), rx, [real(y) for y in ys2]))
  require(got2 == ref.interp(K, xs, ys2), 'second interpolation at %r, %r: %r', xs, ys2, got2)
  require(canon_poly(K, lagrange_interp(K.real_field(), rx, ry)) == got, 'the first interpolation is not repeatable')
  rec.label('%s, %d points' % (K.kind, len(xs)))
  rec.nt(len(xs) > 2 and len(got) > 1)


@st.composite
def fixed_sets(draw):
  desc = draw(gens.mixed_fields())
  K = ref.field(desc)
  sets = draw(gens.sizes(1, 9))
  k = 4 if not K.p or K.q >= 4 else 2
  xs = [draw(gens.distinct_elements(desc, k, k)) for _ in range(sets)]
  for i in range(1, sets):  # neighbours sharing their points, in the same or in another order
    how = draw(st.integers(0, 5))
    if how == 0:
      xs[i] = xs[i - 1]
    elif how == 1:
      xs[i] = draw(st.permutations(xs[i - 1]))
    elif how == 2 and k == 4:
      old = [K.val(x) for x in xs[i - 1][:2]]
      new = [x for x in xs[i] if K.val(x) not in old]
      xs[i] = xs[i - 1][:2] + new[:2]
  return dict(field=desc, k=k, xs=xs, ys=[[draw(gens.elements(desc)) for _ in range(k)] for _ in range(sets)])


@sub('P14', 'fixed size', fixed_sets(), 1200, rule='four points, interpolant of degree 3')
def fixed_size(case, rec):
  from starks.poly_utils import lagrange_interp_2, lagrange_interp_4, multi_interp_4
  K = ref.field(case['field'])
  xss = [[K.val(j) for j in xs] for xs in case['xs']]
  yss = [[K.val(j) for j in ys] for ys in case['ys']]
  rxs, rys = [[K.real(x) for x in xs] for xs in xss], [[K.real(y) for y in ys] for ys in yss]
  for xs, ys, rx, ry in zip(xss, yss, rxs, rys):
    want = ref.interp(K, xs[:2], ys[:2])
    got = supported(K, lagrange_interp_2, rx[:2], ry[:2])
    if got is None:
      return
    got = canon_poly(K, got)
    require(got == want, 'lagrange_interp_2(%r, %r) = %r, expected %r', xs[:2], ys[:2], got, want)
    if case['k'] == 4:
      want = ref.interp(K, xs, ys)
      got = supported(K, lagrange_interp_4, rx, ry)
      if got is None:
        return
      got = canon_poly(K, got)
      require(got == want, 'lagrange_interp_4(%r, %r) = %r, expected %r', xs, ys, got, want)
      rec.nt(len(want) == 4)
  if case['k'] == 4:
    out = supported(K, multi_interp_4, rxs, rys)
    if out is None:
      return
    require(len(out) == len(xss), '%d polynomials for %d sets', len(out), len(xss))
    for xs, ys, f in zip(xss, yss, out):
      want = ref.interp(K, xs, ys)
      require(canon_poly(K, f) == want, 'multi_interp_4 at (%r, %r): %r, expected %r', xs, ys, f, want)
  rec.label('%s, %d sets of %d' % (K.kind, len(xss), case['k']))


# ------------------------------------------------------------------ P15


@st.composite
def rootlist(draw, desc):
  el = gens.elements(desc)
  top = 6 if desc[0] == 'Q' else draw(st.sampled_from([8, 8, 30]))
  how = draw(st.integers(0, 3))
  if how == 0:
    rs = []
    for r in draw(st.lists(el, min_size=1, max_size=5)):
      rs += [r] * draw(st.integers(1, 5))
    return draw(st.permutations(rs))
  if how == 1:
    return draw(gens.exact(st.sampled_from(draw(st.lists(el, min_size=1, max_size=4))), 0, top))
  return draw(gens.exact(el, 0, top))


@st.composite
def root_lists(draw):
  desc = draw(gens.mixed_fields())
  return dict(field=desc, roots=draw(rootlist(desc)), x=draw(gens.elements(desc)))


@sub('P15', 'roots', root_lists(), 1500, rule='>= 2 roots, at least one not zero')
def roots(case, rec):
  from starks.poly_utils import zpoly
  K = ref.field(case['field'])
  rs = [K.val(j) for j in case['roots']]
  want = [K.one]
  for r in rs:
    want = ref.pmul(K, want, [K.neg(r), K.one])
  got = canon_poly(K, zpoly(K.real_field(), [K.real(r) for r in rs]))
  require(got == want, 'polynomial with roots %r: %r', rs, got)
  Z = poly(K, got)
  for r in rs:
    require(K.canon(Z(K.real(r))) == K.zero, 'does not vanish at the root %r', r)
  x = K.val(case['x'])
  require((K.canon(Z(K.real(x))) == K.zero) is (x in rs), 'vanishes at %r, not a root', x)
  rec.label(K.kind)
  rec.nt(len(rs) > 1 and any(r != K.zero for r in rs))


@st.composite
def spaces(draw):
  p, m = draw(st.sampled_from([(2, 2), (2, 3), (2, 4), (2, 5), (2, 8), (3, 2), (3, 3), (3, 5), (5, 2), (5, 3), (7, 2),
                               (11, 2), (2, 11)]))
  desc = ['F', p, list(ref.find_irreducible(p, m, draw(st.integers(0, 3))))]
  top = min(m, {2: 5, 3: 3}.get(p, 2))
  if draw(st.booleans()):
    basis = [[0] * i + [1] for i in range(draw(gens.sizes(0, top)))]
  else:
    basis = draw(gens.exact(gens.elements(desc, nonzero=True), 0, top))
  return dict(field=desc, basis=basis, shift=draw(st.one_of(st.none(), gens.elements(desc))),
              polys=draw(st.booleans()), q=draw(gens.polys(desc, 4)), eta=draw(st.integers(0, top)))


def _span(K, basis, shift):
  out = []
  for cs in itertools.product(range(K.p), repeat=len(basis)):
    v = shift
    for c, b in zip(cs, basis):
      v = K.add(v, K.mul(K.int(c), b))
    out.append(v)
  return out


@sub('P15', 'affine space', spaces(), 700, rule='>= 2 independent basis elements and a non-zero shift')
def affine_space(case, rec):
  from starks.fri import eval_on_subspace, select_subspace
  from starks.poly_utils import construct_affine_vanishing_polynomial
  from starks.reedsolomon import AffineSpace
  K = ref.field(case['field'])
  F = K.real_field()
  Kz = ref.field(['Z', K.p])
  Zp = Kz.real_field()
  basis = [K.val(j) for j in case['basis']]
  shift = K.val(case['shift']) if case['shift'] is not None else None
  mk = (lambda v: poly(Kz, v)) if case['polys'] else K.real
  args = [Zp, [mk(b) for b in basis]] + ([mk(shift)] if shift is not None else [])
  aff = AffineSpace(*args)
  base = shift if shift is not None else K.zero
  want = _span(K, basis, base)
  got = [K.canon(F(e)) for e in aff]
  require(sorted(got) == sorted(want), 'elements of the space: %r, expected %r', got, want)
  require(len(aff) == K.p**len(basis) == len(got), 'size of the space: %r', len(aff))
  require([K.canon(F(e)) for e in aff] == got, 'second iteration differs')
  if len(got) <= 32:
    V = canon_poly(K, construct_affine_vanishing_polynomial(F, aff))
    require(len(V) == len(got) + 1 and V[-1] == K.one, 'vanishing polynomial %r of %d elements', V, len(got))
    for v in itertools.islice(K.elements(), 300):
      require((ref.peval(K, V, v) == K.zero) is (v in got), 'vanishing polynomial at %r', v)
  q = mpoly_of(K, case['q'])
  if not case['polys'] and q:
    vals = [K.canon(F(v)) for v in eval_on_subspace(poly(K, q), aff)]
    require(vals == [ref.peval(K, q, e) for e in got], 'values on the space')
  eta = min(case['eta'], len(basis))
  small = [K.canon(F(e)) for e in select_subspace(aff, eta)]
  require(sorted(small) == sorted(_span(K, basis[:eta], K.zero)), 'subspace of the first %d basis elements', eta)
  require(len(aff.basis) == len(basis) and len(aff) == len(got), 'the space was modified')
  rec.label('F_%d^%d, dimension %d' % (K.p, K.m, len(basis)))
  rec.nt(len(basis) > 1 and len(set(got)) == len(got) and base != K.zero)


@known('P15', 'moore')
def moore():
  """The Moore-matrix construction does not vanish on the space it is built for."""
  from starks.modp import IntegersModP
  from starks.poly_utils import construct_affine_vanishing_polynomial_Moore
  from starks.reedsolomon import AffineSpace
  K = ref.field(['F', 2, [1, 1, 0, 0, 1]])
  F = K.real_field()
  P = uni(ref.field(['Z', 2]))
  g = P([0, 1])
  aff = AffineSpace(IntegersModP(2), [F(g), F(g * g)])
  Z = construct_affine_vanishing_polynomial_Moore(F, aff)
  return any(Z(F(e)) != F(0) for e in aff)


# ------------------------------------------------------------------ P16


@st.composite
def inversions(draw):
  desc = draw(gens.mixed_fields())
  zero = [] if desc[0] == 'F' else ([0, 1] if desc[0] == 'Q' else 0)
  el = gens.elements(desc)
  top = 20 if desc[0] == 'Q' else draw(st.sampled_from([20, 20, 70]))
  vals = draw(st.one_of(gens.exact(st.one_of(el, el, st.just(zero)), 0, top), gens.exact(el, 0, top),
                        gens.exact(st.sampled_from(draw(st.lists(el, min_size=1, max_size=3)) + [zero]), 0, top)))
  vals = [zero] * draw(st.sampled_from([0, 0, 0, 1, 2, 5])) + vals + [zero] * draw(st.sampled_from([0, 0, 0, 1, 2, 5]))
  return dict(field=desc, vals=vals)


@sub('P16', 'multi_inv', inversions(), 7500, rule='>= 2 non-zero values and a zero')
def batch_inverse(case, rec):
  from starks.poly_utils import multi_inv
  K = ref.field(case['field'])
  vals = [K.val(j) for j in case['vals']]
  rv = [K.real(v) for v in vals]
  out = supported(K, multi_inv, rv)
  if out is None:
    return
  require(len(out) == len(vals), '%d outputs for %d values', len(out), len(vals))
  for v, o in zip(vals, out):
    want = K.zero if v == K.zero else K.inv(v)
    require(K.canon(o) == want, 'inverse of %r in %r: %r', v, vals, o)
  require([K.canon(x) for x in rv] == vals, 'the values were modified')
  rec.label('with zeros' if K.zero in vals else 'no zeros')
  rec.nt(K.zero in vals and sum(v != K.zero for v in vals) > 1)


# ------------------------------------------------------------------ P18


@st.composite
def systems(draw):
  desc = draw(gens.mixed_fields(q=False))
  n = draw(gens.sizes(1, 8))
  el = gens.elements(desc)
  zero = [] if desc[0] == 'F' else 0
  rows = [[draw(st.one_of(el, el, st.just(zero))) for _ in range(n)] for _ in range(n)]
  # P*L*U with unit-free construction would hide pivoting: swap rows of a triangular matrix instead
  how = draw(st.sampled_from(['random', 'triangular', 'permutation', 'cyclic']))
  if how != 'random':
    for i in range(n):
      for j in range(n):
        if j < i or (how in ('permutation', 'cyclic') and j > i):
          rows[i][j] = zero
      rows[i][i] = draw(gens.elements(desc, nonzero=True))
    if how == 'cyclic':  # one pivot exchange after another
      k = draw(st.integers(0, n - 1))
      rows = rows[k:] + rows[:k]
      for _ in range(draw(st.integers(0, 3))):
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        rows[i][j] = draw(el)
    else:
      rows = draw(st.permutations(rows))
  return dict(field=desc, rows=rows, x=[draw(el) for _ in range(n)])


def _det(K, M):
  n, det, M = len(M), K.one, [list(r) for r in M]
  for i in range(n):
    k = next((k for k in range(i, n) if M[k][i] != K.zero), None)
    if k is None:
      return K.zero
    M[i], M[k] = M[k], M[i]
    det = K.mul(det, M[i][i])
    for k in range(i + 1, n):
      c = K.mul(M[k][i], K.inv(M[i][i]))
      M[k] = [K.sub(a, K.mul(c, b)) for a, b in zip(M[k], M[i])]
  return det


@sub('P18', 'gauss', systems(), 3000, rule='non-singular, >= 2 unknowns, a zero on the diagonal')
def gaussian(case, rec):
  from starks.poly_utils import gauss
  K = ref.field(case['field'])
  M = [[K.val(j) for j in r] for r in case['rows']]
  x = [K.val(j) for j in case['x']]
  n = len(M)
  if _det(K, M) == K.zero:
    rec.label('singular, skipped')
    return
  rhs = []
  for r in M:
    s = K.zero
    for a, b in zip(r, x):
      s = K.add(s, K.mul(a, b))
    rhs.append(s)
  aug = [[poly(K, ref.trim(K, [a])) for a in r + [b]] for r, b in zip(M, rhs)]
  got = [canon_poly(K, uni(K)(v)) for v in gauss(aug, n, K.real_field())]
  require(got == [ref.trim(K, [v]) for v in x], 'solution of %r x = %r: %r, expected %r', M, rhs, got, x)
  rec.label('%d unknowns' % n)
  rec.nt(n > 1 and any(M[i][i] == K.zero for i in range(n)))


# ------------------------------------------------------------------ P33


@st.composite
def commitments(draw):
  m, dim = draw(st.sampled_from([(3, 2), (4, 2), (4, 3), (5, 2), (6, 3), (8, 3), (10, 2), (10, 3)]))
  desc = ['F', 2, list(ref.find_irreducible(2, m, draw(st.integers(0, 3))))]
  basis = []
  if draw(st.booleans()):
    basis = [[0] * i + [1] for i in range(dim)]
  else:
    # triangular, hence independent
    for i in range(dim):
      basis.append(draw(st.lists(st.integers(0, 1), min_size=i, max_size=i)) + [1])
    basis = draw(st.permutations(basis))
  return dict(field=desc, basis=[list(b) for b in basis], poly=draw(gens.polys(desc, 2**dim)))


@sub('P33', 'one round', commitments(), 36, rule='the word has degree >= 2')
def affine_commitment(case, rec):
  from starks.fri import AffineSubspaceFRI, select_random
  from starks.reedsolomon import AffineSpace
  K = ref.field(case['field'])
  Kz = ref.field(['Z', 2])
  F = K.real_field()
  coeffs = mpoly_of(K, case['poly'])
  basis = [poly(Kz, K.val(b)) for b in case['basis']]
  space = AffineSpace(Kz.real_field(), basis)
  word = lambda e: K.real(ref.peval(K, coeffs, K.canon(F(e))))
  fri = AffineSubspaceFRI(F, space, 1)
  got = fri.commit(word)
  got = ref.trim(K, [K.canon(c) for c in got])
  require(got == coeffs, 'committed to the coefficients %r, the word is %r', got, coeffs)
  rec.nt(len(coeffs) > 2)
  rec.label('F_2^%d, dimension %d' % (K.m, len(basis)))


@st.composite
def transcripts(draw):
  m = draw(st.sampled_from([3, 4, 5, 6, 8, 10]))
  n = draw(st.one_of(st.integers(1, 60), st.integers(1, 3000)))
  return dict(field=['F', 2, list(ref.find_irreducible(2, m, draw(st.integers(0, 3))))], length=n,
              at=draw(st.integers(0, n - 1)), seed=draw(st.integers(0, 10**6)),
              text=draw(st.text(alphabet=st.characters(codec='utf-8'), min_size=1, max_size=12)))


@sub('P33', 'challenges', transcripts(), 30, rule='the transcripts differ in one character')
def challenges(case, rec):
  """Elements of the field, functions of the transcript, different for different transcripts."""
  from starks.fri import select_random
  K = ref.field(case['field'])
  F = K.real_field()
  rec.nt(case['length'] > 1)
  long = (case['text'] + 'abcdefghijklmnopqrstuvwxyz') * (case['length'] // 26 + 1)
  long = long[:case['length']]
  at = case['at']
  a = K.canon(select_random(F, long))
  require(a == K.canon(select_random(F, long)), 'the challenge is not deterministic')
  # nine transcripts that differ from each other in one character: eight-element fields leave 8^-15
  many = {K.canon(select_random(F, long[:at] + c + long[at + 1:])) for c in '012345678'}
  require(len(many) > 1, 'nine transcripts that differ at position %d of %d lead to one challenge', at, len(long))
  rec.label('F_2^%d' % K.m)


RELATED = dict(
    lower=str.lower, upper=str.upper, strip=str.strip, blanks=lambda t: ' '.join(t.split()), joined=lambda t: ''.join(t.split()),
    sorted=lambda t: ''.join(sorted(t)), reversed=lambda t: t[::-1], newline=lambda t: t + '\n', nul=lambda t: t + '\0',
    cut=lambda t: t.split('\0')[0], ascii=lambda t: t.encode('ascii', 'replace').decode(), ignored=lambda t: t.encode('ascii', 'ignore').decode(),
    latin=lambda t: t.encode('latin-1', 'replace').decode('latin-1'), plain=lambda t: unicodedata.normalize('NFKD', t).encode('ascii', 'ignore').decode(),
    composed=lambda t: unicodedata.normalize('NFC', t), letters=lambda t: ''.join(c for c in t if not c.isdigit()),
    digits=lambda t: ''.join(c for c in t if c.isdigit()), words=lambda t: ''.join(c for c in t if c.isalnum()),
    zeros=lambda t: re.sub('0*([0-9]+)', r'\1', t), once=lambda t: ''.join(dict.fromkeys(t)), head=lambda t: t[:-1], tail=lambda t: t[1:],
    doubled=lambda t: t + t, swapped=lambda t: t[len(t) // 2:] + t[:len(t) // 2], points=lambda t: t.replace('.', ','))


@st.composite
def related_transcripts(draw):
  return dict(field=['F', 2, list(ref.find_irreducible(2, 10, draw(st.integers(0, 3))))],
              how=draw(st.lists(st.sampled_from(sorted(RELATED)), min_size=5, max_size=5, unique=True)),
              seed=draw(st.integers(0, 2**30)), long=draw(st.booleans()))


@sub('P33', 'related transcripts', related_transcripts(), 24, rule='every case')
def related_challenges(case, rec):
  """Nothing in a transcript is without effect: neither case, blanks, accents, zeros nor the order."""
  from starks.fri import select_random
  K = ref.field(case['field'])
  F = K.real_field()
  rng = random.Random(case['seed'])
  rec.nt()

  def text():
    parts = [' a', 'B ', '  ', '007', '70', '\u00e9', 'e\u0301', '\u4e2d', '\0', 'x.y', 'Root', '\t', '(1, 2)', '\U0001f600', 'aa', ' \n']
    rng.shuffle(parts)
    return ''.join(parts) + ''.join(rng.choice('abcXYZ 0189') for _ in range(rng.randint(0, 400 if case['long'] else 9))) + ' '

  bases = [text() for _ in range(5)]
  seen = {}

  def challenge(t):
    if t not in seen:
      seen[t] = K.canon(select_random(F, t))
    return seen[t]

  for how in case['how']:
    f = RELATED[how]
    # five accidents in a field of 1024 elements: 2^-50
    require(any(challenge(b) != challenge(f(b)) for b in bases if f(b) != b) or all(f(b) == b for b in bases),
            'transcripts have the challenge of what %r makes of them', how)
    rec.label(how)


@known('P33', 'query')
def affine_query():
  """The query phase compares for inequality: it refuses the honest zero word, accepts a false claim."""
  from starks.fri import AffineSubspaceFRI
  from starks.finitefield import FiniteField
  from starks.modp import IntegersModP
  from starks.reedsolomon import AffineSpace
  P = uni(ref.field(['Z', 2]))
  F = FiniteField(2, 4, polynomialModulus=P([1, 1, 0, 0, 1]))
  g = P([0, 1])
  fri = AffineSubspaceFRI(F, AffineSpace(IntegersModP(2), [g**0, g]), 1)
  honest = fri.query([lambda e: F(0)], [F(0)])
  false = fri.query([lambda e: F(1)], [F(g), F(1), F(1)])
  return honest is not True or false is not False
