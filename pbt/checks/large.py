"""Few cases, large sizes: the same claims where only the cheapest oracles still run.

The contents of a case are expanded from a seed, so cases stay small and replayable.
"""
import random

from hypothesis import strategies as st

from pbt import gens, ref
from pbt.core import require, sub
from pbt.checks.fft import prime_with_root, root_of_order
from pbt.checks.merkle import h
from pbt.real import canon_multi, canon_poly, multi, multis, poly, uni

STYLES = ['random', 'random', 'sparse', 'edges', 'ramp', 'alike']


def element(K, r):
  if K.kind == 'Z':
    return r.randrange(K.p)
  return K.val([r.randrange(K.p) for _ in range(K.m)])


def vector(K, n, style, r):
  """n elements of the field; the last is not zero."""
  if style == 'random':
    out = [element(K, r) for _ in range(n)]
  elif style == 'sparse':
    out = [element(K, r) if r.random() < 0.1 else K.zero for _ in range(n)]
  elif style == 'alike' and K.kind == 'Z' and K.p > 2**18:
    far = [d for d in gens.APART if 4 * d < K.p]
    out = [r.randrange(1, 5) + r.randrange(4) * r.choice(far) for _ in range(n)]
    out = [x % K.p for x in out]
  elif style in ('edges', 'alike'):
    out = [r.choice([K.zero, K.one, K.neg(K.one), K.int(2)]) for _ in range(n)]
  else:
    out = [K.int(i) for i in range(n)]
  if n and out[-1] == K.zero:
    out[-1] = K.one
  return out


def product(K, f, g):
  """Product of coefficient lists; over Z/p by packing into two big integers."""
  if K.kind != 'Z':
    return ref.pmul(K, f, g)
  f, g = ref.trim(K, f), ref.trim(K, g)
  if not f or not g:
    return []
  width = (2 * K.p.bit_length() + max(len(f), len(g)).bit_length() + 7) // 8 + 1
  pack = lambda v: int.from_bytes(b''.join(a.to_bytes(width, 'little') for a in v), 'little')
  n = len(f) + len(g) - 1
  raw = (pack(f) * pack(g)).to_bytes(width * (n + 1), 'little')
  return ref.trim(K, [int.from_bytes(raw[i * width:(i + 1) * width], 'little') % K.p for i in range(n)])


seeds = st.integers(0, 2**40)
styles = st.sampled_from(STYLES)
zdesc = gens.zp_descs()
fields = st.one_of(zdesc, zdesc, gens.fq_descs(max_m=4))


# ------------------------------------------------------------------ P08-P10


@st.composite
def long_polys(draw):
  desc = draw(fields)
  top = 320 if desc[0] == 'Z' else 60
  a = draw(gens.sizes(20, top))
  b = draw(st.one_of(gens.sizes(1, top), st.just(a), st.integers(max(1, a - 2), a + 2)))
  return dict(field=desc, a=a, b=b, sa=draw(styles), sb=draw(styles), seed=draw(seeds), n=draw(st.integers(2, 5)))


@sub('P08', 'long polynomials', long_polys(), 180, rule='both factors have more than 30 coefficients')
def long_ring(case, rec):
  K = ref.field(case['field'])
  r = random.Random(case['seed'])
  f, g = vector(K, case['a'], case['sa'], r), vector(K, case['b'], case['sb'], r)
  A, B = poly(K, f), poly(K, g)
  want = product(K, f, g)
  require(canon_poly(K, A * B) == want, 'product of %d and %d coefficients', len(f), len(g))
  require(canon_poly(K, B * A) == want, 'product of %d and %d coefficients', len(g), len(f))
  require(canon_poly(K, A + B) == ref.padd(K, f, g), 'sum of %d and %d coefficients', len(f), len(g))
  require(canon_poly(K, A - B) == ref.psub(K, f, g), 'difference of %d and %d coefficients', len(f), len(g))
  require(canon_poly(K, B - A) == ref.psub(K, g, f), 'difference of %d and %d coefficients', len(g), len(f))
  require((A == B) is (f == g) and (A != B) is (f != g), 'equality of %d and %d coefficients', len(f), len(g))
  C = poly(K, f)
  require(A == C and not A != C and (K.kind != 'Z' or hash(A) == hash(C)), 'equal polynomials of %d coefficients', len(f))
  at = r.randrange(len(f) - 1)
  f2 = list(f)
  f2[at] = K.add(f2[at], K.one)
  D = poly(K, f2)
  require(A != D and not A == D, 'polynomials that differ in coefficient %d of %d compare equal', at, len(f))
  s = f[:12]
  S = poly(K, s)
  want = [K.one]
  for _ in range(case['n']):
    want = product(K, want, s)
  require(canon_poly(K, S**case['n']) == ref.trim(K, want), 'power %d', case['n'])
  require(canon_poly(K, A) == f and canon_poly(K, B) == g, 'an operand was modified')
  rec.label(K.kind)
  rec.nt(len(f) > 30 and len(g) > 30)


@sub('P09', 'long divisions', long_polys(), 90, rule='quotient and divisor have more than 15 coefficients')
def long_division(case, rec):
  K = ref.field(case['field'])
  r = random.Random(case['seed'])
  q = vector(K, case['a'] // 2 + 1, case['sa'], r)
  b = vector(K, case['b'] // 2 + 1, case['sb'], r)
  rem = ref.trim(K, vector(K, r.randrange(len(b)), r.choice(STYLES), r))
  a = ref.padd(K, product(K, q, b), rem)
  A, B = poly(K, a), poly(K, b)
  Q, R = divmod(A, B)
  require(canon_poly(K, Q) == q, 'quotient of %d by %d coefficients', len(a), len(b))
  require(canon_poly(K, R) == rem, 'remainder of %d by %d coefficients', len(a), len(b))
  require(canon_poly(K, A / B) == q and canon_poly(K, A % B) == rem, '/ and % of %d by %d coefficients', len(a), len(b))
  require(canon_poly(K, A) == a and canon_poly(K, B) == b, 'an operand was modified')
  rec.label(K.kind)
  rec.nt(len(q) > 15 and len(b) > 15)


@sub('P10', 'long polynomials', long_polys(), 300, rule='more than 30 coefficients')
def long_evaluation(case, rec):
  K = ref.field(case['field'])
  r = random.Random(case['seed'])
  f = vector(K, case['a'], case['sa'], r)
  A = poly(K, f)
  for x in [K.zero, K.one, K.neg(K.one), element(K, r), element(K, r)]:
    got = A(K.real(x))
    require(K.canon(got) == ref.peval(K, f, x), 'value of %d coefficients at %r: %r', len(f), x, got)
  rec.label(K.kind)
  rec.nt(len(f) > 30)


# ------------------------------------------------------------------ P11


@st.composite
def wide_multis(draw):
  desc = draw(st.one_of(zdesc, gens.fq_descs(max_m=3)))
  return dict(field=desc, width=draw(st.integers(4, 9)), a=draw(st.integers(1, 25)), b=draw(st.integers(1, 25)),
              top=draw(st.sampled_from([1, 2, 5, 40, 1000])), seed=draw(seeds))


def big_multi(K, width, terms, top, r):
  out = {}
  for _ in range(terms):
    e = tuple(r.choice([0, 0, 1, r.randrange(top + 1)]) for _ in range(width))
    c = element(K, r)
    if c != K.zero:
      out[e] = c
  return out


@sub('P11', 'many variables', wide_multis(), 300, rule='both factors have more than three terms')
def wide_ring(case, rec):
  K = ref.field(case['field'])
  w = case['width']
  r = random.Random(case['seed'])
  f, g = [big_multi(K, w, case[k], case['top'], r) for k in 'ab']
  A, B = multi(K, w, f), multi(K, w, g)
  require(canon_multi(K, w, A * B) == ref.mmul(K, f, g), 'product')
  require(canon_multi(K, w, A + B) == ref.madd(K, f, g), 'sum')
  require(canon_multi(K, w, A - B) == ref.madd(K, f, ref.mneg(K, g)), 'difference')
  require((A == B) is (f == g) and A == multi(K, w, f), 'equality')
  if f:
    require(A.degree() == max(sum(e) for e in f), 'total degree %r', A.degree())
  xs = [element(K, r) for _ in range(w)]
  require(K.canon(A([K.real(x) for x in xs])) == ref.meval(K, f, xs), 'value at %r', xs)
  require(canon_multi(K, w, A) == f and canon_multi(K, w, B) == g, 'an operand was modified')
  rec.label('%s, %d variables' % (K.kind, w))
  rec.nt(len(f) > 3 and len(g) > 3)


# ------------------------------------------------------------------ P14-P16, P18


@st.composite
def many_points(draw):
  desc = draw(st.one_of(gens.zp_descs(st.one_of(st.sampled_from(gens.BIG), st.sampled_from([97, 101, 251, 257]))),
                        st.just(['F', 2, list(ref.find_irreducible(2, 8, 0))])))
  return dict(field=desc, n=draw(st.integers(12, 40)), style=draw(styles), seed=draw(seeds))


@sub('P14', 'many points', many_points(), 36, rule='every case')
def many_point_interp(case, rec):
  from starks.poly_utils import lagrange_interp, multi_interp_4
  K = ref.field(case['field'])
  r = random.Random(case['seed'])
  n = case['n']
  xs = []
  while len(xs) < n:
    x = element(K, r)
    if x not in xs:
      xs.append(x)
  f = vector(K, r.choice([n, n, n - 1, n // 2]), case['style'], r)
  ys = [ref.peval(K, f, x) for x in xs]
  F = K.real_field()
  got = canon_poly(K, lagrange_interp(F, [K.real(x) for x in xs], [K.real(y) for y in ys]))
  require(got == f, 'interpolation of %d coefficients through %d points', len(f), n)
  sets = [r.sample(xs, 4) for _ in range(n)]
  vals = [[element(K, r) for _ in range(4)] for _ in sets]
  out = multi_interp_4(F, [[K.real(x) for x in s] for s in sets], [[K.real(y) for y in v] for v in vals])
  require(len(out) == n, '%d interpolants for %d sets', len(out), n)
  for s, v, p in zip(sets, vals, out):
    c = canon_poly(K, p)
    require(len(c) <= 4 and all(ref.peval(K, c, x) == y for x, y in zip(s, v)), 'one of %d interpolants', n)
  rec.label(K.kind)
  rec.nt()


@st.composite
def many_values(draw):
  return dict(field=draw(st.one_of(zdesc, gens.fq_descs(max_m=5))), n=draw(st.one_of(st.integers(30, 100), st.integers(100, 400))),
              style=draw(styles), seed=draw(seeds))


@sub('P15', 'many roots', many_values(), 120, rule='every case')
def many_roots(case, rec):
  from starks.poly_utils import zpoly
  K = ref.field(case['field'])
  r = random.Random(case['seed'])
  n = min(case['n'], 200 if K.kind == 'Z' else 50)
  rs = vector(K, n, case['style'], r)
  got = canon_poly(K, zpoly(K.real_field(), [K.real(x) for x in rs]))
  require(len(got) == n + 1 and got[-1] == K.one, 'the polynomial of %d roots has %d coefficients', n, len(got))
  f = got
  for x in r.sample(rs, len(rs)):  # divide the roots out, in any order
    q, c = [], K.zero
    for a in reversed(f):
      c = K.add(K.mul(c, x), a)
      q.append(c)
    require(q.pop() == K.zero, 'a root is missing among %d', n)
    f = q[::-1]
  require(f == [K.one], 'the polynomial has other roots than its %d', n)
  rec.label(K.kind)
  rec.nt()


@sub('P16', 'many values', many_values(), 240, rule='every case')
def many_inverses(case, rec):
  from starks.poly_utils import multi_inv
  K = ref.field(case['field'])
  r = random.Random(case['seed'])
  vals = vector(K, case['n'], case['style'], r)
  out = multi_inv(K.real_field(), [K.real(v) for v in vals])
  require(len(out) == len(vals), '%d outputs for %d values', len(out), len(vals))
  for i, (v, o) in enumerate(zip(vals, out)):
    o = K.canon(o)
    require(o == K.zero if v == K.zero else K.mul(v, o) == K.one, 'entry %d of %d: %r inverted to %r', i, len(vals), v, o)
  rec.label(K.kind)
  rec.nt()


@st.composite
def large_systems(draw):
  return dict(field=draw(st.one_of(zdesc, gens.fq_descs(max_m=4))), n=draw(st.integers(7, 16)),
              fill=draw(st.sampled_from([0.0, 0.2, 0.5, 1.0])), seed=draw(seeds))


@sub('P18', 'many unknowns', large_systems(), 200, rule='every case')
def large_gauss(case, rec):
  from starks.poly_utils import gauss
  K = ref.field(case['field'])
  r = random.Random(case['seed'])
  n, fill = case['n'], case['fill']
  nonzero = lambda: next(x for x in iter(lambda: element(K, r), None) if x != K.zero)
  M = [[nonzero() if i == j else element(K, r) if j > i and r.random() < fill else K.zero for j in range(n)]
       for i in range(n)]
  r.shuffle(M)
  for _ in range(int(3 * n * fill)):  # row operations keep it regular
    i, j = r.sample(range(n), 2)
    c = element(K, r)
    M[i] = [K.add(a, K.mul(c, b)) for a, b in zip(M[i], M[j])]
  x = [element(K, r) for _ in range(n)]
  rhs = []
  for row in M:
    s = K.zero
    for a, b in zip(row, x):
      s = K.add(s, K.mul(a, b))
    rhs.append(s)
  aug = [[poly(K, ref.trim(K, [a])) for a in row + [b]] for row, b in zip(M, rhs)]
  got = [canon_poly(K, uni(K)(v)) for v in gauss(aug, n, K.real_field())]
  require(got == [ref.trim(K, [v]) for v in x], 'solution of a system of %d unknowns', n)
  rec.label('%d unknowns' % n)
  rec.nt()


# ------------------------------------------------------------------ P19-P20

LONG = [192, 256, 256, 384, 512, 512, 768, 1024, 1024, 2048, 4096]


@st.composite
def long_domains(draw):
  n = draw(st.sampled_from(LONG))
  p = prime_with_root(n, draw(st.integers(0, 7)))
  K = ref.field(['Z', p])
  start = draw(st.integers(1, p - 1))
  w = root_of_order(K, n, (1 + (start + i) % (p - 1) for i in range(p)))
  return dict(field=['Z', p], n=n, w=w, len=draw(st.one_of(st.just(n), st.integers(1, n), st.integers(1, 40))),
              cut=draw(st.integers(0, n)), style=draw(styles), seed=draw(seeds))


@sub('P19', 'long transforms', long_domains(), 120, rule='every case')
def long_transform(case, rec):
  from starks.fft import NonBinaryFFT
  K = ref.field(case['field'])
  F = K.real_field()
  r = random.Random(case['seed'])
  n, w = case['n'], case['w']
  f = vector(K, case['len'], case['style'], r)
  solver = NonBinaryFFT(F, K.real(w))
  vals = solver.fft(poly(K, f))
  require(len(vals) == n, '%d values on a domain of %d points', len(vals), n)
  got = [K.canon(F(v)) for v in vals]
  for i in [0, 1, n - 1, n // 2] + [r.randrange(n) for _ in range(12)]:
    require(got[i] == ref.peval(K, f, pow(w, i, K.p)), 'value %d of %d', i, n)
  require(canon_poly(K, solver.inv_fft(vals)) == f, 'inverse transform of %d values', n)
  vs = vector(K, n, case['style'], r)
  g = solver.inv_fft([K.real(v) for v in vs])
  require([K.canon(F(v)) for v in solver.fft(g)] == vs, 'transform of the inverse transform of %d values', n)
  c = canon_poly(K, g)
  for i in [0, n - 1] + [r.randrange(n) for _ in range(6)]:
    require(ref.peval(K, c, pow(w, i, K.p)) == vs[i], 'interpolant at point %d of %d', i, n)
  rec.label('n=%d' % n)
  rec.nt()


@sub('P20', 'long products', long_domains(), 120, rule='every case')
def long_product(case, rec):
  from starks.fft import mul_polys
  K = ref.field(case['field'])
  F = K.real_field()
  r = random.Random(case['seed'])
  n = case['n']
  la = min(max(case['len'], 1), n)
  lb = max(1, min(n + 1 - la, case['cut']) if case['cut'] else n + 1 - la)
  a, b = vector(K, la, case['style'], r), vector(K, lb, r.choice(STYLES), r)
  out = mul_polys([K.real(v) for v in a], [K.real(v) for v in b], K.real(case['w']))
  require(len(out) == n, '%d coefficients on a domain of %d points', len(out), n)
  require(ref.trim(K, [K.canon(F(v)) for v in out]) == product(K, a, b), 'product of %d and %d coefficients', la, lb)
  rec.label('n=%d' % n)
  rec.nt()


# ------------------------------------------------------------------ P22-P24


def root_of(leaves):
  """Root as the package documents it: leaves taken a quarter apart, then a binary tree of BLAKE2s."""
  import hashlib
  q = len(leaves) // 4
  level = [leaves[i + q * k] for i in range(q) for k in range(4)]
  while len(level) > 1:
    level = [hashlib.blake2s(level[i] + level[i + 1]).digest() for i in range(0, len(level), 2)]
  return level[0]


@st.composite
def big_trees(draw):
  n = draw(st.sampled_from([256, 512, 1024, 2048, 4096, 8192, 16384, 256, 512, 1024, 2048, 4096, 8192, 32768, 65536, 131072]))
  return dict(n=n, few=draw(st.sampled_from([1, 2, 3, n // 4, n // 2, n, n])), seed=draw(seeds),
              picks=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=24)),
              other=draw(st.integers(0, n - 1)), edit=draw(st.integers(0, n - 1)))


@sub('P22', 'large trees', big_trees(), 180, rule='at least three distinct leaves')
def large_trees(case, rec):
  from starks.merkle_tree import merkelize, mk_branch, verify_branch
  n = case['n']
  L = [h(case['seed'], i % case['few']) for i in range(n)]
  tree = merkelize(list(L))
  for i in case['picks'] + [0, n - 1, n // 4, n // 4 - 1, n // 2]:
    pr = mk_branch(tree, i)
    require(verify_branch(tree[1], i, pr) == L[i], 'opening %d of %d leaves', i, n)
    require(verify_branch(tree[1], i, pr, output_as_int=True) == int.from_bytes(L[i], 'big'), 'opening %d as integer', i)
  require(merkelize([int.from_bytes(x, 'big') for x in L])[1] == tree[1], 'integers and bytes give different roots')
  rec.label('n=%d' % n)
  rec.nt(case['few'] > 2)


@sub('P23', 'large trees', big_trees(), 180, rule='the edited leaf differs')
def large_binding(case, rec):
  from starks.merkle_tree import merkelize, mk_branch, verify_branch
  n, j, e = case['n'], case['other'], case['edit']
  L = [h(case['seed'], i % case['few']) for i in range(n)]
  tree = merkelize(list(L))
  M = list(L)
  M[e] = h('edited', case['seed'])
  tree2 = merkelize(list(M))
  require(tree[1] != tree2[1], 'a change of leaf %d of %d leaves the root', e, n)
  for i in case['picks']:
    for t, at in ((tree, j), (tree2, i), (tree2, e)):
      pr = mk_branch(t, at)
      try:
        got = verify_branch(tree[1], i, pr)
      except Exception:
        continue
      require(got == L[i], 'position %d of %d opens to another leaf', i, n)
      require(t is tree, 'an opening from the edited list was accepted at %d of %d', i, n)
      require(at == i or case['few'] < n, 'the opening of %d was accepted at %d of %d', at, i, n)
  rec.label('n=%d' % n)
  rec.nt()


@st.composite
def big_packed(draw):
  return dict(field=draw(zdesc), dims=draw(st.sampled_from([1, 2, 7, 12, 16])), npolys=draw(st.sampled_from([1, 3, 3, 8])),
              n=draw(st.sampled_from([64, 128, 256])), style=draw(styles), seed=draw(seeds))


@sub('P24', 'wide leaves', big_packed(), 60, rule='every case')
def wide_leaves(case, rec):
  from starks.merkle_tree import merkelize_polynomial_evaluations, mk_branch, unpack_merkle_leaf, verify_branch
  K = ref.field(case['field'])
  r = random.Random(case['seed'])
  dims, npolys, n = case['dims'], case['npolys'], case['n']
  vals = [vector(K, n, case['style'], r) for _ in range(dims * npolys)]
  tree = merkelize_polynomial_evaluations(dims, [[K.real(v) for v in row] for row in vals])
  for i in [0, n - 1] + [r.randrange(n) for _ in range(6)]:
    leaf = verify_branch(tree[1], i, mk_branch(tree, i))
    got = [int.from_bytes(b, 'big') for b in unpack_merkle_leaf(leaf, dims, npolys)]
    require(got == [row[i] for row in vals], 'leaf %d of %d with %d values', i, n, dims * npolys)
  k, i = r.randrange(dims * npolys), r.randrange(n)
  vals[k][i] = K.add(vals[k][i], K.one)
  again = merkelize_polynomial_evaluations(dims, [[K.real(v) for v in row] for row in vals])
  require(again[1] != tree[1], 'a changed value of polynomial %d at %d left the root as it was', k, i)
  rec.nt()
