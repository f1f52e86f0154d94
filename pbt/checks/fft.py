"""P19-P21: number-theoretic transform, FFT multiplication, Taylor expansion."""
import functools

from hypothesis import strategies as st

from pbt import gens, ref
from pbt.core import known, require, sub
from pbt.real import canon_poly, mpoly_of, poly

SIZES = [1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128]


@functools.lru_cache(maxsize=None)
def prime_with_root(n, index):
  """The index-th prime (from a few magnitudes) with n | p - 1."""
  start = [3, 3, 100, 2**20, 2**31, 2**64, 2**128, 2**254][index % 8]
  p = start - start % n + 1
  while p < 3 or p % 2 == 0 or p < start or not ref.is_prime(p):
    p += n
  return p


def root_of_order(K, n, tries):
  """An element of exact order n; tries is an endless supply of elements."""
  q = K.q
  fs = ref.prime_factors(n)
  for g in tries:
    if g == K.zero:
      continue
    w = K.pow(g, (q - 1) // n)
    if all(K.pow(w, n // f) != K.one for f in fs):
      return w
  raise AssertionError('no element of order %d' % n)


FQ_ROOTS = [(3, 2, 8), (3, 2, 4), (3, 3, 2), (3, 4, 16), (5, 2, 8), (5, 2, 24), (5, 2, 12), (7, 2, 16), (7, 2, 48),
            (7, 2, 6), (11, 2, 8), (11, 2, 24), (31, 2, 64), (31, 2, 32), (17, 2, 32), (5, 3, 4)]


@functools.lru_cache(maxsize=None)
def small_roots():
  """(p, w, n): a small integer w of order n modulo several primes p."""
  out = []
  for w in (2, 3, 4, 5, 6, 8, 9, 10):
    for p in range(3, 1200):
      if ref.is_prime(p) and w % p > 1:
        n, x = 1, w % p
        while x != 1 and n <= 64:
          x, n = x * w % p, n + 1
        if n in SIZES and n <= 64:
          out.append((p, w % p, n))
  return out


@st.composite
def domains(draw, sizes=tuple(SIZES)):
  if draw(st.integers(0, 4)) == 0:
    p, w, n = draw(st.sampled_from([t for t in small_roots() if t[2] in sizes]))
    return dict(field=['Z', p], n=n, w=w)
  if draw(st.integers(0, 3)):
    n = draw(st.sampled_from(sizes))
    p = prime_with_root(n, draw(st.integers(0, 7)))
    desc = ['Z', p]
    K = ref.field(desc)
    start = draw(st.integers(1, p - 1))
    w = root_of_order(K, n, (1 + (start + i) % (p - 1) for i in range(p)))
    return dict(field=desc, n=n, w=w)
  p, m, n = draw(st.sampled_from([t for t in FQ_ROOTS if t[2] in sizes]))
  desc = ['F', p, list(ref.find_irreducible(p, m, draw(st.integers(0, 2))))]
  K = ref.field(desc)
  els = list(K.elements())
  start = draw(st.integers(0, len(els) - 1))
  w = root_of_order(K, n, els[start:] + els[:start])
  return dict(field=desc, n=n, w=list(w))


@st.composite
def transforms(draw):
  return dict(steps=[draw(one_transform()) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))])


@st.composite
def one_transform(draw):
  d = draw(domains())
  n, desc = d['n'], d['field']
  full = draw(st.integers(0, 2)) == 0
  d['f'] = draw(gens.polys(desc, n, n if full else 0))
  d['f2'] = draw(gens.polys(desc, n))
  d['vals'] = [draw(gens.elements(desc)) for _ in range(n)] if n <= 24 else draw(gens.polys(desc, n, n))
  return d


@sub('P19', 'transform', transforms(), 1800, rule='n >= 8, degree >= 2')
def transform(case, rec):
  for step in case['steps']:
    _transform(step, rec)


def _transform(case, rec):
  from starks.fft import NonBinaryFFT
  K = ref.field(case['field'])
  n, w = case['n'], K.val(case['w'])
  f = mpoly_of(K, case['f'])
  solver = NonBinaryFFT(K.real_field(), K.real(w))
  F = poly(K, f)
  got = solver.fft(F)
  require(len(got) == n, '%d values on a domain of %d points', len(got), n)
  x, want = K.one, []
  for _ in range(n):
    want.append(ref.peval(K, f, x))
    x = K.mul(x, w)
  got_c = [K.canon(K.real_field()(v)) for v in got]
  require(got_c == want, 'values of %r at powers of %r: %r, expected %r', f, w, got_c, want)
  require(canon_poly(K, solver.inv_fft(got)) == f, 'inverse transform of the values of %r', f)
  require(canon_poly(K, F) == f, 'the polynomial was modified')
  vals = [K.val(j) for j in case['vals']]
  rv = [K.real(v) for v in vals]
  g = canon_poly(K, solver.inv_fft(rv))
  require(len(g) <= n, 'interpolant of %d values has degree %d', n, len(g) - 1)
  x = K.one
  for v in vals:
    require(ref.peval(K, g, x) == v, 'interpolant %r is not %r at %r', g, v, x)
    x = K.mul(x, w)
  back = [K.canon(K.real_field()(v)) for v in solver.fft(poly(K, g))]
  require(back == vals, 'transform of the inverse transform')
  f2 = mpoly_of(K, case['f2'])
  x = K.one
  for i, v in enumerate(solver.fft(poly(K, f2))):  # one solver serves polynomials of any degree, in any order
    require(K.canon(K.real_field()(v)) == ref.peval(K, f2, x), 'a second transform is wrong at point %d', i)
    x = K.mul(x, w)
  rec.label('%s, n=%d' % (K.kind, n))
  rec.nt(n >= 8 and len(f) > 2)


@st.composite
def products(draw):
  d = draw(domains())
  n, desc = d['n'], d['field']
  la = draw(st.one_of(st.integers(1, n), st.integers(1, min(n, 3))))
  lb = draw(st.one_of(st.just(n + 1 - la), st.integers(1, n + 1 - la)))
  d['a'] = draw(gens.polys(desc, la, la))
  d['b'] = draw(gens.polys(desc, lb, lb))
  return d


@sub('P20', 'mul_polys', products(), 2700, rule='both factors have >= 2 coefficients')
def fft_product(case, rec):
  from starks.fft import mul_polys
  K = ref.field(case['field'])
  n, w = case['n'], K.val(case['w'])
  a, b = [K.val(j) for j in case['a']], [K.val(j) for j in case['b']]
  ra, rb = [K.real(v) for v in a], [K.real(v) for v in b]
  out = mul_polys(ra, rb, K.real(w))
  want = ref.pmul(K, ref.trim(K, a), ref.trim(K, b))
  require(len(out) == n, '%d coefficients on a domain of %d points', len(out), n)
  got = [K.canon(K.real_field()(v)) for v in out]
  require(ref.trim(K, got) == want, 'product of %r and %r: %r, expected %r', a, b, got, want)
  require([K.canon(v) for v in ra] == a and [K.canon(v) for v in rb] == b, 'a factor was modified')
  require(poly(K, got) == poly(K, ref.trim(K, a)) * poly(K, ref.trim(K, b)), 'disagrees with polynomial multiplication')
  rec.label('%s, n=%d' % (K.kind, n))
  rec.nt(len(a) > 1 and len(b) > 1 and n >= 4)


# ------------------------------------------------------------------ P21


@st.composite
def taylors(draw):
  k = draw(st.sampled_from([0, 1, 2, 3, 3, 4, 4, 5, 6]))
  n = 2**k
  m = draw(st.integers(max(n, 2), max(n, 2) + 4))
  # the space of polynomials of degree < n embeds in the field: m >= n
  return dict(field=['F', 2, list(ref.find_irreducible(2, m, draw(st.integers(0, 2))))], n=n,
              f=draw(gens.exact(st.integers(0, 1), 0, n)))


def _rebuild(K, T, n):
  """Polynomial over F_2 denoted by a Taylor expansion of a polynomial of degree < n."""
  if n <= 2:
    f = list(K.canon(T))
    require(len(f) <= 2, 'a leaf has degree %d', len(f) - 1)
    return f
  require(isinstance(T, tuple) and len(T) == 2, 'an expansion of size %d is not a pair', n)
  v1, v2 = _rebuild(K, T[0], n // 2), _rebuild(K, T[1], n // 2)
  base = [1]
  for _ in range(n // 4):
    base = ref.zmul(base, [0, 1, 1], 2)  # (x^2 + x)^(n/4)
  return ref.zadd(v1, ref.zmul(base, v2, 2), 2)


@sub('P21', 'taylor', taylors(), 1200, rule='n >= 8, degree >= 4')
def taylor(case, rec):
  from starks.fft import Additive_FFT
  K = ref.field(case['field'])
  f, n = K.val(case['f']), case['n']
  T = Additive_FFT(K.real_field()).Taylor_Expansion(K.real(f), n)
  got = _rebuild(K, T, n)
  require(tuple(got) == f, 'expansion of %r denotes %r', f, got)
  rec.label('n=%d' % n)
  rec.nt(n >= 8 and len(f) > 4)


@known('P21', 'adfft')
def adfft():
  """The additive FFT built on the expansion does not evaluate the polynomial."""
  from starks.fft import Additive_FFT
  K = ref.field(['F', 2, [1, 1, 0, 0, 1]])
  F = K.real_field()
  f = (1, 1, 0, 1)  # degree < 4 on the span of 1, x
  basis = [(1,), (0, 1)]
  span = [K.zero, basis[0], basis[1], K.add(*basis)]
  want = sorted(ref.peval(K, [K.int(c) for c in f], x) for x in span)
  got = Additive_FFT(F).adfft(K.real(f), 2, [K.real(b) for b in basis])
  return sorted(K.canon(v) for v in got) != want
