"""What the numeric types must not answer: negative powers, operands of another structure, things that are no numbers."""

import operator

from hypothesis import strategies as st

from pbt import gens, ref
from pbt.core import require, sub

# ------------------------------------------------------------------ values of every structure


@st.composite
def structures(draw, kinds='ZFRPM'):
  kind = draw(st.sampled_from(kinds))
  if kind == 'R':
    return ['R', draw(gens.primes)]
  if kind in 'PM':
    base = draw(structures('ZF'))
    return [kind, base] + ([draw(st.integers(1, 4))] if kind == 'M' else [])
  if kind == 'Z':
    return ['Z', draw(gens.primes)]
  return draw(gens.fq_descs(max_m=4))


def spec(s):
  """JSON of a value of the structure."""
  if s[0] == 'R':
    return st.tuples(gens.ints_for(s[1]), gens.ints_for(s[1]).map(lambda n: n if n % s[1] else 1)).map(list)
  if s[0] == 'P':
    return gens.polys(s[1], 5, 1)
  if s[0] == 'M':
    return gens.multis(s[1], s[2], 4, 3)
  return gens.elements(s)


def value(s, js):
  if s[0] == 'R':
    from starks.rationals_modp import RationalsModP
    return RationalsModP(s[1])(*js)
  if s[0] == 'P':
    from starks.polynomial import polynomials_over
    K = ref.field(s[1])
    return polynomials_over(K.real_field())([K.real(K.val(j)) for j in js])
  if s[0] == 'M':
    from starks.multivariate_polynomial import multivariates_over
    K = ref.field(s[1])
    return multivariates_over(K.real_field(), s[2])({tuple(e): K.real(K.val(c)) for e, c in js})
  K = ref.field(s)
  return K.real(K.val(js))


def char(s):
  return char(s[1]) if s[0] in 'PM' else s[1]


# ------------------------------------------------------------------ negative powers


def negative_powers(kinds):
  return structures(kinds).flatmap(lambda s: st.tuples(st.just(s), spec(s), st.one_of(
      st.integers(-9, -1), st.sampled_from([-16, -17, -(2**64), -(2**64) - 1, -char(s), 1 - char(s)]), st.integers(-2**300, -1))).map(list))


def negative_power(case, rec):
  s, js, n = case
  x = value(s, js)
  rec.nt()
  rec.label(s[0])
  try:
    r = x**n
  except Exception:
    rec.label('refused')
    return
  require(r * x**-n == 1, '(%r)**%d is %r', x, n, r)


for prop, kinds in (('P01', 'Z'), ('P02', 'F'), ('P06', 'R'), ('P08', 'P'), ('P11', 'M')):
  sub(prop, 'negative powers', negative_powers(kinds), 240, rule='every case')(negative_power)


@sub('P09', 'negative modular powers', structures('ZF').flatmap(lambda s: st.tuples(
    st.just(s), gens.polys(s, 6), gens.nonzero_polys(s, 5), st.one_of(st.integers(-9, -1), st.integers(-2**300, -1))).map(list)),
     240, rule='modulus of degree at least one')
def negative_powmod(case, rec):
  s, a, b, n = case
  A, B = value(['P', s], a), value(['P', s], b)
  rec.nt(B.degree() > 0)
  try:
    r = A.powmod(n, B)
  except Exception:
    return
  require((r * A.powmod(-n, B) - 1) % B == 0, 'powmod of %r to %d modulo %r is %r', A, n, B, r)


# ------------------------------------------------------------------ P48


def apart(a, b):
  """Whether values of the two structures have nothing to do with each other.

  Not judged: what the package reads through integers (residues, and their polynomials, of different primes), and a structure with
  others it extends.
  """
  if a == b:
    return False
  ka, kb = a[0], b[0]
  if ka == 'R' or kb == 'R':
    return 'Z' not in ka + kb
  if ka == 'M' and kb == 'M':
    return a[2] != b[2] or a[1][0] == b[1][0]
  if 'M' in ka + kb and 'P' in ka + kb:
    return True
  if ka == kb == 'F':
    return True
  if ka == kb == 'P':
    return a[1] != b[1] and 'F' in (a[1][0], b[1][0]) and (a[1][0] == b[1][0] or char(a) != char(b))
  if ka == kb == 'Z':
    return False
  if ka in 'PM' or kb in 'PM':
    big, small = (a, b) if ka in 'PM' else (b, a)
    if big[1] == small or small[0] == 'F' and big[1][0] == 'Z':
      # polynomials over a prime field denote elements of its extensions
      return big[0] == 'M'if big[1] != small else False
    return char(big) != char(small) or big[1][0] == small[0]
  return char(a) != char(b)


@st.composite
def mixtures(draw):
  a = draw(structures())
  b = draw(structures())
  how = draw(st.integers(0, 3))
  if how == 0 and a[0] == 'M':
    b = ['M', a[1], a[2] % 4 + 1]
  elif how == 1 and a[0] == 'F':
    # the same field by another modulus, where there is one
    b = ['F', a[1], list(ref.find_irreducible(a[1], len(a[2]) - 1, draw(st.integers(0, 5))))]
  elif how == 2 and b[0] in 'PM':
    b[0:1] = [a[0]] if a[0] in 'PM' else b[0:1]
    if a[0] == 'P' and len(b) == 3:
      b.pop()
    if a[0] == 'M' and len(b) == 2:
      b.append(a[2])
  if draw(st.booleans()):
    a, b = b, a
  return dict(a=a, b=b, x=draw(spec(a)), y=draw(spec(b)))


OPS = ['add', 'sub', 'mul', 'truediv', 'mod', 'divmod', 'floordiv', 'iadd', 'imul']


def combine(x, y, what, rec):
  for op in OPS:
    f = divmod if op == 'divmod' else getattr(operator, op)
    for u, v in ((x, y), (y, x)):
      if op == 'mod' and isinstance(u, str):
        continue  # formatting
      try:
        got = f(u, v)
      except Exception:
        continue
      require(False, '%s: %s of %r and %r is %r', what, op, u, v, got)
  for u, v in ((x, y), (y, x)):
    for op, bad in ((operator.eq, True), (operator.ne, False)):
      try:
        got = op(u, v)
      except Exception:
        continue
      require(got is not bad, '%s: %r %s %r is %r', what, u, op.__name__, v, got)


@sub('P48', 'different structures', mixtures(), 4000, rule='the structures have nothing to do with each other')
def different_structures(case, rec):
  a, b = case['a'], case['b']
  if not apart(a, b):
    return
  x, y = value(a, case['x']), value(b, case['y'])
  if a[0] == 'P' and x.is_zero() or b[0] == 'P' and y.is_zero():
    return  # an empty list of coefficients belongs to every ring
  rec.nt()
  rec.label(a[0] + b[0])
  combine(x, y, '%r and %r' % (a, b), rec)
  require(value(a, case['x']) == x and value(b, case['y']) == y, 'a refused operation changed an operand')


STRANGERS = [None, Ellipsis, 'abc', 1j, float('nan'), float('inf'), operator.add, object]


@sub('P48', 'no numbers', structures().flatmap(lambda s: st.tuples(st.just(s), spec(s), st.integers(0, len(STRANGERS) - 1)).map(list)), 1500,
     rule='every case')
def no_numbers(case, rec):
  s, js, k = case
  x, y = value(s, js), STRANGERS[k]
  rec.nt()
  rec.label('%s %s' % (s[0], k))
  combine(x, y, '%r and no number' % s, rec)
  require(value(s, js) == x, 'a refused operation changed an operand')
  for n in (None, 'abc', 0.5, 1j):
    try:
      got = x**n
    except Exception:
      continue
    require(False, '%r to the power %r is %r', x, n, got)
