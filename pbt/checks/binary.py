"""P43-P44: binary words as elements of F_2^m, and floating point on top of them."""
from hypothesis import strategies as st

from pbt import gens, ref
from pbt.core import known, must_reject, require, sub

# ------------------------------------------------------------------ P44


def bits(n):
  out = []
  while n:
    out.append(n & 1)
    n >>= 1
  return out


def word(c):
  return sum(b << i for i, b in enumerate(c))


@st.composite
def word_pairs(draw):
  m = draw(st.one_of(st.integers(2, 14), st.sampled_from([16, 17, 24, 33])))
  top = 2**m - 1
  w = st.one_of(st.integers(0, top), st.integers(0, 3), st.integers(max(0, top - 3), top),
                st.integers(0, m).map(lambda k: 2**k - 1), st.integers(0, m - 1).map(lambda k: 2**k),
                gens.exact(st.integers(0, 1), 0, m).map(lambda b: sum(x << i for i, x in enumerate(b))),
                gens.exact(st.sampled_from([0, 1, 1, 1]), 0, m).map(lambda b: sum(x << i for i, x in enumerate(b))))
  a = draw(w)
  b = draw(st.one_of(w, st.just(a), st.integers(0, m - 1).map(lambda i: a ^ (1 << i)), st.just(top - a),
                       st.just(max(0, top - a - 1))))
  return dict(field=['F', 2, list(ref.find_irreducible(2, m, draw(st.integers(0, 3))))], a=a, b=b)


@sub('P44', 'words', word_pairs(), 3000, rule='both words >= 2 and different')
def words(case, rec):
  K = ref.field(case['field'])
  a, b = case['a'], case['b']
  A, B = K.real(tuple(bits(a))), K.real(tuple(bits(b)))
  require(int(A.LT(B)) == (1 if a <= b else 0), 'LT(%d, %d) = %r', a, b, A.LT(B))
  require(int(B.LT(A)) == (1 if b <= a else 0), 'LT(%d, %d) = %r', b, a, B.LT(A))
  if a + b < 2**K.m:
    s = word(K.canon(A.Regular_Binary_Addition(B)))
    require(s == a + b, '%d + %d = %d', a, b, s)
    rec.label('sum fits')
  x = (0, 1)
  if a < 2**(14 if K.m <= 14 else 10):  # the exponent takes seconds beyond
    require(K.canon(A.two_pow()) == K.pow(x, a), 'two_pow(%d) = %r', a, A.two_pow())
  require(word(K.canon(A)) == a and word(K.canon(B)) == b, 'an operand was modified')
  rec.nt(a > 1 and b > 1 and a != b)


# ------------------------------------------------------------------ P43

OPS = ['add', 'add', 'sub', 'sub', 'mul', 'div']


@st.composite
def floats(draw):
  m = draw(st.sampled_from([3, 4, 5, 6, 7, 8, 9, 10, 13, 16]))
  desc = ['F', 2, list(ref.find_irreducible(2, m, draw(st.integers(0, 2))))]
  w = st.one_of(st.integers(0, 2**m - 1), st.integers(0, 7).map(lambda x: x % 2**m))

  def number():
    if draw(st.integers(0, 5)) == 0:
      return [0, draw(w), 1, draw(st.integers(0, 1))]
    return [draw(w) or 1, draw(w), 0, draw(st.integers(0, 1))]

  a, b = number(), number()
  how = draw(st.integers(0, 4))
  if how == 0:
    b = list(a)
  elif how == 1:
    b[1] = a[1]
  elif how == 2:
    b[1] = a[1] ^ draw(st.integers(0, min(2**m - 1, 2 * m)))
  return dict(field=desc, a=a, b=b, op=draw(st.sampled_from(OPS)))


def _model_add(K, a, b):
  if a[2]:
    return b
  if b[2]:
    return a
  key = (lambda t: (t[1], t[0])) if a[1] != b[1] else (lambda t: t[0])
  # the second operand wins ties
  big, small = (b, a) if key(a) <= key(b) else (a, b)
  pmax, pmin = max(a[1], b[1]), min(a[1], b[1])
  delta = pmax ^ pmin
  if delta > K.m:
    v, p = big[0], pmax
  else:
    v = word(K.add(K.mul(K.val(bits(big[0])), K.pow((0, 1), delta)), K.val(bits(small[0]))))
    p = pmin
  return (v, p, int(v == 0), big[3])


def _binlist(n):
  return word(bits(max(n, 0)))


def deg(v):
  return v.bit_length() - 1


@sub('P43', 'arithmetic', floats(), 5000, rule='neither operand is zero')
def float_arithmetic(case, rec):
  from starks.floatingpoint import FloatingPoint
  K = ref.field(case['field'])
  F = K.real_field()
  Fp = FloatingPoint(F)
  mk = lambda t: Fp(K.real(tuple(bits(t[0]))), K.real(tuple(bits(t[1]))), t[2], t[3])
  rd = lambda x: (word(K.canon(x.v)), word(K.canon(x.p)), int(x.z), int(x.s))
  a, b = tuple(case['a']), tuple(case['b'])
  A, B = mk(a), mk(b)
  op = case['op']
  rec.label(op)
  V = lambda w: K.val(bits(w))
  allowed = None
  if op == 'add':
    want, got = _model_add(K, a, b), rd(A + B)
  elif op == 'sub':
    want, got = _model_add(K, a, (b[0], b[1], b[2], b[3] ^ 1)), rd(A - B)
  elif op == 'mul':
    z, s = a[2] | b[2], a[3] ^ b[3]
    if z:
      want = (0, 0, 1, s)
    else:
      v = word(K.mul(V(a[0]), V(b[0])))
      e = lambda d1, d2: a[1] ^ b[1] ^ word(K.val(bits(_binlist(d1 + d2 - (K.m - 1)))))
      want = (v, e(deg(a[0]), deg(b[0])), 0, s)
      # known finding mul-exponent: the second significand's degree is ignored
      allowed = (v, e(deg(a[0]), deg(a[0])), 0, s)
    got = rd(A * B)
  else:
    if b[2]:
      must_reject('division by zero', lambda: A / B)
      return
    z, s = a[2] | b[2], a[3] ^ b[3]
    if z:
      want = (0, 0, 1, s)
    else:
      ib = K.inv(V(b[0]))
      v = word(K.mul(V(a[0]), ib))
      d = deg(a[0]) + deg(word(ib)) - (K.m - 1)
      want = (v, a[1] ^ b[1] ^ word(K.val(bits(_binlist(d)))), 0, s)
    got = rd(A / B)
  require(got == want or got == allowed, '%s of %r and %r in F_2^%d: expected %r, got %r', op, a, b, K.m, want, got)
  require(rd(A) == a and rd(B) == b, 'an operand was modified by %s', op)
  rec.nt(not a[2] and not b[2])


@st.composite
def powers(draw):
  m = draw(st.integers(3, 7))
  desc = ['F', 2, list(ref.find_irreducible(2, m, draw(st.integers(0, 2))))]
  w = st.integers(0, 2**m - 1)
  z = draw(st.integers(0, 9)) == 0
  e = draw(st.integers(0, 2**m - 1))
  return dict(field=desc, a=[0 if z else draw(w) or 1, draw(w), int(z), draw(st.integers(0, 1))],
              e=[draw(st.integers(1, 2**m - 1)), draw(st.integers(0, m - 1)), 0, draw(st.integers(0, 1))], n=e)


@sub('P43', 'fixed point and powers', powers(), 1000, rule='a non-zero base and an exponent >= 2')
def float_powers(case, rec):
  from starks.floatingpoint import FloatingPoint
  K = ref.field(case['field'])
  Fp = FloatingPoint(K.real_field())
  mk = lambda t: Fp(K.real(tuple(bits(t[0]))), K.real(tuple(bits(t[1]))), t[2], t[3])
  rd = lambda x: (word(K.canon(x.v)), word(K.canon(x.p)), int(x.z), int(x.s))
  e = tuple(case['e'])
  E = mk(e)
  val, sign = E.Float_to_Fix()
  n = word(K.mul(K.val(bits(e[0])), K.pow((0, 1), e[1])))
  require(word(K.canon(val)) == n and int(sign) == e[3], 'fixed point of %r: %r, %r', e, val, sign)
  Z = Fp(K.real(()), K.real((1,)), 1, 0)
  zv, zs = Z.Float_to_Fix()
  require(K.canon(zv) == () and int(zs) == 0, 'fixed point of zero')
  if n > 24:
    return
  a = tuple(case['a'])
  if a[2] and e[3] == 1:
    return
  A = mk(a)
  got = rd(A**E)
  acc = Fp(K.real((1,)), K.real(()), 0, 0)
  for _ in range(n):
    acc = acc * A
  if e[3] == 1:
    acc = Fp(K.real((1,)), K.real(()), 0, 0) / acc
  require(got == rd(acc), '%r ** %r = %r, repeated multiplication gives %r', a, e, got, rd(acc))
  require(rd(A) == a and rd(E) == e, 'an operand was modified')
  rec.nt(n >= 2 and not a[2])


@known('P43', 'equality')
def equality():
  """Two different numbers compare equal as soon as their zero bits agree."""
  from starks.floatingpoint import FloatingPoint
  K = ref.field(['F', 2, [1, 1, 0, 0, 1]])
  Fp = FloatingPoint(K.real_field())
  return bool(Fp(K.real((1,)), K.real((1,)), 0, 0) == Fp(K.real((0, 1)), K.real((1, 1)), 0, 1))


@known('P43', 'mul-exponent')
def mul_exponent():
  """a * b and b * a have different exponents."""
  from starks.floatingpoint import FloatingPoint
  K = ref.field(['F', 2, [1, 1, 0, 0, 1]])
  Fp = FloatingPoint(K.real_field())
  a = Fp(K.real((1, 0, 0, 1)), K.real((1,)), 0, 0)
  b = Fp(K.real((1, 1)), K.real((1,)), 0, 0)
  return not (a * b).p == (b * a).p
