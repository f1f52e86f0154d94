"""Reference models, independent of /repo: fields on plain ints/tuples/Fractions, polynomials as
coefficient lists, multivariate polynomials as dictionaries."""
import functools
import itertools
import random
from fractions import Fraction

# ------------------------------------------------------------------ integer polynomials mod p


def ztrim(f):
  f = list(f)
  while f and f[-1] == 0:
    f.pop()
  return f


def zmul(f, g, p):
  if not f or not g:
    return []
  out = [0] * (len(f) + len(g) - 1)
  for i, a in enumerate(f):
    if a:
      for j, b in enumerate(g):
        out[i + j] += a * b
  return ztrim(x % p for x in out)


def zdivmod(f, g, p):
  f = [x % p for x in f]
  g = ztrim(x % p for x in g)
  inv = pow(g[-1], -1, p)
  q = [0] * max(0, len(f) - len(g) + 1)
  for i in range(len(f) - len(g), -1, -1):
    c = f[i + len(g) - 1] * inv % p
    q[i] = c
    if c:
      for j, b in enumerate(g):
        f[i + j] = (f[i + j] - c * b) % p
  return ztrim(q), ztrim(f[:len(g) - 1])


def zmod(f, g, p):
  return zdivmod(f, g, p)[1]


def zsub(f, g, p):
  return ztrim((a - b) % p for a, b in itertools.zip_longest(f, g, fillvalue=0))


def zadd(f, g, p):
  return ztrim((a + b) % p for a, b in itertools.zip_longest(f, g, fillvalue=0))


def zgcd(f, g, p):
  f, g = ztrim(f), ztrim(g)
  while g:
    f, g = g, zmod(f, g, p)
  return f


def zpowmod(f, n, m, p):
  r = zmod([1], m, p)
  f = zmod(f, m, p)
  while n:
    if n & 1:
      r = zmod(zmul(r, f, p), m, p)
    f = zmod(zmul(f, f, p), m, p)
    n >>= 1
  return r


def prime_factors(n):
  out, d = [], 2
  while d * d <= n:
    if n % d == 0:
      out.append(d)
      while n % d == 0:
        n //= d
    d += 1
  if n > 1:
    out.append(n)
  return out


def irreducible(f, p):
  """Rabin's test."""
  f = ztrim(x % p for x in f)
  n = len(f) - 1
  if n < 1:
    return False
  if n == 1:
    return True
  for q in prime_factors(n):
    h = [0, 1]
    for _ in range(n // q):
      h = zpowmod(h, p, f, p)
    if len(zgcd(f, zsub(h, [0, 1], p), p)) != 1:
      return False
  h = [0, 1]
  for _ in range(n):
    h = zpowmod(h, p, f, p)
  return zsub(h, zmod([0, 1], f, p), p) == []


@functools.lru_cache(maxsize=None)
def find_irreducible(p, m, seed):
  """A monic irreducible of degree m over Z/p, a pure function of its arguments."""
  rnd = random.Random('%d/%d/%d' % (p, m, seed))
  while True:
    f = [rnd.randrange(p) for _ in range(m)] + [1]
    if irreducible(f, p):
      return tuple(f)


def is_prime(n):
  """Deterministic below 3.3e24, 40 fixed bases above."""
  if n < 2:
    return False
  bases = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83,
           89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173]
  for q in bases:
    if n % q == 0:
      return n == q
  d, s = n - 1, 0
  while d % 2 == 0:
    d //= 2
    s += 1
  for a in bases:
    x = pow(a, d, n)
    if x in (1, n - 1):
      continue
    for _ in range(s - 1):
      x = x * x % n
      if x == n - 1:
        break
    else:
      return False
  return True


def next_in_progression(k, step):
  """The first prime k * step + 1, (k + 2) * step + 1, ..."""
  while not is_prime(k * step + 1):
    k += 2
  return k * step + 1


def next_prime(n):
  n = max(n, 2)
  while not is_prime(n):
    n += 1
  return n


# ------------------------------------------------------------------ field models


class ZK(object):
  """Z/p on ints."""
  kind = 'Z'

  def __init__(self, p):
    self.p, self.q, self.m = p, p, 1
    self.zero, self.one = 0, 1 % p

  def val(self, j):
    return j % self.p

  def add(self, a, b):
    return (a + b) % self.p

  def sub(self, a, b):
    return (a - b) % self.p

  def mul(self, a, b):
    return a * b % self.p

  def neg(self, a):
    return -a % self.p

  def inv(self, a):
    return pow(a, -1, self.p)

  def pow(self, a, n):
    return pow(a, n, self.p)

  def int(self, k):
    return k % self.p

  def real_field(self):
    from starks.modp import IntegersModP
    return IntegersModP(self.p)

  def real(self, a):
    return self.real_field()(a)

  def canon(self, x):
    from pbt.core import require
    require(type(x) is self.real_field(), 'expected an element of Z/%d, got %r', self.p, type(x).__name__)
    n = int(x)
    require(0 <= n < self.p, 'residue %d out of range for %d', n, self.p)
    return n

  def elements(self):
    return range(self.p)


class FK(object):
  """Z/p[x]/(f) on trimmed coefficient tuples."""
  kind = 'F'

  def __init__(self, p, f):
    self.p, self.f, self.m = p, tuple(f), len(f) - 1
    self.q = p**self.m
    self.zero, self.one = (), (1,)

  def val(self, j):
    return tuple(zmod(ztrim(x % self.p for x in j), self.f, self.p))

  def add(self, a, b):
    return tuple(zadd(a, b, self.p))

  def sub(self, a, b):
    return tuple(zsub(a, b, self.p))

  def neg(self, a):
    return tuple(-x % self.p for x in a)

  def mul(self, a, b):
    return tuple(zmod(zmul(a, b, self.p), self.f, self.p))

  def pow(self, a, n):
    r = self.one
    while n:
      if n & 1:
        r = self.mul(r, a)
      a = self.mul(a, a)
      n >>= 1
    return r

  def inv(self, a):
    if not a:
      raise ZeroDivisionError
    return self.pow(a, self.q - 2)

  def int(self, k):
    return tuple(ztrim([k % self.p]))

  def real_field(self):
    from starks.finitefield import FiniteField
    from starks.modp import IntegersModP
    from starks.polynomial import polynomials_over
    P = polynomials_over(IntegersModP(self.p))
    return FiniteField(self.p, self.m, polynomialModulus=P(list(self.f)))

  def real(self, a):
    return self.real_field()(list(a))

  def canon(self, x):
    from pbt.core import require
    require(type(x) is self.real_field(), 'expected an element of F_%d^%d, got %r', self.p, self.m,
            type(x).__name__)
    c = [int(v) for v in x.poly.coefficients]
    require(len(c) <= self.m and (not c or c[-1] != 0) and all(0 <= v < self.p for v in c),
            'not a reduced element: %r', c)
    return tuple(c)

  def elements(self):
    for c in itertools.product(range(self.p), repeat=self.m):
      yield tuple(ztrim(c))


class QK(object):
  """The rationals."""
  kind = 'Q'
  p = 0
  zero, one = Fraction(0), Fraction(1)

  def val(self, j):
    return Fraction(j[0], j[1])

  def add(self, a, b):
    return a + b

  def sub(self, a, b):
    return a - b

  def neg(self, a):
    return -a

  def mul(self, a, b):
    return a * b

  def inv(self, a):
    return 1 / a

  def pow(self, a, n):
    return a**n

  def int(self, k):
    return Fraction(k)

  def real_field(self):
    return Fraction

  def real(self, a):
    return Fraction(a)

  def canon(self, x):
    return Fraction(x)


@functools.lru_cache(maxsize=None)
def _field(key):
  if key[0] == 'Z':
    return ZK(key[1])
  if key[0] == 'F':
    return FK(key[1], key[2])
  return QK()


def field(desc):
  """Model of a JSON field descriptor ["Z",p] | ["F",p,[coeffs]] | ["Q"]."""
  return _field(tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in desc))


# ------------------------------------------------------------------ polynomials over a model


def trim(K, f):
  f = list(f)
  while f and f[-1] == K.zero:
    f.pop()
  return f


def padd(K, f, g):
  return trim(K, [K.add(a, b) for a, b in itertools.zip_longest(f, g, fillvalue=K.zero)])


def psub(K, f, g):
  return trim(K, [K.sub(a, b) for a, b in itertools.zip_longest(f, g, fillvalue=K.zero)])


def pneg(K, f):
  return [K.neg(a) for a in f]


def pmul(K, f, g):
  if not f or not g:
    return []
  out = [K.zero] * (len(f) + len(g) - 1)
  for i, a in enumerate(f):
    for j, b in enumerate(g):
      out[i + j] = K.add(out[i + j], K.mul(a, b))
  return trim(K, out)


def ppow(K, f, n):
  r = [K.one]
  for _ in range(n):
    r = pmul(K, r, f)
  return r


def pdivmod(K, f, g):
  f = list(f)
  inv = K.inv(g[-1])
  q = [K.zero] * max(0, len(f) - len(g) + 1)
  for i in range(len(f) - len(g), -1, -1):
    c = K.mul(f[i + len(g) - 1], inv)
    q[i] = c
    for j, b in enumerate(g):
      f[i + j] = K.sub(f[i + j], K.mul(c, b))
  return trim(K, q), trim(K, f[:len(g) - 1])


def pgcd(K, f, g):
  while g:
    f, g = g, pdivmod(K, f, g)[1]
  return f


def monic(K, f):
  if not f:
    return f
  inv = K.inv(f[-1])
  return [K.mul(a, inv) for a in f]


def peval(K, f, x):
  y = K.zero
  for a in reversed(f):
    y = K.add(K.mul(y, x), a)
  return y


def pcompose(K, f, g):
  y = []
  for a in reversed(f):
    y = padd(K, pmul(K, y, g), trim(K, [a]))
  return y


def interp(K, xs, ys):
  out = []
  for i, (x, y) in enumerate(zip(xs, ys)):
    num, den = [K.one], K.one
    for j, z in enumerate(xs):
      if i != j:
        num = pmul(K, num, [K.neg(z), K.one])
        den = K.mul(den, K.sub(x, z))
    c = K.mul(y, K.inv(den))
    out = padd(K, out, trim(K, [K.mul(c, a) for a in num]))
  return out


# ------------------------------------------------------------------ multivariate over a model


def mtrim(K, f):
  return {e: c for e, c in f.items() if c != K.zero}


def madd(K, f, g):
  out = dict(f)
  for e, c in g.items():
    out[e] = K.add(out.get(e, K.zero), c)
  return mtrim(K, out)


def mneg(K, f):
  return {e: K.neg(c) for e, c in f.items()}


def mmul(K, f, g):
  out = {}
  for e, c in f.items():
    for d, b in g.items():
      k = tuple(x + y for x, y in zip(e, d))
      out[k] = K.add(out.get(k, K.zero), K.mul(c, b))
  return mtrim(K, out)


def mpow(K, f, n, width):
  r = {(0,) * width: K.one}
  for _ in range(n):
    r = mmul(K, r, f)
  return r


def meval(K, f, xs):
  y = K.zero
  for e, c in f.items():
    for x, n in zip(xs, e):
      c = K.mul(c, K.pow(x, n))
    y = K.add(y, c)
  return y


def mdivlex(K, f, g):
  """Quotient and remainder of the division algorithm, X_1 > X_2 > ... lexicographic."""
  lead = max(g)
  inv = K.inv(g[lead])
  q, r, f = {}, {}, dict(f)
  while f:
    e = max(f)
    d = tuple(a - b for a, b in zip(e, lead))
    if min(d) < 0:
      r[e] = f.pop(e)
    else:
      c = K.mul(f[e], inv)
      q[d] = c
      f = madd(K, f, mneg(K, mmul(K, {d: c}, g)))
  return q, r
