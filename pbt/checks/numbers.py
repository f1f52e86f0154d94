"""P01-P07: prime fields, extension fields, caching, irreducibility, Euclid, Q/p, encodings."""
import itertools
import math

from hypothesis import strategies as st

from pbt import gens, ref
from pbt.core import must_reject, require, sub
from pbt.real import canon_poly, mpoly_of, poly, uni

# ------------------------------------------------------------------ P01

ZOPS = ['add', 'sub', 'mul', 'div', 'neg', 'inv', 'pow', 'addi', 'raddi', 'subi', 'rsubi', 'muli',
        'rmuli', 'rdivi', 'eqi', 'dm', 'iadd', 'copy']


@st.composite
def zprogs(draw, ps=gens.primes):
  p = draw(ps)
  el = gens.ints_for(p)
  regs = draw(st.lists(el, min_size=1, max_size=4))
  ops = []
  for i in range(draw(gens.sizes(1, 14))):
    n = len(regs) + i
    op = draw(st.sampled_from(ZOPS))
    a = draw(st.integers(0, n - 1))
    if op == 'pow':
      b = draw(st.one_of(gens.exponents(p), gens.exponents(p), st.integers(0, 2**300)))
    elif op in ('addi', 'raddi', 'subi', 'rsubi', 'muli', 'rmuli', 'rdivi', 'eqi'):
      b = draw(el)
    else:
      b = draw(st.integers(0, n - 1))
    ops.append([op, a, b])
  return dict(p=p, regs=regs, ops=ops)


@sub('P01', 'program', zprogs(), 8000, rule='>=3 operations, some result not 0 or 1, p > 3')
def zp_program(case, rec):
  from starks.modp import IntegersModP
  p = case['p']
  F = IntegersModP(p)
  model = [x % p for x in case['regs']]
  real = [F(x) for x in case['regs']]
  K = ref.field(['Z', p])
  for op, a, b in case['ops']:
    x, mx = real[a], model[a]
    if op in ('add', 'sub', 'mul', 'div', 'dm', 'iadd', 'copy'):
      y, my = real[b], model[b]
    rec.label(op)
    if op == 'add':
      r, m = x + y, mx + my
    elif op == 'iadd':
      r = x
      r += y
      m = mx + my
    elif op == 'copy':
      r, m = F(x), mx
    elif op == 'sub':
      r, m = x - y, mx - my
    elif op == 'mul':
      r, m = x * y, mx * my
    elif op == 'div':
      if my == 0:
        rec.label('division by zero')
        must_reject('%d/0 mod %d' % (mx, p), lambda: x / y)
        r, m = F(0), 0
      else:
        r, m = x / y, mx * pow(my, -1, p)
    elif op == 'dm':
      if my == 0:
        must_reject('divmod by zero', divmod, x, y)
        r, m = F(0), 0
      else:
        q, r = divmod(x, y)
        require(q * y + r == x, 'divmod: %r*%r+%r != %r', q, y, r, x)
        m = K.canon(r)
    elif op == 'neg':
      r, m = -x, -mx
    elif op == 'inv':
      if mx == 0:
        rec.label('division by zero')
        must_reject('inverse of 0 mod %d' % p, x.inverse)
        r, m = F(0), 0
      else:
        r, m = x.inverse(), pow(mx, -1, p)
        require(r * x == 1 and x * r == F(1), 'inverse of %d mod %d is not one: %r', mx, p, r)
    elif op == 'pow':
      r, m = x**b, pow(mx, b, p)
    elif op == 'addi':
      r, m = x + b, mx + b
    elif op == 'raddi':
      r, m = b + x, mx + b
    elif op == 'subi':
      r, m = x - b, mx - b
    elif op == 'rsubi':
      r, m = b - x, b - mx
    elif op == 'muli':
      r, m = x * b, mx * b
    elif op == 'rmuli':
      r, m = b * x, mx * b
    elif op == 'rdivi':
      if mx == 0:
        must_reject('%d/0 mod %d' % (b, p), lambda: b / x)
        r, m = F(0), 0
      else:
        r, m = b / x, b * pow(mx, -1, p)
    else:  # eqi
      require((x == b) is (mx == b % p), '%r == %d gave %r', x, b, x == b)
      require((x != b) is (mx != b % p), '%r != %d gave %r', x, b, x != b)
      require((b == x) is (mx == b % p), '%d == %r reflected', b, x)
      r, m = F(b), b
    m %= p
    require(K.canon(r) == m, '%s(%d, %r) mod %d: expected %d, got %r', op, mx, b, p, m, r)
    real.append(r)
    model.append(m)
  # no operation changed an operand, and comparison agrees with residues
  for i, (r, m) in enumerate(zip(real, model)):
    require(K.canon(r) == m, 'register %d changed: expected %d, got %r', i, m, r)
    require(str(r) == str(m), 'str of %d is %s', m, str(r))
  for r1, m1 in list(zip(real, model))[-4:]:
    for r2, m2 in zip(real, model):
      require((r1 == r2) is (m1 == m2), '== of %d and %d mod %d', m1, m2, p)
      require((r1 != r2) is (m1 != m2), '!= of %d and %d mod %d', m1, m2, p)
      require(m1 != m2 or hash(r1) == hash(r2), 'equal elements, different hashes')
  rec.label('p>2^64' if p > 2**64 else 'p small')
  rec.nt(len(case['ops']) >= 3 and p > 3 and any(m > 1 for m in model[len(case['regs']):]))


@st.composite
def zfield_ident(draw, ps=gens.primes):
  p = draw(ps)
  return dict(p=p, x=draw(gens.ints_for(p)))


@sub('P01', 'fermat', zfield_ident(), 3000, rule='x not congruent to 0 or 1')
def zp_fermat(case, rec):
  from starks.modp import IntegersModP
  p = case['p']
  F = IntegersModP(p)
  x = F(case['x'])
  require(x**p == x, 'x^p != x for %r', x)
  require(F.field_size == p and F.p == p, 'field size')
  if case['x'] % p:
    require(x**(p - 1) == F(1), 'x^(p-1) != 1 for %r', x)
    require(x**(p - 2) == x.inverse(), 'x^(p-2) is not the inverse of %r', x)
    require(1 / x == x.inverse(), '1/x is not the inverse of %r', x)
  require(type(F(x)) is F and F(x) == x, 'copy of an element')
  rec.nt(case['x'] % p > 1)


# ------------------------------------------------------------------ P02

FOPS = ['add', 'sub', 'mul', 'div', 'neg', 'inv', 'pow', 'addi', 'raddi', 'subi', 'rsubi', 'muli',
        'rmuli', 'rdivi', 'pow', 'inv', 'div', 'divz', 'addz', 'raddz', 'subz', 'rsubz', 'mulz', 'rmulz', 'rdivz', 'eqi', 'eqz', 'addp', 'raddp',
        'mulp', 'rmulp', 'subp', 'rsubp', 'frompoly', 'fromlist']


@st.composite
def fprogs(draw):
  desc = draw(st.one_of(gens.fq_descs(max_m=5), gens.fq_descs(max_m=3), gens.fq_descs(ps=(2,), max_m=20, min_m=6),
                        gens.fq_descs(ps=(3, 5, 7, 13), max_m=8, min_m=4),
                        gens.fq_descs(ps=(17, 101, 257, 65537, 2**31 - 1, 2**61 - 1), max_m=4)))
  p = desc[1]
  regs = draw(st.lists(gens.elements(desc), min_size=1, max_size=4))
  ops = []
  for i in range(draw(gens.sizes(1, 10))):
    n = len(regs) + i
    op = draw(st.sampled_from(FOPS))
    a = draw(st.integers(0, n - 1))
    if op == 'pow':
      b = draw(gens.exponents(p, p**(len(desc[2]) - 1)))
    elif op[-1] in 'iz':
      b = draw(gens.ints_for(p))
    elif op[-1] == 'p' or op.startswith('from'):
      b = draw(st.lists(st.integers(-p, 2 * p), max_size=2 * len(desc[2])))
    else:
      b = draw(st.integers(0, n - 1))
    ops.append([op, a, b])
  return dict(field=desc, regs=regs, ops=ops)


@sub('P02', 'program', fprogs(), 3600, rule='>=2 operations, some result outside the prime subfield')
def fq_program(case, rec):
  desc = case['field']
  K = ref.field(desc)
  p = K.p
  F = K.real_field()
  Kz = ref.field(['Z', p])
  Zp = Kz.real_field()
  require(F.field_size == p**K.m and F.p == p and F.m == K.m, 'field parameters')
  model = [K.val(j) for j in case['regs']]
  real = [F(list(j)) for j in case['regs']]
  for op, a, b in case['ops']:
    x, mx = real[a], model[a]
    rec.label(op)
    base = op.strip('r')
    if op in ('add', 'sub', 'mul', 'div'):
      y, my = real[b], model[b]
    elif op[-1] == 'i':
      y, my = b, K.int(b)
    elif op[-1] == 'z':
      y, my = Zp(b), K.int(b)
    elif op[-1] == 'p':
      y, my = poly(Kz, [c % p for c in b]), K.val(b)
    if op in ('add', 'addi', 'addz', 'addp'):
      r, m = x + y, K.add(mx, my)
    elif op in ('raddi', 'raddz', 'raddp'):
      r, m = y + x, K.add(mx, my)
    elif op in ('sub', 'subi', 'subz', 'subp'):
      r, m = x - y, K.sub(mx, my)
    elif op in ('rsubi', 'rsubz', 'rsubp'):
      r, m = y - x, K.sub(my, mx)
    elif op in ('mul', 'muli', 'mulz', 'mulp'):
      r, m = x * y, K.mul(mx, my)
    elif op in ('rmuli', 'rmulz', 'rmulp'):
      r, m = y * x, K.mul(mx, my)
    elif op in ('div', 'divz'):
      if my == K.zero:
        rec.label('division by zero')
        must_reject('division by zero', lambda: x / y)
        r, m = F(0), K.zero
      else:
        r, m = x / y, K.mul(mx, K.inv(my))
    elif op in ('rdivi', 'rdivz'):
      if mx == K.zero:
        must_reject('division by zero', lambda: y / x)
        r, m = F(0), K.zero
      else:
        r, m = y / x, K.mul(my, K.inv(mx))
    elif op == 'neg':
      r, m = -x, K.neg(mx)
    elif op == 'inv':
      if mx == K.zero:
        try:
          x.inverse()
        except ZeroDivisionError:
          r, m = F(0), K.zero
        else:
          require(False, 'inverse of zero was not rejected')
      else:
        r, m = x.inverse(), K.inv(mx)
        require(x * r == F(1) and r * x == 1, 'x * x.inverse() != 1 for %r', x)
    elif op == 'pow':
      r, m = x**b, K.pow(mx, b)
    elif op in ('eqi', 'eqz'):
      require((x == y) is (mx == my), '%r == %r', x, y)
      require((y == x) is (mx == my), '%r == %r', y, x)
      require((x != y) is (mx != my), '%r != %r', x, y)
      r, m = F(y), my
    elif op == 'frompoly':
      r, m = F(poly(Kz, [c % p for c in b])), K.val(b)
    else:  # fromlist
      r, m = F(list(b)), K.val(b)
    require(K.canon(r) == m, '%s: expected %r, got %r (operands %r, %r)', op, m, r, mx, b)
    real.append(r)
    model.append(m)
  for i, (r, m) in enumerate(zip(real, model)):
    require(K.canon(r) == m, 'register %d changed: expected %r, got %r', i, m, r)
    require(F(r) == r and type(F(r)) is F, 'copy of %r', r)
  for r1, m1 in list(zip(real, model))[-3:]:
    for r2, m2 in zip(real, model):
      require((r1 == r2) is (m1 == m2) and (r1 != r2) is (m1 != m2), '== of %r and %r', r1, r2)
  rec.label('F_%d' % p)
  rec.nt(len(case['ops']) >= 2 and any(len(m) > 1 for m in model[len(case['regs']):]))


@st.composite
def fq_triple(draw):
  desc = draw(st.one_of(gens.fq_descs(max_m=6), gens.fq_descs(ps=(2,), max_m=17, min_m=7)))
  return dict(field=desc, xs=[draw(gens.elements(desc)) for _ in range(3)])


@sub('P02', 'laws', fq_triple(), 1400, rule='all three elements non-zero and distinct')
def fq_laws(case, rec):
  K = ref.field(case['field'])
  F = K.real_field()
  ms = [K.val(j) for j in case['xs']]
  x, y, z = [F(list(j)) for j in case['xs']]
  require(x + y == y + x and x * y == y * x, 'commutativity')
  require((x + y) + z == x + (y + z) and (x * y) * z == x * (y * z), 'associativity')
  require(x * (y + z) == x * y + x * z, 'distributivity')
  require(x - x == F(0) and x + (-x) == 0 and x * F(1) == x and x + F(0) == x, 'identities')
  require(x**K.q == x, 'x^q != x for %r', x)
  require((x + y)**K.p == x**K.p + y**K.p, 'Frobenius is not additive')
  if ms[0]:
    require(x * x.inverse() == F(1) and x / x == F(1), 'inverse of %r', x)
    require((y / x) * x == y, '(y/x)*x != y')
    require(x**(K.q - 2) == x.inverse(), 'x^(q-2) is not the inverse of %r', x)
  rec.nt(all(ms) and len(set(ms)) == 3)


# ------------------------------------------------------------------ P03


@st.composite
def ctor_histories(draw):
  """Sequences of constructor calls with few parameters, many spellings."""
  ps = draw(st.lists(st.one_of(gens.small_primes, gens.small_primes, gens.primes), min_size=1, max_size=3, unique=True))
  fixed = draw(st.sampled_from([None, None, 2, 3]))  # all extension fields of one degree
  ops = []
  for _ in range(draw(gens.sizes(2, 12))):
    p = draw(st.sampled_from(ps))
    kind = draw(st.sampled_from(['Z', 'poly', 'multi', 'fq', 'fq', 'fq', 'fqbad', 'fqbad', 'fqdef',
                                 'rat', 'fq1', 'polyfq', 'polyfq', 'multifq', 'multifq']))
    kw = draw(st.integers(0, 3))
    op = [kind, p, kw]
    if kind == 'multi':
      op.append(draw(st.integers(1, 3)))
    elif kind in ('fq', 'fqbad', 'polyfq', 'multifq'):
      q = p if p < 30 else 3
      m = fixed or draw(st.integers(2, 3 if q > 7 else 4))
      op[1] = q
      if kind != 'fqbad':
        op.append(list(ref.find_irreducible(q, m, draw(st.integers(0, 2)))))
      else:
        # a product of two factors of positive degree
        k = draw(st.integers(1, m - 1))
        f = [draw(st.integers(0, q - 1)) for _ in range(k)] + [1]
        g = [draw(st.integers(0, q - 1)) for _ in range(m - k)] + [1]
        op.append(ref.zmul(f, g, q))
    elif kind == 'fqdef':
      op[1] = p if p < 14 else 2
      op.append(draw(st.integers(2, 4 if op[1] < 6 else 2)))
    ops.append(op)
  return dict(ops=ops)


@sub('P03', 'history', ctor_histories(), 3600,
     rule='the history repeats one set of parameters in two spellings, or rejects a modulus twice')
def field_history(case, rec):
  from starks.finitefield import FiniteField
  from starks.modp import IntegersModP
  from starks.multivariate_polynomial import multivariates_over
  from starks.polynomial import polynomials_over
  from starks.rationals_modp import RationalsModP
  seen = {}  # parameters -> (type, spelling)
  again = False
  for op in case['ops']:
    kind, p, kw = op[:3]
    K = ref.field(['Z', p])
    rec.label(kind)
    Zp = IntegersModP(p=p) if kw & 1 else IntegersModP(p)
    if kind == 'Z':
      T, key = Zp, ('Z', p)
      require(T.p == p and int(T(p + 1)) == 1, 'IntegersModP(%d) is not Z/%d', p, p)
    elif kind == 'rat':
      T = RationalsModP(p=p) if kw & 1 else RationalsModP(p)
      key = ('rat', p)
      require(T.p == p, 'RationalsModP(%d).p = %r', p, T.p)
    elif kind == 'poly':
      T = polynomials_over(ring=Zp) if kw & 1 else polynomials_over(Zp)
      key = ('poly', p)
      require(T.ring is Zp, 'ring of the polynomials')
    elif kind == 'multi':
      n = op[3]
      T = [lambda: multivariates_over(Zp, n), lambda: multivariates_over(ring=Zp, num_vars=n),
           lambda: multivariates_over(Zp, num_vars=n),
           lambda: multivariates_over(num_vars=n, ring=Zp)][kw]()
      key = ('multi', p, n)
      require(T.ring is Zp and T.num_vars == n, 'parameters of the polynomials')
    elif kind == 'fq1':
      T = FiniteField(p, 1) if kw & 1 else FiniteField(p=p, m=1)
      key = ('Z', p)
      require(T is IntegersModP(p), 'FiniteField(p, 1) is not the prime field')
    elif kind == 'fqdef':
      m = op[3]
      T = [lambda: FiniteField(p, m), lambda: FiniteField(p=p, m=m), lambda: FiniteField(p, m, None),
           lambda: FiniteField(p, m=m, polynomialModulus=None)][kw]()
      key = ('fqdef', p, m)
      f = [int(c) for c in T.ideal_generator.coefficients]
      require(len(f) == m + 1 and ref.irreducible(f, p), 'modulus %r for F_%d^%d', f, p, m)
      _field_is_quotient(T, p, f)
    else:
      f = op[3]
      m = len(f) - 1
      P = polynomials_over(Zp)
      calls = [lambda: FiniteField(p, m, P(f)), lambda: FiniteField(p, m, polynomialModulus=P(f)),
               lambda: FiniteField(p=p, m=m, polynomialModulus=P(f)),
               lambda: FiniteField(polynomialModulus=P(f), m=m, p=p)]
      if kind == 'fqbad':
        for call in (calls[kw], calls[kw ^ 1]):
          try:
            T = call()
          except ValueError:
            continue
          require(False, 'reducible modulus %r over Z/%d was accepted', f, p)
        again = True
        continue
      T, key = calls[kw](), ('fq', p, tuple(f))
      if kind == 'polyfq':
        base, T = T, polynomials_over(T) if kw & 1 else polynomials_over(ring=T)
        key = ('polyfq', p, tuple(f))
        require(T.ring is base, 'polynomials over F_%d[x]/%r have the ring %r', p, f, T.ring)
        require(type(T([base([0, 1])]).coefficients[0]) is base, 'coefficients over F_%d[x]/%r', p, f)
      elif kind == 'multifq':
        n = 1 + kw % 2
        base, T = T, multivariates_over(T, n) if kw > 1 else multivariates_over(ring=T, num_vars=n)
        key = ('multifq', p, tuple(f), n)
        require(T.ring is base and T.num_vars == n, 'polynomials over F_%d[x]/%r have the ring %r', p, f, T.ring)
        require(type(T({(1,) * n: base([0, 1])})[(1,) * n]) is base, 'coefficients over F_%d[x]/%r', p, f)
      else:
        base = T
      T, whole = base, T
      require([int(c) for c in T.ideal_generator.coefficients] == f,
              'asked for modulus %r, got %r', f, T.ideal_generator)
      _field_is_quotient(T, p, f)
      T = whole
    if key in seen:
      again = again or seen[key][1] != kw
      require(seen[key][0] is T, 'two types for the same parameters %r', key)
    for k, (other, _) in seen.items():
      if k != key:
        # the default modulus may coincide with an explicit one
        same = (k[0] in ('fq', 'fqdef') and key[0] in ('fq', 'fqdef') and k[0] != key[0])
        require(other is not T or same, 'one type for parameters %r and %r', k, key)
    seen[key] = (T, kw)
  rec.nt(again)


def _field_is_quotient(T, p, f):
  """x^m = -(lower terms), and the sizes are right."""
  m = len(f) - 1
  require(T.p == p and T.m == m and T.field_size == p**m, 'parameters of F_%d^%d', p, m)
  x = T([0, 1])
  got = [int(c) for c in (x**m).poly.coefficients]
  inv = pow(f[-1], -1, p)
  want = ref.ztrim([-c * inv % p for c in f[:-1]])
  require(got == want, 'x^%d = %r in F_%d[x]/%r, expected %r', m, got, p, f, want)


# ------------------------------------------------------------------ P04


@st.composite
def monic_polys(draw):
  p = draw(st.sampled_from([2, 2, 2, 3, 3, 5, 7, 11, 13, 31, 257, 65537, 2**31 - 1, 2**61 - 1]))
  how = draw(st.sampled_from(['random', 'random', 'product', 'square', 'irreducible', 'equal-degree']))
  top = 14 if p == 2 else (8 if p < 14 else 5)
  if how == 'random':
    f = [draw(gens.residues(p)) for _ in range(draw(st.integers(1, top)))] + [1]
  elif how == 'irreducible':
    f = list(ref.find_irreducible(p, draw(st.integers(1, top)), draw(st.integers(0, 9))))
  else:
    a = draw(st.integers(1, top // 2))
    b = a if how != 'product' else draw(st.integers(1, top - a))
    s = draw(st.integers(0, 9))
    f = ref.find_irreducible(p, a, s)
    g = f if how == 'square' else ref.find_irreducible(p, b, draw(st.integers(0, 9)))
    f = ref.zmul(f, g, p)
  return dict(p=p, f=f, how=how)


@sub('P04', 'irreducible', monic_polys(), 1200, rule='degree >= 3')
def irreducibility(case, rec):
  from starks.poly_utils import is_irreducible, is_monic
  p, f = case['p'], case['f']
  K = ref.field(['Z', p])
  want = ref.irreducible(f, p)
  if p**(len(f) - 1) <= 300:
    # trial division by every monic polynomial of at most half the degree
    brute = not any(
        ref.zmod(f, list(g) + [1], p) == []
        for d in range(1, (len(f) - 1) // 2 + 1)
        for g in itertools.product(range(p), repeat=d))
    require(brute == want, 'reference models disagree on %r mod %d', f, p)
  P = poly(K, f)
  got = is_irreducible(P, p)
  require(bool(got) == want, 'is_irreducible(%r, %d) = %r', f, p, got)
  require(canon_poly(K, P) == f, 'the polynomial was modified')
  require(bool(is_monic(P)), 'is_monic(%r)', f)
  rec.label(case['how'])
  rec.label('irreducible' if want else 'reducible')
  rec.nt(len(f) > 3)


@st.composite
def primitive_cases(draw):
  light = [(2, 9), (2, 6), (2, 8), (3, 5), (3, 4), (5, 3), (7, 2), (11, 2), (13, 2), (17, 2), (19, 2), (101, 1), (257, 1)]
  heavy = [(2, 10), (2, 11), (2, 11), (2, 12), (3, 6), (3, 7), (5, 4), (7, 3), (31, 2), (43, 2), (1009, 1)]
  p, top = draw(st.sampled_from(heavy if draw(st.integers(0, 7)) == 0 else light))
  m = draw(st.one_of(st.integers(1, top), st.just(top), st.just(top)))
  how = draw(st.sampled_from(['random', 'irreducible', 'power', 'power']))
  if how == 'irreducible':
    f = list(ref.find_irreducible(p, m, draw(st.integers(0, 30))))
  elif how == 'power':
    # the minimal polynomial of a power of a root: its order is a chosen divisor of p^m - 1
    q = p**m - 1
    K = ref.field(['F', p, list(ref.find_irreducible(p, m, draw(st.integers(0, 30))))])
    a = K.val([draw(gens.residues(p)) for _ in range(m)])
    a = a if a else K.one
    d = draw(st.sampled_from([d for d in range(1, q + 1) if q % d == 0 and (d < 100 or q // d < 100)]))
    f = _minimal(K, K.pow(a, d))
  else:
    f = [draw(gens.residues(p)) for _ in range(m)] + [1]
  return dict(p=p, f=f)


def _minimal(K, b):
  """The minimal polynomial of b over the prime field."""
  orbit = [b]
  while K.pow(orbit[-1], K.p) != b:
    orbit.append(K.pow(orbit[-1], K.p))
  f = [K.one]
  for c in orbit:
    f = ref.pmul(K, f, ref.trim(K, [K.neg(c), K.one]))
  return [c[0] if c else 0 for c in f]


def _order_of_x(f, p):
  m = len(f) - 1
  v, n = ref.zmod([0, 1], f, p), 1
  one = [1]
  while v != one:
    v = ref.zmod([0] + v, f, p)
    n += 1
    if n > p**m or not v:
      return 0
  return n


@sub('P04', 'primitive', primitive_cases(), 300, rule='irreducible of degree >= 2')
def primitivity(case, rec):
  from starks.poly_utils import is_primitive
  p, f = case['p'], case['f']
  K = ref.field(['Z', p])
  m = len(f) - 1
  irr = ref.irreducible(f, p)
  want = irr and _order_of_x(f, p) == p**m - 1
  got = is_primitive(poly(K, f), p, m)
  require(bool(got) == want, 'is_primitive(%r, %d) = %r', f, p, got)
  rec.label('primitive' if want else ('irreducible' if irr else 'reducible'))
  rec.nt(irr and m >= 2)


@st.composite
def generator_cases(draw):
  p, m = draw(st.sampled_from([(2, 2), (2, 3), (2, 4), (2, 5), (2, 8), (2, 9), (3, 1), (3, 2), (3, 3), (3, 4),
                               (5, 2), (5, 3), (7, 2), (11, 2), (13, 1), (2, 1), (5, 1)]))
  return dict(p=p, m=m, seed=draw(st.integers(0, 2**32)), primitive=draw(st.booleans()))


@sub('P04', 'generators', generator_cases(), 90, rule='degree >= 2')
def generators(case, rec):
  import random
  from starks.poly_utils import generate_irreducible_polynomial, generate_primitive_polynomial
  p, m = case['p'], case['m']
  K = ref.field(['Z', p])
  random.seed(case['seed'])
  gen = generate_primitive_polynomial if case['primitive'] else generate_irreducible_polynomial
  f = canon_poly(K, gen(p, m))
  require(len(f) == m + 1 and f[-1] == 1, 'not monic of degree %d: %r', m, f)
  require(ref.irreducible(f, p), 'reducible polynomial generated: %r mod %d', f, p)
  if case['primitive']:
    require(_order_of_x(f, p) == p**m - 1, 'non-primitive polynomial generated: %r mod %d', f, p)
  rec.label('F_%d^%d' % (p, m))
  rec.nt(m >= 2)


# ------------------------------------------------------------------ P05


def _fib(n):
  a, b = 0, 1
  for _ in range(n):
    a, b = b, a + b
  return a


@st.composite
def int_pairs(draw):
  big = st.one_of(st.integers(-50, 50), st.integers(-2**70, 2**70), st.integers(0, 2**300), st.integers(-2**600, 2**600),
                  st.sampled_from([0, 1, -1]), st.integers(0, 90).map(lambda k: 2**k),
                  st.integers(1, 300).map(_fib))
  g = draw(st.one_of(st.just(1), st.integers(-60, 60), st.integers(1, 2**80)))
  a, b = draw(big) * g, draw(big) * g
  if draw(st.integers(0, 9)) == 0:
    b = a * draw(st.integers(-3, 3))
  return dict(a=a, b=b)


@sub('P05', 'ints', int_pairs(), 6000, rule='gcd > 1 and neither divides the other')
def euclid_ints(case, rec):
  from starks.euclidean import extended_euclidean_algorithm, gcd
  a, b = case['a'], case['b']
  g = math.gcd(a, b)
  got = gcd(a, b)
  require(abs(got) == g, 'gcd(%d, %d) = %r', a, b, got)
  x, y, d = extended_euclidean_algorithm(a, b)
  require(abs(d) == g, 'extended gcd(%d, %d) = %r', a, b, d)
  require(a * x + b * y == d, 'Bezout fails: %d*%d + %d*%d != %d', a, x, b, y, d)
  rec.label('zero' if 0 in (a, b) else 'nonzero')
  rec.nt(g > 1 and g not in (abs(a), abs(b)))


@st.composite
def poly_pairs(draw):
  desc = draw(st.one_of(gens.zp_descs(), gens.zp_descs(gens.small_primes), gens.fq_descs(max_m=3),
                        st.just(['Q'])))
  top = 5 if desc[0] == 'Q' else draw(st.sampled_from([5, 5, 12]))
  return dict(field=desc, a=draw(gens.polys(desc, top)), b=draw(gens.polys(desc, top)),
              g=draw(gens.nonzero_polys(desc, top - 1)))


@sub('P05', 'polynomials', poly_pairs(), 4000, rule='common factor of degree >= 1, neither divides the other')
def euclid_polys(case, rec):
  from starks.euclidean import extended_euclidean_algorithm, gcd
  K = ref.field(case['field'])
  g = mpoly_of(K, case['g'])
  a = ref.pmul(K, mpoly_of(K, case['a']), g)
  b = ref.pmul(K, mpoly_of(K, case['b']), g)
  A, B = poly(K, a), poly(K, b)
  want = ref.monic(K, ref.pgcd(K, a, b))
  got = canon_poly(K, gcd(A, B))
  require(ref.monic(K, got) == want, 'gcd(%r, %r) = %r', A, B, got)
  x, y, d = extended_euclidean_algorithm(A, B)
  P = uni(K)
  d = canon_poly(K, P(d))
  require(ref.monic(K, d) == want, 'extended gcd(%r, %r) = %r', A, B, d)
  xy = [v if type(v) is P else P(v) for v in (x, y)]
  x, y = [canon_poly(K, v) for v in xy]
  s = ref.padd(K, ref.pmul(K, x, a), ref.pmul(K, y, b))
  require(s == d, 'Bezout identity fails: %r', s)
  require(canon_poly(K, A) == a and canon_poly(K, B) == b, 'arguments were modified')
  rec.label(K.kind)
  rec.nt(2 <= len(want) and len(want) not in (len(a), len(b)))


# ------------------------------------------------------------------ P06

ROPS = ['add', 'sub', 'mul', 'div', 'neg', 'inv', 'pow', 'addi', 'raddi', 'subi', 'rsubi', 'muli',
        'rmuli', 'rdivi', 'eqi']


@st.composite
def rprogs(draw, ps=gens.primes):
  p = draw(ps)
  den = st.one_of(st.just(1), gens.ints_for(p)).map(lambda n: n if n % p else 1)
  regs = [[draw(gens.ints_for(p)), draw(den)] for _ in range(draw(st.integers(1, 4)))]
  ops = []
  for i in range(draw(st.integers(1, 8))):
    n = len(regs) + i
    op = draw(st.sampled_from(ROPS))
    b = draw(gens.exponents(p, top=300) if op == 'pow' else gens.ints_for(p) if op[-1] == 'i' else st.integers(0, n - 1))
    ops.append([op, draw(st.integers(0, n - 1)), b])
  return dict(p=p, regs=regs, ops=ops)


@sub('P06', 'isomorphism', rprogs(), 7500, rule='>= 2 operations on a value with denominator not 1')
def rationals(case, rec):
  from starks.rationals_modp import RationalsModP
  p = case['p']
  R = RationalsModP(p)
  model = [m * pow(n, -1, p) % p for m, n in case['regs']]
  real = [R(m, n) for m, n in case['regs']]
  for op, a, b in case['ops']:
    x, mx = real[a], model[a]
    rec.label(op)
    if op in ('add', 'sub', 'mul', 'div'):
      y, my = real[b], model[b]
    else:
      y, my = b, b % p
    if op in ('add', 'addi'):
      r, m = x + y, mx + my
    elif op == 'raddi':
      r, m = y + x, mx + my
    elif op in ('sub', 'subi'):
      r, m = x - y, mx - my
    elif op == 'rsubi':
      r, m = y - x, my - mx
    elif op in ('mul', 'muli'):
      r, m = x * y, mx * my
    elif op == 'rmuli':
      r, m = y * x, mx * my
    elif op == 'div':
      if my == 0:
        must_reject('division by zero', lambda: x / y)
        r, m = R(0), 0
      else:
        r, m = x / y, mx * pow(my, -1, p)
    elif op == 'rdivi':
      if mx == 0:
        must_reject('division by zero', lambda: y / x)
        r, m = R(0), 0
      else:
        r, m = y / x, my * pow(mx, -1, p)
    elif op == 'inv':
      if mx == 0:
        must_reject('inverse of zero', x.inverse)
        r, m = R(0), 0
      else:
        r, m = x.inverse(), pow(mx, -1, p)
    elif op == 'neg':
      r, m = -x, -mx
    elif op == 'pow':
      r, m = x**b, pow(mx, b, p)
    else:
      require((x == y) is (mx == my), '%r == %r', x, y)
      require((x != y) is (mx != my), '%r != %r', x, y)
      r, m = R(y), my
    m %= p
    _is_rational(R, p, r, m, '%s(%d, %r)' % (op, mx, b))
    real.append(r)
    model.append(m)
  for r, m in zip(real, model):
    _is_rational(R, p, r, m, 'afterwards')
  for r1, m1 in list(zip(real, model))[-3:]:
    for r2, m2 in zip(real, model):
      require((r1 == r2) is (m1 == m2) and (r1 != r2) is (m1 != m2), '== of %r and %r', r1, r2)
  rec.nt(len(case['ops']) >= 2 and any(n % p != 1 for _, n in case['regs']))


def _is_rational(R, p, r, m, what):
  require(type(r) is R, '%s: not an element of Q/%d', what, p)
  require(r == R(m) and not r != R(m), '%s mod %d: expected %d, got %r', what, p, m, r)
  require(r != R(m + 1) and not r == R(m + 1), '%s mod %d: %r equals %d', what, p, r, m + 1)


# ------------------------------------------------------------------ P07


BLOCK = st.one_of(st.binary(min_size=32, max_size=32), st.integers(0, 300).map(lambda n: n.to_bytes(32, 'big')),
                  st.just(bytes(32)), st.integers(0, 2**256 - 1).map(lambda n: n.to_bytes(32, 'big')))


@st.composite
def encodings(draw):
  kind = draw(st.sampled_from(['Z', 'poly', 'fq', 'rat', 'rawz', 'rawpoly', 'rawfq', 'badlen']))
  p = draw(gens.primes)
  case = dict(kind=kind, p=p)
  if kind in ('Z', 'rawz'):
    case['x'], case['y'] = draw(gens.residues(p)), draw(gens.residues(p))
    case['raw'] = draw(gens.exact(st.integers(0, 255), 0, 100).map(bytes)).hex()
  elif kind == 'rat':
    case['x'] = [draw(gens.residues(p)), draw(gens.elements(['Z', p], nonzero=True))]
  elif kind in ('poly', 'rawpoly', 'badlen'):
    case['x'] = draw(gens.polys(['Z', p], 20))
    case['y'] = draw(gens.polys(['Z', p], 20))
    case['raw'] = draw(gens.exact(BLOCK, 0, 20).map(b''.join)).hex()
    case['cut'] = draw(st.integers(1, 31))
  else:
    case['field'] = draw(st.one_of(gens.fq_descs(ps=(2, 3, 7, 101, 2**61 - 1)), gens.fq_descs(ps=(2, 3), max_m=14, min_m=7)))
    case['x'], case['y'] = draw(gens.elements(case['field'])), draw(gens.elements(case['field']))
    case['raw'] = draw(gens.exact(BLOCK, 0, 20).map(b''.join)).hex()
  return case


@sub('P07', 'roundtrip', encodings(), 6000, rule='the encoded value is not zero or a constant 1')
def bytes_roundtrip(case, rec):
  kind, p = case['kind'], case['p']
  rec.label(kind)
  raw = bytes.fromhex(case.get('raw', ''))
  K = ref.field(['Z', p])
  if kind == 'Z':
    F = K.real_field()
    x = F(case['x'])
    b = x.to_bytes()
    require(isinstance(b, bytes) and len(b) == 32, 'encoding of %r has length %d', x, len(b))
    require(K.canon(F(b)) == case['x'], 'decoding %r gives %r', x, F(b))
    require(int.from_bytes(b, 'big') == case['x'], 'not the big-endian value of %r', x)
    require((b == F(case['y']).to_bytes()) is (case['x'] == case['y']), 'encodings collide')
    require(b == F(case['x'] + p).to_bytes(), 'encoding depends on the representative')
    rec.nt(case['x'] > 1)
  elif kind == 'rawz':
    F = K.real_field()
    require(K.canon(F(raw)) == int.from_bytes(raw, 'big') % p, 'element of %d raw bytes', len(raw))
    rec.nt(len(raw) > 1)
  elif kind == 'rat':
    from starks.rationals_modp import RationalsModP
    R = RationalsModP(p)
    x = R(*case['x'])
    b = x.to_bytes()
    require(len(b) == 64, 'encoding of %r has length %d', x, len(b))
    require(R(b) == x, 'decoding %r gives %r', x, R(b))
    rec.nt(case['x'][0] > 1)
  elif kind == 'poly':
    x, y = [mpoly_of(K, c) for c in (case['x'], case['y'])]
    b = poly(K, x).to_bytes()
    require(len(b) == 32 * len(x), 'encoding of %d coefficients has length %d', len(x), len(b))
    require(canon_poly(K, uni(K)(b)) == x, 'decoding %r gives %r', x, uni(K)(b))
    require((b == poly(K, y).to_bytes()) is (x == y), 'encodings collide')
    rec.nt(len(x) > 1)
  elif kind == 'rawpoly':
    want = ref.trim(K, [int.from_bytes(raw[i:i + 32], 'big') % p for i in range(0, len(raw), 32)])
    require(canon_poly(K, uni(K)(raw)) == want, 'polynomial of %d raw bytes', len(raw))
    rec.nt(len(want) > 1)
  elif kind == 'badlen':
    must_reject('a polynomial of %d bytes' % (len(raw) + case['cut']), uni(K), raw + b'\x01' * case['cut'])
    rec.nt()
  else:
    K = ref.field(case['field'])
    F = K.real_field()
    rec.nt(len(K.val(case['x'])) > 1)
    if kind == 'fq':
      x, y = K.val(case['x']), K.val(case['y'])
      b = K.real(x).to_bytes()
      require(K.canon(F(b)) == x, 'decoding %r gives %r', x, F(b))
      require((b == K.real(y).to_bytes()) is (x == y), 'encodings collide')
    else:
      want = K.val([int.from_bytes(raw[i:i + 32], 'big') % K.p for i in range(0, len(raw), 32)])
      require(K.canon(F(raw)) == want, 'element of %d raw bytes', len(raw))
