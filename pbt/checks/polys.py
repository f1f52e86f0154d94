"""P08-P10: univariate polynomials over Z/p, F_q and Q."""
from hypothesis import strategies as st

from pbt import gens, ref
from pbt.core import must_reject, require, sub
from pbt.real import canon_poly, canon_poly_or_elem, mpoly_of, poly, uni

# ------------------------------------------------------------------ P08

OPS = ['add', 'sub', 'mul', 'neg', 'pow', 'addi', 'raddi', 'subi', 'rsubi', 'muli', 'rmuli', 'eqi',
       'adds', 'radds', 'subs', 'rsubs', 'muls', 'rmuls', 'eqs', 'iadd', 'isub', 'copy', 'sum', 'cancel']


@st.composite
def programs(draw):
  desc = draw(gens.mixed_fields())
  top = 7 if desc[0] == 'Q' else draw(st.sampled_from([7, 7, 7, 24, 40]))
  regs = draw(st.lists(gens.polys(desc, top), min_size=1, max_size=4))
  ops = []
  for i in range(draw(gens.sizes(1, 9))):
    n = len(regs) + i
    op = draw(st.sampled_from(OPS))
    if desc[0] == 'F' and op[-1] == 's':
      op = 'muli'  # field elements outrank polynomials over F_q: mixing is not offered
    a = draw(st.integers(0, n - 1))
    if op == 'pow':
      b = draw(st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(0, 17)))
    elif op[-1] == 'i':
      b = draw(gens.ints_for(desc[1]) if desc[0] != 'Q' else st.integers(-99, 99))
    elif op[-1] == 's':
      b = draw(gens.elements(desc))
    else:
      b = draw(st.integers(0, n - 1))
    ops.append([op, a, b])
  return dict(field=desc, regs=regs, ops=ops)


@sub('P08', 'program', programs(), 3500, rule='>= 2 operations, some result of degree >= 2')
def ring_program(case, rec):
  K = ref.field(case['field'])
  P = uni(K)
  model = [mpoly_of(K, c) for c in case['regs']]
  real = [P([K.real(K.val(j)) for j in c]) for c in case['regs']]  # not trimmed by us
  for op, a, b in case['ops']:
    x, mx = real[a], model[a]
    if op in ('add', 'sub', 'mul', 'iadd', 'isub', 'copy', 'sum', 'cancel'):
      y, my = real[b], model[b]
    elif op[-1] == 'i':
      y, my = b, ref.trim(K, [K.int(b)])
    elif op == 'pow':
      if max(len(mx), 1) * b > 100:
        op = 'copy'
    elif op != 'neg':
      y, my = K.real(K.val(b)), ref.trim(K, [K.val(b)])
    if op == 'mul' and len(mx) * len(my) > 1800:
      op = 'copy'
    rec.label(op)
    if op in ('add', 'addi', 'adds'):
      r, m = x + y, ref.padd(K, mx, my)
    elif op == 'iadd':
      r = x
      r += y
      m = ref.padd(K, mx, my)
    elif op == 'isub':
      r = x
      r -= y
      m = ref.psub(K, mx, my)
    elif op == 'sum':
      r, m = sum([x, y, x]), ref.padd(K, ref.padd(K, mx, my), mx)
    elif op == 'cancel':
      # differences of leading terms must be trimmed
      r, m = (x + y) - x, my
    elif op == 'copy':
      r, m = P(x), mx
    elif op in ('raddi', 'radds'):
      r, m = y + x, ref.padd(K, mx, my)
    elif op in ('sub', 'subi', 'subs'):
      r, m = x - y, ref.psub(K, mx, my)
    elif op in ('rsubi', 'rsubs'):
      r, m = y - x, ref.psub(K, my, mx)
    elif op in ('mul', 'muli', 'muls'):
      r, m = x * y, ref.pmul(K, mx, my)
    elif op in ('rmuli', 'rmuls'):
      r, m = y * x, ref.pmul(K, mx, my)
    elif op == 'neg':
      r, m = -x, ref.pneg(K, mx)
    elif op == 'pow':
      r, m = x**b, ref.ppow(K, mx, b)
    else:  # eqi, eqs
      require((x == y) is (mx == my), '%r == %r', x, y)
      require((x != y) is (mx != my), '%r != %r', x, y)
      require((y == x) is (mx == my), '%r == %r', y, x)
      r, m = P(y), my
    got = canon_poly(K, r)
    require(got == m, '%s of %r and %r: expected %r, got %r', op, mx, b, m, r)
    real.append(r)
    model.append(m)
  for r, m in zip(real, model):
    require(canon_poly(K, r) == m, 'a register changed: expected %r, got %r', m, r)
    _shape(K, P, r, m)
  for r1, m1 in list(zip(real, model))[-3:]:
    for r2, m2 in zip(real, model):
      require((r1 == r2) is (m1 == m2), '== of %r and %r', r1, r2)
      require((r1 != r2) is (m1 != m2), '!= of %r and %r', r1, r2)
      if m1 == m2 and K.kind != 'F':
        require(hash(r1) == hash(r2), 'equal polynomials, different hashes')
  rec.label(K.kind)
  rec.nt(len(case['ops']) >= 2 and any(len(m) > 2 for m in model[len(case['regs']):]))


def _shape(K, P, r, m):
  require(r.degree() == len(m) - 1, 'degree of %r is %r', m, r.degree())
  require(len(r) == len(m) and abs(r) == len(m), 'length of %r', m)
  require(r.is_zero() is (not m), 'is_zero of %r', m)
  require([K.canon(c) for c in r] == m, 'iteration of %r', m)
  if m:
    require(K.canon(r.leading_coefficient()) == m[-1], 'leading coefficient of %r', m)
  require(P.factory([K.real(c) for c in m] + [K.real(K.zero)] * 2) == r, 'factory with trailing zeros')


@st.composite
def triples(draw):
  desc = draw(gens.mixed_fields())
  return dict(field=desc, f=[draw(gens.polys(desc, 5 if desc[0] == 'Q' else 12)) for _ in range(3)])


@sub('P08', 'laws', triples(), 900, rule='all three non-constant')
def ring_laws(case, rec):
  K = ref.field(case['field'])
  ms = [mpoly_of(K, c) for c in case['f']]
  x, y, z = [poly(K, m) for m in ms]
  P = uni(K)
  require(x + y == y + x and x * y == y * x, 'commutativity')
  require((x + y) + z == x + (y + z) and (x * y) * z == x * (y * z), 'associativity')
  require(x * (y + z) == x * y + x * z, 'distributivity')
  require((x - x).is_zero() and x + P([]) == x and x * P([1]) == x, 'identities')
  require((x * y).is_zero() == (x.is_zero() or y.is_zero()), 'zero divisors')
  if ms[0] and ms[1]:
    require((x * y).degree() == x.degree() + y.degree(), 'degree of a product')
  rec.nt(all(len(m) > 1 for m in ms))


# ------------------------------------------------------------------ P09


@st.composite
def divisions(draw):
  desc = draw(gens.mixed_fields())
  top = 5 if desc[0] == 'Q' else draw(st.sampled_from([5, 5, 5, 16]))
  b = draw(gens.nonzero_polys(desc, top))
  how = draw(st.sampled_from(['random', 'random', 'multiple', 'scalar', 'zero']))
  return dict(field=desc, a=draw(gens.polys(desc, 2 * top)), b=b, how=how,
              k=draw(gens.ints_for(desc[1]) if desc[0] != 'Q' else st.integers(-99, 99)),
              n=draw(st.one_of(st.integers(0, 12), st.integers(0, 600))))


@sub('P09', 'division', divisions(), 3000, rule='quotient of degree >= 1 and divisor of degree >= 1')
def division(case, rec):
  K = ref.field(case['field'])
  P = uni(K)
  a, b = mpoly_of(K, case['a']), mpoly_of(K, case['b'])
  if case['how'] == 'multiple':
    a = ref.pmul(K, a, b)
  A, B = poly(K, a), poly(K, b)
  rec.label(case['how'])
  if case['how'] == 'zero':
    Z = P([])
    for what, fn in (('/', lambda: A / Z), ('%', lambda: A % Z), ('divmod', lambda: divmod(A, Z)),
                     ('/ 0', lambda: A / 0), ('% 0', lambda: A % 0)):
      must_reject('%s by the zero polynomial' % what, fn)
    return
  if case['how'] == 'scalar':
    c = K.int(case['k'])
    if c == K.zero:
      must_reject('division by the scalar zero', lambda: A / case['k'])
      return
    want = [K.mul(x, K.inv(c)) for x in a]
    require(canon_poly(K, A / case['k']) == want, '%r / %d = %r', A, case['k'], A / case['k'])
    require((A % case['k']).is_zero(), '%r %% %d', A, case['k'])
    rec.nt(len(a) > 1)
    return
  q, r = ref.pdivmod(K, a, b)
  Q, R = divmod(A, B)
  require(canon_poly(K, Q) == q, 'quotient of %r by %r: %r', a, b, Q)
  require(canon_poly(K, R) == r, 'remainder of %r by %r: %r', a, b, R)
  require(Q * B + R == A and R.degree() < B.degree(), 'division identity for %r by %r', a, b)
  require(canon_poly(K, A / B) == q and canon_poly(K, A % B) == r, '/ and %% disagree with divmod')
  if case['how'] == 'multiple':
    require(R.is_zero() and q == mpoly_of(K, case['a']), 'exact division of %r by %r', a, b)
  require(canon_poly(K, A) == a and canon_poly(K, B) == b, 'an operand was modified')
  rec.label(K.kind)
  rec.nt(len(q) > 1 and len(b) > 1)


@st.composite
def powmods(draw):
  desc = draw(st.one_of(gens.zp_descs(), gens.fq_descs(max_m=3)))
  b = draw(gens.nonzero_polys(desc, draw(st.sampled_from([4, 4, 9]))))
  return dict(field=desc, a=draw(gens.polys(desc, 9)), b=b,
              n=draw(gens.exponents(desc[1], desc[1]**(len(desc[2]) - 1) if desc[0] == 'F' else None)))


@sub('P09', 'powmod', powmods(), 900, rule='n >= 3, modulus of degree >= 1')
def powmod(case, rec):
  K = ref.field(case['field'])
  a, b, n = mpoly_of(K, case['a']), mpoly_of(K, case['b']), case['n']
  got = canon_poly(K, poly(K, a).powmod(n, poly(K, b)))
  want, base, e = [K.one], a, n
  while e:
    if e & 1:
      want = ref.pdivmod(K, ref.pmul(K, want, base), b)[1]
    base = ref.pdivmod(K, ref.pmul(K, base, base), b)[1]
    e >>= 1
  require(got == ref.pdivmod(K, want, b)[1], 'powmod(%r, %d) mod %r = %r, expected %r', a, n, b, got, want)
  if n <= 6:
    require((poly(K, a)**n - poly(K, got)) % poly(K, b) == poly(K, []), 'powmod disagrees with **')
  rec.nt(n >= 3 and len(b) > 1)


# ------------------------------------------------------------------ P10


@st.composite
def evaluations(draw):
  desc = draw(gens.mixed_fields())
  top = draw(st.sampled_from([9, 9, 40]))
  return dict(field=desc, f=draw(gens.polys(desc, top)), g=draw(gens.polys(desc, top)),
              x=draw(gens.elements(desc)),
              k=draw(gens.ints_for(desc[1]) if desc[0] != 'Q' else st.integers(-9, 9)))


@sub('P10', 'evaluation', evaluations(), 2500, rule='degree >= 2 at a point other than 0 and 1')
def evaluation(case, rec):
  K = ref.field(case['field'])
  f, g, x = mpoly_of(K, case['f']), mpoly_of(K, case['g']), K.val(case['x'])
  F, G, X = poly(K, f), poly(K, g), K.real(x)
  got = K.canon(F(X))
  require(got == ref.peval(K, f, x), '%r at %r = %r', F, X, got)
  require(K.canon((F + G)(X)) == K.add(got, K.canon(G(X))), 'evaluation of a sum')
  require(K.canon((F * G)(X)) == K.mul(got, K.canon(G(X))), 'evaluation of a product')
  require(K.canon((F - G)(X)) == K.sub(got, K.canon(G(X))), 'evaluation of a difference')
  k = case['k']
  require(K.canon(F(k)) == ref.peval(K, f, K.int(k)), '%r at the integer %d = %r', F, k, F(k))
  require(canon_poly(K, F) == f, 'the polynomial was modified')
  rec.label(K.kind)
  rec.nt(len(f) > 2 and x not in (K.zero, K.one))


@st.composite
def compositions(draw):
  desc = draw(st.one_of(gens.zp_descs(), gens.zp_descs(), st.just(['Q'])))
  return dict(field=desc, f=draw(gens.polys(desc, 9)), g=draw(gens.polys(desc, 6)), x=draw(gens.elements(desc)))


@sub('P10', 'composition', compositions(), 1200, rule='both of degree >= 2')
def composition(case, rec):
  K = ref.field(case['field'])
  f, g, x = mpoly_of(K, case['f']), mpoly_of(K, case['g']), K.val(case['x'])
  F, G, X = poly(K, f), poly(K, g), K.real(x)
  H = F(G)
  got = canon_poly_or_elem(K, H)
  require(got == ref.pcompose(K, f, g), '%r of %r = %r', F, G, H)
  require(ref.peval(K, got, x) == K.canon(F(G(X))), 'f(g)(x) != f(g(x))')
  rec.nt(len(f) > 2 and len(g) > 2)


@st.composite
def subfield_evals(draw):
  desc = draw(gens.fq_descs(max_m=6))
  return dict(field=desc, f=draw(gens.polys(['Z', desc[1]], 20)), x=draw(gens.elements(desc)))


@sub('P10', 'subfield', subfield_evals(), 600, rule='degree >= 2 at a point outside the prime subfield')
def subfield_evaluation(case, rec):
  K = ref.field(case['field'])
  Kz = ref.field(['Z', K.p])
  f = mpoly_of(Kz, case['f'])
  x = K.val(case['x'])
  got = poly(Kz, f)(K.real(x))
  want = ref.peval(K, [K.int(c) for c in f], x)
  # a constant polynomial may answer with an element of the prime subfield
  require(K.canon(K.real_field()(got)) == want, 'polynomial over Z/%d at %r = %r', K.p, x, got)
  rec.nt(len(f) > 2 and len(x) > 1)
