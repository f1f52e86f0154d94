"""P11-P13, P17: multivariate polynomials, division, conversions, arithmetisation."""
import itertools

from hypothesis import strategies as st

from pbt import gens, ref
from pbt.core import must_reject, require, sub
from pbt.real import canon_multi, canon_poly_or_elem, model_multi, mpoly_of, multi, multis, poly, uni

# ------------------------------------------------------------------ P11

OPS = ['add', 'sub', 'mul', 'neg', 'pow', 'addi', 'raddi', 'subi', 'rsubi', 'muli', 'rmuli', 'eqi',
       'adds', 'radds', 'subs', 'rsubs', 'muls', 'rmuls', 'eqs', 'iadd', 'copy', 'cancel']


@st.composite
def programs(draw):
  desc = draw(gens.mixed_fields(q=False))
  width = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4, 6, 9, 12]))
  regs = draw(st.lists(gens.multis(desc, width, *draw(st.sampled_from([(5, 3), (5, 3), (12, 2), (4, 20)]))),
                       min_size=1, max_size=3))
  ops = []
  for i in range(draw(gens.sizes(1, 8))):
    n = len(regs) + i
    op = draw(st.sampled_from(OPS))
    a = draw(st.integers(0, n - 1))
    if op == 'pow':
      b = draw(st.one_of(st.integers(0, 3), st.integers(0, 9)))
    elif op[-1] == 'i':
      b = draw(gens.ints_for(desc[1]))
    elif op[-1] == 's':
      b = draw(gens.elements(desc))
    else:
      b = draw(st.integers(0, n - 1))
    ops.append([op, a, b])
  pts = [[draw(gens.elements(desc)) for _ in range(width)] for _ in range(2)]
  return dict(field=desc, width=width, regs=regs, ops=ops, pts=pts)


@sub('P11', 'program', programs(), 2200, rule='>= 2 operations, two variables, a result with >= 2 terms')
def multi_program(case, rec):
  K = ref.field(case['field'])
  w = case['width']
  M = multis(K, w)
  one = (0,) * w
  model = [model_multi(K, c) for c in case['regs']]
  real = [M({tuple(e): K.real(K.val(c)) for e, c in js}) for js in case['regs']]
  for op, a, b in case['ops']:
    x, mx = real[a], model[a]
    if op in ('add', 'sub', 'mul', 'iadd', 'cancel'):
      y, my = real[b], model[b]
    elif op[-1] == 'i':
      y, my = b, ref.mtrim(K, {one: K.int(b)})
    elif op[-1] == 's':
      y, my = K.real(K.val(b)), ref.mtrim(K, {one: K.val(b)})
    if op == 'mul' and len(mx) * len(my) > 400 or op == 'pow' and (b > 3 and len(mx) > 2 or len(mx)**b > 400):
      op = 'copy'
    rec.label(op)
    if op in ('add', 'addi', 'adds'):
      r, m = x + y, ref.madd(K, mx, my)
    elif op == 'iadd':
      r = x
      r += y
      m = ref.madd(K, mx, my)
    elif op == 'cancel':
      r, m = (x + y) - x, my
    elif op == 'copy':
      r, m = M(x), mx
    elif op in ('raddi', 'radds'):
      r, m = y + x, ref.madd(K, mx, my)
    elif op in ('sub', 'subi', 'subs'):
      r, m = x - y, ref.madd(K, mx, ref.mneg(K, my))
    elif op in ('rsubi', 'rsubs'):
      r, m = y - x, ref.madd(K, my, ref.mneg(K, mx))
    elif op in ('mul', 'muli', 'muls'):
      r, m = x * y, ref.mmul(K, mx, my)
    elif op in ('rmuli', 'rmuls'):
      r, m = y * x, ref.mmul(K, mx, my)
    elif op == 'neg':
      r, m = -x, ref.mneg(K, mx)
    elif op == 'pow':
      r, m = x**b, ref.mpow(K, mx, b, w)
    else:
      require((x == y) is (mx == my), '%r == %r', x, y)
      require((x != y) is (mx != my), '%r != %r', x, y)
      r, m = M(y), my
    got = canon_multi(K, w, r)
    require(got == m, '%s of %r and %r: expected %r, got %r', op, mx, b, m, r)
    real.append(r)
    model.append(m)
  pts = [[K.val(j) for j in pt] for pt in case['pts']]
  for r, m in zip(real, model):
    require(canon_multi(K, w, r) == m, 'a register changed: expected %r, got %r', m, r)
    require(r.is_zero() is (not m) and len(r) == len(m), 'is_zero/len of %r', m)
    require(r.degree() == max([sum(e) for e in m], default=0), 'degree of %r is %r', m, r.degree())
    require([(e, K.canon(c)) for e, c in r] == sorted(m.items(), key=lambda t: t[0]), 'iteration of %r', m)
    for e in itertools.islice(itertools.product(range(3), repeat=w), 9):
      require(K.canon(r[e]) == m.get(e, K.zero), 'coefficient %r of %r', e, m)
    for pt in pts:
      got = r([K.real(v) for v in pt])
      require(K.canon(got) == ref.meval(K, m, pt), '%r at %r = %r', r, pt, got)
  for r1, m1 in list(zip(real, model))[-3:]:
    for r2, m2 in zip(real, model):
      require((r1 == r2) is (m1 == m2), '== of %r and %r', r1, r2)
      require((r1 != r2) is (m1 != m2), '!= of %r and %r', r1, r2)
  rec.label('%s, %d variables' % (K.kind, w))
  rec.nt(w > 1 and len(case['ops']) >= 2 and any(len(m) > 1 for m in model[len(case['regs']):]))


@st.composite
def substitutions(draw):
  desc = draw(gens.mixed_fields(q=False))
  width = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 5]))
  w2 = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 6]))
  emax = draw(st.sampled_from([2, 2, 2, 4]))
  return dict(field=desc, width=width, w2=w2, f=draw(gens.multis(desc, width, 4 if emax == 2 else 2, emax)),
              gs=[draw(gens.multis(desc, w2, 3 if emax == 2 else 2, 2)) for _ in range(width)],
              us=[draw(gens.polys(desc, 4)) for _ in range(width)],
              ints=[draw(gens.ints_for(desc[1])) for _ in range(width)],
              pt=[draw(gens.elements(desc)) for _ in range(w2)])


@sub('P11', 'substitution', substitutions(), 1200, rule='a non-constant polynomial of non-constant polynomials')
def substitution(case, rec):
  K = ref.field(case['field'])
  w, w2 = case['width'], case['w2']
  f = model_multi(K, case['f'])
  F = multi(K, w, f)
  gs = [model_multi(K, g) for g in case['gs']]
  H = F([multi(K, w2, g) for g in gs])
  want = {}
  for e, c in f.items():
    t = {(0,) * w2: c}
    for g, n in zip(gs, e):
      t = ref.mmul(K, t, ref.mpow(K, g, n, w2))
    want = ref.madd(K, want, t)
  if type(H) is multis(K, w2):
    got = canon_multi(K, w2, H)
  else:
    got = ref.mtrim(K, {(0,) * w2: K.canon(H)})
  require(got == want, '%r of %r: expected %r, got %r', f, gs, want, got)
  pt = [K.val(j) for j in case['pt']]
  inner = [K.real(ref.meval(K, g, pt)) for g in gs]
  require(K.canon(F(inner)) == ref.meval(K, want, pt), 'substitution does not commute with evaluation')
  require(K.canon(F(case['ints'])) == ref.meval(K, f, [K.int(k) for k in case['ints']]),
          '%r at integers %r', f, case['ints'])
  must_reject('too few values', F, [K.real(K.one)] * (w - 1))
  must_reject('too many values', F, [K.real(K.one)] * (w + 1))
  if K.kind == 'Z':
    us = [mpoly_of(K, u) for u in case['us']]
    H = F([poly(K, u) for u in us])
    want = []
    for e, c in f.items():
      t = [c]
      for u, n in zip(us, e):
        t = ref.pmul(K, t, ref.ppow(K, u, n))
      want = ref.padd(K, want, t)
    require(canon_poly_or_elem(K, H) == want, '%r of univariate %r: %r', f, us, H)
  rec.label(K.kind)
  rec.nt(any(sum(e) for e in f) and any(sum(e) for g in gs for e in g))


@st.composite
def int_coefficients(draw):
  p = draw(gens.primes)
  width = draw(st.integers(1, 3))
  return dict(p=p, width=width, f=draw(st.lists(
      st.tuples(st.lists(st.integers(0, 12), min_size=width, max_size=width), gens.ints_for(p)).map(list),
      max_size=5, unique_by=lambda t: tuple(t[0]))), x=draw(st.lists(gens.residues(p), min_size=width, max_size=width)))


@sub('P11', 'integer coefficients', int_coefficients(), 600, rule='a coefficient outside [0, p)')
def integer_coefficients(case, rec):
  K = ref.field(['Z', case['p']])
  w = case['width']
  M = multis(K, w)
  want = ref.mtrim(K, {tuple(e): K.int(c) for e, c in case['f']})
  for make in (M, M.factory):
    F = make({tuple(e): c for e, c in case['f']})
    require(canon_multi(K, w, F) == want, 'integer coefficients %r give %r', case['f'], F)
    require(K.canon(F([K.real(x) for x in case['x']])) == ref.meval(K, want, case['x']), 'value')
  rec.nt(any(not 0 <= c < K.p for _, c in case['f']))


# ------------------------------------------------------------------ P12


@st.composite
def mdivisions(draw):
  desc = draw(gens.mixed_fields(q=False))
  width = draw(st.sampled_from([1, 2, 2, 3, 3, 5]))
  e = draw(st.sampled_from([2, 2, 4]))
  return dict(field=desc, width=width, a=draw(gens.multis(desc, width, 8, e + 1)), b=draw(gens.multis(desc, width, 4, e)),
              exact=draw(st.booleans()), k=draw(gens.ints_for(desc[1])))


@sub('P12', 'division', mdivisions(), 4400, rule='>= 2 variables, non-zero quotient, divisor with >= 2 terms')
def multi_division(case, rec):
  K = ref.field(case['field'])
  w = case['width']
  a, b = model_multi(K, case['a']), model_multi(K, case['b'])
  cof = a
  if case['exact']:
    a = ref.mmul(K, a, b)
  A, B = multi(K, w, a), multi(K, w, b)
  if not b:
    rec.label('by zero')
    for fn in (lambda: A / B, lambda: A / 0):
      try:
        fn()
      except ZeroDivisionError:
        continue
      require(False, 'division by zero was not rejected with ZeroDivisionError')
    return
  Q = A / B
  q = canon_multi(K, w, Q)
  if case['exact']:
    rec.label('exact')
    require(q == cof, '(%r * %r) / %r = %r', cof, b, b, Q)
  want, r = ref.mdivlex(K, a, b)
  require(q == want, '%r / %r: expected %r, got %r', a, b, want, q)
  R = A.div_remainder(Q, B)
  require(canon_multi(K, w, R) == r, 'remainder of %r / %r: expected %r, got %r', a, b, r, R)
  lead = max(b)
  require(not any(all(x >= y for x, y in zip(e, lead)) for e in canon_multi(K, w, A - Q * B)),
          'a term of the remainder of %r / %r is divisible by the leading term', a, b)
  k = K.int(case['k'])
  if k != K.zero:
    require(canon_multi(K, w, A / case['k']) == {e: K.mul(c, K.inv(k)) for e, c in a.items()}, 'division by an integer')
  require(canon_multi(K, w, A) == a and canon_multi(K, w, B) == b, 'an operand was modified')
  rec.label(K.kind)
  rec.nt(w > 1 and q and len(b) > 1)


# ------------------------------------------------------------------ P13


@st.composite
def conversions(draw):
  desc = draw(gens.mixed_fields(q=False))
  width = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 12]))
  i = draw(st.integers(0, width - 1))
  return dict(field=desc, width=width, i=i, f=draw(gens.polys(desc, 20)),
              pt=[draw(gens.elements(desc)) for _ in range(width)])


@sub('P13', 'make_multivar', conversions(), 3600, rule='degree >= 1, width >= 2')
def to_multi(case, rec):
  from starks.poly_utils import make_multivar
  from starks.utils import generate_Xi_s
  K = ref.field(case['field'])
  w, i = case['width'], case['i']
  f = mpoly_of(K, case['f'])
  got = make_multivar(poly(K, f), i, K.real_field(), w)
  want = {(0,) * i + (n,) + (0,) * (w - i - 1): c for n, c in enumerate(f) if c != K.zero}
  if f or not isinstance(got, int):
    require(canon_multi(K, w, got) == want, 'x_%d of %r in %d variables: %r', i, f, w, got)
    pt = [K.val(j) for j in case['pt']]
    require(K.canon(got([K.real(x) for x in pt])) == ref.peval(K, f, pt[i]), 'value of the converted polynomial')
  else:
    require(got == 0, 'the zero polynomial became %r', got)
  X = generate_Xi_s(K.real_field(), w)
  require(len(X) == w, '%d index polynomials for width %d', len(X), w)
  for k, x in enumerate(X):
    require(canon_multi(K, w, x) == {tuple(int(j == k) for j in range(w)): K.one}, 'X_%d = %r', k, x)
  rec.nt(len(f) > 1 and w > 1)


@st.composite
def projections(draw):
  desc = draw(gens.mixed_fields(q=False))
  width = draw(st.sampled_from([2, 2, 3, 3, 4, 7]))
  return dict(field=desc, width=width, i=draw(st.integers(0, width - 1)),
              f=draw(gens.multis(desc, width, *draw(st.sampled_from([(6, 3), (12, 2), (5, 15)])))))


@sub('P13', 'project', projections(), 2700, rule='>= 2 powers of the chosen variable, one other variable present')
def project(case, rec):
  from starks.poly_utils import project_to_univariate
  from starks.polynomial import polynomials_over
  K = ref.field(case['field'])
  w, i = case['width'], case['i']
  f = model_multi(K, case['f'])
  F = multi(K, w, f)
  got = project_to_univariate(F, i, K.real_field(), w)
  want = {}
  for e, c in f.items():
    want.setdefault(e[i], {})[e[:i] + e[i + 1:]] = c
  if f or not isinstance(got, int):
    U = polynomials_over(multis(K, w - 1))
    require(type(got) is U, 'not a univariate polynomial over the other variables: %r', type(got).__name__)
    coeffs = [canon_multi(K, w - 1, c) for c in got.coefficients]
    require(not coeffs or coeffs[-1], 'trailing zero coefficient')
    require({n: c for n, c in enumerate(coeffs) if c} == want, 'projection of %r on x_%d: %r', f, i, got)
  else:
    require(got == 0, 'projection of zero is %r', got)
  require(canon_multi(K, w, F) == f, 'the argument was modified')
  rec.nt(len(want) > 1 and any(sum(e) for c in want.values() for e in c))


# ------------------------------------------------------------------ P17


@st.composite
def tables(draw):
  desc, n = draw(st.sampled_from([
      (['Z', 2], 1), (['Z', 2], 2), (['Z', 2], 3), (['Z', 3], 1), (['Z', 3], 2), (['Z', 5], 1), (['Z', 7], 1),
      (['Z', 11], 1), (['Z', 5], 2), (['F', 2, [1, 1, 1]], 1), (['F', 2, [1, 1, 1]], 2), (['F', 2, [1, 1, 0, 1]], 1),
      (['F', 3, [2, 1, 1]], 1), (['F', 3, [1, 0, 1]], 1)]))
  K = ref.field(desc)
  size = K.q**n
  vals = draw(st.lists(gens.elements(desc), min_size=size, max_size=size))
  return dict(field=desc, n=n, values=vals, at=draw(st.integers(0, size - 1)), ring=draw(st.booleans()))


@sub('P17', 'arithmetisation', tables(), 160, rule='the function is not constant')
def arithmetise(case, rec):
  from starks.poly_utils import construct_multivariate_coefficients, construct_multivariate_dirac_delta
  desc, n = case['field'], case['n']
  K = ref.field(desc)
  F = K.real_field()
  pts = list(itertools.product(list(K.elements()), repeat=n))
  table = {pt: K.val(v) for pt, v in zip(pts, case['values'])}
  calls = []

  def step(xs):
    key = tuple(K.canon(x) for x in xs)
    require(len(key) == n, 'function called with %d values', len(key))
    calls.append(key)
    return K.real(table[key])

  if case.get('ring'):
    from starks.multivariate_polynomial import multivariates_over
    P = multivariates_over(F, n).factory(step_fn=step)
    require(type(P) is multivariates_over(F, n), 'the factory of the ring made a %r', type(P))
    rec.label('by the ring')
  else:
    P = construct_multivariate_coefficients(F, step, n)
  require(set(calls) == set(pts), 'the function was not sampled on all of F_q^n')
  model = canon_multi(K, n, P)
  require(all(x < K.q for e in model for x in e), 'an exponent is not below q: %r', sorted(model))
  for pt in pts:
    got = K.canon(P([K.real(x) for x in pt]))
    require(got == table[pt], 'the polynomial of the function is %r at %r, not %r', got, pt, table[pt])
  rec.label('%s^%d, %d points' % (F.__name__, n, len(pts)))
  rec.nt(len(set(table.values())) > 1)


@st.composite
def deltas(draw):
  desc, n = draw(st.sampled_from([
      (['Z', 2], 1), (['Z', 2], 4), (['Z', 3], 2), (['Z', 3], 3), (['Z', 5], 2), (['Z', 7], 2), (['Z', 13], 1),
      (['F', 2, [1, 1, 1]], 2), (['F', 2, [1, 1, 0, 1]], 2), (['F', 3, [2, 1, 1]], 1), (['F', 2, [1, 1, 0, 0, 1]], 1)]))
  return dict(field=desc, n=n, y=[draw(gens.elements(desc)) for _ in range(n)])


@sub('P17', 'delta', deltas(), 200, rule='the point is not the origin')
def delta(case, rec):
  from starks.poly_utils import construct_multivariate_dirac_delta
  K = ref.field(case['field'])
  n = case['n']
  y = tuple(K.val(j) for j in case['y'])
  D = construct_multivariate_dirac_delta(K.real_field(), [K.real(v) for v in y], n)
  for pt in itertools.product(list(K.elements()), repeat=n):
    got = K.canon(D([K.real(x) for x in pt]))
    require(got == (K.one if pt == y else K.zero), 'delta at %r is %r at %r', y, got, pt)
  rec.nt(any(v != K.zero for v in y))
