"""P34: boundary polynomials, neighbours and degrees of the affine placement (APR) of a computation."""
import fractions

from hypothesis import strategies as st

from pbt import gens, ref
from pbt.checks import proofs
from pbt.core import require, sub
from pbt.real import canon_poly_or_elem, model_multi, multi

X = (0, 1)


@st.composite
def placements(draw):
  p = draw(st.sampled_from([2, 2, 2, 2, 3, 5]))
  c = draw(proofs.step_systems(gens.fq_descs(ps=[p], max_m=8 if p == 2 else 3), max_width=4, max_deg=3))
  c['t'] = draw(st.integers(2, 4))
  m = len(c['field'][2]) - 1
  if c['width'] > m:  # the points are residues modulo a polynomial of degree `width`
    c['width'] = m
    c['steps_polys'] = [[[e[:m], v] for e, v in sp] for sp in c['steps_polys'][:m]]
    c['inp'] = c['inp'][:m]
  steps = 2**c['t'] - 1
  cell = st.tuples(st.one_of(st.integers(0, steps - 1), st.sampled_from([0, steps - 1])), st.integers(0, c['width'] - 1))
  val = gens.elements(c['field'])
  c['B'] = draw(st.one_of(
      st.none(),
      st.lists(cell, max_size=8, unique=True).flatmap(
          lambda cs: st.tuples(*[val] * len(cs)).map(lambda vs: [[i, j, v] for (i, j), v in zip(cs, vs)]))))
  c['k'] = draw(st.sampled_from([None, None, 1, 2, 5, 7]))
  return c


@sub('P34', 'boundary polynomials', placements(), 400, rule='some register has two constraints, or two registers have one each')
def placement(case, rec):
  from starks.air import AIR
  from starks.apr import APR
  K = ref.field(case['field'])
  w, steps = case['width'], 2**case['t'] - 1
  models = [model_multi(K, js) for js in case['steps_polys']]
  if w == 1 and max([sum(e) for m in models for e in m] + [0]) < 1:
    return
  air = AIR(K.real_field(), w, [K.real(K.val(j)) for j in case['inp']], steps, [multi(K, w, m) for m in models], 8)
  B = case['B'] and [(i, j, K.val(v)) for i, j, v in case['B']]
  if case['B'] is None:
    B = [(0, j, K.val(v)) for j, v in enumerate(case['inp'])]
  else:
    air.B = [(i, j, K.real(v)) for i, j, v in B]
  apr = APR(air) if case['k'] is None else APR(air, case['k'])
  k = 5 if case['k'] is None else case['k']
  p = case['field'][1]
  zeta = [int(a) for a in apr.zeta.coefficients]
  require(len(zeta) == w + 1 and zeta[-1] == 1 and ref.irreducible(tuple(zeta), p), 'zeta is %r', apr.zeta)

  def point(i):
    return K.val([int(a) for a in ref.zmod(tuple([0] * i + [1]), tuple(zeta), p)])

  require(len(apr.Z_boundaries) == w and len(apr.Eps_boundaries) == w, '%d and %d boundary polynomials for %d registers',
          len(apr.Z_boundaries), len(apr.Eps_boundaries), w)
  sizes = []
  for j in range(w):
    mine = [(point(i), v) for i, jj, v in B if jj == j]
    z = [K.one]
    for a, _ in mine:
      z = ref.pmul(K, z, [K.neg(a), K.one])
    got = canon_poly_or_elem(K, apr.Z_boundaries[j])
    require(got == z, 'Z_%d is %r, its constraints are at %r', j, apr.Z_boundaries[j], mine)
    sizes.append(len(mine))
    if len(set(a for a, _ in mine)) == len(mine):
      e = ref.interp(K, [a for a, _ in mine], [v for _, v in mine]) if mine else []
      require(canon_poly_or_elem(K, apr.Eps_boundaries[j]) == ref.trim(K, e), 'E_%d is %r, its constraints %r', j,
              apr.Eps_boundaries[j], mine)
      rec.label('distinct points')
  t = (steps.bit_length() - 1) if steps > 1 else 0
  for s, r in zip(sizes, apr.rho_js):
    want = fractions.Fraction(2**(k + t) - s, apr.L.__len__())
    require(abs(fractions.Fraction(r) - want) <= want / 10**9, 'rate %r, expected %r', r, float(want))
  want = fractions.Fraction(1 + 2**(k + t + apr.d), apr.Lcmp.__len__())
  require(0 < apr.rho_cmp < 1 and abs(fractions.Fraction(apr.rho_cmp) - want) <= want / 10**9, 'rate %r', apr.rho_cmp)
  require(len(apr.rho_js) == w, '%d rates', len(apr.rho_js))
  degs = [max([sum(e) for e in m] + [1]) for m in models]
  require(max(degs) <= 2**apr.d <= 2 * max(degs), 'constraints of degree %d, d = %d', max(degs), apr.d)
  # the domains: n = 1 + k + R + t + d powers of g, shifted by g^n; L has one element more in its basis
  n = 1 + k + apr.R + t + apr.d
  power = lambda i: K.val([0] * i + [1])
  powers = lambda c: [[0] * i + [1] for i in range(c)]
  whole = lambda x: [int(a) for a in x.coefficients]
  require([whole(x) for x in apr.Lcmp.basis] == powers(n), 'Lcmp is spanned by %r', apr.Lcmp.basis)
  require([whole(x) for x in apr.L.basis] == powers(n) + [[0] * n + [1, 1]], 'L is spanned by %r', apr.L.basis)
  require(whole(apr.L.shift) == whole(apr.Lcmp.shift) == [0] * n + [1], 'shifts %r and %r', apr.L.shift, apr.Lcmp.shift)
  require((apr.Lcmp.__len__(), apr.L.__len__()) == (p**n, p**(n + 1)), '%r and %r points', apr.Lcmp.__len__(),
          apr.L.__len__())
  for name, a, c, by in (('H', apr.H, t, None), ('H0', apr.H0, max(0, t - 1), None), ('H1', apr.H1, max(0, t - 1), t - 1)):
    require([whole(x) for x in a.basis] == powers(c), '%s is spanned by %r', name, a.basis)
    if by is not None and t:
      require(whole(a.shift) == [0] * by + [1], '%s is shifted by %r', name, a.shift)
  # the first points of the domains, with the last coordinate running fastest
  for a, top in ((apr.L, [0] * n + [1, 1]), (apr.Lcmp, [0] * (n - 1) + [1])):
    for c, x in zip(range(min(p, 3)), a):
      want = [0] * n + [1, 0]
      for i, b in enumerate(top):
        want[i] = (want[i] + c * b) % p
      while want and not want[-1]:
        want.pop()
      got = whole(x)
      while got and not got[-1]:
        got.pop()
      require(got == want, 'point %d is %r', c, x)
  g, z = (0, 1), K.val(zeta)
  nbrs = {(tau, tuple(canon_poly_or_elem(K, q))) for tau, q in apr.Nbrs}
  want = {(tau, tuple(q)) for tau in range(w) for q in ([K.zero, K.one], [K.zero, K.val(g)], ref.trim(K, [z, K.val(g)]))}
  require(nbrs == want and len(apr.Nbrs) == 3 * w, 'neighbours %r', apr.Nbrs)
  rec.nt(max(sizes) > 1 or sum(s == 1 for s in sizes) > 1)
  rec.label('width %d' % w)
  rec.label('at most %d constraints on a register' % max(sizes))
