"""The same question asked again, after the lists given and received have been scribbled over."""
import random

from hypothesis import strategies as st

from pbt import ref
from pbt.core import require, sub
from pbt.checks.large import seeds

STARK_P = 2**256 - 2**32 * 351 + 1


def show(x):
  if isinstance(x, (list, tuple)):
    return [show(y) for y in x]
  if isinstance(x, dict):
    return sorted((repr(k), show(v)) for k, v in x.items())
  return repr(x)


def scribble(x):
  """Lists belong to whoever holds them."""
  if isinstance(x, list):
    for y in x:
      scribble(y)
    x.reverse()
    x[len(x) // 2:] = [None]
  elif isinstance(x, dict):
    x.clear()


QUESTIONS = {}


def question(prop, name, cases=120):
  def wrap(ask):
    @sub(prop, 'asked again', seeds, cases, rule='the answer has at least two parts')
    def again(seed, rec):
      given, answer = ask(random.Random(seed))
      before = show(given)
      first = answer(*given)
      want = show(first)
      rec.nt(len(want) > 1)
      rec.label(name)
      require(show(given) == before, '%s: what was passed has changed', name)
      scribble(first)
      given2, answer2 = ask(random.Random(seed))
      require(show(given2) == before, 'harness: the questions differ')
      got = show(answer2(*given2))
      require(got == want, '%s: %.200r at first, then %.200r', name, want, got)
      for x in given:
        scribble(x)
      given3, _ = ask(random.Random(seed))
      got = show(answer(*given3))
      require(got == want, '%s: %.200r at first, then %.200r', name, want, got)
    return ask
  return wrap


def field_and_root(r, kinds=(4, 8, 16, 32)):
  from starks.modp import IntegersModP
  p = r.choice([STARK_P, 257, 97, 193, 65537])
  n = r.choice([k for k in kinds if (p - 1) % k == 0] or [32])
  while True:
    g = pow(r.randrange(2, p), (p - 1) // n, p)
    if pow(g, n // 2, p) != 1:
      F = IntegersModP(p)
      return F, F(g), n


def values(r, F, n):
  return [F(r.getrandbits(260)) for _ in range(n)]


def distinct(r, F, n):
  return [F(x) for x in r.sample(range(min(F.p, 10**6)), n)]


@question('P14', 'interpolation')
def interpolation(r):
  from starks.poly_utils import lagrange_interp, lagrange_interp_2, lagrange_interp_4, multi_interp_4
  F, _, _ = field_and_root(r)
  k = r.choice([2, 4, 4, 7])
  if r.random() < 0.4:
    sets = r.randint(1, 4)
    return [[distinct(r, F, 4) for _ in range(sets)], [values(r, F, 4) for _ in range(sets)]], lambda xs, ys: multi_interp_4(F, xs, ys)
  f = {2: lagrange_interp_2, 4: lagrange_interp_4}.get(k, lagrange_interp)
  return [distinct(r, F, k), values(r, F, k)], lambda xs, ys: [f(F, xs, ys), k]


@question('P16', 'inverses')
def inverses(r):
  from starks.poly_utils import multi_inv
  F, _, _ = field_and_root(r)
  xs = [x if r.random() < 0.8 else F(0) for x in values(r, F, r.randint(1, 12))]
  return [xs], lambda v: multi_inv(F, v)


@question('P19', 'transforms')
def transforms(r):
  from starks.fft import NonBinaryFFT, fft_1d
  from starks.polynomial import polynomials_over
  F, g, n = field_and_root(r)
  how = r.choice(['fft', 'inv', '1d', '1d inverse'])
  vals = values(r, F, n if 'inv' in how else r.randint(1, n))
  solver = NonBinaryFFT(F, g)
  return [vals], dict(fft=lambda v: solver.fft(polynomials_over(F)(v)), inv=lambda v: [solver.inv_fft(v), 1])[how] if how in ('fft', 'inv') else (
      lambda v: fft_1d(F, v, F.p, g, inv='inverse' in how))


@question('P20', 'products')
def products(r):
  from starks.fft import mul_polys
  F, g, n = field_and_root(r)
  k = r.randint(1, n)
  return [values(r, F, k), values(r, F, n + 1 - k)], lambda a, b: mul_polys(a, b, g)


def leaves(r, n):
  return [r.choice([lambda: r.getrandbits(200), lambda: bytes(r.getrandbits(8) for _ in range(32))])() for _ in range(n)]


@question('P22', 'trees')
def trees(r):
  from starks.merkle_tree import merkelize, mk_branch, permute4
  n = r.choice([4, 8, 16, 32])
  at = [r.randrange(n) for _ in range(3)]
  def answer(L):
    t = merkelize(L)
    return [[mk_branch(t, i) for i in at], t, permute4(L)]
  return [leaves(r, n)], answer


@question('P23', 'openings')
def openings(r):
  from starks.merkle_tree import merkelize, mk_branch, verify_branch
  n = r.choice([4, 8, 16, 32])
  i = r.randrange(n)
  t = merkelize(leaves(r, n))
  return [mk_branch(t, i)], lambda b: [verify_branch(t[1], i, b), verify_branch(t[1], i, b, output_as_int=True)]


@question('P24', 'packed leaves')
def packed_leaves(r):
  from starks.merkle_tree import merkelize_polynomial_evaluations, unpack_merkle_leaf
  F, _, _ = field_and_root(r)
  n, dims, polys = r.choice([4, 8, 16]), r.randint(1, 3), r.randint(1, 3)
  def answer(tables):
    t = merkelize_polynomial_evaluations(dims, tables)
    return [unpack_merkle_leaf(t[n + r_at], dims, polys), t]
  r_at = r.randrange(n)
  return [[values(r, F, n) for _ in range(dims * polys)]], answer


@question('P25', 'compression')
def compression(r):
  from starks.compression import bin_length, compress_branches, compress_fri, decompress_branches, decompress_fri
  pool = [bytes(r.getrandbits(8) for _ in range(r.choice([32, 32, 5, 96]))) for _ in range(r.randint(1, 20))]
  branches = [[r.choice(pool) for _ in range(r.randint(1, 5))] for _ in range(r.randint(1, 12))]
  how = r.choice(['branches', 'fri', 'open branches', 'open fri'])
  fri = [[r.choice(pool), [branches[i:i + 3] for i in range(0, len(branches), 3)]], [r.choice(pool) for _ in range(8)]]
  if how == 'branches':
    return [branches], lambda b: [compress_branches(b), bin_length(compress_branches(b))]
  if how == 'fri':
    return [fri], lambda f: [compress_fri(f), 1]
  if how == 'open branches':
    return [compress_branches(branches)], decompress_branches
  return [compress_fri(fri)], decompress_fri


@question('P26', 'indices')
def indices(r):
  from starks.utils import get_pseudorandom_indices
  ent = bytes(r.getrandbits(8) for _ in range(r.choice([1, 32, 32, 33, 200])))
  kw = dict(exclude_multiples_of=r.choice([0, 0, 4, 8, 9]))
  m, n = r.choice([17, 64, 4096, r.randint(2, 2**24 - 1)]), r.randint(1, 60)
  return [], lambda: get_pseudorandom_indices(ent, m, n, **kw)


@question('P27', 'traces')
def traces(r):
  from starks.air import AIR
  from starks.modp import IntegersModP
  from starks.utils import generate_Xi_s
  F = IntegersModP(r.choice([97, 2**61 - 1, STARK_P]))
  w, steps = r.randint(1, 3), r.choice([3, 7])
  c = [r.getrandbits(20) for _ in range(2 * w)]
  def answer(inp):
    X = generate_Xi_s(F, w)
    air = AIR(F, w, inp, steps, [X[i] * F(c[i]) + X[(i + 1) % w] * F(c[w + i]) + 1 for i in range(w)], 8)
    out = [air.generate_witness(), air.generate_boundary_constraints(), air.generate_constraint_polynomials()]
    # what was handed out is the caller's
    want = show(out)
    scribble(out)
    out = [air.generate_witness(), air.generate_boundary_constraints(), air.generate_constraint_polynomials()]
    require(show(out) == want, 'one problem: %.200r at first, then %.200r', want, show(out))
    return out
  return [values(r, F, w)], answer


@question('P28', 'low-degree proofs', 72)
def low_degree(r):
  from starks.fri import SmoothSubgroupFRI
  from starks.polynomial import polynomials_over
  F, g, n = field_and_root(r, (64, 64, 128))
  bound = r.choice([b for b in (16, 32, 32, 64) if b < n])
  kw = dict(exclude_multiples_of=r.choice([0, 0, 4]), fri_spot_check_security_factor=r.choice([3, 10]))
  fri = SmoothSubgroupFRI(F)
  return [values(r, F, r.randint(1, bound))], lambda c: fri.generate_proximity_proof(polynomials_over(F)(c), g, bound, **kw)


@question('P30', 'computation proofs', 48)
def computation(r):
  from starks.modp import IntegersModP
  from starks.stark import STARK
  from starks.utils import generate_Xi_s
  F = IntegersModP(STARK_P)
  w, steps = r.randint(1, 2), 8
  X = generate_Xi_s(F, w)
  polys = [X[i] * X[(i + 1) % w] + F(r.getrandbits(30)) for i in range(w)]
  state = values(r, F, w)
  trace = [state]
  for _ in range(steps - 1):
    trace.append([f(trace[-1]) for f in polys])
  s = STARK(F, steps, 8, w, polys, spot_check_security_factor=5)
  def answer(witness, boundary):
    proof = s.mk_proof(witness, boundary)
    require(s.verify_proof(proof, witness, boundary) is True, 'an honest proof is refused')
    return proof
  return [[[t[j] for t in trace] for j in range(w)], [(0, j, state[j]) for j in range(w)]], answer


@question('P32', 'weights')
def weights(r):
  from starks.stark import get_pseudorandom_ks
  root, num = bytes(r.getrandbits(8) for _ in range(32)), r.randint(1, 12)
  return [], lambda: get_pseudorandom_ks(root, num)


@question('P45', 'cycles, polynomials and constants')
def helpers(r):
  from starks.finitefield import FiniteField
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  from starks.utils import generate_Xi_s, get_power_cycle, mimc
  how = r.choice(['cycle', 'cycle', 'cycle of an extension', 'coordinates', 'mimc'])
  if how == 'cycle':
    F, g, _ = field_and_root(r)
    return [], lambda: get_power_cycle(g, F)
  if how == 'cycle of an extension':
    m = r.choice([2, 3, 4, 5])
    F = FiniteField(2, m, polynomials_over(IntegersModP(2))(list(ref.find_irreducible(2, m, r.randint(0, 1)))))
    x = [0, 1] + [r.randint(0, 1) for _ in range(m - 2)]
    return [], lambda: get_power_cycle(F(x), F)
  if how == 'coordinates':
    F, _, _ = field_and_root(r)
    n = r.randint(1, 6)
    return [], lambda: generate_Xi_s(F, n) + [1]
  steps = r.randint(1, 20)
  return [[r.getrandbits(256) for _ in range(r.randint(1, 20))]], lambda cs: [mimc(5, steps, cs), 1]
