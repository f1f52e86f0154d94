"""P27-P32: arithmetization, low-degree proofs, STARK proofs."""
import copy
import functools
import hashlib

from hypothesis import strategies as st

from pbt import gens, ref
from pbt.core import must_reject, require, sub
from pbt.real import canon_multi, canon_poly_or_elem, model_multi, multi, uni

BIGP = gens.STARK_P


def hint(*parts):
  return int.from_bytes(hashlib.sha512(repr(parts).encode()).digest(), 'big')


@functools.lru_cache(maxsize=None)
def smooth_primes():
  """Primes p with 1024 | p - 1 and 7 a non-residue, so 7^((p-1)/n) has order n; several sizes."""
  out = []
  for start in (2**13, 2**20, 2**31, 2**64, 2**128, 2**200, 2**255):
    p = start - start % 1024 + 1
    while not (p > start and ref.is_prime(p) and pow(7, (p - 1) // 2, p) == p - 1):
      p += 1024
    out.append(p)
  return [BIGP] + out


def root(p, n):
  return pow(7, (p - 1) // n, p)


any_p = st.one_of(st.just(BIGP), st.sampled_from(smooth_primes()))
big_p = st.one_of(st.just(BIGP), st.sampled_from(smooth_primes()[4:]))


def zp(p):
  from starks.modp import IntegersModP
  return IntegersModP(p)


# ---------------------------------------------------------------- P27 traces and AIR


@st.composite
def step_systems(draw, fields, max_width=4, max_deg=4, min_top=0):
  d = draw(fields)
  w = draw(st.integers(1, max_width))
  polys = []
  for _ in range(w):
    terms = draw(st.lists(st.tuples(
        st.one_of(st.lists(st.integers(0, w - 1), max_size=max_deg), st.lists(st.integers(0, w - 1), max_size=2)),
        gens.elements(d)), min_size=0, max_size=3))
    poly = {}
    for vs, c in terms:
      poly[tuple(vs.count(i) for i in range(w))] = c
    polys.append([[list(e), c] for e, c in poly.items()])
  return dict(field=d, width=w, steps_polys=polys, inp=draw(st.lists(gens.elements(d), min_size=w, max_size=w)))


def model_trace(K, models, inp, steps):
  tr = [list(inp)]
  for _ in range(steps - 1):
    tr.append([ref.meval(K, m, tr[-1]) for m in models])
  return tr


@st.composite
def air_cases(draw):
  c = draw(step_systems(st.one_of(gens.zp_descs(), gens.zp_descs(gens.small_primes), gens.fq_descs(max_m=3)),
                        max_width=draw(st.sampled_from([4, 4, 4, 9]))))
  c['t'] = draw(st.sampled_from([1, 2, 3, 4, 4, 5, 6]))
  c['row'] = draw(st.integers(0, 63))
  c['dim'] = draw(st.integers(0, c['width'] - 1))
  c['delta'] = draw(gens.elements(c['field'], nonzero=True))
  c['as_int'] = draw(st.booleans())
  return c


@sub('P27', 'traces and constraints', air_cases(), 2400, rule='width at least 2 and at least 3 steps')
def air(case, rec):
  from starks.air import AIR, get_computational_trace
  K = ref.field(case['field'])
  w, steps = case['width'], 2**case['t'] - 1
  models = [model_multi(K, js) for js in case['steps_polys']]
  inp = [K.val(j) for j in case['inp']]
  want = model_trace(K, models, inp, steps)
  rec.nt(w > 1 and steps > 2)
  rec.label('width %d' % w)
  rec.label(case['field'][0])
  F = K.real_field()
  sp = [multi(K, w, m) for m in models]
  start = [K.real(a) for a in inp]
  trace, output = get_computational_trace(list(start), steps, w, sp)
  require(len(trace) == steps, 'trace of %d states for %d steps', len(trace), steps)
  got = [[K.canon(x) for x in s] for s in trace]
  require(got == want, 'trace %r, expected %r', got[:4], want[:4])
  require([K.canon(x) for x in output] == want[-1], 'output')
  arg = start
  if w == 1 and case['as_int'] and case['field'][0] == 'Z':
    arg = int(inp[0])
    rec.label('integer input')
    if steps > 1 and sp[0].degree() < 1:
      return
  comp = AIR(F, w, arg, steps, sp, 8)
  wit = comp.generate_witness()
  require(len(wit) == w and all(len(r) == steps for r in wit), 'witness is %d by %d', len(wit), len(wit[0]))
  for j in range(w):
    for i in range(steps):
      x = wit[j][i]
      require((K.canon(x) if not isinstance(x, int) else K.val(x % K.p)) == want[i][j], 'witness at row %d, step %d', j, i)
  require([K.canon(x) if not isinstance(x, int) else K.val(x % K.p) for x in comp.output] == want[-1], 'output')
  b = comp.generate_boundary_constraints()
  require([(i, j) for i, j, _ in b] == [(0, j) for j in range(w)], 'boundary constraints at %r', b)
  require([a for _, _, a in b] == list(arg if isinstance(arg, list) else [arg]), 'boundary values')
  require((comp.T, comp.w) == (comp.steps, comp.width) == (steps, w), 'T, w are %r, %r for %d steps and width %d', comp.T, comp.w,
          steps, w)
  require(comp.F is F and comp.field is F, 'the field is %r', comp.F)
  require(comp.B == b and comp.Polys == comp.generate_constraint_polynomials(), 'the AIR holds other constraints')
  degs = [max([sum(e) for e in m] + [0]) for m in models]
  require(comp.get_degree() == max(degs), 'degree %r, expected %d', comp.get_degree(), max(degs))
  require(comp.C is True or steps == 1, 'the circuit is not satisfied by the trace')
  # the constraints vanish on a pair of states exactly when the second follows the first
  cps = comp.generate_constraint_polynomials()
  require(len(cps) == w, '%d constraints', len(cps))
  for i in range(w):
    pm = {}
    for e, c in models[i].items():
      pm[tuple(e) + (0,) * w] = K.neg(c)
    y = tuple([0] * w + [1 if k == i else 0 for k in range(w)])
    pm[y] = K.add(pm.get(y, K.zero), K.one)
    require(canon_multi(K, 2 * w, cps[i]) == {e: c for e, c in pm.items() if c != K.zero}, 'constraint %d is %r', i, cps[i])
  if steps > 1:
    top = max(max([sum(e) for e in m] + [1]) for m in models)
    require(comp.CDegree == top, 'degree of the constraints %r, expected %d', comp.CDegree, top)
    if w > 1 or arg is start:
      at = case['row'] % steps
      cell = case['dim'] % w
      bent = [list(s) for s in want]
      bent[at][cell] = K.add(bent[at][cell], K.val(case['delta']))
      held = all([ref.meval(K, m, bent[i]) for m in models] == bent[i + 1] for i in range(steps - 1))
      comp.computational_trace = [[K.real(a) for a in s] for s in bent]
      require(bool(comp.generate_monotone_circuit(comp.Polys)) == held, 'circuit on a trace changed at step %d, register %d',
              at, cell)
      rec.label('changed trace')
  row = case['row'] % max(1, steps - 1)
  nxt = want[row + 1] if steps > 1 else [ref.meval(K, m, want[0]) for m in models]
  dim = case['dim'] % w
  wrong = list(nxt)
  wrong[dim] = K.add(wrong[dim], K.val(case['delta']))
  for target, bad in ((nxt, None), (wrong, dim)):
    pt = [K.real(a) for a in want[row] + target]
    for i in range(w):
      z = cps[i](pt) == 0
      require(bool(z) == (i != bad), 'constraint %d %s a %s transition', i, 'accepts' if z else 'refuses',
              'true' if bad is None else 'false')


@sub('P27', 'sizes', st.tuples(st.integers(1, 300), st.sampled_from([5, 97, BIGP])).map(list), 180,
     rule='not of the form 2^t - 1')
def air_sizes(case, rec):
  from starks.air import AIR
  from starks.utils import generate_Xi_s
  steps, p = case
  F = zp(p)
  X = generate_Xi_s(F, 1)
  ok = steps > 0 and (steps + 1) & steps == 0
  rec.nt(not ok)
  if ok:
    a = AIR(F, 1, [F(1)], steps, [X[0] + 1], 8)
    require(a.t == steps.bit_length() and a.T == steps and len(a.computational_trace) == steps, 'size %r', (a.t, a.T))
  else:
    must_reject('%d steps' % steps, AIR, F, 1, [F(1)], steps, [X[0] + 1], 8)


# ---------------------------------------------------------------- P28, P29 low-degree proofs


def admissible(bound):
  """The bound is a multiple of 4 in every round that folds."""
  while bound > 16:
    if bound % 4:
      return False
    bound //= 4
  return True


def h32(x):
  return hashlib.blake2s(x).digest()


def sampled(top, below, count, factor, exclude):
  """Positions a verifier asks for: by the commitment to the values and the one made after it."""
  from starks.utils import get_pseudorandom_indices
  return get_pseudorandom_indices(h32(top + below), count, factor, exclude_multiples_of=exclude)


def rounds_of(bound):
  r = 0
  while bound > 16:
    bound //= 4
    r += 1
  return r


BOUNDS = [b for b in range(1, 513) if admissible(b)]


def poly_coeffs(p, spec):
  """Model coefficients of a polynomial of exactly the given degree (-1: zero)."""
  deg, kind, seed = spec
  if deg < 0:
    return []
  if kind == 'dense':
    c = [hint(seed, i) % p for i in range(deg + 1)]
  elif kind == 'mono':
    c = [0] * (deg + 1)
  elif kind == 'low':
    c = [hint(seed, i) % p if i < 3 else 0 for i in range(deg + 1)]
  else:
    c = [hint(seed, i) % p if hint(seed, 's', i) % 4 == 0 else 0 for i in range(deg + 1)]
  c[deg] = 1 + hint(seed, 'lead') % (p - 1)
  return c


KINDS = st.sampled_from(['dense', 'dense', 'sparse', 'mono', 'low'])


@st.composite
def fri_params(draw, ps, sound):
  n = draw(st.sampled_from([4, 8, 16, 32, 64, 128, 256, 512]))
  e = draw(st.one_of(st.just(0), st.sampled_from([2, 4, 8, 16]), st.integers(2, 12)))
  ok = [b for b in BOUNDS if b <= n]
  if sound:
    ok = [b for b in ok if b // 4**rounds_of(b) < final_points(n, b, e) and b < n]
    if not ok:
      n, e = 64, 0
      ok = [b for b in BOUNDS if b < 64]
    fold = [b for b in ok if b > 16]
    bound = draw(st.sampled_from(fold if fold and draw(st.integers(0, 2)) else ok))
  else:
    fold = [b for b in ok if b > 16]
    bound = draw(st.one_of(st.sampled_from(fold if fold else ok), st.sampled_from(ok)))
  return dict(p=draw(ps), n=n, exclude=e, bound=bound,
              factor=draw(st.one_of(st.none(), st.integers(1, 60), st.just(40))))


def final_points(n, bound, e):
  n //= 4**rounds_of(bound)
  return n if not e else len([x for x in range(n) if x % e])


@st.composite
def fri_complete_cases(draw):
  c = draw(fri_params(any_p, False))
  b = c['bound']
  deg = draw(st.one_of(st.just(b - 1), st.integers(-1, b - 1), st.integers(0, b - 1)))
  c['poly'] = [deg, draw(KINDS), draw(st.integers(0, 1000))]
  c['turn'] = draw(TURNS)
  return c


# another root of unity of the same order: an odd power
TURNS = st.one_of(st.just(1), st.integers(0, 300).map(lambda i: 2 * i + 1))


def fri_setup(case):
  from starks.fft import NonBinaryFFT
  from starks.fri import SmoothSubgroupFRI
  p, n = case['p'], case['n']
  F = zp(p)
  g = F(pow(root(p, n), case.get('turn', 1), p))
  kw = dict(exclude_multiples_of=case['exclude'])
  if case['factor'] is not None:
    kw['fri_spot_check_security_factor'] = case['factor']
  return F, g, SmoothSubgroupFRI(F), NonBinaryFFT(F, g), kw


def real_poly(F, coeffs):
  from starks.polynomial import polynomials_over
  return polynomials_over(F)([F(c) for c in coeffs])


@sub('P28', 'completeness', fri_complete_cases(), 1200, rule='the proof has at least one folding round')
def fri_complete(case, rec):
  from starks.compression import compress_fri, decompress_fri
  from starks.merkle_tree import merkelize
  F, g, fri, fft, kw = fri_setup(case)
  coeffs = poly_coeffs(case['p'], case['poly'])
  f = real_poly(F, coeffs)
  values = fft.fft(f)
  r = merkelize(values)[1]
  proof = fri.generate_proximity_proof(f, g, case['bound'], **kw)
  k = rounds_of(case['bound'])
  rec.nt(k > 0)
  rec.label('rounds %d' % k)
  rec.label('exclude' if case['exclude'] else 'plain')
  require(len(proof) == k + 1, '%d components, expected %d folding rounds', len(proof), k)
  count = 40 if case['factor'] is None else case['factor']
  for _, branches in proof[:-1]:
    require(len(branches) == count, '%d spot checks, asked for %d', len(branches), count)
  keep = copy.deepcopy(proof)
  require(fri.verify_proximity_proof(proof, r, g, case['bound'], **kw) is True, 'an honest proof is not accepted')
  require(proof == keep, 'verification changed the proof')
  again = fri.generate_proximity_proof(f, g, case['bound'], **kw)
  require(again == proof, 'the proof is not deterministic')
  back = decompress_fri(compress_fri(proof))
  require(fri.verify_proximity_proof(back, r, g, case['bound'], **kw) is True,
          'the proof is not accepted after compression')


@st.composite
def fri_high_cases(draw):
  c = draw(fri_params(big_p, True))
  k = rounds_of(c['bound'])
  top = min(c['n'], final_points(c['n'], c['bound'], c['exclude']) * 4**k) - 1
  top = max(top, c['bound'])
  c['poly'] = [draw(st.one_of(st.just(c['bound']), st.just(top), st.integers(c['bound'], top))), draw(KINDS),
               draw(st.integers(0, 1000))]
  c['turn'] = draw(TURNS)
  return c


def accepted(fn, *args, **kw):
  try:
    return bool(fn(*args, **kw))
  except Exception:
    return False


@sub('P29', 'degree too high', fri_high_cases(), 1200, rule='the proof has at least one folding round')
def fri_high_degree(case, rec):
  from starks.merkle_tree import merkelize
  F, g, fri, fft, kw = fri_setup(case)
  f = real_poly(F, poly_coeffs(case['p'], case['poly']))
  values = fft.fft(f)
  k = rounds_of(case['bound'])
  rec.nt(k > 0)
  rec.label('rounds %d' % k)
  rec.label('degree = bound' if case['poly'][0] == case['bound'] else 'degree above')
  try:
    proof = fri.generate_proximity_proof(f, g, case['bound'], **kw)
  except Exception:
    rec.label('prover refuses')
    return
  require(not accepted(fri.verify_proximity_proof, proof, merkelize(values)[1], g, case['bound'], **kw),
          'degree %d accepted under the bound %d (%d points)', case['poly'][0], case['bound'], case['n'])


def leaves_of(proof, path=()):
  """Paths of every byte string in a nested proof."""
  if isinstance(proof, bytes):
    return [path]
  out = []
  for i, x in enumerate(proof):
    out.extend(leaves_of(x, path + (i,)))
  return out


def at(proof, path):
  for i in path:
    proof = proof[i]
  return proof


def put(proof, path, x):
  """A copy of the nested lists with one byte string replaced."""
  if not path:
    return x
  out = list(proof)
  out[path[0]] = put(proof[path[0]], path[1:], x)
  return out


def flipped(b, bit):
  if not b:
    return b'\x01'
  x = bytearray(b)
  bit %= 8 * len(x)
  x[bit // 8] ^= 1 << (bit % 8)
  return bytes(x)


def spread(proof, pick):
  """A leaf path picked evenly over the components first, then inside."""
  node, path = proof, ()
  while not isinstance(node, bytes):
    i = pick % len(node)
    pick //= len(node)
    if len(path) == 0 and not node:
      return None
    node, path = node[i], path + (i,)
  return path


@st.composite
def fri_tamper_cases(draw):
  c = draw(fri_params(any_p, True))
  c['poly'] = [draw(st.integers(0, c['bound'] - 1)), draw(KINDS), draw(st.integers(0, 1000))]
  c['ops'] = draw(st.lists(st.tuples(
      st.sampled_from(['flip', 'flip', 'flip', 'root', 'bound', 'drop', 'swap', 'sibling']), st.integers(0, 2**40),
      st.integers(0, 255)).map(list), min_size=1, max_size=6))
  c['turn'] = draw(TURNS)
  return c


@sub('P29', 'tampered proofs', fri_tamper_cases(), 900, rule='the proof has at least one folding round')
def fri_tampered(case, rec):
  from starks.merkle_tree import merkelize
  F, g, fri, fft, kw = fri_setup(case)
  f = real_poly(F, poly_coeffs(case['p'], case['poly']))
  values = fft.fft(f)
  r = merkelize(values)[1]
  bound = case['bound']
  proof = fri.generate_proximity_proof(f, g, bound, **kw)
  require(accepted(fri.verify_proximity_proof, proof, r, g, bound, **kw), 'an honest proof is not accepted')
  rec.nt(len(proof) > 1)
  for op, pick, bit in case['ops']:
    rec.label(op)
    pr, rr, bb = proof, r, bound
    if op == 'flip':
      path = spread(proof, pick)
      pr = put(proof, path, flipped(at(proof, path), bit))
      rec.label('flip in the last component' if path[0] == len(proof) - 1 else
                'flip in a round root' if path[1] == 0 else 'flip in an opening')
    elif op == 'root':
      rr = flipped(r, bit)
    elif op == 'bound':
      # the statement "degree below d" for the polynomial of degree d
      d = case['poly'][0]
      if d < 1 or not admissible(d) or case['p'] < 2**60 or rounds_of(d) != rounds_of(bound):
        continue
      if d // 4**rounds_of(d) >= final_points(case['n'], d, case['exclude']):
        continue
      bb = d
    elif op == 'drop':
      i = pick % len(proof)
      pr = proof[:i] + proof[i + 1:]
    elif op == 'swap':
      # two different objects exchanged
      a, b = spread(proof, pick), spread(proof, pick // 7 + bit)
      x, y = at(proof, a), at(proof, b)
      if x == y:
        continue
      pr = put(put(proof, a, y), b, x)
    else:
      # the same query answered by the opening of its neighbour
      if len(proof) < 2:
        continue
      i = pick % (len(proof) - 1)
      brs = proof[i][1]
      a, b = pick // 7 % len(brs), bit % len(brs)
      if brs[a] == brs[b]:
        continue
      new = list(brs)
      new[a] = brs[b]
      pr = list(proof)
      pr[i] = [proof[i][0], new]
    require(not accepted(fri.verify_proximity_proof, pr, rr, g, bb, **kw), 'a proof changed by %s is accepted', op)


@st.composite
def last_layer_cases(draw):
  n = draw(st.sampled_from([8, 16, 32, 64, 128, 256, 512, 1024]))
  e = draw(st.one_of(st.just(0), st.sampled_from([2, 4, 8, 16])))
  k = draw(st.sampled_from([0, 0, 0, 1])) if n >= 64 else 0
  ok = [b for b in BOUNDS if rounds_of(b) == k and b // 4**k < final_points(n, b, e)]
  return dict(p=draw(any_p), n=n, exclude=e, bound=draw(st.sampled_from(ok)), factor=draw(st.integers(1, 40)),
              poly=draw(st.tuples(st.integers(0, 15), KINDS, st.integers(0, 1000)).map(list)),
              at=draw(st.one_of(st.integers(0, 20), st.integers(0, n - 1), st.integers(n - 20, n - 1))),
              bit=draw(st.integers(0, 12)))


@sub('P29', 'last component', last_layer_cases(), 600, rule='every case')
def fri_last_layer(case, rec):
  """One value of the last component differs from the polynomial; its root is that of the wrong values."""
  from starks.merkle_tree import merkelize, mk_branch
  F, g, fri, fft, kw = fri_setup(case)
  n, p, bound = case['n'], case['p'], case['bound']
  k = rounds_of(bound)
  deg, kind, seed = case['poly']
  rec.nt()
  rec.label('rounds %d, %d points' % (k, n >> 2 * k))
  if k == 0:
    f = real_poly(F, poly_coeffs(p, [deg % bound, kind, seed]))
    data = [int(v) for v in fft.fft(f)]
    at_ = case['at'] % n
    if case['exclude'] and at_ % case['exclude'] == 0:
      at_ = (at_ + 1) % n
    require(accepted(fri.verify_proximity_proof, [[v.to_bytes(32, 'big') for v in data]], merkelize(data)[1], g, bound,
                     **kw), 'the honest last component is refused')
    data[at_] = (data[at_] + (1 << case['bit'])) % p
    proof = [[v.to_bytes(32, 'big') for v in data]]
    require(not accepted(fri.verify_proximity_proof, proof, merkelize(data)[1], g, bound, **kw),
            'value %d of %d in the last component is not of degree below %d', at_, n, bound)
    return
  # one honest round over a word whose column is wrong in one row that no query looks at
  f = real_poly(F, poly_coeffs(p, [deg % bound, kind, seed]))
  values = fft.fft(f)
  m = merkelize(values)
  honest = fri.generate_proximity_proof(f, g, bound, **kw)
  data = [int.from_bytes(x, 'big') for x in honest[-1]]
  q = len(data)
  at_ = case['at'] % q
  if case['exclude'] and at_ % case['exclude'] == 0:
    at_ = (at_ + 1) % q
  data[at_] = (data[at_] + (1 << case['bit'])) % p
  m2 = merkelize(data)
  ys = sampled(m[1], m2[1], q, case['factor'], case['exclude'])
  branches = [[mk_branch(m2, y)] + [mk_branch(m, y + q * j) for j in range(4)] for y in ys]
  rec.label('not queried' if at_ not in ys else 'queried')
  require(not accepted(fri.verify_proximity_proof, [[m2[1], branches], [v.to_bytes(32, 'big') for v in data]], m[1], g,
                       bound, **kw), 'value %d of %d in the last component is wrong', at_, q)


@st.composite
def partial_cases(draw):
  n = draw(st.sampled_from([64, 128, 256, 512]))
  e = draw(st.sampled_from([0, 0, 2, 4, 8]))
  ok = [b for b in BOUNDS if 16 < b and 2 * b <= n]
  return dict(p=draw(big_p), n=n, exclude=e, bound=draw(st.sampled_from(ok)), factor=draw(st.sampled_from([1, 2, 3, 4, 5, 8, 12])),
              word=draw(st.sampled_from(['constant', 'fourth powers', 'dense', 'low', 'zero'])), seed=draw(st.integers(0, 1000)),
              hits=draw(st.one_of(st.integers(0, 12), st.integers(0, 40))))


@sub('P29', 'columns wrong in part', partial_cases(), 600, rule='some queried row is right and some is wrong')
def fri_partial(case, rec):
  """A low-degree column that agrees with the true one on chosen rows only; everything else is honest.

  The proof must be refused as soon as one queried row is wrong, whatever the other rows say.
  """
  from starks.fft import NonBinaryFFT
  from starks.merkle_tree import merkelize, mk_branch
  F, g, fri, fft, kw = fri_setup(case)
  p, n, bound, e, seed = case['p'], case['n'], case['bound'], case['exclude'], case['seed']
  K = ref.field(['Z', p])
  q = n // 4
  coeffs = poly_coeffs(p, [bound - 1, 'dense', seed])
  if case['word'] == 'constant':
    coeffs = coeffs[:1]
  elif case['word'] == 'low':
    coeffs = coeffs[:3]
  elif case['word'] == 'zero':
    coeffs = []
  elif case['word'] == 'fourth powers':
    coeffs = [c if i % 4 == 0 else 0 for i, c in enumerate(coeffs)]
  coeffs = ref.trim(K, coeffs)
  rec.label(case['word'])
  values = fft.fft(real_poly(F, coeffs))
  m = merkelize([F(v) for v in [int(v) for v in values]])
  x = int(F(m[1]))
  # column of x: fold the coefficients
  col = [0] * (bound // 4)
  for i, c in enumerate(coeffs):
    col[i // 4] = (col[i // 4] + c * pow(x, i % 4, p)) % p
  rows = [i for i in range(q) if not e or i % e]
  for t in range(20):
    right = sorted(rows, key=lambda i: hint(seed, t, i))[:min(case['hits'], bound // 4 - 1)]
    bad = [1 + hint(seed, t, 'scale') % (p - 1)]
    gq = root(p, q)
    for i in right:
      bad = ref.pmul(K, bad, [(-pow(gq, i, p)) % p, 1])
    fake = ref.padd(K, col, bad)
    column = [int(v) for v in NonBinaryFFT(F, g**4).fft(real_poly(F, fake))]
    m2 = merkelize([F(v) for v in column])
    ys = sampled(m[1], m2[1], q, case['factor'], e)
    wrong = [y for y in ys if y not in right]
    if wrong and (len(wrong) < len(ys) or not right or case['factor'] == 1):
      break
  if not wrong:
    return
  rec.nt(len(wrong) < len(ys))
  branches = [[mk_branch(m2, y)] + [mk_branch(m, y + q * j) for j in range(4)] for y in ys]
  rest = fri.generate_proximity_proof(real_poly(F, fake), g**4, bound // 4, **kw)
  require(not accepted(fri.verify_proximity_proof, [[m2[1], branches]] + rest, m[1], g, bound, **kw),
          'accepted although rows %r of the queried %r are wrong', wrong, ys)
  # the same without the openings that show it
  honest = [b for y, b in zip(ys, branches) if y in right]
  first = next(i for i, y in enumerate(ys) if y not in right)
  shapes = {'none': [], 'the right ones': honest, 'those before the first wrong one': branches[:first],
            'right ones instead': [b if y in right else honest[0] for y, b in zip(ys, branches)] if honest else [],
            'empty ones instead': [b if y in right else [] for y, b in zip(ys, branches)],
            'empty branches instead': [b if y in right else [[]] * 5 for y, b in zip(ys, branches)],
            'the right ones first': honest + [b for y, b in zip(ys, branches) if y not in right] if honest else []}
  for how, brs in shapes.items():
    if brs == branches:
      continue
    require(not accepted(fri.verify_proximity_proof, [[m2[1], brs]] + rest, m[1], g, bound, **kw),
            'accepted with other openings (%s) although rows %r of the queried %r are wrong', how, wrong, ys)


@st.composite
def fri_cheat_cases(draw):
  n = draw(st.sampled_from([64, 128, 256]))
  e = draw(st.sampled_from([0, 2, 4, 8]))
  ok = [b for b in BOUNDS if 16 < b and 2 * b <= n]
  return dict(p=draw(big_p), n=n, exclude=e, bound=draw(st.sampled_from(ok)), factor=None,
              wrong=draw(st.sampled_from([1, 1, 2, 3])), level=draw(st.integers(0, 2)), seed=draw(st.integers(0, 1000)),
              mode=draw(st.sampled_from(['column', 'column', 'tail'])))


@sub('P29', 'cheating provers', fri_cheat_cases(), 600, rule='every case')
def fri_cheat(case, rec):
  """A prover that folds a high-degree word into an unrelated low-degree one.

  The column of some round agrees with the true one on a fraction 1 - 1/wrong of the rows and is a
  low-degree word from there on; forty random rows miss the difference with probability below 2^-16
  for wrong <= 3 (and 0 for wrong = 1).
  """
  from starks.fft import NonBinaryFFT
  from starks.merkle_tree import merkelize, mk_branch
  F, g, fri, fft, kw = fri_setup(case)
  p, n, bound, e = case['p'], case['n'], case['bound'], case['exclude']
  rec.nt()
  f = real_poly(F, poly_coeffs(p, [bound - 1 if case['mode'] == 'tail' else n - 1, 'dense', case['seed']]))
  values = fft.fft(f)
  m = merkelize(values)
  rec.label(case['mode'])
  if case['mode'] == 'tail':
    # an honest first part, and a last component of another polynomial
    proof = fri.generate_proximity_proof(f, g, bound, **kw)
    h = real_poly(F, poly_coeffs(p, [0, 'dense', case['seed'] + 1]))
    k = rounds_of(bound)
    tail = [x.to_bytes() for x in NonBinaryFFT(F, g**(4**k)).fft(h)]
    require(not accepted(fri.verify_proximity_proof, proof[:-1] + [tail], m[1], g, bound, **kw),
            'a last component of another polynomial is accepted')
    tail = list(proof[-1])
    tail[case['seed'] % len(tail)] = flipped(tail[case['seed'] % len(tail)], 3)
    require(not accepted(fri.verify_proximity_proof, proof[:-1] + [tail], m[1], g, bound, **kw),
            'a changed last component is accepted')
    return
  # true column at the challenge point
  x = int(F(m[1]))
  q = n // 4
  K = ref.field(['Z', p])
  gg = root(p, n)
  col = []
  for i in range(q):
    xs = [pow(gg, i + q * j, p) for j in range(4)]
    col.append(ref.peval(K, ref.interp(K, xs, [int(values[i + q * j]) for j in range(4)]), x))
  low = real_poly(F, poly_coeffs(p, [bound // 4 - 1, 'dense', case['seed'] + 5]))
  fake = [int(v) for v in NonBinaryFFT(F, g**4).fft(low)]
  if case['wrong'] > 1:
    fake = [fake[i] if hint(case['seed'], i) % case['wrong'] == 0 else col[i] for i in range(q)]
  rec.label('rows wrong: 1/%d' % case['wrong'])
  m2 = merkelize([F(v) for v in fake])
  ys = sampled(m[1], m2[1], q, 40, e)
  if all(fake[y] == col[y] for y in ys):
    return
  branches = [[mk_branch(m2, y)] + [mk_branch(m, y + q * j) for j in range(4)] for y in ys]
  rest = fri.generate_proximity_proof(NonBinaryFFT(F, g**4).inv_fft([F(v) for v in fake]), g**4, bound // 4, **kw)
  # the tail of the proof is honest about the false column; only the fold is wrong
  if case['wrong'] > 1:
    # ... and the last component claims what would be needed
    rec.label('mixed column')
  require(not accepted(fri.verify_proximity_proof, [[m2[1], branches]] + rest, m[1], g, bound, **kw),
          'a column that does not match its rows is accepted')


@st.composite
def chosen_first_cases(draw):
  n = draw(st.sampled_from([128, 256, 256, 512, 1024]))
  e = draw(st.sampled_from([0, 0, 2, 4, 8]))
  ok = [b for b in BOUNDS if 16 < b and 2 * b <= n]
  first = draw(st.sampled_from(['column', 'column', 'values']))
  return dict(p=draw(big_p), n=n, exclude=e, bound=draw(st.sampled_from(ok)), first=first,
              factor=draw(st.sampled_from([None, None, 20, 30] if first == 'column' else [8, 12, 20, 30])),
              known=draw(st.sampled_from(['root', 'root', 'hash of root', 'twice', 'value', 'nothing'])),
              kind=draw(st.sampled_from(['zero', 'constant', 'dense'])), seed=draw(st.integers(0, 10**6)))


@sub('P29', 'rows chosen beforehand', chosen_first_cases(), 300, rule='some value is not of low degree')
def fri_chosen_first(case, rec):
  """One commitment is made to fit the rows that the other, made before it, would lead to.

  Column first: the rows that follow from the column alone are constant, everything else is random.
  Values first: the column is low-degree and right on the rows that follow from the values alone.
  """
  from starks.fft import NonBinaryFFT
  from starks.merkle_tree import merkelize, mk_branch
  from starks.utils import get_pseudorandom_indices
  F, g, fri, fft, kw = fri_setup(case)
  p, n, bound, e, seed = case['p'], case['n'], case['bound'], case['exclude'], case['seed']
  K = ref.field(['Z', p])
  q = n // 4
  factor = 40 if case['factor'] is None else case['factor']

  def guess(known):
    entropy = {'root': known, 'hash of root': h32(known), 'twice': h32(known + known),
               'value': int(F(known)).to_bytes(32, 'big'), 'nothing': b''}[case['known']]
    return get_pseudorandom_indices(entropy, q, factor, exclude_multiples_of=e)

  small = NonBinaryFFT(F, g**4)
  word = [hint(seed, i) % p for i in range(n)]
  if case['first'] == 'column':
    low = poly_coeffs(p, [-1 if case['kind'] == 'zero' else 0 if case['kind'] == 'constant' else bound // 4 - 1, 'dense', seed])
    column = [int(v) for v in small.fft(real_poly(F, low))]
    m2 = merkelize([F(v) for v in column])
    rows = set(guess(m2[1]))
    for y in rows:
      for j in range(4):
        word[y + q * j] = column[y]
    m = merkelize([F(v) for v in word])
  else:
    m = merkelize([F(v) for v in word])
    x, gg = int(F(m[1])), root(p, n)
    rows = sorted(set(guess(m[1])))[:bound // 4]
    right = [ref.peval(K, ref.interp(K, [pow(gg, y + q * j, p) for j in range(4)], [word[y + q * j] for j in range(4)]), x)
             for y in rows]
    low = ref.interp(K, [pow(gg, 4 * y, p) for y in rows], right)
    column = [int(v) for v in small.fft(real_poly(F, low))]
    m2 = merkelize([F(v) for v in column])
  rest = fri.generate_proximity_proof(real_poly(F, low), g**4, bound // 4, **kw)
  rec.label('%s first, by %s' % (case['first'], case['known']))
  ys = sampled(m[1], m2[1], q, factor, e)
  if set(ys) <= set(rows):
    return
  rec.nt(len(set(rows)) < q)
  for asked in (ys, guess(m2[1] if case['first'] == 'column' else m[1])):
    branches = [[mk_branch(m2, y)] + [mk_branch(m, y + q * j) for j in range(4)] for y in asked]
    require(not accepted(fri.verify_proximity_proof, [[m2[1], branches]] + rest, m[1], g, bound, **kw),
            'values of which %d of %d rows are random are accepted', q - len(set(rows)), q)


# One root can be opened to other values when a verifier does not insist on the shape of openings:
# a leaf that is the root of a further tree (deeper openings), a boundary between leaf and sibling at
# another byte, or inner nodes in the place of all values.


def tree_over(leaves):
  """Nodes over leaves in tree order; node 1 is the root."""
  nodes = [b''] * len(leaves) + list(leaves)
  for i in range(len(leaves) - 1, 0, -1):
    nodes[i] = h32(nodes[2 * i] + nodes[2 * i + 1])
  return nodes


def climb(nodes, i):
  out = []
  while i > 1:
    out.append(nodes[i ^ 1])
    i //= 2
  return out


def place(x, n):
  """Index in the tree of a position of a list of n values (at least four)."""
  return x // (n // 4) + 4 * (x % (n // 4))


class TwoFaced(object):
  """A tree of the values `face` that also opens to `hidden`: position 0 holds the root of a second tree.

  The second tree is so deep that every position leads into it.
  """

  def __init__(self, face, hidden):
    from starks.merkle_tree import merkelize
    self.n = n = len(face)
    below = [b'\0' * len(hidden[0])] * (4 * n)
    for x, v in enumerate(hidden):
      below[4 * x] = v
    self.below = tree_over(below)
    self.face = [self.below[1]] + list(face[1:])
    self.tree = merkelize(self.face)
    self.root = self.tree[1]

  def other(self, x):
    i = 4 * x + 4 * self.n
    return [self.below[i]] + climb(self.below, i) + climb(self.tree, self.n)


class Split(object):
  """A tree over p < 2^120 whose leaves read `face` in 32 bytes and `hidden` in 16 of them."""

  def __init__(self, face, hidden, p):
    self.n = n = len(face)
    from starks.merkle_tree import merkelize
    self.leaves = []
    up = pow(2**128, -1, p)
    for x in range(n):
      a, b = face[x] % p, hidden[x] % p
      hi, lo = (b, (a - b * 2**128) % p) if place(x, n) % 2 == 0 else ((a - b) * up % p, b)
      self.leaves.append(hi.to_bytes(16, 'big') + lo.to_bytes(16, 'big'))
    self.tree = merkelize(self.leaves)
    self.root = self.tree[1]

  def other(self, x):
    i = self.n + place(x, self.n)
    rest = climb(self.tree, i)
    leaf = self.leaves[x]
    if i % 2 == 0:
      return [leaf[:16], leaf[16:] + rest[0]] + rest[1:]
    return [leaf[16:], rest[0] + leaf[:16]] + rest[1:]


small_p = st.sampled_from([p for p in smooth_primes() if 2**60 < p < 2**120])


def encoded(values):
  return [int(v).to_bytes(32, 'big') for v in values]


@st.composite
def opening_cases(draw):
  mode = draw(st.sampled_from(['inner nodes', 'inner nodes', 'deep row', 'deep row', 'deep column', 'split row', 'split column']))
  n = draw(st.sampled_from([64, 128, 256, 512]))
  e = draw(st.sampled_from([0, 2, 4, 8]))
  low = 1 if mode == 'inner nodes' else 17
  ok = [b for b in BOUNDS if low <= b and 2 * b <= n and (b <= 64 or 'column' not in mode)]
  if mode == 'deep column':
    e = e or 4
  return dict(mode=mode, p=draw(small_p if 'split' in mode else big_p), n=n, exclude=e, bound=draw(st.sampled_from(ok)),
              factor=draw(st.sampled_from([None, None, 20])), quarter=draw(st.integers(0, 3)), all=draw(st.booleans()),
              level=draw(st.integers(2, 8)), seed=draw(st.integers(0, 1000)))


@sub('P29', 'openings of another shape', opening_cases(), 360, rule='every case')
def fri_openings(case, rec):
  """Words far from low degree whose root a prover can also open to what the verifier wants to see."""
  from starks.fft import NonBinaryFFT
  from starks.merkle_tree import merkelize, mk_branch
  F, g, fri, fft, kw = fri_setup(case)
  K = ref.field(['Z', case['p']])
  p, n, bound, e, seed, mode = case['p'], case['n'], case['bound'], case['exclude'], case['seed'], case['mode']
  factor = 40 if case['factor'] is None else case['factor']
  q = n // 4
  rec.nt()
  rec.label(mode)
  word = [hint(seed, 'word', i) % p for i in range(n)]
  if mode == 'inner nodes':
    # fold honestly, then give the nodes of an inner level for the values of the last component
    values, proof, w, b = word, [], root(p, n), bound
    m = merkelize([F(v) for v in values])
    first = m[1]
    while b > 16:
      q = len(values) // 4
      x = int(F(m[1]))
      col = [ref.peval(K, ref.interp(K, [pow(w, i + q * j, p) for j in range(4)], [values[i + q * j] for j in range(4)]), x)
             for i in range(q)]
      m2 = merkelize([F(v) for v in col])
      ys = sampled(m[1], m2[1], q, factor, e)
      proof.append([m2[1], [[mk_branch(m2, y)] + [mk_branch(m, y + q * j) for j in range(4)] for y in ys]])
      m, values, w, b = m2, col, pow(w, 4, p), b // 4
    size = 2**case['level']
    if size > len(values) // 2:
      size = 4
    if size > len(values) // 2:
      return
    rec.label('vacuous' if size <= b else 'random values')
    data = [m[size + place(i, size)] for i in range(size)]
    require(not accepted(fri.verify_proximity_proof, proof + [data], first, g, bound, **kw),
            '%d inner nodes of the tree are accepted for %d values', size, len(values))
    return
  good = [int(v) for v in fft.fft(real_poly(F, poly_coeffs(p, [bound - 1, 'dense', seed])))]
  if 'row' in mode:
    # the word is wrong in one quarter (or everywhere); openings there show the good word
    bad = [word[i] if case['all'] or i // q == case['quarter'] else good[i] for i in range(n)]
    two = TwoFaced(encoded(bad), encoded(good)) if mode == 'deep row' else Split(bad, good, p)
    x = int(F(two.root))
    honest = lambda y: mk_branch(two.tree, y)
    row = lambda y, j: two.other(y + q * j) if case['all'] or j == case['quarter'] else honest(y + q * j)
    top = two.root
  else:
    m = merkelize([F(v) for v in word])
    x, top = int(F(m[1])), m[1]
    row = lambda y, j: mk_branch(m, y + q * j)
    good = word
  gg = root(p, n)
  xs = [pow(gg, i, p) for i in range(n)]
  col = [ref.peval(K, ref.interp(K, [xs[i + q * j] for j in range(4)], [good[i + q * j] for j in range(4)]), x)
         for i in range(q)]
  if 'row' in mode:
    low = NonBinaryFFT(F, g**4).inv_fft([F(v) for v in col])
    m2 = merkelize([F(v) for v in col])
    opened = lambda y: mk_branch(m2, y)
    below = m2[1]
    rest = fri.generate_proximity_proof(low, g**4, bound // 4, **kw)
  else:
    fake = poly_coeffs(p, [bound // 4 - 1, 'dense', seed + 1])
    face = [int(v) for v in NonBinaryFFT(F, g**4).fft(real_poly(F, fake))]
    two = TwoFaced(encoded(face), encoded(col)) if mode == 'deep column' else Split(face, col, p)
    opened, below = two.other, two.root
    rest = [list(two.face if mode == 'deep column' else two.leaves)]
  ys = sampled(top, below, q, factor, e)
  if mode == 'deep row' and 0 in ys and case['quarter'] and not case['all']:
    return
  rec.label('complete attack')
  proof = [[below, [[opened(y)] + [row(y, j) for j in range(4)] for y in ys]]] + rest
  require(not accepted(fri.verify_proximity_proof, proof, top, g, bound, **kw), 'openings of another shape are accepted (%s)', mode)


# ---------------------------------------------------------------- P30-P32 STARKs


def stark_ok(steps, deg):
  return admissible(steps * deg)


@st.composite
def stark_cases(draw, ps, sound=False, max_width=4, steps_choices=(2, 4, 4, 8, 8, 8, 16, 16, 32)):
  steps = draw(st.sampled_from(steps_choices))
  w = draw(st.integers(1, max_width))
  p = draw(ps)
  ok = [d for d in (1, 2, 3, 4, 5, 6) if stark_ok(steps, d)]
  deg = draw(st.sampled_from(ok))
  ext = draw(st.sampled_from([x for x in ((4, 8, 16, 32) if sound else (2, 4, 8, 16)) if
                              (x >= 4 * (deg + 1) if sound else x >= deg) and steps * x <= 256 and steps * x >= 4] or
                             [32 if sound else 8]))
  if sound and steps * ext > 512:
    steps = 512 // ext
    if not stark_ok(steps, deg):
      deg, ext, steps = 1, 8, 8
  d = ['Z', p]
  polys = []
  lead = draw(st.integers(0, w - 1))
  for i in range(w):
    terms = {}
    for _ in range(draw(st.integers(0 if i != lead else 1, 3))):
      vs = draw(st.lists(st.integers(0, w - 1), max_size=deg))
      terms[tuple(vs.count(k) for k in range(w))] = draw(gens.elements(d))
    if i == lead:
      vs = draw(st.lists(st.integers(0, w - 1), min_size=deg, max_size=deg))
      terms[tuple(vs.count(k) for k in range(w))] = draw(gens.elements(d, nonzero=True))
    polys.append([[list(e), c] for e, c in terms.items()])
  el = gens.elements(d)
  if draw(st.integers(0, 3)) == 0:  # the same value in several dimensions
    el = st.sampled_from(draw(st.lists(el, min_size=1, max_size=2)))
  return dict(p=p, steps=steps, ext=ext, width=w, polys=polys,
              inp=draw(st.lists(el, min_size=w, max_size=w)),
              checks=draw(st.one_of(st.none(), st.integers(1, 100))))


class Instance(object):
  """A statement, its honest witness, and the real objects."""

  def __init__(self, case):
    from starks.stark import STARK
    self.case = case
    self.K = K = ref.field(['Z', case['p']])
    self.F = zp(case['p'])
    self.steps, self.ext, self.w = case['steps'], case['ext'], case['width']
    self.models = [model_multi(K, js) for js in case['polys']]
    self.deg = max(sum(e) for m in self.models for e in m)
    self.inp = [K.val(j) for j in case['inp']]
    self.trace = model_trace(K, self.models, self.inp, self.steps)
    self.sp = [multi(K, self.w, m) for m in self.models]
    kw = {} if case['checks'] is None else dict(spot_check_security_factor=case['checks'])
    self.kw = kw
    self.stark = STARK(self.F, self.steps, self.ext, self.w, self.sp, **kw)

  def witness(self, trace=None):
    return [[self.F(s[j]) for s in (trace or self.trace)] for j in range(self.w)]

  def boundary(self, inp=None):
    return [(0, j, self.F(a)) for j, a in enumerate(inp or self.inp)]

  def valid(self, trace):
    return all(ref.meval(self.K, self.models[j], trace[i]) == trace[i + 1][j]
               for i in range(self.steps - 1) for j in range(self.w))


@sub('P30', 'completeness', stark_cases(any_p), 180, rule='width at least 2, or degree at least 2')
def stark_complete(case, rec):
  I = Instance(case)
  rec.nt(I.w > 1 or I.deg > 1)
  rec.label('width %d' % I.w)
  rec.label('degree %d' % I.deg)
  rec.label('rounds %d' % rounds_of(I.steps * I.deg))
  w, b = I.witness(), I.boundary()
  proof = I.stark.mk_proof(w, b)
  require(w == I.witness() and b == I.boundary(), 'proving changed its input')
  m_root, l_root, branches, fri_proof = proof
  count = 80 if case['checks'] is None else case['checks']
  require(len(branches) == 3 * count, '%d openings for %d spot checks', len(branches), count)
  keep = copy.deepcopy(proof)
  require(I.stark.verify_proof(proof, w, b) is True, 'an honest proof is not accepted')
  require(proof == keep, 'verification changed the proof')
  # a verifier that knows only input and output
  from starks.stark import STARK
  other = STARK(I.F, I.steps, I.ext, I.w, I.sp, **I.kw)
  public = [[r[0]] + [I.F(0)] * (I.steps - 2) + [r[-1]] if I.steps > 1 else r for r in w]
  require(other.verify_proof(proof, public, b) is True, 'a verifier with only input and output does not accept')
  if I.steps <= 8:
    require(I.stark.mk_proof(I.witness(), I.boundary()) == proof, 'the proof is not deterministic')


@sub('P30', 'repository traces', stark_cases(st.just(BIGP), max_width=3, steps_choices=(2, 4, 8, 16)), 180,
     rule='the trace is not constant')
def stark_from_trace(case, rec):
  """The pipeline of the tutorials: trace, transposed witness, proof, compression of the openings."""
  from starks.air import get_computational_trace
  from starks.compression import compress_branches, compress_fri, decompress_branches, decompress_fri
  I = Instance(case)
  rec.nt(any(s != I.trace[0] for s in I.trace))
  tr, out = get_computational_trace([I.F(a) for a in I.inp], I.steps, I.w, I.sp)
  require([int(x) for x in out] == I.trace[-1], 'output of the computation')
  w = [[tr[i][j] for i in range(I.steps)] for j in range(I.w)]
  m, l, brs, fri = I.stark.mk_proof(w, I.boundary())
  over = [m, l, decompress_branches(compress_branches(brs)), decompress_fri(compress_fri(fri))]
  require(I.stark.verify_proof(over, w, I.boundary()) is True, 'a compressed proof is not accepted')


WIDE = stark_cases(any_p, max_width=10, steps_choices=(4, 8))


@sub('P30', 'wide states', WIDE, 90, rule='width at least 5')
def stark_wide(case, rec):
  I = Instance(case)
  rec.nt(I.w > 4)
  proof = I.stark.mk_proof(I.witness(), I.boundary())
  require(I.stark.verify_proof(proof, I.witness(), I.boundary()) is True, 'an honest proof of width %d is not accepted', I.w)


@st.composite
def stark_tamper_cases(draw):
  wide = draw(st.integers(0, 4)) == 0
  c = draw(stark_cases(any_p, max_width=7 if wide else 3, steps_choices=(2, 4) if wide else (2, 4, 8, 16)))
  d = ['Z', c['p']]
  c['ops'] = draw(st.lists(st.tuples(
      st.sampled_from(['flip', 'flip', 'flip', 'opening', 'input', 'output', 'step', 'drop', 'swap', 'fewer', 'statement',
                       'statement', 'statement']),
      st.integers(0, 2**40), st.integers(0, 255), gens.elements(d, nonzero=True)).map(list), min_size=1, max_size=6))
  return c


@sub('P31', 'tampered proofs and statements', stark_tamper_cases(), 480, rule='every case')
def stark_tampered(case, rec):
  from starks.stark import STARK
  I = Instance(case)
  w, b = I.witness(), I.boundary()
  proof = I.stark.mk_proof(w, b)
  require(I.stark.verify_proof(proof, w, b) is True, 'an honest proof is not accepted')
  rec.nt()
  for op, pick, bit, delta in case['ops']:
    rec.label(op)
    pr, ww, bb, verifier = proof, w, b, I.stark
    dim = pick % I.w
    if op == 'flip':
      path = spread(proof, pick)
      pr = put(proof, path, flipped(at(proof, path), bit))
      rec.label('flip in component %d' % path[0])
    elif op == 'opening':
      # one spot check answered with the openings of another
      brs = proof[2]
      n = len(brs) // 3
      k, j, l = pick % 3, bit % n, pick // 3 % n
      if brs[3 * j + k] == brs[3 * l + k]:
        continue
      new = list(brs)
      new[3 * j + k] = brs[3 * l + k]
      pr = [proof[0], proof[1], new, proof[3]]
    elif op == 'input':
      inp = list(I.inp)
      inp[dim] = (inp[dim] + delta) % case['p']
      bb = I.boundary(inp)
    elif op == 'output':
      ww = [list(r) for r in w]
      ww[dim][-1] = ww[dim][-1] + I.F(delta)
    elif op == 'statement':
      # a false statement made of the values that do occur: copied, exchanged or moved to zero
      rows = [list(I.inp), list(I.trace[-1])]
      side, other = pick // 7 % 2, bit % I.w
      how = pick // 14 % 4
      if how == 0:
        rows[side][dim] = rows[side][other]
      elif how == 1:
        rows[side][dim], rows[side][other] = rows[side][other], rows[side][dim]
      elif how == 2:
        rows[side][dim] = rows[1 - side][dim]
      else:
        rows[side][dim] = bit % 2
      if rows == [I.inp, I.trace[-1]]:
        continue
      bb = I.boundary(rows[0])
      ww = [[r[0]] + list(r[1:-1]) + [I.F(z)] for r, z in zip(w, rows[1])]
      rec.label('statement, %s' % ['copied', 'exchanged', 'other end', 'constant'][how])
    elif op == 'step':
      models = [dict(m) for m in I.models]
      z = tuple([0] * I.w)
      models[dim][z] = (models[dim].get(z, 0) + delta) % case['p']
      models[dim] = {e: c for e, c in models[dim].items() if c}
      verifier = STARK(I.F, I.steps, I.ext, I.w, [multi(I.K, I.w, m) for m in models], **I.kw)
    elif op == 'drop':
      i = pick % 4
      pr = list(proof)
      pr[i] = proof[i][:-1]
    elif op == 'swap':
      x, y = spread(proof, pick), spread(proof, pick // 5 + bit)
      if at(proof, x) == at(proof, y):
        continue
      pr = put(put(proof, x, at(proof, y)), y, at(proof, x))
    else:
      # openings for fewer checks than the verifier makes
      cut = 3 * (1 if pick % 3 == 0 else len(proof[2]) // 3 if pick % 3 == 1 else 1 + pick // 3 % (len(proof[2]) // 3))
      pr = [proof[0], proof[1], proof[2][:-cut], proof[3]]
    require(not accepted(verifier.verify_proof, pr, ww, bb), 'accepted after %s', op)


@st.composite
def bad_trace_cases(draw):
  wide = draw(st.integers(0, 4)) == 0
  c = draw(stark_cases(any_p, max_width=8 if wide else 3, steps_choices=(2, 4) if wide else (2, 4, 8, 16)))
  d = ['Z', c['p']]
  c['edits'] = draw(st.lists(st.tuples(st.integers(0, 15), st.integers(0, 7), gens.elements(d, nonzero=True)).map(list),
                             min_size=1, max_size=2))
  c['shift'] = draw(st.booleans())
  return c


@sub('P31', 'wrong traces', bad_trace_cases(), 600, rule='the trace breaks a transition')
def stark_bad_trace(case, rec):
  """A trace with wrong cells: refused by the prover, or its proof by the verifier."""
  I = Instance(case)
  tr = [list(s) for s in I.trace]
  for i, j, delta in case['edits']:
    i, j = i % I.steps, j % I.w
    tr[i][j] = (tr[i][j] + delta) % case['p']
  valid = I.valid(tr)
  w = I.witness(tr)
  b = I.boundary(tr[0]) if case['shift'] else I.boundary()
  true = valid and (case['shift'] or tr[0] == I.inp)
  rec.nt(not valid)
  rec.label('valid' if valid else 'broken in one place' if len(case['edits']) == 1 else 'broken')
  try:
    proof = I.stark.mk_proof(w, b)
  except Exception:
    require(not true, 'the prover refuses a true statement')
    rec.label('prover refuses')
    return
  got = accepted(I.stark.verify_proof, proof, w, b)
  rec.label('verifier decides')
  require(got == true, 'a %s statement is %s', 'true' if true else 'false', 'accepted' if got else 'refused')


@st.composite
def forgeries(draw):
  wide = draw(st.integers(0, 3)) == 0
  c = draw(stark_cases(big_p, sound=True, max_width=6 if wide else 3, steps_choices=(4,) if wide else (4, 8, 8, 16)))
  c['side'] = draw(st.sampled_from(['output', 'output', 'input', 'both']))
  d = ['Z', c['p']]
  c['checks'] = draw(st.sampled_from([None, 40, 60]))
  c['attack'] = draw(st.sampled_from(['garbage', 'unrelated', 'remainder', 'pointwise', 'boundary', 'scaled', 'lateral', 'blank', 'blank']))
  c['delta'] = draw(gens.elements(d, nonzero=True))
  c['dim'] = draw(st.integers(0, c['width'] - 1))
  c['row'] = draw(st.integers(0, 15))
  c['seed'] = draw(st.integers(0, 1000))
  c['blank'] = draw(st.lists(st.sampled_from('pdbl'), min_size=1, max_size=4, unique=True))
  c['fill'] = draw(st.sampled_from([0, 0, 0, 1, -1]))
  return c


@sub('P31', 'forged proofs', forgeries(), 360, rule='every case')
def stark_forged(case, rec):
  """A prover of a false statement that builds every component by hand."""
  from starks.fri import SmoothSubgroupFRI
  from starks.merkle_tree import merkelize, merkelize_polynomial_evaluations, mk_branch
  from starks.stark import compute_pseudorandom_linear_combination
  I = Instance(case)
  K, F, p, n, w, steps, ext = I.K, I.F, case['p'], I.steps * I.ext, I.w, I.steps, I.ext
  attack = case['attack']
  rec.nt()
  rec.label(attack)
  g2 = root(p, n)
  xs = [pow(g2, i, p) for i in range(n)]
  last = xs[(steps - 1) * ext]
  fft = I.stark.fft_solver
  dim = case['dim'] % w
  P = uni(K)

  def table(poly):
    return [int(v) for v in fft.fft(poly)]

  def from_table(t):
    r = fft.inv_fft([F(v) for v in t])
    return r if isinstance(r, P) else P([r])

  # the claim: a false output for the input, or a false input for the output
  claim, cin = list(I.trace[-1]), list(I.inp)
  side = 'output' if attack == 'lateral' else case['side']
  if side != 'input':
    claim[dim] = (claim[dim] + case['delta']) % p
  if side != 'output':
    cin[dim] = (cin[dim] + case['delta']) % p
    if model_trace(K, I.models, cin, steps)[-1] == claim:
      return
  rec.label('false ' + side)
  tr = [list(s) for s in I.trace]
  tr[-1] = claim
  tr[0] = cin
  if attack == 'lateral' and steps > 2:
    # jump to another run in the middle instead of at the end
    row = 1 + case['row'] % (steps - 1)
    tr = [list(s) for s in I.trace[:row]]
    s = list(I.trace[row])
    s[dim] = (s[dim] + case['delta']) % p
    tr.append(s)
    while len(tr) < steps:
      tr.append([ref.meval(K, m, tr[-1]) for m in I.models])
    if tr[-1] == I.trace[-1]:
      return
    claim = tr[-1]
  g1 = pow(g2, ext, p)
  hx = [pow(g1, i, p) for i in range(steps)]
  if attack == 'garbage':
    ptab = [[hint(case['seed'], j, i) % p for i in range(n)] for j in range(w)]
  else:
    ptab = []
    for j in range(w):
      c = ref.interp(K, hx, [s[j] for s in tr])
      ptab.append(table(P([F(a) for a in c])))
  # pointwise quotients: every local relation holds wherever it can be checked
  inv = lambda a: pow(a, p - 2, p)
  dtab, btab = [], []
  for j in range(w):
    i0, i1 = cin[j], claim[j]
    line = lambda x, i0=i0, i1=i1: (i0 + (i1 - i0) * (x - 1) % p * inv(last - 1)) % p
    drow, brow = [], []
    for i, x in enumerate(xs):
      z = (pow(x, steps, p) - 1) % p
      z = z * inv((x - last) % p) % p if x != last else 0
      c = (ptab[j][(i + ext) % n] - ref.meval(K, I.models[j], [ptab[k][i] for k in range(w)])) % p
      drow.append(c * inv(z) % p if z else 0)
      q = (x - 1) * (x - last) % p
      brow.append((ptab[j][i] - line(x)) * inv(q) % p if q else 0)
    dtab.append(drow)
    btab.append(brow)
  if attack in ('remainder', 'scaled', 'lateral'):
    # low-degree quotients that ignore the remainder
    low = [v for v in range(n) if v % ext]
    for j in range(w):
      k = min(max(1, (I.deg - 1) * (steps - 1) + 1), len(low))
      pts = low[:k]
      c = ref.interp(K, [xs[i] for i in pts], [dtab[j][i] for i in pts])
      dtab[j] = table(P([F(a) for a in c]))
      if attack == 'scaled':
        dtab[j] = [v * 2 % p for v in dtab[j]]
  if attack == 'boundary':
    # a true run, presented with the false output
    for j in range(w):
      c = ref.interp(K, hx, [s[j] for s in I.trace])
      ptab[j] = table(P([F(a) for a in c]))
    mk = I.stark.mk_proof(I.witness(), I.boundary())
    require(accepted(I.stark.verify_proof, mk, I.witness(), I.boundary()), 'an honest proof is not accepted')
    for j in range(w):
      i0, i1 = cin[j], claim[j]
      for i, x in enumerate(xs):
        z = (pow(x, steps, p) - 1) % p
        z = z * inv((x - last) % p) % p if x != last else 0
        c = (ptab[j][(i + ext) % n] - ref.meval(K, I.models[j], [ptab[k][i] for k in range(w)])) % p
        dtab[j][i] = c * inv(z) % p if z else dtab[j][i]
        q = (x - 1) * (x - last) % p
        v = (i0 + (i1 - i0) * (x - 1) % p * inv(last - 1)) % p
        btab[j][i] = (ptab[j][i] - v) * inv(q) % p if q else 0
  if attack == 'blank':
    # whole parts of the proof are zero (or constant)
    fill = [[case['fill'] % p] * n for _ in range(w)]
    ptab, dtab, btab = [fill if k in case['blank'] else t for k, t in zip('pdb', (ptab, dtab, btab))]
    rec.label('blank ' + ''.join(sorted(case['blank'])))
  tabs = ptab + dtab + btab
  mtree = merkelize_polynomial_evaluations(w, [[F(v) for v in t] for t in tabs])
  polys = [from_table(t) for t in tabs]
  l = compute_pseudorandom_linear_combination(mtree[1], polys[:w], polys[w:2 * w], polys[2 * w:], F, F(g2), n, steps, w)
  if attack == 'unrelated':
    l = P([F(hint(case['seed'], 'l', i) % p) for i in range(steps * I.deg)])
  if attack == 'blank' and 'l' in case['blank']:
    l = P([F(case['fill'])])
  ltree = merkelize(fft.fft(l))
  count = 80 if case['checks'] is None else case['checks']
  branches = []
  for pos in sampled(mtree[1], ltree[1], n, count, ext):
    branches += [mk_branch(mtree, pos), mk_branch(mtree, (pos + ext) % n), mk_branch(ltree, pos)]
  fri = SmoothSubgroupFRI(F)
  proof = [mtree[1], ltree[1], branches,
           fri.generate_proximity_proof(l, F(g2), steps * I.deg, exclude_multiples_of=ext)]
  wit = [[F(cin[j])] + [F(0)] * (steps - 2) + [F(claim[j])] for j in range(w)]
  require(not accepted(I.stark.verify_proof, proof, wit, I.boundary(cin)),
          'a forged proof (%s) of a false %s is accepted', attack, side)


# ---------------------------------------------------------------- components


@st.composite
def component_cases(draw):
  c = draw(stark_cases(any_p, max_width=3, steps_choices=(2, 4, 8, 16)))
  d = ['Z', c['p']]
  c['point'] = draw(gens.elements(d))
  c['entropy'] = draw(st.binary(min_size=32, max_size=32)).hex()
  c['cell'] = draw(st.tuples(st.integers(0, 15), st.integers(0, 3), gens.elements(d, nonzero=True)).map(list))
  return c


@sub('P32', 'polynomials of a trace', component_cases(), 900, rule='width at least 2, or degree at least 2')
def components(case, rec):
  from starks import stark as S
  I = Instance(case)
  K, F, p = I.K, I.F, case['p']
  rec.nt(I.w > 1 or I.deg > 1)
  g2 = root(p, I.steps * I.ext)
  g1 = pow(g2, I.ext, p)
  hx = [pow(g1, i, p) for i in range(I.steps)]
  last = F(hx[-1])
  w = I.witness()
  tps = S.construct_trace_polynomials(w, F, F(g1))
  mt = [canon_poly_or_elem(K, t) for t in tps]
  for j in range(I.w):
    require(len(mt[j]) <= I.steps, 'trace polynomial of degree %d for %d steps', len(mt[j]) - 1, I.steps)
    for i, x in enumerate(hx):
      require(ref.peval(K, mt[j], x) == I.trace[i][j], 'trace polynomial %d at step %d', j, i)
  cps = S.construct_constraint_polynomials(I.sp, tps, F, F(g1), I.w)
  mc = [canon_poly_or_elem(K, c) for c in cps]
  pts = [case['point']] + [hint(case['entropy'], i) % p for i in range(3)] + hx
  for x in pts:
    cur = [ref.peval(K, m, x) for m in mt]
    nxt = [ref.peval(K, m, g1 * x % p) for m in mt]
    for j in range(I.w):
      want = (nxt[j] - ref.meval(K, I.models[j], cur)) % p
      require(ref.peval(K, mc[j], x) == want, 'constraint polynomial %d at %d', j, x)
  rps = S.construct_remainder_polynomials(cps, F, I.steps, last)
  z = ref.pdivmod(K, [p - 1] + [0] * (I.steps - 1) + [1], [(-hx[-1]) % p, 1])[0]
  for j in range(I.w):
    d = canon_poly_or_elem(K, rps[j])
    require(ref.pmul(K, d, z) == mc[j], 'quotient %d times the vanishing polynomial is not the constraint', j)
  bps = S.construct_boundary_polynomials(tps, w, I.boundary(), F, last, I.w)
  if I.steps > 1:
    q = ref.pmul(K, [p - 1, 1], [(-hx[-1]) % p, 1])
    for j in range(I.w):
      b = canon_poly_or_elem(K, bps[j])
      line = ref.interp(K, [1, hx[-1]], [I.inp[j], I.trace[-1][j]])
      require(ref.padd(K, ref.pmul(K, b, q), line) == mt[j], 'boundary polynomial %d', j)
  # a wrong cell leaves a remainder, and is refused
  i, j, delta = case['cell']
  tr = [list(s) for s in I.trace]
  tr[i % I.steps][j % I.w] = (tr[i % I.steps][j % I.w] + delta) % p
  if not I.valid(tr):
    tps2 = S.construct_trace_polynomials(I.witness(tr), F, F(g1))
    cps2 = S.construct_constraint_polynomials(I.sp, tps2, F, F(g1), I.w)
    must_reject('the quotient of a wrong trace', S.construct_remainder_polynomials, cps2, F, I.steps, last)
    rec.label('wrong cell')


@st.composite
def combination_cases(draw):
  p = draw(big_p)
  w = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 11, 14]))
  steps = draw(st.sampled_from([2, 4, 8]))
  ext = draw(st.sampled_from([2, 4, 8]))
  return dict(p=p, width=w, steps=steps, ext=ext, entropy=draw(st.binary(min_size=32, max_size=32)).hex(),
              seed=draw(st.integers(0, 1000)), which=draw(st.integers(0, 2)), dim=draw(st.integers(0, 13)),
              scale=draw(gens.elements(['Z', p], nonzero=True)))


@sub('P32', 'random linear combination', combination_cases(), 600, rule='width at least 2')
def combination(case, rec):
  from starks.stark import compute_pseudorandom_linear_combination as comb
  p, w = case['p'], case['width']
  F = zp(p)
  K = ref.field(['Z', p])
  rec.nt(w > 1)
  rec.label('width %d' % w)
  n = case['steps'] * case['ext']
  g2 = F(root(p, n))
  ent = bytes.fromhex(case['entropy'])
  fam = lambda s: [[[hint(case['seed'], s, k, j, i) % p for i in range(1 + hint(s, k, j) % 5)] for j in range(w)]
                   for k in range(3)]

  def run(ms, e=ent):
    a = [[real_poly(F, m) for m in row] for row in ms]
    return canon_poly_or_elem(K, comb(e, a[0], a[1], a[2], F, g2, n, case['steps'], w))

  A, B = fam('a'), fam('b')
  la, lb = run(A), run(B)
  require(run(A) == la, 'not deterministic')
  s = case['scale']
  both = [[ref.padd(K, [s * c % p for c in x], y) for x, y in zip(r, t)] for r, t in zip(A, B)]
  require(run(both) == ref.padd(K, ref.trim(K, [s * c % p for c in la]), lb), 'not linear in the polynomials')
  # every polynomial takes part, with its own weight
  zero = [[[] for _ in range(w)] for _ in range(3)]
  weights = []
  for k in range(3):
    for j in range(w):
      one = [[list(x) for x in r] for r in zero]
      one[k][j] = [1]
      r = run(one)
      require(len(r) == 1, 'polynomial %d of kind %d has the weight %r', j, k, r)
      weights.append(r[0])
  require(len(set(weights)) == 3 * w, 'two polynomials share a weight')
  want = []
  for t, r in zip(weights, [x for row in A for x in row]):
    want = ref.padd(K, want, ref.trim(K, [t * c % p for c in r]))
  require(la == want, 'the combination is not the weighted sum')
  e2 = bytearray(ent)
  e2[case['seed'] % 32] ^= 1
  w2 = []
  for k in range(3):
    one = [[list(x) for x in r] for r in zero]
    one[k][case['dim'] % w] = [1]
    w2.append(run(one, bytes(e2))[0])
  require(all(x not in weights for x in w2), 'a weight does not depend on the commitment')


@sub('P32', 'random weights', st.tuples(st.binary(min_size=32, max_size=32).map(lambda b: b.hex()),
                                        st.one_of(st.integers(0, 40), st.integers(0, 300)), st.integers(0, 255)).map(list), 450,
     rule='more than four weights')
def weights(case, rec):
  from starks.stark import get_pseudorandom_ks
  rt, num = bytes.fromhex(case[0]), case[1]
  rec.nt(num > 4)
  ks = get_pseudorandom_ks(rt, num)
  require(len(ks) == num, '%d weights for a request of %d', len(ks), num)
  require(all(0 <= k < 2**256 for k in ks), 'weights out of range')
  require(len(set(ks)) == num, 'equal weights')
  require(ks == get_pseudorandom_ks(rt, num), 'not deterministic')
  other = get_pseudorandom_ks(flipped(rt, case[2]), num)
  require(not set(ks) & set(other), 'two commitments share a weight')


@st.composite
def chosen_first_forgeries(draw):
  """Statements whose steps are known formulas in one or two variables."""
  far = draw(st.booleans())
  w = draw(st.integers(1, 2))
  steps = 16 if far else draw(st.sampled_from([4, 8, 16]))
  ext = draw(st.sampled_from([64, 128])) if far else draw(st.sampled_from([x for x in (16, 32, 64, 128) if steps * x >= 256]))
  p = BIGP if steps * ext > 1024 else draw(big_p)
  d = ['Z', p]
  deg = 2 if far else draw(st.sampled_from([x for x in (1, 2) if stark_ok(steps, x)]))
  polys = []
  for j in range(w):
    top = [0] * w
    top[j] = deg
    terms = [[top, draw(gens.elements(d, nonzero=True))], [[0] * w, draw(gens.elements(d, nonzero=True))]]
    polys.append(terms)
  zero = not far
  return dict(p=p, steps=steps, ext=ext, width=w, polys=polys, zero=zero,
              inp=[0 if zero else draw(gens.elements(d)) for _ in range(w)],
              out=[0 if zero else draw(gens.elements(d)) for _ in range(w)],
              checks=draw(st.sampled_from([8, 10, 14]) if far else st.integers(6, 16)),
              known=draw(st.sampled_from(['combination', 'combination', 'trace'] if far else ['combination'])),
              seed=draw(st.integers(0, 10**6)))


@sub('P31', 'positions chosen beforehand', chosen_first_forgeries(), 180, rule='the crafted parts fit each other')
def stark_chosen_first(case, rec):
  """Commitments made to fit the positions that another one, made before, would lead to.

  The combination first: it is zero, and so is the part of the trace that it alone would lead to.
  The low-degree proof first: its zero column leads to rows; the combination is zero there and right
  elsewhere, and is varied until the positions to be checked avoid those rows.
  """
  from starks.fri import SmoothSubgroupFRI
  from starks.merkle_tree import merkelize, mk_branch
  from starks.stark import get_pseudorandom_ks
  from starks.utils import get_pseudorandom_indices
  I = Instance(case)
  K, F, p, n, w, steps, ext = I.K, I.F, case['p'], I.steps * I.ext, I.w, I.steps, I.ext
  bound, claim = steps * I.deg, case['out']
  if I.trace[-1] == claim:
    return
  count = case['checks']
  g2, q = root(p, n), n // 4
  fri = SmoothSubgroupFRI(F)
  zero = real_poly(F, [])
  wit = [[F(I.inp[j])] + [F(0)] * (steps - 2) + [F(claim[j])] for j in range(w)]

  def refused(mtree, ltree, positions, low, what):
    branches = []
    for pos in positions:
      branches += [mk_branch(mtree, pos), mk_branch(mtree, (pos + ext) % n), mk_branch(ltree, pos)]
    require(not accepted(I.stark.verify_proof, [mtree[1], ltree[1], branches, low], wit, I.boundary()),
            'a false output is proved by choosing the %s first', what)

  if case['zero']:
    rec.label('combination first')
    ltree = merkelize([F(0)] * n)
    low = fri.generate_proximity_proof(zero, F(g2), bound, exclude_multiples_of=ext)
    wanted = get_pseudorandom_indices(ltree[1], n, count, exclude_multiples_of=ext)
    ptab = [[hint(case['seed'], j, i) % p for i in range(n)] for j in range(w)]
    ztab = [[hint(case['seed'], 'z', j, i) % p for i in range(n)] for j in range(2 * w)]
    start = [ref.meval(K, m, [0] * w) for m in I.models]
    for pos in set(wanted):
      for j in range(w):
        ptab[j][(pos + ext) % n] = start[j]
    for pos in set(wanted):
      for t in ptab + ztab:
        t[pos] = 0
    if any((pos + ext) % n in wanted for pos in wanted):
      rec.label('some position follows another')
      return
    rec.nt()
    mtree = merkelize([b''.join(encoded([t[i] for t in ptab + ztab])) for i in range(n)])
    refused(mtree, ltree, wanted, low, 'combination')
    refused(mtree, ltree, sampled(mtree[1], ltree[1], n, count, ext), low, 'combination')
    return
  rec.nt()
  rec.label('low-degree proof first, positions by the %s' % case['known'])
  xs = [pow(g2, i, p) for i in range(n)]
  last = xs[(steps - 1) * ext]
  inv = lambda a: pow(a, p - 2, p)
  line = lambda j, x: (I.inp[j] + (claim[j] - I.inp[j]) * (x - 1) % p * inv((last - 1) % p)) % p
  ptab = [[hint(case['seed'], j, i) % p for i in range(n)] for j in range(w)]
  zs = [0 if i % ext == 0 else inv((pow(x, steps, p) - 1) * inv((x - last) % p) % p) for i, x in enumerate(xs)]
  bs = [0 if i % ext == 0 else inv((x - 1) * (x - last) % p) for i, x in enumerate(xs)]
  dtab = [[(ptab[j][(i + ext) % n] - ref.meval(K, I.models[j], [ptab[k][i] for k in range(w)])) * zs[i] % p for i in range(n)]
          for j in range(w)]
  btab = [[(ptab[j][i] - line(j, x)) * bs[i] % p if bs[i] else 0 for i, x in enumerate(xs)] for j in range(w)]
  mtree = merkelize([b''.join(encoded([t[i] for t in ptab + dtab + btab])) for i in range(n)])
  k1, k2, k3, k4 = get_pseudorandom_ks(mtree[1], 4)
  power = pow(pow(g2, steps, p), n - 1, p)
  l_ks = get_pseudorandom_ks(mtree[1], w)
  need = []
  for i in range(n):
    total = 0
    for j in range(w):
      v = dtab[j][i] + ptab[j][i] * (k1 + k2 * power) + btab[j][i] * (k3 + k4 * power)
      total += v + v * l_ks[j] * power
    need.append(total % p)
  column = merkelize([F(0)] * q)
  rows = get_pseudorandom_indices(column[1], q, 40, exclude_multiples_of=ext)
  changed = {y + q * j for y in rows for j in range(4)}
  for i in changed:
    need[i] = 0
  below = fri.generate_proximity_proof(zero, F(g2)**4, bound // 4, exclude_multiples_of=ext)
  nodes = list(merkelize([F(v) for v in need]))
  for t in range(4000):
    # position 0 is never asked for
    at_ = n + place(0, n)
    nodes[at_] = (hint(case['seed'], 'try', t) % p).to_bytes(32, 'big')
    while at_ > 1:
      at_ //= 2
      nodes[at_] = h32(nodes[2 * at_] + nodes[2 * at_ + 1])
    own = get_pseudorandom_indices(nodes[1], n, count, exclude_multiples_of=ext)
    both = sampled(mtree[1], nodes[1], n, count, ext)
    wanted = own if case['known'] == 'combination' else both
    if not changed.intersection(wanted):
      rec.label('avoided')
      break
  low = [[column[1], [[mk_branch(column, y)] + [mk_branch(nodes, y + q * j) for j in range(4)] for y in rows]]] + below
  refused(mtree, nodes, wanted, low, 'low-degree proof')


@st.composite
def shape_forgeries(draw):
  mode = draw(st.sampled_from(['deep combination', 'split combination', 'deep next', 'deep state', 'inner nodes']))
  wide = draw(st.integers(0, 3)) == 0
  c = draw(stark_cases(small_p if 'split' in mode else big_p, sound=True, max_width=5 if wide else 3,
                       steps_choices=(4,) if wide or 'split' in mode else (4, 8, 8)))
  c['mode'] = mode
  c['checks'] = draw(st.sampled_from([None, 20, 40]))
  c['delta'] = draw(gens.elements(['Z', c['p']], nonzero=True))
  c['dim'] = draw(st.integers(0, c['width'] - 1))
  c['seed'] = draw(st.integers(0, 1000))
  return c


def low_degree_proof(F, fri, tree, leaves, values, g, n, p, bound, ext):
  """Honest low-degree proof of values committed in a given tree."""
  from starks.fft import NonBinaryFFT
  from starks.merkle_tree import merkelize, mk_branch
  if bound <= 16:
    return [list(leaves)]
  K = ref.field(['Z', p])
  x, q = int(F(tree[1])), n // 4
  col = [ref.peval(K, ref.interp(K, [pow(g, i + q * j, p) for j in range(4)], [values[i + q * j] for j in range(4)]), x)
         for i in range(q)]
  m2 = merkelize([F(v) for v in col])
  ys = sampled(tree[1], m2[1], q, 40, ext)
  first = [m2[1], [[mk_branch(m2, y)] + [mk_branch(tree, y + q * j) for j in range(4)] for y in ys]]
  low = NonBinaryFFT(F, F(g)**4).inv_fft([F(v) for v in col])
  return [first] + fri.generate_proximity_proof(low, F(g)**4, bound // 4, exclude_multiples_of=ext)


@sub('P31', 'openings of another shape', shape_forgeries(), 240, rule='every case')
def stark_shapes(case, rec):
  """False outputs by commitments that open to two values, or by inner nodes for the values of the last component."""
  from starks.fri import SmoothSubgroupFRI
  from starks.merkle_tree import merkelize, mk_branch
  from starks.stark import get_pseudorandom_ks
  I = Instance(case)
  K, F, p, n, w, steps, ext, mode = I.K, I.F, case['p'], I.steps * I.ext, I.w, I.steps, I.ext, case['mode']
  bound = steps * I.deg
  if mode == 'split combination' and bound > 16:
    return
  rec.nt()
  rec.label(mode)
  rec.label('rounds %d' % rounds_of(bound))
  g2 = root(p, n)
  xs = [pow(g2, i, p) for i in range(n)]
  last = xs[(steps - 1) * ext]
  inv = lambda a: pow(a, p - 2, p)
  claim = list(I.trace[-1])
  claim[case['dim'] % w] = (claim[case['dim'] % w] + case['delta']) % p
  line = lambda j, x: (I.inp[j] + (claim[j] - I.inp[j]) * (x - 1) % p * inv((last - 1) % p)) % p
  if mode in ('deep next', 'deep state'):
    # boundary met by a straight line; the next state is shown as whatever follows
    ptab = [[line(j, x) for x in xs] for j in range(w)]
    dtab = [[0] * n for _ in range(w)]
    btab = [[0] * n for _ in range(w)]
    after = [[ref.meval(K, I.models[j], [ptab[k][(i - ext) % n] for k in range(w)]) for i in range(n)] for j in range(w)]
  else:
    ptab = [[hint(case['seed'], j, i) % p for i in range(n)] for j in range(w)]
    dtab, btab = [], []
    for j in range(w):
      drow, brow = [], []
      for i, x in enumerate(xs):
        z = (pow(x, steps, p) - 1) * inv((x - last) % p) % p
        c = (ptab[j][(i + ext) % n] - ref.meval(K, I.models[j], [ptab[k][i] for k in range(w)])) % p
        drow.append(c * inv(z) % p if z else 0)
        z2 = (x - 1) * (x - last) % p
        brow.append((ptab[j][i] - line(j, x)) * inv(z2) % p if z2 else 0)
      dtab.append(drow)
      btab.append(brow)
  leaves = [b''.join(encoded([t[i] for t in ptab + dtab + btab])) for i in range(n)]
  opened1 = opened2 = lambda x: mk_branch(mtree, x)
  if mode in ('deep next', 'deep state'):
    other = [b''.join(encoded([t[i] for t in after + dtab + btab])) for i in range(n)]
    two = TwoFaced(leaves, other) if mode == 'deep next' else TwoFaced(other, leaves)
    mtree = two.tree
    if mode == 'deep next':
      opened2 = two.other
    else:
      opened1 = two.other
  else:
    mtree = merkelize(leaves)
  # the combination as the verifier computes it
  k1, k2, k3, k4 = get_pseudorandom_ks(mtree[1], 4)
  power = pow(pow(g2, steps, p), n - 1, p)
  l_ks = get_pseudorandom_ks(mtree[1], w)
  need = []
  for i in range(n):
    total = 0
    for j in range(w):
      v = dtab[j][i] + ptab[j][i] * (k1 + k2 * power) + btab[j][i] * (k3 + k4 * power)
      total += v + v * l_ks[j] * power
    need.append(total % p)
  fri = SmoothSubgroupFRI(F)
  opened3 = lambda x: mk_branch(ltree, x)
  if mode in ('deep next', 'deep state', 'inner nodes'):
    ltree = merkelize([F(v) for v in need])
    if mode == 'inner nodes':
      if bound > 16:
        return
      data = [ltree[4 + place(i, 4)] for i in range(4)]
      low = [data]
    else:
      low = low_degree_proof(F, fri, ltree, encoded(need), need, g2, n, p, bound, ext)
  else:
    c = poly_coeffs(p, [bound - 1, 'dense', case['seed']])
    face = [ref.peval(K, c, x) for x in xs]
    two = TwoFaced(encoded(face), encoded(need)) if mode == 'deep combination' else Split(face, need, p)
    ltree, opened3 = two.tree, two.other
    low = low_degree_proof(F, fri, ltree, two.face if mode == 'deep combination' else two.leaves, face, g2, n, p, bound, ext)
  branches = []
  count = 80 if case['checks'] is None else case['checks']
  for pos in sampled(mtree[1], ltree[1], n, count, ext):
    branches += [opened1(pos), opened2((pos + ext) % n), opened3(pos)]
  wit = [[F(I.inp[j])] + [F(0)] * (steps - 2) + [F(claim[j])] for j in range(w)]
  require(not accepted(I.stark.verify_proof, [mtree[1], ltree[1], branches, low], wit, I.boundary()),
          'openings of another shape (%s) prove a false output', mode)
