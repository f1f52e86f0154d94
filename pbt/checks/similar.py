"""Near misses: inputs that a shortcut takes for one another, and words that look simpler than they are."""
import copy
import json
import random

from hypothesis import strategies as st

from pbt import gens
from pbt.core import require, sub
from pbt.checks import chain
from pbt.checks.large import seeds
from pbt.checks.proofs import BOUNDS, accepted, any_p, final_points, fri_setup, hint, poly_coeffs, real_poly, rounds_of, sampled
from pbt.checks.proofs import KINDS

# ------------------------------------------------------------------ P29


@st.composite
def simple_words(draw):
  n = draw(st.sampled_from([8, 16, 32, 64, 128, 256]))
  e = draw(st.one_of(st.just(0), st.sampled_from([2, 4, 8, 16])))
  k = draw(st.sampled_from([0, 0, 1])) if n >= 64 else 0
  ok = [b for b in BOUNDS if rounds_of(b) == k and b // 4**k < final_points(n, b, e)]
  return dict(p=draw(any_p), n=n, exclude=e, bound=draw(st.sampled_from(ok)), factor=draw(st.integers(1, 40)),
              poly=[draw(st.sampled_from([-1, -1, 0, 0, 1, 2, 4, 15])), draw(KINDS), draw(st.integers(0, 1000))],
              where=draw(st.sampled_from(['late', 'early', 'one', 'stride', 'some'])), pick=draw(st.integers(0, 300)), seed=draw(seeds))


@sub('P29', 'simple words', simple_words(), 600, rule='every case')
def simple(case, rec):
  """A last component that is zero, constant or of small degree on most of its points, and something else on the others."""
  from starks.merkle_tree import merkelize, mk_branch
  F, g, fri, fft, kw = fri_setup(case)
  p, n, bound = case['p'], case['n'], case['bound']
  k = rounds_of(bound)
  deg, kind, seed = case['poly']
  f = real_poly(F, poly_coeffs(p, [min(deg, bound - 1), kind, seed]))
  honest = fri.generate_proximity_proof(f, g, bound, **kw)
  data = [int.from_bytes(x, 'big') for x in honest[-1]]
  last = bound // 4**k
  pts = [x for x in range(len(data)) if not case['exclude'] or x % case['exclude']]
  room = len(pts) - last
  if case['where'] == 'late':
    wrong = pts[last + case['pick'] % room:]
  elif case['where'] == 'early':
    wrong = pts[:1 + case['pick'] % room]
  elif case['where'] == 'one':
    wrong = [pts[case['pick'] % len(pts)]]
  elif case['where'] == 'stride':
    wrong = pts[case['pick'] % 3::2 + case['pick'] % 5][:room]
  else:
    wrong = [x for x in pts if hint(case['seed'], x) % 3 == 0][:room]
  if not wrong:
    return
  rec.nt()
  rec.label('%s, %d rounds, degree %d' % (case['where'], k, f.degree()))
  for x in wrong:
    data[x] = (data[x] + 1 + hint(case['seed'], 'v', x) % (p - 1)) % p
  raw = [v.to_bytes(32, 'big') for v in data]
  if k == 0:
    proof, commitment = [raw], merkelize(data)[1]
  else:
    m, m2 = merkelize(fft.fft(f)), merkelize(data)
    q = len(data)
    ys = sampled(m[1], m2[1], q, case['factor'], case['exclude'])
    proof = [[m2[1], [[mk_branch(m2, y)] + [mk_branch(m, y + q * j) for j in range(4)] for y in ys]], raw]
    commitment = m[1]
  require(not accepted(fri.verify_proximity_proof, proof, commitment, g, bound, **kw),
          '%d of %d values of the last component are not those of the polynomial of degree %d', len(wrong), len(pts), f.degree())


@st.composite
def short_proofs(draw):
  n = draw(st.sampled_from([32, 64, 128, 256]))
  e = draw(st.one_of(st.just(0), st.sampled_from([2, 4, 8, 16])))
  bound = draw(st.sampled_from([b for b in BOUNDS if rounds_of(b) and b < n // (2 if e else 1)] or [20]))
  less = draw(st.sampled_from([b for b in BOUNDS if rounds_of(b) < rounds_of(bound)]))
  return dict(p=draw(any_p), n=n, exclude=e, bound=bound, less=less, factor=draw(st.integers(1, 40)),
              poly=[draw(st.one_of(st.just(bound - 1), st.integers(-1, bound - 1))), draw(KINDS), draw(st.integers(0, 1000))])


@sub('P29', 'rounds left out', short_proofs(), 300, rule='every case')
def rounds_left_out(case, rec):
  """A proof that stops folding early makes the verifier read values in place of roots."""
  from starks.merkle_tree import merkelize
  F, g, fri, fft, kw = fri_setup(case)
  f = real_poly(F, poly_coeffs(case['p'], case['poly']))
  rec.nt()
  rec.label('%d of %d rounds' % (rounds_of(case['less']), rounds_of(case['bound'])))
  root = merkelize(fft.fft(f))[1]
  proof = fri.generate_proximity_proof(f, g, case['less'], **kw)
  require(len(proof) == 1 + rounds_of(case['less']), '%d components', len(proof))
  require(not accepted(fri.verify_proximity_proof, proof, root, g, case['bound'], **kw),
          'accepted with %d of %d rounds', rounds_of(case['less']), rounds_of(case['bound']))


# ------------------------------------------------------------------ P40

TEXTS = ['J\u00f6rg', 'J\u00e4rg', 'Jo\u0308rg', 'Jorg', 'jorg', 'a b', 'a  b', 'ab ', ' ab', '', '\u0000', '\u20ac', '\U0001f600', '\U0001f601', 'a"b', 'a\\b',
         '1', '1.0', 'null', 'true', '\u0391', 'A']


def neighbours(v, n):
  """Values that are close to a value, but other JSON."""
  if isinstance(v, bool) or v is None:
    return [0, '', 'x']
  if isinstance(v, int):
    return [v + 1, v - 1, -v - 1, v + 2**32, v + 2**64, str(v), v * 10 + 1]
  if isinstance(v, float):
    return [v + s for s in (1e-6, -1e-6, 1e-5, 0.001, -0.001, 0.25, 1, -1, 2.0**32) if v + s != v] + [str(v), -v - 1]
  if isinstance(v, str):
    t = TEXTS[n % len(TEXTS)]
    return [w for w in (v + ' ', ' ' + v, v + '\u00e4', v + '\u00f6', v.upper(), v.lower(), v + '0', v[:-1], v[::-1], t, v + t, '\u00e9' + v[1:], '\u00e8' + v[1:])
            if w != v]
  if isinstance(v, list):
    out = [v + [copy.deepcopy(x) for x in v], v + [dict(sender='0', recipient='0', amount=0)], v + [None]]
    if len(v) > 1:
      out += [v[1:] + v[:1], v[:-1], v[1:], v[:-2] + [v[-1], v[-2]]]
    return [w for w in out if w != v]
  return []


def places(x, at=()):
  yield at
  if isinstance(x, (dict, list)):
    for k in (sorted(x) if isinstance(x, dict) else range(len(x))):
      yield from places(x[k], at + (k,))


def put(x, at, v):
  x = copy.deepcopy(x)
  y = x
  for k in at[:-1]:
    y = y[k]
  y[at[-1]] = v
  return x


odd_names = st.one_of(st.sampled_from(TEXTS), st.text(max_size=8))
odd_amounts = st.one_of(st.integers(-9, 9), st.integers(-2**80, 2**80), st.sampled_from([0.1, 0.30000000000000004, 1e-7, 123456.789012345, 2.5]),
                        st.floats(-1e6, 1e6, allow_nan=False))
blocks = st.fixed_dictionaries(dict(
    index=st.one_of(st.integers(1, 9), st.integers(1, 2**40)),
    timestamp=st.one_of(st.sampled_from([1500000000.25, 1.5, 1700000000.123456, 1700000000.1234567]), st.floats(0, 2e9, allow_nan=False)),
    transactions=st.lists(st.fixed_dictionaries(dict(sender=odd_names, recipient=odd_names, amount=odd_amounts)), max_size=4),
    proof=st.one_of(st.integers(0, 300000), st.integers(0, 2**70)), previous_hash=st.binary(min_size=32, max_size=32).map(lambda b: b.hex())))


@sub('P40', 'similar blocks', st.tuples(blocks, st.integers(0, 10**6), st.integers(0, 10**6)).map(list), 6000, rule='every case')
def similar_blocks(case, rec):
  """The hash that links blocks tells every edit of a block, however small, and no order of its keys."""
  b, n, m = case
  B = chain.new_chain()
  h = B.hash(b)
  require(h == B.hash(json.loads(json.dumps(chain.shuffled(b, n)))), 'the hash depends on the order of keys')
  at = list(places(b))[1:]
  at = at[n % len(at)]
  v = b
  for k in at:
    v = v[k]
  near = neighbours(v, m)
  if not near:
    return
  rec.nt()
  rec.label(str([k for k in at if isinstance(k, str)][-1]))
  w = near[m % len(near)]
  require(B.hash(put(b, at, w)) != h, 'the hash does not change when %r becomes %r at %r', v, w, at)


@sub('P40', 'similar chains', st.tuples(st.integers(0, 5), st.integers(0, 10**6), st.integers(0, 10**6), st.integers(0, 10**6)).map(list), 900,
     rule='every case')
def similar_chains(case, rec):
  """A small edit of any block but the last makes a chain invalid."""
  which, n, m, k = case
  good = chain.pool()[which]
  i = k % (len(good) - 1)
  at = [a for a in places(good[i]) if a]
  at = at[n % len(at)]
  v = good[i]
  for key in at:
    v = v[key]
  near = neighbours(v, m)
  if not near:
    return
  rec.nt()
  bad = list(good)
  bad[i] = put(good[i], at, near[m % len(near)])
  B = chain.new_chain()
  try:
    ok = B.valid_chain(bad)
  except Exception:
    ok = False
  require(not ok, 'the chain is valid after %r became %r at %r of block %d', v, near[m % len(near)], at, i)


# ------------------------------------------------------------------ P26

@st.composite
def close_entropies(draw):
  base = draw(st.binary(min_size=32, max_size=32))
  return dict(base=base.hex(), at=draw(st.lists(st.integers(0, 31), min_size=1, max_size=4, unique=True)), mod=draw(st.sampled_from([2**16, 2**20, 2**24 - 1, 40000])),
              exclude=draw(st.sampled_from([0, 0, 2, 8])), count=draw(st.integers(16, 120)), how=draw(st.sampled_from(['byte', 'swap', 'zero', 'reverse'])))


@sub('P26', 'similar entropies', close_entropies(), 900, rule='every case')
def close(case, rec):
  """Entropies that differ in few bytes give other indices, asked one after the other and again."""
  from starks.utils import get_pseudorandom_indices
  base = bytes.fromhex(case['base'])
  ents = [base]
  for a in case['at']:
    x = bytearray(base)
    if case['how'] == 'byte':
      x[a] ^= 1 + a
    elif case['how'] == 'swap':
      x[a], x[a - 1] = x[a - 1], x[a]
    elif case['how'] == 'zero':
      x[a] = 0
    else:
      x[a:] = x[a:][::-1]
    if bytes(x) not in ents:
      ents.append(bytes(x))
  rec.nt(len(ents) > 1)
  rec.label(case['how'])
  draw = lambda x: get_pseudorandom_indices(x, case['mod'], case['count'], exclude_multiples_of=case['exclude'])
  got = [draw(x) for x in ents]
  require(all(a != b for i, a in enumerate(got) for b in got[:i]), 'similar entropies give the same indices')
  require([draw(x) for x in reversed(ents)][::-1] == got, 'indices depend on earlier requests')


# ------------------------------------------------------------------ P32


@sub('P32', 'similar commitments', close_entropies(), 600, rule='every case')
def close_weights(case, rec):
  """Commitments that differ in few bytes have different weights, in every position."""
  from starks.stark import get_pseudorandom_ks
  base = bytes.fromhex(case['base'])
  num = 1 + case['count'] % 12
  rec.nt()
  rec.label('%d weights' % num)
  roots = [base] + [base[:a] + bytes([base[a] ^ (1 << a % 8)]) + base[a + 1:] for a in case['at'] + [0, 15, 16, 31]]
  roots = sorted(set(roots + [base[:31] + bytes([b]) for b in (0, 32, 10)] + [bytes([b]) + base[1:] for b in (0, 32, 10)]))
  got = [get_pseudorandom_ks(r, num) for r in roots]
  for i in range(num):
    require(len({ks[i] for ks in got}) == len(roots), 'weight %d of %d is that of a similar commitment', i, num)
  require([get_pseudorandom_ks(r, num) for r in reversed(roots)] == got[::-1], 'weights depend on earlier requests')


# ------------------------------------------------------------------ P38, P39


def labels(r, n, k):
  """k pairs of vertices up to n, many of which look alike when cut off."""
  out = []
  for _ in range(k):
    a = r.randrange(1, n + 1)
    b = a + r.choice([256, 256, 128, 1000, 100, 10, 1, 512, -256, -100])
    out.append((a, b) if 1 <= b <= n and r.random() < 0.7 else (a, a % n + 1))
  return out


@sub('P39', 'many vertices', st.tuples(st.one_of(st.integers(10, 1100), st.integers(257, 600)), st.integers(1, 40), st.integers(0, 8), seeds).map(list), 60,
     rule='more than 256 vertices')
def many_vertices(case, rec):
  """Sparse graphs on many vertices: every edge is challenged, and shows when its ends have one colour."""
  from starks import zkp_3_coloring as z
  from starks.blum_blum_shub import parity
  from pbt.checks.misc import generators, squaring
  n, k, g, seed = case
  r = random.Random(seed)
  f = squaring(generators()[g])
  G = labels(r, n, k) + [(n, 1) if r.random() < 0.5 else (1, n)]
  G = [e[::-1] if r.random() < 0.3 else e for e in G]
  edges = {tuple(sorted(e)) for e in G}
  col, left = {}, {v: {w for e in edges for w in e if v in e and w != v} for e in edges for v in e}
  for v in sorted(left, key=lambda v: -len(left[v])):  # greedy; edges that do not fit are left out
    free = [c for c in range(3) if all(col.get(w) != c for w in left[v])]
    col[v] = r.choice(free or [0])
  G = [e for e in G if col[e[0]] != col[e[1]]]
  if not G:
    return
  edges = {tuple(sorted(e)) for e in G}
  top = max(max(e) for e in edges)
  col = {v: col.get(v, v % 3) for v in range(1, top + 1)}
  rec.nt(top > 256)
  rec.label('%d vertices' % (top // 100 * 100))
  verifier = z.ZK3ColVerifier(G, f, parity)
  got = {tuple(sorted(verifier.choose_edge({}))) for _ in range(60 * len(G))}
  require(got == edges, 'of %d edges, %r are never challenged, and %r are none', len(edges), sorted(edges - got)[:3], sorted(got - edges)[:3])
  prover = z.ZK3ColProver(G, col, f, parity)
  committed = prover.commit_to_coloring()
  require(set(committed) == set(col), '%d vertices committed to, of %d', len(committed), len(col))
  for u, v in sorted(edges):
    verifier.committed_coloring, verifier.chosen_edge = committed, (u, v)
    require(verifier.accepts(prover.reveal_colors(u, v)) is True, 'the honest answer to %r is refused', (u, v))
  secrets = [tuple(prover.vertexToScheme[v].reveal()) for v in col]
  require(len(set(secrets)) == len(secrets), 'two vertices share their secrets')
  u, v = r.choice(sorted(edges))
  bad = dict(col)
  bad[u] = bad[v]
  prover = z.ZK3ColProver(G, bad, f, parity)
  committed = prover.commit_to_coloring()
  verifier.committed_coloring, verifier.chosen_edge = committed, (u, v)
  require(not accepted(verifier.accepts, prover.reveal_colors(u, v)), 'equal colours at %r are accepted', (u, v))


@sub('P38', 'many vertices', st.tuples(st.one_of(st.integers(10, 700), st.integers(257, 400)), st.integers(1, 60), seeds).map(list), 90,
     rule='more than 256 vertices')
def many_vertices_iso(case, rec):
  from starks import zero_knowledge as zk
  n, k, seed = case
  r = random.Random(seed)
  G1 = labels(r, n, k) + [(n, 1) if r.random() < 0.5 else (1, n)]
  perm = list(range(n))
  r.shuffle(perm)
  at = perm.index(n - 1)  # both graphs have as many vertices
  perm[at], perm[n - 1] = perm[n - 1], n - 1
  rec.nt(n > 256)
  image = lambda G: [(perm[a - 1] + 1, perm[b - 1] + 1) for a, b in G]
  f, back = zk.make_permutation_function(perm), zk.make_inverse_permutation_function(perm)
  require([f(i) for i in range(1, n + 1)] == [p + 1 for p in perm], 'the permutation of %d vertices', n)
  require([back(f(i)) for i in range(1, n + 1)] == list(range(1, n + 1)), 'the inverse permutation of %d vertices', n)
  G2 = image(G1)
  require(zk.num_vertices(G1) == n and zk.apply_isomorphism(G1, f) == G2, 'image of the graph')
  prover, verifier = zk.ZKProver(G1, G2, perm), zk.ZKVerifier(G1, G2)
  for choice in (1, 2):
    iso, H = prover.send_isomorphic_copy()
    require(sorted(iso) == list(range(n)), 'the blinding is no permutation of %d vertices', n)
    require(H == [(iso[a - 1] + 1, iso[b - 1] + 1) for a, b in G1], 'the copy is not the blinded graph')
    require(verifier.accepts(prover.prove_isomorphic_to(iso, choice), choice, H) is True, 'the honest answer about graph %d is refused', choice)
  # an edge that ends at a vertex that looks like the right one
  e = r.randrange(len(G2))
  a, b = G2[e]
  c = r.choice([x for x in (b + 256, b - 256, b + 128, b - 128, b + 1, b - 1) if 1 <= x <= n and x != a] or [b])
  false = G2[:e] + [(a, c)] + G2[e + 1:]
  if c == b or zk.num_vertices(false) != n:
    return
  prover, verifier = zk.ZKProver(G1, false, perm), zk.ZKVerifier(G1, false)
  iso, H = prover.send_isomorphic_copy()
  require(not accepted(verifier.accepts, prover.prove_isomorphic_to(iso, 2), 2, H), 'the edge %r passes for %r', (a, c), (a, b))


# ------------------------------------------------------------------ P40


def odd_forms(v):
  """Other values for a number, some of which read as the number."""
  t = str(v)
  out = [-v, [v], None, {}, {'n': v}, ' ' + t, t + ' ', '0' + t, '+' + t, t + '.0', t + '\n', t[::-1], t[:-1], t + t[-1],
         ''.join(chr(0x660 + int(c)) for c in t), hex(v), '']
  if len(t) > 1:
    out.append(t[0] + '_' + t[1:])
  return out


@sub('P40', 'odd proofs', st.tuples(st.integers(0, 5), st.integers(0, 10**6), st.integers(0, 60), st.integers(0, 60)).map(list), 2400, rule='every case')
def odd_proofs(case, rec):
  """Proofs that are no numbers, or are written in another way, count for the text they have."""
  which, at, n, how = case
  good = chain.pool()[which]
  i = 1 + at % (len(good) - 1)
  last, block = good[i - 1], good[i]
  B = chain.new_chain()
  h = B.hash(last)
  lp, p = last['proof'], block['proof']
  if how % 3 != 1:
    p = odd_forms(p)[n % len(odd_forms(p))]
  if how % 3 != 0:
    lp = odd_forms(lp)[n % len(odd_forms(lp))]
  if chain.work(lp, p, h).startswith('0000'):
    return
  rec.nt()
  rec.label(type(p).__name__)
  require(not accepted(B.valid_proof, lp, p, h), 'proof %r after %r is accepted', p, lp)
  bad = good[:i] + [dict(block, proof=p)]
  if how % 3 == 0:
    require(not accepted(B.valid_chain, bad), 'a chain that ends with the proof %r is valid', p)
