"""P46: what is sent to others does not depend on the process that computes it."""
import copy
import json
import os
import random
import subprocess
import sys

from hypothesis import strategies as st

from pbt import core, gens, ref
from pbt.core import require, sub
from pbt.checks import chain, merkle, proofs

WORKER = os.path.join(core.VERIF, 'pbt', 'worker.py')


def text(x):
  """Nested byte strings as nested hexadecimal strings."""
  return x.hex() if isinstance(x, bytes) else [text(y) for y in x]


def data(x):
  return bytes.fromhex(x) if isinstance(x, str) else [data(y) for y in x]


def entropy(rng):
  n = rng.choice([0, 1, 31, 32, 32, 33, 64, rng.randint(0, 130), rng.randint(0, 600)])
  return bytes(rng.getrandbits(8) for _ in range(n))


def indices(rng, ent):
  from starks.utils import get_pseudorandom_indices
  ent = ent or b'\0'
  return get_pseudorandom_indices(ent, rng.choice([2, 17, 64, 4096, 2**24 - 1, rng.randint(2, 2**24 - 1)]), rng.randint(1, 60),
                                  exclude_multiples_of=rng.choice([0, 0, 2, 8, rng.randint(2, 70)]))


def weights(rng, ent):
  from starks.stark import get_pseudorandom_ks
  return [int(k) for k in get_pseudorandom_ks(ent, rng.choice([1, 3, 4, 5, 11, rng.randint(0, 40)]))]


def encodings(rng, ent):
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  from starks.rationals_modp import RationalsModP
  p = ref.next_prime(rng.getrandbits(rng.choice([3, 8, 16, 31, 61, 127, 250])) + 2)
  Z = IntegersModP(p)
  xs = [rng.getrandbits(300) - 2**299 for _ in range(rng.randint(1, 9))]
  return [Z(x).to_bytes().hex() for x in xs] + [polynomials_over(Z)(xs).to_bytes().hex(), RationalsModP(p)(xs[0] % p, 1 + xs[-1] % (p - 1)).to_bytes().hex(),
                                                text(Z(ent or b'\1').to_bytes())]


def trees(rng, ent):
  from starks.merkle_tree import merkelize, merkelize_polynomial_evaluations, mk_branch
  from starks.modp import IntegersModP
  Z = IntegersModP(2**61 - 1)
  n = rng.choice([4, 8, 16, 32])
  tables = [[Z(rng.getrandbits(70)) for _ in range(n)] for _ in range(rng.randint(1, 6))]
  t, u = merkelize_polynomial_evaluations(1, tables), merkelize([ent + bytes([i]) for i in range(n)])
  return text([t[1], u[1], mk_branch(t, rng.randrange(n)), mk_branch(u, rng.randrange(n))])


def packed(rng, ent):
  from starks.compression import bin_length, compress_branches, compress_fri
  pool = [bytes(rng.getrandbits(8) for _ in range(rng.choice([32, 32, 5, 96]))) for _ in range(rng.randint(1, 30))]
  branches = [[rng.choice(pool) for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(1, 20))]
  fri = [[rng.choice(pool), [branches[i:i + 3] for i in range(0, len(branches), 3)]], [rng.choice(pool) for _ in range(8)]]
  c, d = compress_branches(branches), compress_fri(fri)
  return [text(c), text(d), bin_length(c), bin_length(d)]


def blocks(rng, ent):
  bc = chain.new_chain()
  def thing(depth=0):
    return rng.choice([None, True, False, rng.randint(-10, 10), rng.getrandbits(80), rng.random(), 1e22, -0.0, ent.hex()[:9], '\u00e9\u4e2d', '',
                       [] if depth > 2 else [thing(depth + 1) for _ in range(rng.randint(0, 4))],
                       {} if depth > 2 else {rng.choice('abcdefgh') * rng.randint(1, 3): thing(depth + 1) for _ in range(rng.randint(0, 5))}])
  out = []
  for _ in range(3):
    block = dict(index=rng.randint(1, 99), timestamp=rng.choice([rng.random() * 1e9, rng.getrandbits(31)]), proof=rng.getrandbits(40),
                 transactions=[dict(sender=thing(), recipient=thing(), amount=thing()) for _ in range(rng.randint(0, 5))],
                 previous_hash=ent.hex())
    out.append(bc.hash(block))
  last = rng.getrandbits(30)
  return out + [[k for k in range(4000) if bc.valid_proof(last, k, out[0])]]


def computations(rng, ent):
  """What both sides compute for themselves."""
  from starks.fft import NonBinaryFFT
  from starks.modp import IntegersModP
  from starks.poly_utils import lagrange_interp, multi_inv, zpoly
  from starks.polynomial import polynomials_over
  from starks.utils import get_power_cycle, mimc
  p = 2**256 - 2**32 * 351 + 1
  Z = IntegersModP(p)
  n = rng.choice([4, 8, 16, 32])
  g = Z(7)**((p - 1) // n)
  cs = [rng.getrandbits(250) for _ in range(rng.randint(1, n))]
  xs = [Z(x) for x in rng.sample(range(1000), rng.randint(1, 7))]
  ys = [Z(rng.getrandbits(200)) for _ in xs]
  lists = [NonBinaryFFT(Z, g).fft(polynomials_over(Z)(cs)), lagrange_interp(Z, xs, ys).coefficients, zpoly(Z, xs).coefficients,
           multi_inv(Z, ys), get_power_cycle(g, Z), [mimc(cs[0], n, cs)]]
  return [[int(x) for x in l] for l in lists]


PARTS = dict(indices=indices, weights=weights, encodings=encodings, trees=trees, packed=packed, blocks=blocks, computations=computations)


def batch(part, seed, count):
  """Many small results of one kind, expanded from a seed."""
  rng = random.Random('%s %d' % (part, seed))
  return [PARTS[part](rng, entropy(rng)) for _ in range(count)]


def perform(job, given):
  """Output of a job, and what this process says about the output another process gave."""
  kind, case = job
  out = dict(value=None, accepted=True)
  if kind == 'stark':
    I = proofs.Instance(case)
    out['value'] = text(I.stark.mk_proof(I.witness(), I.boundary()))
    if given is not None:
      out['accepted'] = proofs.accepted(I.stark.verify_proof, data(given), I.witness(), I.boundary())
  elif kind == 'fri':
    from starks.compression import compress_fri, decompress_fri
    from starks.merkle_tree import merkelize
    F, g, fri, fft, kw = proofs.fri_setup(case)
    f = proofs.real_poly(F, proofs.poly_coeffs(case['p'], case['poly']))
    values = fft.fft(f)
    root = merkelize(values)[1]
    proof = fri.generate_proximity_proof(f, g, case['bound'], **kw)
    out['value'] = [text(proof), text(compress_fri(proof)), text(root)]
    if given is not None:
      got = data(given)
      out['accepted'] = (proofs.accepted(fri.verify_proximity_proof, got[0], got[2], g, case['bound'], **kw) and
                         proofs.accepted(fri.verify_proximity_proof, decompress_fri(got[1]), got[2], g, case['bound'], **kw))
  elif kind == 'tree':
    from starks.compression import compress_branches, decompress_branches
    from starks.merkle_tree import merkelize, mk_branch, verify_branch
    L = merkle.build_leaves(case)
    tree = merkelize(L)
    brs = [mk_branch(tree, i) for i in range(len(L))]
    out['value'] = [text(tree[1]), text(compress_branches(brs))]
    if given is not None:
      got = data(given)
      back = decompress_branches(got[1])
      out['accepted'] = all(proofs.accepted(lambda: verify_branch(got[0], i, b) == merkle.leaf_bytes(case, x))
                            for i, (b, x) in enumerate(zip(back, L))) and len(back) == len(L)
  elif kind == 'indices':
    from starks.utils import get_pseudorandom_indices
    out['value'] = get_pseudorandom_indices(bytes.fromhex(case['entropy']), case['mod'], case['count'],
                                            exclude_multiples_of=case['exclude'])
  elif kind == 'weights':
    from starks.stark import get_pseudorandom_ks
    out['value'] = [int(k) for k in get_pseudorandom_ks(bytes.fromhex(case['root']), case['num'])]
  elif kind == 'challenge':
    from starks.fri import select_random
    K = ref.field(case['field'])
    out['value'] = list(K.canon(select_random(K.real_field(), case['text'])))
  elif kind == 'bytes':
    K = ref.field(case['field'])
    out['value'] = K.real(K.val(case['x'])).to_bytes().hex()
    if given is not None:
      out['accepted'] = K.canon(K.real_field()(bytes.fromhex(given))) == K.val(case['x'])
  elif kind == 'chain':
    bc = chain.new_chain()
    c = case['chain']
    out['value'] = [bc.hash(b) for b in c] + [bc.proof_of_work(c[-1])]
    good = chain.shuffled(c, case['shuffle'])
    out['accepted'] = bool(bc.valid_chain(good))
    if given is not None:
      nxt = dict(index=len(c) + 1, timestamp=5.5, transactions=[], proof=given[-1], previous_hash=given[-2])
      out['accepted'] = out['accepted'] and bool(bc.valid_chain(good + [nxt]))
  elif kind == 'batch':
    out['value'] = batch(**case)
  else:
    raise core.HarnessError('job ' + kind)
  return out


KINDS = ['stark', 'stark', 'fri', 'fri', 'tree', 'indices', 'weights', 'challenge', 'bytes', 'chain']


@st.composite
def jobs(draw, kinds=KINDS):
  kind = draw(st.sampled_from(kinds))
  if kind == 'stark':
    case = draw(proofs.stark_cases(proofs.any_p, max_width=6, steps_choices=(2, 4, 8)))
  elif kind == 'fri':
    case = draw(proofs.fri_complete_cases())
  elif kind == 'tree':
    case = draw(merkle.leaf_lists(sizes=(4, 8, 16, 32)))
  elif kind == 'indices':
    case = draw(merkle.index_requests())
  elif kind == 'weights':
    case = dict(root=draw(st.binary(min_size=32, max_size=32)).hex(), num=draw(st.integers(1, 12)))
  elif kind == 'challenge':
    m = draw(st.sampled_from([3, 5, 8]))
    case = dict(field=['F', 2, list(ref.find_irreducible(2, m, 0))], text=draw(st.text(alphabet='abc019', max_size=8)))
  elif kind == 'bytes':
    f = draw(gens.mixed_fields(q=False))
    case = dict(field=f, x=draw(gens.elements(f)))
  elif kind == 'batch':
    case = dict(part=draw(st.sampled_from(sorted(PARTS))), seed=draw(st.integers(0, 2**30)), count=draw(st.integers(1, 25)))
  else:
    case = dict(chain=chain.pool()[draw(st.sampled_from([0, 1, 3]))], shuffle=draw(st.integers(0, 99)))
  return [kind, case]


@st.composite
def cousin(draw, job):
  """A job that differs from the given one in one detail."""
  kind, case = job[0], copy.deepcopy(job[1])
  if kind in ('indices', 'weights'):
    key = 'entropy' if kind == 'indices' else 'root'
    x = bytearray(bytes.fromhex(case[key]))
    if x:
      x[draw(st.sampled_from([-1, 0, len(x) // 2]))] ^= 1 + draw(st.integers(0, 7))
    case[key] = x.hex()
    if kind == 'indices' and draw(st.booleans()):
      case['count'] += draw(st.integers(0, 60))
  elif kind == 'challenge':
    case['text'] = draw(st.sampled_from([case['text'] + 'a', case['text'] + '0', case['text'][::-1], case['text'][:-1]]))
  elif kind == 'bytes':
    case['x'] = draw(gens.elements(case['field']))
  elif kind == 'fri':
    if draw(st.booleans()):
      case['turn'] = draw(proofs.TURNS)
    else:
      case['poly'][2] += 1
  elif kind == 'stark':
    case['inp'] = [draw(gens.elements(['Z', case['p']])) for _ in case['inp']]
  elif kind == 'batch':
    case['count'] = max(1, case['count'] + draw(st.integers(-3, 3)))
  elif kind == 'tree':
    case['leaves'] = case['leaves'][1:] + case['leaves'][:1]
  else:
    case['shuffle'] += 1
  return [kind, case]


@st.composite
def exchanges(draw):
  js = draw(st.lists(jobs(), min_size=3, max_size=5))
  for j in js[:draw(st.integers(0, 3))]:
    js = js + [draw(cousin(j))]
  return dict(jobs=js, seeds=[draw(st.integers(1, 2**32 - 1)), draw(st.integers(1, 2**32 - 1))],
              order=draw(st.permutations(range(len(js)))),
              prior=draw(st.lists(jobs(), max_size=2)) + [draw(cousin(j)) for j in js[:draw(st.integers(0, 2))]])


LIGHT = ['batch', 'batch', 'batch', 'indices', 'indices', 'weights', 'challenge', 'bytes', 'tree', 'chain']


@st.composite
def light_exchanges(draw):
  """Many cheap jobs, most of them with one that is nearly the same."""
  js = []
  for j in draw(st.lists(jobs(LIGHT), min_size=4, max_size=8)):
    js += [j] + draw(st.lists(cousin(j), min_size=0, max_size=2))
  return dict(jobs=js, seeds=[draw(st.integers(1, 2**32 - 1)), draw(st.integers(1, 2**32 - 1))],
              order=draw(st.permutations(range(len(js)))),
              prior=[draw(cousin(j)) for j in js[:draw(st.integers(0, 5))]])


def remote(seed, request):
  env = dict(os.environ, PYTHONHASHSEED=str(seed))
  p = subprocess.run([sys.executable, '-W', 'ignore', WORKER], input=json.dumps(request), capture_output=True,
                     text=True, env=env, timeout=200, cwd='/')
  if p.returncode:
    raise core.Violation('a process of its own failed: %s' % p.stderr[-1500:])
  return json.loads(p.stdout)


@core.prep('P46')
def fill_pool():
  chain.pool()


@sub('P46', 'two processes', exchanges(), 48, rule='a proof among the jobs or more than seven, and another order or history in the second process')
def two_processes(case, rec):
  js = case['jobs']
  n = len(js)
  first = remote(case['seeds'][0], dict(jobs=js, given=[None] * n, order=list(range(n)), prior=[]))
  for j, a in zip(js, first):
    require('error' not in a, 'the first process failed at %s: %s', j[0], a.get('error'))
    require(a['accepted'], 'the first process refuses its own %s', j[0])
  second = remote(case['seeds'][1], dict(jobs=js, given=[a['value'] for a in first], order=case['order'], prior=case['prior']))
  for j, a, b in zip(js, first, second):
    rec.label(j[0])
    require('error' not in b, 'the second process failed at %s: %s', j[0], b.get('error'))
    require(b['value'] == a['value'], 'two processes compute different results for %s', j[0])
    require(b['accepted'], 'the second process refuses what the first made (%s)', j[0])
  rec.nt((n > 7 or any(j[0] in ('stark', 'fri') for j in js)) and (case['order'] != list(range(n)) or bool(case['prior'])))


sub('P46', 'light jobs', light_exchanges(), 42, rule='more than seven jobs, and another order or history in the second process')(two_processes)
