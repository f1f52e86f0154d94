"""Long inputs over extension fields, many coordinates, long ledgers, and nodes that judge chains related to their own."""
import copy
import json

from hypothesis import strategies as st

from pbt import gens, ref
from pbt.checks import bigger, large, numbers
from pbt.checks.chain import mine, new_chain, pool, work
from pbt.core import prep, require, sub


@st.composite
def long_extension(draw):
  """One long and one short polynomial over an extension field, in the form the checks of large.py take."""
  return dict(field=draw(gens.fq_descs(max_m=3)), a=draw(gens.sizes(61, 400)), b=draw(st.integers(1, 8)), sa=draw(large.styles),
              sb=draw(large.styles), seed=draw(large.seeds), n=draw(st.integers(2, 3)))


sub('P08', 'long polynomials over extensions', long_extension(), 40, rule='both factors have more than 30 coefficients, or one more than 60')(
    lambda case, rec: (large.long_ring(case, rec), rec.nt(case['a'] > 60)) and None)
sub('P09', 'long quotients over extensions', long_extension().map(lambda c: dict(c, a=c['a'] + 80)), 24, rule='more than 60 coefficients')(
    lambda case, rec: (large.long_division(case, rec), rec.nt()) and None)
sub('P10', 'long polynomials over extensions', long_extension(), 40, rule='more than 30 coefficients')(large.long_evaluation)


# primes above 2^256: no encoding as 32 bytes, but the same arithmetic
sub('P01', 'huge primes', numbers.zprogs(gens.huge_primes), 400, rule='>=3 operations, some result not 0 or 1')(numbers.zp_program)
sub('P01', 'huge primes, powers', numbers.zfield_ident(gens.huge_primes), 100, rule='x not congruent to 0 or 1')(numbers.zp_fermat)
sub('P06', 'huge primes', numbers.rprogs(gens.huge_primes), 300, rule='>= 2 operations on a value with denominator not 1')(numbers.rationals)


def over_huge(strategy, **more):
  return st.tuples(strategy, gens.huge_primes).map(lambda t: dict(t[0], field=['Z', t[1]], **more))


sub('P08', 'long polynomials over huge primes', over_huge(large.long_polys()), 40, rule='both factors have more than 30 coefficients')(
    large.long_ring)
sub('P09', 'long divisions over huge primes', over_huge(large.long_polys()), 24, rule='quotient and divisor have more than 15 coefficients')(
    large.long_division)
sub('P10', 'long polynomials over huge primes', over_huge(large.long_polys()), 40, rule='more than 30 coefficients')(large.long_evaluation)
sub('P14', 'many points over huge primes', over_huge(large.many_points()), 12, rule='every case')(large.many_point_interp)
sub('P15', 'many roots over huge primes', over_huge(large.many_values()), 24, rule='every case')(large.many_roots)
sub('P16', 'many values over huge primes', over_huge(large.many_values()), 48, rule='every case')(large.many_inverses)
sub('P18', 'many unknowns over huge primes', over_huge(large.large_systems()), 48, rule='every case')(large.large_gauss)


@sub('P45', 'many coordinates', st.tuples(st.one_of(gens.zp_descs(), gens.fq_descs(max_m=3)), st.integers(9, 300)).map(list), 60,
     rule='every case')
def many_coordinates(case, rec):
  from pbt.real import canon_multi
  from starks.utils import generate_Xi_s
  desc, w = case
  K = ref.field(desc)
  xs = generate_Xi_s(K.real_field(), w)
  require(len(xs) == w, '%d polynomials for %d variables', len(xs), w)
  rec.nt()
  for i, x in enumerate(xs):
    require(canon_multi(K, w, x) == {(0,) * i + (1,) + (0,) * (w - i - 1): K.one}, 'coordinate %d of %d is %r', i, w, x)


# ---------------------------------------------------------------- chains


@prep('P40', 'P42')
def fill():
  import run_blockchain
  assert run_blockchain
  pool()
  bigger.long_pool()


@st.composite
def relatives(draw):
  return dict(base=draw(st.integers(0, 8)), own=draw(st.integers(1, 48)), shown=draw(st.integers(1, 48)),
              how=draw(st.sampled_from(['', 'proof', 'proof', 'proof on top', 'field', 'link', 'cut', 'twice', 'work'])),
              k=draw(st.integers(0, 47)), salt=draw(st.integers(0, 2**30)), alias=draw(st.booleans()))


@sub('P40', 'relatives of the own chain', relatives(), 400, rule='the chain is invalid and shares blocks with the own one')
def related(case, rec):
  """What a node holds itself is no reason to accept or refuse a chain."""
  source = pool()[case['base']] if case['base'] < 6 else bigger.long_pool()[case['base'] - 6]
  bc = new_chain()
  bc.chain = copy.deepcopy(source[:1 + (case['own'] - 1) % len(source)])
  shown = copy.deepcopy(source[:1 + (case['shown'] - 1) % len(source)])
  n, k = len(shown), case['k'] % len(shown)
  ok = True
  if case['how'].startswith('proof') and n > 1:
    # a proof without work, perhaps with honest work on top of it
    k = max(1, k)
    shown = shown[:k + 1]
    last, p = bc.hash(shown[k - 1]), case['salt']
    while work(shown[k - 1]['proof'], p, last).startswith('0000'):
      p += 1
    shown[k]['proof'] = p
    ok = False
    if case['how'] != 'proof':
      nxt = dict(index=k + 2, timestamp=1.5, transactions=[], proof=0, previous_hash=bc.hash(shown[k]))
      while not work(p, nxt['proof'], nxt['previous_hash']).startswith('0000'):
        nxt['proof'] += 1
      shown.append(nxt)
  elif case['how']:
    shown, ok = bigger.spoiled(bc, shown, case['how'], k, case['salt'])
  if case['alias']:
    # the very blocks of the own chain where they are the same
    own = {json.dumps(b, sort_keys=True): b for b in bc.chain}
    shown = [own.get(json.dumps(b, sort_keys=True), b) for b in shown]
  rec.nt(not ok and len(bc.chain) > 1 and shown[0] == bc.chain[0])
  rec.label(case['how'] or 'good')
  before = copy.deepcopy(bc.chain)
  require(bigger.accepts(bc, shown) == ok, 'a chain of %d blocks (%s at block %d) is %s by a node with %d blocks of it', len(shown),
          case['how'], k, 'refused' if ok else 'accepted', len(bc.chain))
  require(bc.chain == before, 'judging a chain changed the own one')


@st.composite
def ledgers(draw):
  return dict(length=draw(st.one_of(st.sampled_from([99, 100, 127, 128, 255, 256, 999, 1000, 1023, 1024, 4096]), st.integers(30, 3000))),
              seed=draw(st.integers(0, 10**6)), rounds=draw(st.lists(st.integers(0, 3), min_size=1, max_size=3)))


@sub('P42', 'long ledgers', ledgers(), 40, rule='more than a hundred blocks')
def long_ledger(case, rec):
  """A node with many blocks goes on as one with few (the old blocks are made up: only the new ones are judged)."""
  import run_blockchain as node
  node.blockchain = bc = new_chain()
  n = case['length']
  for i in range(2, n + 1):
    bc.chain.append(dict(index=i, timestamp=1e9 + i, transactions=[dict(sender='a', recipient='b', amount=i)], proof=i + case['seed'],
                         previous_hash='%064x' % (i * 2**240 + case['seed'])))
  client = node.app.test_client()
  rec.nt(n > 100)
  serial, want = 0, []
  for txs in case['rounds']:
    block = []
    for _ in range(txs):
      t = dict(sender='s%d' % serial, recipient='r', amount=serial)
      serial += 1
      r = client.post('/transactions/new', json=t)
      require(r.status_code == 201 and str(n + len(want) + 1) in r.get_json()['message'].replace('.', ' ').split(),
              'answer %r with %d blocks', r.get_json(), n + len(want))
      block.append(t)
    d = client.get('/mine').get_json()
    block.append(dict(sender='0', recipient=node.node_identifier, amount=1))
    want.append(block)
    require(d['index'] == n + len(want) and d['transactions'] == block, 'mined %r on %d blocks', d, n + len(want) - 1)
  d = client.get('/chain').get_json()
  require(d['length'] == len(d['chain']) == n + len(want), '/chain announces %r of %d blocks', d['length'], n + len(want))
  tail = d['chain'][n - 1:]
  require([b['transactions'] for b in tail[1:]] == want, 'transactions of the new blocks')
  require(new_chain().valid_chain(tail), 'the new blocks do not continue a chain of %d blocks', n)
  for a, b in zip(tail, tail[1:]):
    h = new_chain().hash(a)
    require(b['previous_hash'] == h and work(a['proof'], b['proof'], h).startswith('0000'), 'block %r does not follow', b['index'])
  require([b['index'] for b in d['chain']] == list(range(1, n + len(want) + 1)), 'the old blocks are not served')
