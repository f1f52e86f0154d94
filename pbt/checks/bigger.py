"""The protocols and the node at sizes above the everyday ones (longer.py does the same for the algebra)."""

import copy
import functools
import hashlib
import json


from hypothesis import strategies as st

from pbt import gens, ref
from pbt.core import prep, require, sub
from pbt.checks import misc, multi, proofs
from pbt.checks.chain import FakeNet, Response, easy_proof, edit, failing, failures, new_chain, patched_net, pool, transaction, work
from pbt.checks.proofs import (BIGP, KINDS, TURNS, admissible, any_p, big_p, final_points, rounds_of, stark_ok)

seeds = st.integers(0, 2**30)

# ------------------------------------------------------------------ P28, P29

DEEP = [b for b in range(17, 4097) if admissible(b)]


@st.composite
def large_fri(draw, ps, sound, sizes=(1024, 1024, 2048, 2048, 4096, 8192)):
  n = draw(st.sampled_from(sizes))
  p = draw(ps.map(lambda p: p if (p - 1) % n == 0 else gens.STARK_P))
  e = draw(st.one_of(st.just(0), st.sampled_from([2, 4, 8, 16, 32, 64]), st.integers(2, 100)))
  ok = [b for b in DEEP if b <= n]
  if sound:
    ok = [b for b in ok if b < n and b // 4**rounds_of(b) < final_points(n, b, e)]
    if not ok:
      e = 0
      ok = [b for b in DEEP if b < n]
  # few of the bounds are small or large: pick the number of rounds first
  k = draw(st.sampled_from(sorted({rounds_of(b) for b in ok})))
  bound = draw(st.sampled_from([b for b in ok if rounds_of(b) == k]))
  c = dict(p=p, n=n, exclude=e, bound=bound, factor=draw(st.one_of(st.none(), st.integers(1, 60), st.sampled_from([100, 200]))),
           turn=draw(TURNS))
  if sound:
    top = max(min(n, final_points(n, bound, e) * 4**k) - 1, bound)
    deg = draw(st.one_of(st.just(bound), st.just(top), st.integers(bound, top)))
  else:
    deg = draw(st.one_of(st.just(bound - 1), st.integers(0, bound - 1)))
  c['poly'] = [deg, draw(KINDS), draw(st.integers(0, 1000))]
  return c


sub('P28', 'large domains', large_fri(any_p, False), 60, rule='the proof has at least one folding round')(proofs.fri_complete)
sub('P29', 'large domains', large_fri(big_p, True), 60, rule='the proof has at least one folding round')(proofs.fri_high_degree)


@st.composite
def large_tampers(draw):
  c = draw(large_fri(big_p, True, (1024, 1024, 2048)))
  c['poly'] = [draw(st.integers(0, c['bound'] - 1)), draw(KINDS), draw(st.integers(0, 1000))]
  c['ops'] = draw(st.lists(st.tuples(
      st.sampled_from(['flip', 'flip', 'root', 'bound', 'drop', 'swap', 'sibling']), st.integers(0, 2**40),
      st.integers(0, 255)).map(list), min_size=4, max_size=10))
  return c


sub('P29', 'large domains, tampered', large_tampers(), 42, rule='the proof has at least one folding round')(proofs.fri_tampered)


# ------------------------------------------------------------------ P30, P31


@st.composite
def long_statements(draw, ps, tamper=False):
  """Long traces, constraints of high degree, many spot checks, wide extensions: one or two of them at a time."""
  what = draw(st.sampled_from(['steps', 'steps', 'degree', 'checks', 'extension']))
  steps = draw(st.sampled_from([64, 64, 128] if what == 'steps' else [8, 16, 16, 32]))
  ok = [d for d in (range(1, 25) if what == 'degree' else range(1, 7)) if stark_ok(steps, d)]
  if what == 'degree':
    ok = [d for d in ok if d > 5] or ok
  if steps > 64:
    ok = [d for d in ok if d < 3]
  deg = draw(st.sampled_from(ok))
  ext = min(x for x in (4, 8, 16, 32, 64, 128) if x >= deg) * draw(st.sampled_from([1, 1, 2]))
  if what == 'extension':
    ext = draw(st.sampled_from([32, 64]))
  while steps * ext > 1024:
    if ext // 2 >= max(deg, 2):
      ext //= 2
    else:
      steps //= 2
      if not stark_ok(steps, deg):
        deg = 1
  p = draw(ps.map(lambda p: p if (p - 1) % (steps * ext) == 0 else BIGP))
  w = draw(st.integers(1, 2 if what in ('steps', 'degree') else 3))
  d = ['Z', p]
  lead = draw(st.integers(0, w - 1))
  polys = []
  for i in range(w):
    terms = {}
    for _ in range(draw(st.integers(0 if i != lead else 1, 2))):
      vs = draw(st.lists(st.integers(0, w - 1), max_size=deg))
      terms[tuple(vs.count(k) for k in range(w))] = draw(gens.elements(d))
    if i == lead:
      vs = draw(st.lists(st.integers(0, w - 1), min_size=deg, max_size=deg))
      terms[tuple(vs.count(k) for k in range(w))] = draw(gens.elements(d, nonzero=True))
    polys.append([[list(e), c] for e, c in terms.items()])
  c = dict(p=p, steps=steps, ext=ext, width=w, polys=polys, inp=draw(st.lists(gens.elements(d), min_size=w, max_size=w)),
           checks=draw(st.integers(100, 400)) if what == 'checks' else draw(st.one_of(st.none(), st.integers(1, 100))))
  if tamper:
    c['ops'] = draw(st.lists(st.tuples(
        st.sampled_from(['flip', 'flip', 'flip', 'opening', 'input', 'output', 'step', 'drop', 'swap', 'fewer', 'statement',
                         'statement']),
        st.integers(0, 2**40), st.integers(0, 255), gens.elements(d, nonzero=True)).map(list), min_size=3, max_size=8))
  return c


sub('P30', 'long statements', long_statements(any_p), 36, rule='width at least 2, or degree at least 2')(proofs.stark_complete)
sub('P31', 'long statements, tampered', long_statements(any_p, True), 30, rule='every case')(proofs.stark_tampered)


# ------------------------------------------------------------------ P40, P41, P42


@functools.lru_cache(maxsize=None)
def long_pool():
  """Two chains of 48 blocks that agree up to the 24th, and one of 33."""
  out = []
  for i, n in enumerate((48, 48, 33)):
    bc = new_chain()
    if i == 1:
      bc.chain = copy.deepcopy(out[0][:24])
      bc.chain[-1]['timestamp'] += 7
    while True:
      block = bc.chain[-1]
      if len(bc.chain) > 1 or i != 1:
        block['timestamp'] = 1600000000.5 + 10**6 * i + 600 * len(bc.chain)
      while easy_proof(bc, block) is None:
        block['timestamp'] += 1
      if len(bc.chain) == n:
        break
      for t in [['a%d' % i, 'b', len(bc.chain)], ['x', 'y', i]][:1 + n % 2]:
        bc.new_transaction(*t)
      bc.new_block(easy_proof(bc, block), bc.hash(block))
    out.append(json.loads(json.dumps(bc.chain)))
  return out


@prep('P40', 'P41')
def fill_long_pool():
  long_pool()


def spoiled(bc, chain, how, k, salt):
  """(the chain with one block changed, whether it is still valid)."""
  chain = copy.deepcopy(chain)
  n = len(chain)
  k %= n
  if how == 'field':
    edit(chain[k], ['index', 'timestamp', 'transactions', 'tx'][salt % 4], salt, 'x', bc)
    return chain, k == n - 1
  if how == 'link' and k:
    chain[k]['previous_hash'] = hashlib.sha256(b'%d' % salt).hexdigest()
    return chain, False
  if how == 'cut' and 0 < k < n - 1:
    del chain[k]
    return chain, False
  if how == 'twice' and 0 < k:
    chain.insert(k, copy.deepcopy(chain[k]))
    return chain, False
  if how == 'work' and k:
    # a chain rebuilt from a changed block on, every link right, no work done
    edit(chain[k - 1], 'transactions', salt, 'x', bc)
    for i in range(k, n):
      chain[i]['previous_hash'] = bc.hash(chain[i - 1])
    ok = all(work(chain[i - 1]['proof'], chain[i]['proof'], chain[i]['previous_hash']).startswith('0000') for i in range(1, n))
    return chain, ok
  return chain, True


SPOIL = st.sampled_from(['', '', '', 'field', 'link', 'cut', 'twice', 'work'])


@sub('P40', 'long chains', st.lists(st.tuples(st.integers(0, 2), st.integers(17, 48), SPOIL, st.integers(0, 47), st.integers(0, 2**30)).map(list),
                                    min_size=1, max_size=4), 300, rule='a defect behind the sixteenth block')
def long_chains(case, rec):
  bc = new_chain()
  for which, n, how, k, salt in case:
    chain, ok = spoiled(bc, long_pool()[which][:n], how, k, salt)
    rec.nt(not ok and k % min(n, len(long_pool()[which])) > 16)
    rec.label(how or 'good')
    require(accepts(bc, chain) == ok, 'a chain of %d blocks (%s at block %d) is %s', len(chain), how, k, 'refused' if ok else 'accepted')


def accepts(bc, chain):
  try:
    return bool(bc.valid_chain(chain))
  except Exception:
    return False


@st.composite
def crowds(draw):
  node = st.fixed_dictionaries(dict(
      chain=st.integers(0, 2), length=st.integers(1, 48), how=SPOIL, k=st.integers(0, 47), salt=st.integers(0, 2**30),
      status=st.sampled_from([200, 200, 200, 200, 200, 404, 500]), lie=st.sampled_from([None, None, None, 0, 1, 99]), fail=failures))
  top = draw(st.integers(1, 48))
  nodes = draw(gens.exact(node, 8, 40))
  # the best chain is served late, early, or by several
  for i in draw(st.lists(st.integers(0, len(nodes) - 1), max_size=3)):
    nodes[i] = dict(nodes[i], how='', status=200, fail='', lie=None)
  for node in nodes:
    node['length'] = min(node['length'], top)
  return dict(own=draw(st.integers(0, 2)), own_len=draw(st.integers(1, top)), nodes=nodes)


@sub('P41', 'many nodes', crowds(), 180, rule='an acceptable longer chain competes with an unacceptable one as long')
def many_nodes(case, rec):
  bc = new_chain()
  bc.chain = copy.deepcopy(long_pool()[case['own']][:case['own_len']])
  own = copy.deepcopy(bc.chain)
  answers, good, bad = {}, [], []
  for i, spec in enumerate(case['nodes']):
    host = '10.0.%d.%d:%d' % (i // 7, i, 5000 + i)
    bc.register_node('http://' + host)
    chain, ok = spoiled(bc, long_pool()[spec['chain']][:spec['length']], spec['how'], spec['k'], spec['salt'])
    if spec['fail'] and len(chain) > 1:
      answers[host], ok = failing(spec['fail'], chain), False
    else:
      answers[host] = Response(spec['status'], dict(chain=chain, length=len(chain) if spec['lie'] is None else spec['lie']))
      ok = ok and spec['status'] == 200
    (good if ok else bad).append(chain)
  best = max([len(c) for c in good] + [0])
  rec.nt(best > len(own) and any(len(c) >= best for c in bad))
  for again in range(2):
    net = FakeNet(answers)
    with patched_net(net):
      got = bc.resolve_conflicts()
    require(set(net.asked) == set(answers), 'asked %d of %d nodes', len(set(net.asked)), len(answers))
    if best > len(own) and not again:
      require(got is True, 'a longer valid chain was served, answer %r', got)
      require(bc.chain in good and len(bc.chain) == best, 'adopted a chain of %d blocks, the best valid one has %d', len(bc.chain), best)
      own = copy.deepcopy(bc.chain)
    else:
      require(got is False and bc.chain == own, 'nothing longer was served, answer %r', got)


@st.composite
def long_histories(draw):
  op = st.one_of(
      st.tuples(st.just('tx'), transaction), st.tuples(st.just('tx'), transaction), st.tuples(st.just('tx'), transaction),
      st.tuples(st.just('many'), st.integers(10, 200)), st.tuples(st.just('mine'), st.just(0)), st.tuples(st.just('badtx'), st.just(0)),
      st.tuples(st.just('register'), st.lists(st.integers(1, 200), max_size=30)),
      st.tuples(st.just('resolve'), st.tuples(st.integers(1, 200), st.integers(0, 5), st.integers(1, 12))))
  return draw(gens.exact(op.map(list), 20, 80))


@sub('P42', 'long histories', long_histories(), 48, rule='a mined block holds more than fifty transactions, or more than twenty nodes are known')
def long_history(case, rec):
  import run_blockchain as node
  node.blockchain = new_chain()
  client = node.app.test_client()
  chain, pending, nodes, mines, net = [[]], [], set(), 0, FakeNet({})

  def submit(s, r, a):
    body = dict(sender=s, recipient=r, amount=a)
    ans = client.post('/transactions/new', json=body)
    require(ans.status_code == 201 and str(len(chain) + 1) in ans.get_json()['message'].split(), 'announced: %r, expected block %d',
            ans.get_json(), len(chain) + 1)
    pending.append(body)

  with patched_net(net):
    for i, (op, arg) in enumerate(case):
      if op == 'tx':
        submit(*arg)
      elif op == 'many':
        for j in range(arg):
          submit('s%d' % (j % 3), 'r%d' % i, j)
      elif op == 'badtx':
        require(client.post('/transactions/new', json=dict(sender='a')).status_code == 400, 'an incomplete transaction was accepted')
      elif op == 'mine' and mines < 4:
        mines += 1
        d = client.get('/mine').get_json()
        require(d['transactions'][:-1] == pending, 'mined %d transactions, pending were %d', len(d['transactions']) - 1, len(pending))
        rec.nt(len(pending) > 50)
        require(d['transactions'][-1]['recipient'] == node.node_identifier and d['transactions'][-1]['amount'] == 1, 'no reward')
        chain.append(d['transactions'])
        pending.clear()
      elif op == 'register':
        ans = client.post('/nodes/register', json=dict(nodes=['http://10.0.1.%d:80' % j for j in arg]))
        nodes |= {'10.0.1.%d:80' % j for j in arg}
        rec.nt(len(nodes) > 20)
        require(ans.status_code == 201 and set(ans.get_json()['total_nodes']) == nodes, 'nodes %r', ans.get_json())
      elif op == 'resolve':
        served = copy.deepcopy(pool()[arg[1]][:arg[2]])
        net.answers = {h: Response(404, {}) for h in nodes}
        net.answers['10.0.1.%d:80' % arg[0]] = Response(200, dict(chain=served, length=len(served)))
        d = client.get('/nodes/resolve').get_json()
        new = '10.0.1.%d:80' % arg[0] in nodes and len(served) > len(chain)
        require(('new_chain' in d) == new, 'resolution: %r, expected %s chain', d['message'], 'another' if new else 'the same')
        if new:
          chain = [b['transactions'] for b in served]
    d = client.get('/chain').get_json()
  require(d['length'] == len(d['chain']) and [b['transactions'] for b in d['chain']] == chain, 'the chain does not hold what was mined')
  require(new_chain().valid_chain(d['chain']), 'another node finds the served chain invalid')
  require(node.blockchain.current_transactions == pending, 'pending transactions are not those submitted')


# ------------------------------------------------------------------ P17, P27, P32, P37


@st.composite
def long_traces(draw):
  how = draw(st.sampled_from(['steps', 'steps', 'degree', 'width']))
  c = draw(proofs.step_systems(st.one_of(gens.zp_descs(), gens.zp_descs(gens.small_primes)),
                               max_width=12 if how == 'width' else 2, max_deg=draw(st.sampled_from([20, 130, 300])) if how == 'degree' else 3))
  if how == 'degree':
    # one high power, in the first or the last register
    e = [0] * c['width']
    e[draw(st.sampled_from([0, -1]))] = draw(st.sampled_from([20, 64, 127, 128, 200, 255, 256, 257, 300]))
    c['steps_polys'][draw(st.integers(0, c['width'] - 1))] = [[e, 1]]
  c['t'] = draw(st.integers(7, 10)) if how == 'steps' else draw(st.integers(2, 4))
  c['row'] = draw(st.integers(0, 1022))
  c['dim'] = draw(st.integers(0, c['width'] - 1))
  c['delta'] = draw(gens.elements(c['field'], nonzero=True))
  c['as_int'] = False
  return c


sub('P27', 'long traces', long_traces(), 120, rule='width at least 2 and at least 3 steps')(proofs.air)


@st.composite
def long_components(draw):
  c = draw(long_statements(any_p))
  d = ['Z', c['p']]
  c['point'] = draw(gens.elements(d))
  c['entropy'] = draw(st.binary(min_size=32, max_size=32)).hex()
  c['cell'] = draw(st.tuples(st.integers(0, 255), st.integers(0, 3), gens.elements(d, nonzero=True)).map(list))
  return c


sub('P32', 'long statements', long_components(), 18, rule='width at least 2, or degree at least 2')(proofs.components)


sub('P37', 'long integers', st.tuples(st.integers(0, 8), st.integers(71, 300), st.integers(0, 2**300), st.integers(0, 299), seeds).map(list), 36,
    rule='at least two bits')(misc.int_commitments)


@st.composite
def big_tables(draw):
  desc, n = draw(st.sampled_from([(['Z', 31], 1), (['Z', 2], 5), (['Z', 2], 6), (['Z', 7], 2), (['Z', 3], 3), (['Z', 17], 1),
                                  (['F', 2, [1, 1, 0, 0, 1]], 1), (['F', 5, [2, 0, 1]], 1), (['F', 3, [1, 2, 0, 1]], 1)]))
  size = ref.field(desc).q**n
  vals = draw(st.lists(gens.elements(desc), min_size=size, max_size=size))
  return dict(field=desc, n=n, values=vals, at=0, ring=draw(st.booleans()))


sub('P17', 'larger domains', big_tables(), 36, rule='the function is not constant')(multi.arithmetise)
