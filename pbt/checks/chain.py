"""P40-P42: the example blockchain: validity, consensus, the HTTP node."""
import copy
import functools
import hashlib
import json

from hypothesis import strategies as st

from pbt import gens
from pbt.core import prep, require, sub

names = st.one_of(st.sampled_from(['alice', 'bob', '0', '']), st.text(max_size=6))
amounts = st.one_of(st.integers(-5, 100), st.just(0), st.integers(-2**70, 2**70), st.sampled_from([0.5, 1e300, 1e-9, 0.1]))
transaction = st.tuples(names, names, amounts).map(list)


def new_chain():
  from starks.blockchain import Blockchain
  return Blockchain()


def mine(bc, txs=()):
  for t in txs:
    bc.new_transaction(*t)
  last = bc.last_block
  return bc.new_block(bc.proof_of_work(last), bc.hash(last))


def work(last_proof, proof, last_hash):
  return hashlib.sha256(('%s%s%s' % (last_proof, proof, last_hash)).encode()).hexdigest()


@functools.lru_cache(maxsize=None)
def pool():
  """Six mined chains of up to twelve blocks; their prefixes are shorter chains.

  Always the same ones: the times are chosen, so that the proof of the block that follows each prefix is small.
  """
  out = []
  for i in range(6):
    bc = new_chain()
    for j in range([2, 3, 4, 2, 6, 11][i] + 1):
      block = bc.chain[-1]
      block['timestamp'] = 1500000000.25 + 1000000 * i + 600 * j
      while easy_proof(bc, block) is None:
        block['timestamp'] += 1
      if j < [2, 3, 4, 2, 6, 11][i]:
        for t in [['a%d' % i, 'b', j], ['x', 'y', i]][:1 + j % 2]:
          bc.new_transaction(*t)
        bc.new_block(easy_proof(bc, block), bc.hash(block))
    out.append(json.loads(json.dumps(bc.chain)))
  return out


def easy_proof(bc, block):
  h = bc.hash(block)
  for n in range(3000):
    if work(block['proof'], n, h).startswith('0000'):
      return n
  return None


@prep('P40', 'P41', 'P42')
def fill_pool():
  pool()


def shuffled(x, k):
  """The same JSON value with its keys in another order."""
  if isinstance(x, dict):
    keys = sorted(x, key=lambda n: hashlib.sha256(('%d%s' % (k, n)).encode()).digest())
    return {n: shuffled(x[n], k) for n in keys}
  if isinstance(x, list):
    return [shuffled(y, k) for y in x]
  return x


# ---------------------------------------------------------------- building


@sub('P40', 'mined chains', st.lists(st.lists(transaction, max_size=4), min_size=1, max_size=3), 60,
     rule='at least one block with a transaction')
def mined(case, rec):
  bc = new_chain()
  require(len(bc.chain) == 1 and bc.valid_chain(bc.chain), 'fresh chain %r', bc.chain)
  want = [[]]
  rec.nt(any(case))
  for k, txs in enumerate(case):
    for t in txs:
      idx = bc.new_transaction(*t)
      require(idx == len(want) + 1, 'transaction announced for block %r, next block is %d', idx, len(want) + 1)
    before = copy.deepcopy(bc.chain)
    last = bc.last_block
    require(last is bc.chain[-1], 'last block is not the end of the chain')
    proof = bc.proof_of_work(last)
    require(bc.chain == before, 'searching for a proof changed the chain')
    if k % 2:
      blk = bc.new_block(proof, bc.hash(last))
    else:
      blk = bc.new_block(previous_hash=None, proof=proof)
    want.append([dict(sender=a, recipient=b, amount=c) for a, b, c in txs])
    require(bc.chain[:-1] == before, 'adding a block changed earlier blocks')
    require(blk == bc.chain[-1] and blk['index'] == len(bc.chain) == len(want), 'block %r', blk)
    require(bc.valid_chain(bc.chain), 'the chain is invalid after mining block %d', blk['index'])
  got = [b['transactions'] for b in bc.chain]
  require(got == want, 'transactions in the chain: %r, submitted: %r', got, want)
  over = json.loads(json.dumps(bc.chain))
  require(bc.valid_chain(over), 'the chain is invalid after travelling as JSON')
  require(new_chain().valid_chain(shuffled(over, len(case))), 'the chain is invalid with keys reordered')
  for k in range(1, len(over)):
    require(bc.valid_chain(over[:k]), 'prefix of %d blocks is invalid', k)
  require(not bc.current_transactions, 'transactions left after mining')


@sub('P40', 'proof of work', st.tuples(st.integers(0, 10**6), st.integers(0, 2**40), st.integers(0, 4)).map(list), 240,
     rule='at least three leading zero digits')
def work_checked(case, rec):
  """Candidates with exactly k leading zero digits; four are needed."""
  last_proof, salt, k = case
  last_hash = hashlib.sha256(b'%d' % salt).hexdigest()
  bc = new_chain()
  found = []
  n = salt % 1000
  while len(found) < 3 and n < 250000:
    d = work(last_proof, n, last_hash)
    if d[:k] == '0' * k and (k == 4 or d[k] != '0'):
      found.append(n)
    n += 1
  rec.label('zeros=%d' % k)
  rec.nt(k >= 3)
  for n in found:
    got = bc.valid_proof(last_proof, n, last_hash)
    require(bool(got) == (k == 4), 'proof with %d leading zero digits: %r', k, got)
    if k == 4:
      other = hashlib.sha256(b'other%d' % salt).hexdigest()
      for a, b in ((last_proof + 1, last_hash), (last_proof, other)):
        want = work(a, n, b).startswith('0000')
        require(bool(bc.valid_proof(a, n, b)) == want, 'proof for another block: %r', not want)


# ---------------------------------------------------------------- tampering


@st.composite
def tamperings(draw):
  kind = draw(st.sampled_from(['field', 'field', 'field', 'relink', 'drop', 'swap', 'dup', 'forge', 'splice']))
  return dict(chain=draw(st.integers(0, 5)), kind=kind, k=draw(st.integers(0, 11)), j=draw(st.integers(0, 11)),
              field=draw(st.sampled_from(['index', 'timestamp', 'transactions', 'proof', 'previous_hash', 'tx', 'extra',
                                          'missing'])),
              salt=draw(st.integers(0, 2**30)), text=draw(names))


def edit(block, field, salt, text, bc):
  if field == 'index':
    block['index'] += 1 + salt % 5
  elif field == 'timestamp':
    block['timestamp'] += 1 + salt % 1000
  elif field == 'transactions':
    block['transactions'] = list(block['transactions']) + [dict(sender=text, recipient='m', amount=salt)]
  elif field == 'proof':
    block['proof'] += 1 + salt % 100
  elif field == 'previous_hash':
    block['previous_hash'] = hashlib.sha256(b'%d' % salt).hexdigest()
  elif field == 'tx' and block['transactions']:
    block['transactions'][0]['amount'] += 1 + salt
  elif field == 'missing' and block['transactions']:
    block['transactions'] = block['transactions'][1:]
  else:
    block['note'] = text


@sub('P40', 'tampered chains', tamperings(), 1500, rule='the change is not at the end of the chain')
def tampered(case, rec):
  bc = new_chain()
  good = pool()[case['chain']]
  c = copy.deepcopy(good)
  n = len(c)
  k, j, kind = case['k'] % n, case['j'] % n, case['kind']
  rec.label(kind)
  must_fail = None
  if kind == 'field':
    edit(c[k], case['field'], case['salt'], case['text'], bc)
    rec.label(case['field'])
    if k < n - 1 or case['field'] == 'previous_hash':
      must_fail = True
    elif case['field'] == 'proof':
      must_fail = not work(c[-2]['proof'], c[-1]['proof'], c[-1]['previous_hash']).startswith('0000')
  elif kind == 'relink':
    # rewrite a block and fix every later link, without doing the work again
    k = k % (n - 1)
    edit(c[k], case['field'] if case['field'] != 'previous_hash' else 'tx', case['salt'], case['text'], bc)
    for i in range(k + 1, n):
      c[i]['previous_hash'] = bc.hash(c[i - 1])
    must_fail = not all(work(c[i - 1]['proof'], c[i]['proof'], c[i]['previous_hash']).startswith('0000')
                        for i in range(max(k, 1), n))
  elif kind == 'drop':
    k = 1 + k % (n - 1)
    del c[k]
    must_fail = k < n - 1
  elif kind == 'swap':
    c[k], c[j] = c[j], c[k]
    must_fail = k != j
  elif kind == 'dup':
    c.insert(k, copy.deepcopy(c[k]))
    must_fail = True
  elif kind == 'forge':
    # a linked block without work, at the end or in the middle
    b = dict(index=n + 1, timestamp=1.0, transactions=[], proof=case['salt'], previous_hash=bc.hash(c[-1]))
    must_fail = not work(c[-1]['proof'], b['proof'], b['previous_hash']).startswith('0000')
    c.append(b)
    if must_fail and case['j'] % 2:
      # honest work on top does not make up for it
      b2 = dict(index=n + 2, timestamp=2.0, transactions=[], proof=0, previous_hash=bc.hash(b))
      b2['proof'] = bc.proof_of_work(b)
      c.append(b2)
  else:
    o = pool()[(case['chain'] + 1 + case['j']) % 6]
    k = 1 + k % (n - 1)
    c = c[:k] + copy.deepcopy(o[k:])
    must_fail = k < len(o) and o is not good
  rec.nt(bool(must_fail) and k < n - 1)
  if must_fail is None:
    return
  try:
    ok = bool(bc.valid_chain(c))
  except Exception:
    require(must_fail, 'checking an acceptable chain failed')
    return
  require(ok == (not must_fail), 'valid_chain says %r of a chain with %s', ok, kind)


# ---------------------------------------------------------------- consensus


class Response(object):

  def __init__(self, status, body):
    self.status_code, self.body = status, body

  def json(self):
    if isinstance(self.body, Exception):
      raise self.body
    return copy.deepcopy(self.body)


class FakeNet(object):
  """Answers the node's requests; nothing leaves the process."""

  def __init__(self, answers):
    self.answers = answers
    self.asked = []

  def get(self, url, *args, **kw):
    host = url.split('//', 1)[-1].split('/', 1)[0]
    self.asked.append(host)
    if not url.endswith('/chain') or host not in self.answers:
      return Response(404, {})
    if isinstance(self.answers[host], Exception):
      raise self.answers[host]
    return self.answers[host]


class patched_net(object):

  def __init__(self, net):
    self.net = net

  def __enter__(self):
    import requests
    self.saved = requests.get, requests.Session.request
    requests.get = self.net.get
    requests.Session.request = lambda s, method, url, *a, **k: self.net.get(url)

  def __exit__(self, *exc):
    import requests
    requests.get, requests.Session.request = self.saved


FAILURES = ['refused', 'timeout', 'closed', 'text', 'empty', 'null', 'list', 'number', 'no chain', 'chain null', 'chain number',
            'chain text', 'chain object', 'block null', 'block list', 'no proof', 'no link', 'proof null']
failures = st.one_of(st.just(''), st.just(''), st.sampled_from(FAILURES))


def failing(kind, c):
  """What a node that is down or talks nonsense answers."""
  import requests
  if kind in ('refused', 'timeout', 'closed'):
    return {'refused': requests.exceptions.ConnectionError, 'timeout': requests.exceptions.ReadTimeout,
            'closed': requests.exceptions.ChunkedEncodingError}[kind](kind)
  if kind == 'text':
    try:
      return Response(200, requests.exceptions.JSONDecodeError('no JSON', 'x', 0))
    except Exception:
      return Response(200, ValueError('no JSON'))
  c = copy.deepcopy(c)
  if kind == 'block null':
    c[-1] = None
  elif kind == 'block list':
    c[len(c) // 2] = [1, 2]
  elif kind == 'no proof':
    del c[-1]['proof']
  elif kind == 'no link':
    del c[-1]['previous_hash']
  elif kind == 'proof null':
    c[-1]['proof'] = None
  body = {'empty': {}, 'null': None, 'list': [c], 'number': 17, 'no chain': {'length': 50, 'blocks': c},
          'chain null': {'chain': None, 'length': 50}, 'chain number': {'chain': 99, 'length': 99},
          'chain text': {'chain': 'x' * 50, 'length': 50},
          'chain object': {'chain': {str(i): b for i, b in enumerate(c * 9)}, 'length': 50}}
  return Response(200, body.get(kind, {'chain': c, 'length': len(c)}))


@st.composite
def networks(draw):
  node = st.fixed_dictionaries(dict(
      chain=st.integers(0, 5), length=st.one_of(st.integers(1, 5), st.integers(1, 12)),
      defect=st.sampled_from(['', '', '', 'tx', 'work', 'mid', 'last', 'index']),
      status=st.sampled_from([200, 200, 200, 200, 404, 500]), lie=st.sampled_from([None, None, 0, 1, 99]),
      fail=failures))
  return dict(own=draw(st.integers(0, 5)), own_len=draw(st.one_of(st.integers(1, 5), st.integers(1, 12))), rounds=draw(st.integers(1, 2)),
              nodes=draw(gens.exact(node, 0, 7)))


def served(bc, spec):
  """(response, chain, acceptable)."""
  base = pool()[spec['chain']]
  c = copy.deepcopy(base[:spec['length']])
  ok = True
  if spec['defect'] == 'tx' and len(c) > 1:
    c[0]['transactions'] = [dict(sender='m', recipient='m', amount=1)]
    ok = False
  elif spec['defect'] == 'mid' and len(c) > 2:
    c[1]['timestamp'] += 1
    ok = False
  elif spec['defect'] == 'last' and len(c) > 2:
    c[-2]['transactions'] = c[-2]['transactions'] + [dict(sender='m', recipient='m', amount=1)]
    ok = False
  elif spec['defect'] == 'work':
    for i in range(3):
      b = dict(index=len(c) + 1, timestamp=0.0, transactions=[], proof=7, previous_hash=bc.hash(c[-1]))
      ok = ok and work(c[-1]['proof'], 7, b['previous_hash']).startswith('0000')
      c.append(b)
  elif spec['defect'] == 'index':
    # not covered by the work of the chain: still valid
    c[-1]['index'] += 41
  if spec['fail'] and len(c) > 1:
    return failing(spec['fail'], c), c, False
  length = len(c) if spec['lie'] is None else spec['lie']
  return Response(spec['status'], dict(chain=c, length=length)), c, ok and spec['status'] == 200


@sub('P41', 'longest valid chain', networks(), 1800,
     rule='an acceptable longer chain competes with an unacceptable or shorter one')
def consensus(case, rec):
  bc = new_chain()
  bc.chain = copy.deepcopy(pool()[case['own']][:case['own_len']])
  answers, good, kinds = {}, [], set()
  for i, spec in enumerate(case['nodes']):
    host = '10.0.0.%d:5000' % (i + 1)
    bc.register_node('http://' + host if i % 2 else host)
    r, c, ok = served(bc, spec)
    answers[host] = r
    kinds.add((ok, len(c) > len(bc.chain)))
    if ok:
      good.append(c)
  net = FakeNet(answers)
  own = copy.deepcopy(bc.chain)
  pending = [dict(sender='p', recipient='q', amount=3)]
  bc.new_transaction('p', 'q', 3)
  best = max([len(c) for c in good] + [0])
  rec.nt((True, True) in kinds and len(kinds) > 1)
  rec.label('replaced' if best > len(own) else 'kept')
  for spec in case['nodes']:
    if spec['fail']:
      rec.label('node ' + spec['fail'])
  for r in range(case['rounds']):
    with patched_net(net):
      got = bc.resolve_conflicts()
    if best > len(own) and r == 0:
      require(got is True, 'a longer valid chain was served, answer %r', got)
      require(len(bc.chain) == best and bc.chain in good, 'adopted a chain of %d blocks, best valid one has %d',
              len(bc.chain), best)
      require(bc.valid_chain(bc.chain), 'an invalid chain was adopted')
      rec.label('second choice' if r else 'first')
    else:
      require(got is False, 'nothing longer was served, answer %r', got)
      require(bc.chain == (own if best <= len(own) else bc.chain) and len(bc.chain) == max(best, len(own)),
              'the chain changed although nothing longer was served')
  require(set(net.asked) == set(answers), 'asked %r of %r', set(net.asked), set(answers))
  require(bc.current_transactions == pending, 'pending transactions changed')


def node_specs(chance=failures):
  return st.fixed_dictionaries(dict(
      chain=st.integers(0, 5), length=st.one_of(st.integers(1, 5), st.integers(1, 12)),
      defect=st.sampled_from(['', '', '', 'tx', 'work', 'mid', 'last', 'index']),
      status=st.sampled_from([200, 200, 200, 200, 404, 500]), lie=st.sampled_from([None, None, 0, 1, 99]),
      fail=chance))


@st.composite
def changing_networks(draw):
  """Nodes whose answers change between resolutions: mended, broken, replaced by a chain of the same length, grown."""
  steps = []
  for _ in range(draw(st.integers(2, 7))):
    how = draw(st.sampled_from(['set', 'mend', 'mend', 'mend', 'grow', 'other', 'break', 'register', 'mine', 'again']))
    steps.append(dict(how=how, node=draw(st.integers(0, 2)), spec=draw(node_specs()) if how == 'set' else None,
                      k=draw(st.integers(1, 5)), resolve=draw(st.sampled_from([True, True, True, False])),
                      defect=draw(st.sampled_from(['tx', 'work', 'mid', 'last']))))
  return dict(own=draw(st.integers(0, 5)), own_len=draw(st.integers(1, 3)), nodes=[dict(draw(node_specs()), **({} if draw(st.booleans()) else dict(status=500))) for _ in range(3)],
              registered=draw(st.sampled_from([0, 1, 2, 3, 3, 3])), steps=steps)


@sub('P41', 'changing answers', changing_networks(), 500,
     rule='a node that was asked before has something acceptable and longer at a later resolution')
def changing(case, rec):
  bc = new_chain()
  bc.chain = copy.deepcopy(pool()[case['own']][:case['own_len']])
  hosts = ['10.0.0.%d:5000' % (i + 1) for i in range(3)]
  specs = [dict(s) for s in case['nodes']]
  registered = set(range(case['registered']))
  for i in registered:
    bc.register_node('http://' + hosts[i])
  asked, mined_own = set(), 0
  net = FakeNet({})
  for n, step in enumerate([dict(how='again', node=0, resolve=True)] + case['steps']):
    i, how = step['node'], step['how']
    rec.label(how)
    if how == 'set':
      specs[i] = dict(step['spec'])
    elif how == 'mend':
      specs[i].update(defect='', status=200, fail='', lie=None)
    elif how == 'grow':
      specs[i]['length'] = min(12, specs[i]['length'] + step['k'])
    elif how == 'other':
      specs[i]['chain'] = (specs[i]['chain'] + step['k']) % 6
    elif how == 'break':
      specs[i]['defect'] = step['defect']
    elif how == 'register':
      bc.register_node('http://' + hosts[i])
      registered.add(i)
    elif how == 'mine' and mined_own < 2:
      mined_own += 1
      mine(bc, [['own', 'block', n]])
    if not step['resolve']:
      continue
    answers, good = {}, []
    for j in range(3):
      r, c, ok = served(bc, specs[j])
      answers[hosts[j]] = r
      if ok and j in registered:
        good.append((c, j))
    net.answers, net.asked = answers, []
    own = copy.deepcopy(bc.chain)
    best = max([len(c) for c, _ in good] + [0])
    rec.nt(n > 0 and best > len(own) and any(len(c) == best and j in asked for c, j in good))
    with patched_net(net):
      got = bc.resolve_conflicts()
    require(set(net.asked) == {hosts[j] for j in registered}, 'resolution %d asked %r', n, net.asked)
    if best > len(own):
      require(got is True, 'a longer valid chain was served at resolution %d, answer %r', n, got)
      require(len(bc.chain) == best and any(bc.chain == c for c, _ in good),
              'resolution %d adopted a chain of %d blocks, the best valid one has %d', n, len(bc.chain), best)
    else:
      require(got is False, 'nothing longer was served at resolution %d, answer %r', n, got)
      require(bc.chain == own, 'the chain changed although nothing longer was served')
    asked |= registered


@st.composite
def addresses(draw):
  out = []
  for _ in range(draw(st.integers(1, 5))):
    host = draw(st.one_of(
        st.tuples(*[st.integers(0, 255)] * 4).map(lambda t: '%d.%d.%d.%d' % t),
        st.sampled_from(['localhost', 'node.example.org', 'a-b.c'])))
    port = draw(st.one_of(st.just(''), st.integers(1, 65535).map(lambda n: ':%d' % n)))
    scheme = draw(st.sampled_from(['http://', 'https://', ''])) if host[0].isdigit() else 'http://'
    path = draw(st.sampled_from(['', '/', '/chain', '/a?b=c'])) if scheme else ''
    out.append([scheme + host + port + path, host + port])
  return out


@sub('P41', 'node addresses', addresses(), 600, rule='at least two different nodes')
def node_addresses(case, rec):
  bc = new_chain()
  for url, _ in case:
    bc.register_node(url)
  want = {h for _, h in case}
  rec.nt(len(want) > 1)
  require(set(bc.nodes) == want, 'registered %r as %r', [u for u, _ in case], bc.nodes)
  try:
    bc.register_node('')
  except ValueError:
    pass
  else:
    require(False, 'an empty address was registered')


# ---------------------------------------------------------------- the HTTP node


BAD_NODES = {
    'none': {}, 'null': None, 'list': ['http://10.0.0.1'], 'text': 'http://10.0.0.1', 'nodes null': {'nodes': None},
    'nodes text': {'nodes': 'http://10.0.0.1'}, 'nodes number': {'nodes': 5}, 'nodes object': {'nodes': {'http://10.0.0.1': 1}},
    'one empty': {'nodes': ['http://10.0.0.2', 'http://10.0.0.3', '']}, 'one number': {'nodes': ['http://10.0.0.2', 7]},
    'one null': {'nodes': [None, 'http://10.0.0.4']}, 'one broken': {'nodes': ['http://10.0.0.3', 'http://[']},
    'one list': {'nodes': ['http://10.0.0.3', ['http://10.0.0.4']]},
}


@st.composite
def histories(draw):
  op = st.one_of(
      st.tuples(st.just('tx'), transaction),
      st.tuples(st.just('tx'), transaction),
      st.tuples(st.just('badtx'), st.sampled_from(['sender', 'recipient', 'amount', 'all', 'null', 'list', 'text', 'number',
                                                   'nested', 'no json'])),
      st.tuples(st.just('mine'), st.just(0)),
      st.tuples(st.just('mine'), st.just(0)),
      st.tuples(st.just('chain'), st.just(0)),
      st.tuples(st.just('register'), st.lists(st.integers(1, 4), max_size=3)),
      st.tuples(st.just('badregister'), st.sampled_from(sorted(BAD_NODES))),
      st.tuples(st.just('resolve'), st.just(0)),
      st.tuples(st.just('resolve'), st.just(0)),
      st.tuples(st.just('served'), st.tuples(st.integers(1, 4), st.sampled_from(['mend', 'grow', 'break']), st.integers(1, 4))))
  node = st.fixed_dictionaries(dict(
      chain=st.integers(0, 5), length=st.one_of(st.integers(1, 5), st.integers(1, 12)),
      defect=st.sampled_from(['', '', 'tx', 'work', 'last', 'index']),
      status=st.sampled_from([200, 200, 200, 500]), lie=st.sampled_from([None, None, 99]),
      fail=st.one_of(st.just(''), failures)))
  return dict(ops=draw(st.lists(op.map(list), min_size=4, max_size=16)), net=draw(st.lists(node, min_size=4, max_size=4)))


@sub('P42', 'histories', histories(), 360, rule='a transaction is submitted and later mined or a chain adopted')
def http_history(case, rec):
  import run_blockchain as node
  node.blockchain = new_chain()
  client = node.app.test_client()
  answers, chains = {}, {}
  for i, spec in enumerate(case['net']):
    r, c, ok = served(node.blockchain, spec)
    answers['10.0.0.%d' % (i + 1)] = r
    chains['10.0.0.%d' % (i + 1)] = (c, ok)
  specs = [dict(s) for s in case['net']]
  model = dict(chain=[[]], pending=[], nodes=set())
  foreign = None
  mines = 0
  with patched_net(FakeNet(answers)):
    for op, arg in case['ops']:
      if op == 'mine':
        mines += 1
        if mines > 3:
          op = 'chain'
      rec.label(op)
      if op == 'tx':
        body = dict(sender=arg[0], recipient=arg[1], amount=arg[2])
        r = client.post('/transactions/new', json=body)
        require(r.status_code == 201, 'a transaction was answered with %d', r.status_code)
        require(str(len(model['chain']) + 1) in r.get_json()['message'].split(), 'announced block: %r', r.get_json())
        model['pending'].append(body)
      elif op == 'badtx':
        body = dict(sender='a', recipient='b', amount=1)
        if arg == 'no json':
          r = client.post('/transactions/new', data=json.dumps(body) + '}', content_type='application/json')
        elif arg in ('null', 'list', 'text', 'number', 'nested'):
          body = {'null': None, 'list': list(body), 'text': ' '.join(body), 'number': 3, 'nested': {'transaction': body}}[arg]
          r = client.post('/transactions/new', data=json.dumps(body), content_type='application/json')
        else:
          for f in [arg] if arg != 'all' else list(body):
            del body[f]
          r = client.post('/transactions/new', json=body)
        require(r.status_code == 400, 'a transaction without %s was answered with %d', arg, r.status_code)
      elif op == 'mine':
        r = client.get('/mine')
        require(r.status_code == 200, 'mining was answered with %d', r.status_code)
        d = r.get_json()
        reward = [t for t in d['transactions'] if t['sender'] == '0' and t['amount'] == 1 and
                  t['recipient'] == node.node_identifier]
        require(d['transactions'][:-1] == model['pending'] and reward and d['transactions'][-1] == reward[-1],
                'mined %r, pending were %r', d['transactions'], model['pending'])
        rec.nt(bool(model['pending']))
        model['chain'].append(d['transactions'])
        model['pending'] = []
        require(d['index'] == len(model['chain']), 'mined block %r, expected %d', d['index'], len(model['chain']))
      elif op == 'register':
        r = client.post('/nodes/register', json=dict(nodes=['http://10.0.0.%d' % i for i in arg]))
        require(r.status_code == 201, 'registration was answered with %d', r.status_code)
        model['nodes'] |= {'10.0.0.%d' % i for i in arg}
        require(set(r.get_json()['total_nodes']) == model['nodes'], 'nodes %r', r.get_json())
      elif op == 'badregister':
        r = client.post('/nodes/register', data=json.dumps(BAD_NODES[arg]), content_type='application/json')
        require(r.status_code == 400, 'a registration with a bad list of nodes (%s) was answered with %d', arg, r.status_code)
        r = client.post('/nodes/register', json=dict(nodes=[]))
        require(set(r.get_json()['total_nodes']) == model['nodes'], 'after a refused registration (%s): %r', arg, r.get_json())
      elif op == 'served':
        # another node starts to serve something else
        spec = specs[arg[0] - 1]
        if arg[1] == 'grow':
          spec['length'] = min(12, spec['length'] + arg[2])
        elif arg[1] == 'mend':
          spec.update(defect='', status=200, fail='', lie=None)
        else:
          spec['defect'] = ['tx', 'work', 'last', 'tx'][arg[2] - 1]
        h = '10.0.0.%d' % arg[0]
        answers[h], c, ok = served(new_chain(), spec)
        chains[h] = (c, ok)
      elif op == 'resolve':
        cand = [chains[h][0] for h in model['nodes'] if chains[h][1]]
        best = max([len(c) for c in cand] + [0])
        r = client.get('/nodes/resolve')
        require(r.status_code == 200, 'resolving was answered with %d', r.status_code)
        d = r.get_json()
        if best > len(model['chain']):
          require(len(d.get('new_chain', [])) == best and d['new_chain'] in cand, 'resolution did not adopt the longest chain')
          model['chain'] = [b['transactions'] for b in d['new_chain']]
          rec.nt()
        else:
          require('new_chain' not in d and len(d['chain']) == len(model['chain']), 'resolution replaced the chain')
      r = client.get('/chain')
      require(r.status_code == 200, '/chain was answered with %d', r.status_code)
      d = r.get_json()
      require(d['length'] == len(d['chain']) == len(model['chain']), 'length %r, %d blocks, expected %d', d['length'],
              len(d['chain']), len(model['chain']))
      require([b['transactions'] for b in d['chain']] == model['chain'], 'the chain does not hold what was mined')
      require(new_chain().valid_chain(d['chain']), 'another node finds the served chain invalid after %s', op)
