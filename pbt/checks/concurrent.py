"""P47: requests that overlap. One request is stopped at a chosen line of the node's code, others arrive meanwhile."""
import copy
import itertools
import json
import os
import sys
import threading
import time

from hypothesis import strategies as st

from pbt import gens
from pbt.checks.chain import FakeNet, new_chain, patched_net, pool, served, work
from pbt.core import REPO, HarnessError, prep, require, sub

CODE = (os.path.join(REPO, 'misc', 'blockchain.py'), os.path.join(REPO, 'misc', 'run_blockchain.py'))


@prep('P47')
def fill():
  import run_blockchain
  assert run_blockchain
  pool()


class Request(object):
  """One request in a thread of its own, stopped before the k-th different line of the node's code (k None: never).

  With visits > 1 the second, third .. time at a line counts as a line of its own.
  """

  def __init__(self, send, at=None, visits=1):
    self.send, self.at, self.visits = send, at, visits
    self.result = self.error = None
    self.paused, self.go, self.done = threading.Event(), threading.Event(), threading.Event()
    self.lines, self.count, self.calls = {}, 0, {}
    self.stopped_at = None
    self.thread = threading.Thread(target=self.run, daemon=True)

  def start(self):
    self.thread.start()
    return self

  def run(self):
    if self.at is not None:
      sys.settrace(self.on_call)
    try:
      self.result = self.send()
    except BaseException as e:
      self.error = e
    finally:
      sys.settrace(None)
      self.done.set()
      self.paused.set()

  def on_call(self, frame, event, arg):
    if self.stopped_at is None and os.path.realpath(frame.f_code.co_filename) in CODE:
      self.calls[frame.f_code] = n = self.calls.get(frame.f_code, 0) + 1
      if n <= 20:  # the search for a proof calls one function many times
        return self.on_line
    return None

  def on_line(self, frame, event, arg):
    if event != 'line' or self.stopped_at is not None:
      return self.on_line
    key = (frame.f_code.co_filename, frame.f_lineno)
    self.lines[key] = seen = self.lines.get(key, 0) + 1
    if seen <= self.visits:
      self.count += 1
      if self.count > self.at:
        self.stopped_at = '%s:%d' % (os.path.basename(key[0]), key[1])
        self.paused.set()
        if not self.go.wait(300):
          raise HarnessError('never resumed')
    return self.on_line

  def settle(self):
    """Waits until the thread has finished or does not move any more."""
    still, last = 0, None
    while still < 8 and not self.done.wait(0.004):
      f = sys._current_frames().get(self.thread.ident)
      here = (id(f), f.f_lasti) if f is not None else None
      still = still + 1 if here == last else 0
      last = here

  def finish(self, what):
    require(self.done.wait(60), '%s is not answered: the requests block each other', what)
    if self.error is not None:
      raise self.error
    return self.result


# ---------------------------------------------------------------- what the node should do


class State(object):

  def __init__(self, chain, pending=(), nodes=()):
    self.chain, self.pending, self.nodes = tuple(chain), tuple(pending), frozenset(nodes)

  def key(self):
    return self.chain, self.pending, self.nodes


def txt(x):
  return json.dumps(x, sort_keys=True)


def step(s, op, arg, got, env):
  """The state after the request if this answer is right in state s, or None."""
  if op == 'tx':
    if got != len(s.chain) + 1:
      return None
    return State(s.chain, s.pending + (txt(arg),), s.nodes)
  if op == 'mine':
    block = s.pending + (env['reward'],)
    if got != (len(s.chain) + 1, block):
      return None
    return State(s.chain + (block,), (), s.nodes)
  if op == 'chain':
    return s if got == s.chain else None
  if op == 'register':
    n = s.nodes | set(arg)
    return State(s.chain, s.pending, n) if got == n else None
  cand = [env['chains'][h] for h in s.nodes if env['chains'][h] is not None]
  best = max([len(c) for c in cand] + [0])
  replaced, chain = got
  if best > len(s.chain):
    return State(chain, s.pending, s.nodes) if replaced and len(chain) == best and chain in cand else None
  return s if not replaced and chain == s.chain else None


def contents(blocks):
  return tuple(tuple(txt(t) for t in b['transactions']) for b in blocks)


def check_chain(blocks, what):
  for a, b in zip(blocks, blocks[1:]):
    h = new_chain().hash(a)
    require(b['previous_hash'] == h and work(a['proof'], b['proof'], h).startswith('0000'),
            '%s: block %r does not follow block %r', what, b['index'], a['index'])
  require(new_chain().valid_chain(blocks), '%s is invalid', what)


def sender(node, op, arg):
  """The request, and its answer in the terms of the model."""

  def send():
    client = node.app.test_client()
    if op == 'tx':
      r = client.post('/transactions/new', json=arg)
      require(r.status_code == 201, 'a transaction was answered with %d', r.status_code)
      return [int(w) for w in r.get_json()['message'].split() if w.isdigit()][0]
    if op == 'mine':
      r = client.get('/mine')
      require(r.status_code == 200, 'mining was answered with %d', r.status_code)
      d = r.get_json()
      return d['index'], tuple(txt(t) for t in d['transactions'])
    if op == 'chain':
      r = client.get('/chain')
      require(r.status_code == 200, '/chain was answered with %d', r.status_code)
      d = r.get_json()
      require(d['length'] == len(d['chain']), 'length %r of a chain of %d blocks', d['length'], len(d['chain']))
      check_chain(d['chain'], 'the chain served meanwhile')
      return contents(d['chain'])
    if op == 'register':
      r = client.post('/nodes/register', json=dict(nodes=['http://' + h for h in arg]))
      require(r.status_code == 201, 'registration was answered with %d', r.status_code)
      return frozenset(r.get_json()['total_nodes'])
    r = client.get('/nodes/resolve')
    require(r.status_code == 200, 'resolving was answered with %d', r.status_code)
    d = r.get_json()
    return 'new_chain' in d, contents(d['new_chain'] if 'new_chain' in d else d['chain'])

  return send


# ---------------------------------------------------------------- cases


@st.composite
def overlaps(draw):
  op = st.one_of(st.tuples(st.just('tx'), st.integers(0, 99)), st.just(('mine', 0)), st.just(('mine', 0)), st.just(('resolve', 0)),
                 st.just(('resolve', 0)), st.just(('chain', 0)),
                 st.tuples(st.just('register'), st.lists(st.integers(1, 3), min_size=1, max_size=2))).map(list)
  first = st.one_of(st.just(['mine', 0]), st.just(['resolve', 0]), op)
  node = st.fixed_dictionaries(dict(
      chain=st.integers(0, 5), length=st.integers(1, 6), defect=st.sampled_from(['', '', '', 'tx']), status=st.just(200),
      lie=st.none(), fail=st.sampled_from(['', '', '', 'refused'])))
  group = st.fixed_dictionaries(dict(first=first, at=st.one_of(st.integers(0, 45), st.integers(0, 15)), visits=st.sampled_from([1, 1, 2, 4]),
                                     others=st.lists(op, min_size=1, max_size=2), together=st.booleans()))
  return dict(net=draw(st.lists(node, min_size=3, max_size=3)), nodes=draw(st.lists(st.integers(1, 3), max_size=3, unique=True)),
              own=draw(st.integers(1, 3)), pending=draw(st.integers(0, 2)),
              groups=draw(st.lists(group, min_size=1, max_size=2)))


def host(i):
  return '10.0.0.%d' % i


@sub('P47', 'overlapping requests', overlaps(), 320, rule='a request is stopped in the middle while another changes the node')
def overlapping(case, rec):
  play(case, rec)


def play(case, rec):
  """The case against the model; whether the last group's request was stopped."""
  import run_blockchain as node
  node.blockchain = new_chain()
  node.blockchain.chain = copy.deepcopy(pool()[3][:case['own']])
  answers, chains = {}, {}
  for i, spec in enumerate(case['net']):
    r, c, ok = served(node.blockchain, spec)
    answers[host(i + 1)] = r
    chains[host(i + 1)] = contents(c) if ok else None
  env = dict(reward=txt(dict(sender='0', recipient=node.node_identifier, amount=1)), chains=chains)
  states = [State(contents(node.blockchain.chain))]
  serial = itertools.count()

  def request(op, arg):
    if op == 'tx':
      arg = dict(sender='s%d' % next(serial), recipient='r', amount=arg)
    elif op == 'register':
      arg = [host(i) for i in arg]
    return op, arg

  def alone(op, arg):
    op, arg = request(op, arg)
    got = sender(node, op, arg)()
    after([(op, arg, got)])

  def after(events):
    """Keeps the states that some order of these requests explains."""
    new = {}
    for s in states:
      for order in itertools.permutations(events):
        t = s
        for op, arg, got in order:
          t = t and step(t, op, arg, got, env)
        if t:
          new[t.key()] = t
    require(new, 'no order of the requests explains the answers %r', [(op, got) for op, _, got in events])
    states[:] = list(new.values())

  with patched_net(FakeNet(answers)):
    if case['nodes']:
      alone('register', case['nodes'])
    for k in range(case['pending']):
      alone('tx', k)
    for g in case['groups']:
      first = request(*g['first'])
      others = [request(*o) for o in g['others']]
      a = Request(sender(node, *first), g['at'], g['visits']).start()
      require(a.paused.wait(60), '%s is not answered', first[0])
      stopped = not a.done.is_set()
      running = []
      for o in others:
        b = Request(sender(node, *o)).start()
        running.append(b)
        if not g['together']:
          b.settle()
      for b in running:
        b.settle()
      overlapped = [o[0] for o, b in zip(others, running)]
      a.go.set()
      events = []
      for (op, arg), q in [(first, a)] + list(zip(others, running)):
        events.append((op, arg, q.finish(op)))
      if stopped:
        rec.label('%s stopped' % first[0])
        rec.nt(any(o in ('mine', 'tx', 'resolve', 'register') for o in overlapped))
        for o in overlapped:
          rec.label('%s during %s' % (o, first[0]))
      after(events)
      alone('chain', 0)
    # whatever is still pending is mined exactly once
    if case.get('close', True):
      alone('mine', 0)
      alone('chain', 0)
  check_chain(json.loads(json.dumps(node.blockchain.chain)), 'the chain in the end')
  return stopped


@st.composite
def sweeps(draw):
  first = draw(st.sampled_from(['mine', 'resolve', 'resolve', 'tx', 'register', 'chain']))
  other = draw(st.sampled_from([['chain'], ['chain'], ['chain'], ['tx'], ['mine'], ['resolve'], ['register'], ['tx', 'chain']]))
  arg = lambda op: {'tx': 5, 'register': [2, 3]}.get(op, 0)
  return dict(first=first, others=[[o, arg(o)] for o in other], arg=arg(first), own=draw(st.integers(1, 2)),
              pending=draw(st.integers(0, 1)), chain=draw(st.integers(0, 5)), length=draw(st.integers(1, 6)),
              visits=draw(st.integers(1, 3)), more=draw(st.booleans()))


@sub('P47', 'every stop', sweeps(), 60, rule='at least ten different stops, or the chain is read')
def every_stop(case, rec):
  """One request stopped at each line in turn, from the same state, with the same request arriving meanwhile."""
  node = dict(chain=case['chain'], length=case['length'], defect='', status=200, lie=None, fail='')
  others = [case['others']]
  if case['first'] in ('chain', 'tx', 'register'):  # these have few lines: every other request at each of them
    others += [[[o, {'tx': 5, 'register': [2, 3]}.get(o, 0)]] for o in ('mine', 'resolve', 'tx', 'register', 'chain')
               if [o] != [x for x, _ in case['others']]]
  stops = [sweep(case, node, o, rec) for o in others]
  rec.nt(max(stops) >= 10 or case['first'] == 'chain')


def sweep(case, node, others, rec):
  base = dict(net=[node, dict(node, chain=(case['chain'] + 1) % 6, length=case['length'] + 1 if case['more'] else 1),
                   dict(node, length=1)],
              nodes=[1, 2], own=case['own'], pending=case['pending'], close=False)
  k = 0
  while k < 150:
    g = dict(first=[case['first'], case['arg']], at=k, visits=case['visits'], others=others, together=False)
    try:
      stopped = play(dict(base, groups=[g]), rec)
    except Exception as e:
      if not isinstance(e, HarnessError):
        e.args = ('%s stopped at line %d of its way: %s' % (case['first'], k, e),)
      raise
    if not stopped:
      break
    k += 1
  return k


@st.composite
def mutual(draw):
  return dict(own=draw(st.integers(1, 4)), peer=draw(st.integers(0, 5)), length=draw(st.integers(1, 6)),
              mining=draw(st.booleans()))


@sub('P47', 'nodes asking each other', mutual(), 40, rule='every case')
def asking_each_other(case, rec):
  """The peer answers only after it has read our chain: both resolve at once."""
  import run_blockchain as node
  node.blockchain = new_chain()
  node.blockchain.chain = copy.deepcopy(pool()[3][:case['own']])
  own = contents(node.blockchain.chain)
  chain = pool()[case['peer']][:case['length']]
  node.blockchain.register_node('http://' + host(1))
  rec.nt()
  seen = []

  class Net(FakeNet):

    def get(self, url, *a, **k):
      q = Request(sender(node, 'chain', 0)).start()
      seen.append(q.finish('the chain, asked for by a node that is resolving conflicts too,'))
      return FakeNet.get(self, url, *a, **k)

  from pbt.checks.chain import Response
  with patched_net(Net({host(1): Response(200, dict(chain=chain, length=len(chain)))})):
    q = Request(sender(node, 'resolve', 0)).start()
    other = Request(sender(node, 'mine', 0)).start() if case['mining'] else None
    replaced, got = q.finish('resolving conflicts')
    if other:
      other.finish('mine')
  require(seen, 'the node was not asked')
  if not other:
    require(seen[0] == own, 'the chain served while resolving is %r', seen[0])
    require(got == (contents(chain) if len(chain) > len(own) else own), 'resolved to %d blocks', len(got))
