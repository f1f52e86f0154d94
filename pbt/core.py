"""Registry, sharded search, shrinking, replay files and evidence.

A *sub-check* is (strategy, check).  The strategy draws a JSON-able case; `check(case, rec)`
builds real objects of the repository from it, runs them, and raises on any disagreement with
its oracle.  The search library only ever sees the strategy, so a case saved as JSON replays
without it.
"""
import hashlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
SHARDS = {'quick': 6, 'thorough': 8}
WALL_BUDGET = {'quick': 300, 'thorough': 5400}
CASE_CPU_LIMIT = 90  # seconds of CPU for one case; typical cases take milliseconds


class HarnessError(BaseException):
  """The harness, not the repository, is at fault."""


class Hang(BaseException):
  """One case used CASE_CPU_LIMIT seconds of CPU."""


class Violation(AssertionError):
  pass


def require(cond, msg='', *args):
  if not cond:
    raise Violation(msg % args if args else msg)


def rejects(fn, *args, **kw):
  """True if the call refuses (raises); used where the contract is to refuse."""
  try:
    fn(*args, **kw)
  except Exception:
    return True
  return False


def must_reject(what, fn, *args, **kw):
  try:
    got = fn(*args, **kw)
  except Exception:
    return
  raise Violation('%s was not rejected, returned %r' % (what, got))


class Rec(object):
  """Per-case recorder: labels and the non-triviality flag."""

  def __init__(self):
    self.labels = []
    self.nontrivial = False

  def label(self, name):
    self.labels.append(name)

  def nt(self, cond=True):
    if cond:
      self.nontrivial = True


class Sub(object):

  def __init__(self, prop, name, strategy, check, quick, thorough, rule):
    self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
    self.n = {'quick': quick, 'thorough': thorough}
    self.rule = rule


SUBS = {}  # property -> [Sub]
PREP = {}  # property -> functions run once before the shards fork (shared pools)
KNOWN = {}  # (property, key) -> function returning True while the finding reproduces


def sub(prop, name, strategy, quick, thorough=None, rule=''):
  def deco(check):
    SUBS.setdefault(prop, []).append(
        Sub(prop, name, strategy, check, quick, thorough or quick * 20, rule))
    return check
  return deco


def prep(*props):
  def deco(fn):
    for p in props:
      PREP.setdefault(p, []).append(fn)
    return fn
  return deco


def run_prep(prop):
  import contextlib
  import io
  with contextlib.redirect_stdout(io.StringIO()):
    for fn in PREP.get(prop, []):
      try:
        fn()
      except Exception:
        pass  # the checks meet the same failure and report it


def known(prop, key):
  def deco(fn):
    KNOWN[(prop, key)] = fn
    return fn
  return deco


def load():
  if TOOLS not in sys.path:
    sys.path.append(TOOLS)
  sys.path.insert(0, REPO)
  try:
    import hypothesis  # noqa
  except ImportError as e:
    raise HarnessError('hypothesis is not available: %s' % e)
  from pbt import checks  # registers everything
  return checks


# ---------------------------------------------------------------- running one case


def canon(case):
  return json.loads(json.dumps(case))


def case_key(case):
  return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


def _on_cpu_limit(signum, frame):
  raise Hang('one case used %d s of CPU' % CASE_CPU_LIMIT)


def run_case(s, case, rec):
  random.seed(zlib.crc32(json.dumps(case, sort_keys=True).encode()))
  signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
  try:
    s.check(case, rec)
  finally:
    signal.setitimer(signal.ITIMER_PROF, 0)


# ---------------------------------------------------------------- search in one shard


def derive_seed(seed, prop, name, shard):
  h = hashlib.sha256(('%d/%s/%s/%d' % (seed, prop, name, shard)).encode()).digest()
  return int.from_bytes(h[:8], 'big')


def search(s, tier, seed, shard, nshards, deadline, stats):
  """Run sub-check s in this shard. Returns None or a failure dict."""
  import hypothesis
  from hypothesis import HealthCheck, Phase, given, settings
  n = s.n[tier] // nshards + (1 if shard < s.n[tier] % nshards else 0)
  if n == 0:
    return None
  st = stats.setdefault(s.name, dict(evaluations=0, nontrivial=[], labels={}, samples=[], skipped=0))
  seen = set()
  failure = {}

  @hypothesis.seed(derive_seed(seed, s.prop, s.name, shard))
  @settings(max_examples=n, database=None, deadline=None, derandomize=False,
            report_multiple_bugs=False, print_blob=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink))
  @given(s.strategy)
  def body(case):
    case = canon(case)
    if not failure and time.time() > deadline:
      st['skipped'] += 1
      return
    rec = Rec()
    if not failure:
      st['evaluations'] += 1
    try:
      run_case(s, case, rec)
    except Hang as e:
      failure.update(case=case, error='Hang: %s' % e)
      raise
    except HarnessError:
      raise
    except Exception as e:
      tb = traceback.format_exc(limit=-6)
      failure.update(case=case, error='%s: %s' % (type(e).__name__, str(e)[:2000]), trace=tb[-4000:])
      raise
    if failure:
      return
    for l in rec.labels:
      st['labels'][l] = st['labels'].get(l, 0) + 1
    if rec.nontrivial:
      k = case_key(case)
      if k not in seen:
        seen.add(k)
        st['nontrivial'].append(k)
        if len(st['samples']) < 2:
          txt = json.dumps(case)
          if len(txt) < 4000 or not st['samples']:
            st['samples'].append(case if len(txt) < 4000 else txt[:4000] + '...')

  from hypothesis.internal.conjecture import engine
  if hasattr(engine, 'MAX_SHRINKING_SECONDS'):
    engine.MAX_SHRINKING_SECONDS = 40
  try:
    body()
  except (Hang, Exception):
    if not failure:
      raise HarnessError('search failed outside the check: ' + traceback.format_exc())
  if failure:
    # a shrink that ended on a different run must still fail by itself
    failure['sub'] = s.name
    return failure
  return None


def shard_main(subs, tier, seed, shard, nshards, deadline, out):
  devnull = os.open(os.devnull, os.O_WRONLY)
  os.dup2(devnull, 1)
  os.dup2(devnull, 2)
  sys.stdout = open(os.devnull, 'w')
  sys.stderr = open(os.devnull, 'w')
  signal.signal(signal.SIGPROF, _on_cpu_limit)
  resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))  # runaway memory becomes MemoryError
  res = dict(stats={}, failure=None, error=None)
  try:
    for s in subs:
      f = search(s, tier, seed, shard, nshards, deadline, res['stats'])
      if f:
        res['failure'] = f
        break
  except BaseException:
    res['error'] = traceback.format_exc()
  with open(out + '.part', 'w') as fh:
    json.dump(res, fh)
  os.rename(out + '.part', out)
  os._exit(0)


# ---------------------------------------------------------------- top level


def read_findings():
  path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
  out = []
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith('known: '):
        parts = line.split(' ', 3)
        out.append((parts[1].split('=', 1)[1], parts[2].split('=', 1)[1], parts[3]))
  return out


def run_property(prop, tier, seed):
  import tempfile
  import shutil
  t0 = time.time()
  load()
  if prop not in SUBS:
    raise HarnessError('unknown property ' + prop)
  subs = SUBS[prop]
  only = os.environ.get('VERIF_SUB')
  if only:
    subs = [s for s in subs if s.name == only]
  run_prep(prop)
  nshards = SHARDS[tier]
  deadline = t0 + WALL_BUDGET[tier]
  tmp = tempfile.mkdtemp(prefix='pbt-')
  try:
    pids = []
    for i in range(nshards):
      sys.stdout.flush()
      pid = os.fork()
      if pid == 0:
        try:
          shard_main(subs, tier, seed, i, nshards, deadline, os.path.join(tmp, str(i)))
        finally:
          os._exit(3)
      pids.append(pid)
    left = list(pids)
    while left:
      pid, _ = os.wait()
      if pid in left:
        left.remove(pid)
        # a developer trying out many changes can stop at the first failure of any shard
        if os.environ.get('VERIF_FAST') and any(json.load(open(os.path.join(tmp, f)))['failure'] for f in os.listdir(tmp) if '.' not in f):
          for other in left:
            os.kill(other, signal.SIGKILL)
    results = []
    for i in range(nshards):
      p = os.path.join(tmp, str(i))
      if not os.path.exists(p):
        if os.environ.get('VERIF_FAST'):
          continue
        raise HarnessError('shard %d left no result' % i)
      results.append(json.load(open(p)))
  finally:
    shutil.rmtree(tmp, ignore_errors=True)

  failures = [(i, r['failure']) for i, r in enumerate(results) if r['failure']]
  errors = [r['error'] for r in results if r['error']]
  total = dict(evaluations=0, skipped=0)
  distinct, labels, samples, persub = set(), {}, [], {}
  for r in results:
    for name, st in r['stats'].items():
      total['evaluations'] += st['evaluations']
      total['skipped'] += st['skipped']
      distinct.update((name, k) for k in st['nontrivial'])
      ps = persub.setdefault(name, dict(evaluations=0, labels={}, nt=set()))
      ps['evaluations'] += st['evaluations']
      ps['nt'].update(st['nontrivial'])
      for l, c in st['labels'].items():
        ps['labels'][l] = ps['labels'].get(l, 0) + c
      if len([x for x in samples if x['sub'] == name]) < 2:
        samples.extend(dict(sub=name, case=c) for c in st['samples'][:1])
  sub_cov = {n: dict(evaluations=p['evaluations'], distinct_nontrivial=len(p['nt']), labels=p['labels'])
             for n, p in persub.items()}
  replay = None
  if failures:
    # smallest failing case over all shards
    i, f = min(failures, key=lambda x: (len(json.dumps(x[1]['case'])), x[0]))
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    replay = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, case_key([f['sub'], f['case']])))
    with open(replay, 'w') as fh:
      json.dump(dict(property=prop, sub=f['sub'], case=f['case'], error=f['error'],
                     trace=f.get('trace', ''), seed=seed, tier=tier), fh, indent=1)
  rule = 'Random structured generation, shrunk on failure. ' + ' | '.join(
      '%s: %s' % (s.name, s.rule) for s in subs)
  evidence = dict(
      property=prop, tier=tier, seed=seed, level='exploration',
      coverage=dict(evaluations=total['evaluations'], distinct_nontrivial=len(distinct), rule=rule,
                    samples=samples, per_sub_check=sub_cov, shards=nshards,
                    not_run_for_lack_of_time=total['skipped']),
      assumptions=['cases are drawn from the generators described in DESIGN.md; nothing is proved'],
      wall_s=round(time.time() - t0, 2), violations=len(failures))
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
    json.dump(evidence, fh, indent=1)

  if failures:
    f = json.load(open(replay))
    print('sub-check %s: %s' % (f['sub'], f['error'].split('\n')[0][:500]))
    print('VIOLATION property=%s replay=%s' % (prop, replay))
    return 1
  if errors:
    print('HARNESS ERROR\n' + errors[0])
    return 2
  for (p, key, what) in read_findings():
    if p == prop and (p, key) in KNOWN and _known_reproduces(KNOWN[(p, key)]):
      print('KNOWN-FINDING: property=%s %s' % (prop, what))
  print('property %s held: %d cases, %d distinct non-trivial, %.1f s (seed %d, %s)' %
        (prop, total['evaluations'], len(distinct), time.time() - t0, seed, tier))
  return 0


def _known_reproduces(fn):
  import contextlib
  import io
  random.seed(0)
  with contextlib.redirect_stdout(io.StringIO()):
    try:
      return bool(fn())
    except Exception:
      return True


def replay_file(path):
  load()
  d = json.load(open(path))
  s = [x for x in SUBS[d['property']] if x.name == d['sub']][0]
  signal.signal(signal.SIGPROF, _on_cpu_limit)
  import contextlib
  import io
  try:
    with contextlib.redirect_stdout(io.StringIO()):
      run_case(s, d['case'], Rec())
  except HarnessError:
    raise
  except (Exception, Hang):
    traceback.print_exc(limit=-8)
    print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1
  print('property %s: the saved case passes' % d['property'])
  return 0


def main(argv):
  try:
    if argv[:1] == ['--list']:
      load()
      for p in sorted(SUBS):
        print(p, ', '.join('%s(%d/%d)' % (s.name, s.n['quick'], s.n['thorough']) for s in SUBS[p]))
      return 0
    if argv[:1] == ['--replay']:
      return replay_file(argv[1])
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in SHARDS:
      tier = 'quick'
    return run_property(argv[0], tier, seed)
  except HarnessError:
    traceback.print_exc()
    return 2
