"""P22-P26: Merkle commitments, packed leaves, proof compression, pseudorandom indices."""
import hashlib

from hypothesis import strategies as st

from pbt import gens, ref
from pbt.core import require, sub

POW2 = [4, 8, 16, 32, 64, 128, 256, 512]


def h(*parts):
  return hashlib.sha256(repr(parts).encode()).digest()


# ---------------------------------------------------------------- leaves


@st.composite
def leaf_lists(draw, sizes=tuple(POW2)):
  """n leaves of one kind; short lists are drawn value by value, long ones from a small pool."""
  n = draw(st.sampled_from(sizes))
  kind = draw(st.sampled_from(['int', 'bytes', 'zp', 'fq']))
  desc = None
  if kind == 'int':
    el = st.one_of(st.integers(0, 3), st.integers(0, 2**256 - 1), st.integers(2**256 - 3, 2**256 - 1))
  elif kind == 'bytes':
    ln = draw(st.sampled_from([0, 1, 31, 32, 32, 32, 33, 63, 64, 65, 96, 100, 128, 129, 160, 256, 320]))
    el = st.binary(min_size=ln, max_size=ln).map(lambda b: b.hex())
  elif kind == 'zp':
    desc = draw(gens.zp_descs())
    el = gens.elements(desc)
  else:
    desc = draw(gens.fq_descs(max_m=4))
    el = gens.elements(desc)
  pool = draw(st.lists(el, min_size=1, max_size=min(n, 12)))
  pick = draw(st.lists(st.integers(0, len(pool) - 1), min_size=n if n <= 16 else 0, max_size=n))
  mode = draw(st.integers(0, 3))
  leaves = [pool[pick[i]] if i < len(pick) else pool[(i * (mode + 1)) % len(pool)] for i in range(n)]
  return dict(kind=kind, field=desc, leaves=leaves)


def build_leaves(case):
  if case['kind'] == 'int':
    return list(case['leaves'])
  if case['kind'] == 'bytes':
    return [bytes.fromhex(x) for x in case['leaves']]
  K = ref.field(case['field'])
  return [K.real(K.val(j)) for j in case['leaves']]


def leaf_bytes(case, x):
  if case['kind'] == 'int':
    return x.to_bytes(32, 'big')
  if case['kind'] == 'bytes':
    return x
  return x.to_bytes()


def as_bytes(x):
  return bytes(x)


@sub('P22', 'openings', leaf_lists(), 1920,
     rule='at least two distinct leaves')
def openings(case, rec):
  from starks.merkle_tree import merkelize, mk_branch, verify_branch
  L = build_leaves(case)
  before = list(L)
  tree = merkelize(L)
  require(len(L) == len(before) and all(a is b for a, b in zip(L, before)), 'the list of leaves was changed')
  root = tree[1]
  require(isinstance(root, bytes) and len(root) == 32, 'root is %r', root)
  require(merkelize(list(L))[1] == root, 'the root of the same leaves differs')
  n = len(L)
  rec.label(case['kind'])
  rec.label('n=%d' % n)
  rec.nt(len(set(map(repr, case['leaves']))) > 1)
  snapshot = list(tree)
  for i in range(n):
    pr = mk_branch(tree, i)
    require(len(pr) == n.bit_length(), 'opening of leaf %d of %d has %d entries', i, n, len(pr))
    want = leaf_bytes(case, L[i])
    got = verify_branch(root, i, list(pr))
    require(got == want, 'opening leaf %d returned %r, leaf is %r', i, got, want)
    as_int = verify_branch(root, i, pr, output_as_int=True)
    require(as_int == int.from_bytes(want, 'big'), 'opening leaf %d as integer returned %r', i, as_int)
    if case['kind'] in ('int', 'zp'):
      v = L[i] if case['kind'] == 'int' else ref.field(case['field']).canon(L[i])
      require(as_int == v, 'leaf %d is %r but opens to %r', i, v, as_int)
  require(snapshot == tree, 'opening changed the tree')


@st.composite
def field_leaf_roots(draw):
  desc = draw(gens.zp_descs())
  n = draw(st.sampled_from([4, 8, 16]))
  return dict(field=desc, leaves=draw(st.lists(gens.elements(desc), min_size=n, max_size=n)))


@sub('P22', 'ints and elements agree', field_leaf_roots(), 960,
     rule='not all leaves equal')
def ints_and_elements(case, rec):
  """The verifier of low-degree proofs rebuilds a tree of elements from their integers."""
  from starks.merkle_tree import merkelize
  K = ref.field(case['field'])
  vals = [K.val(j) for j in case['leaves']]
  rec.nt(len(set(vals)) > 1)
  a = merkelize([K.real(v) for v in vals])[1]
  b = merkelize(list(vals))[1]
  c = merkelize([v.to_bytes(32, 'big') for v in vals])[1]
  require(a == b == c, 'elements, integers and 32-byte strings commit to different roots')


# ---------------------------------------------------------------- binding


@st.composite
def tamperings(draw):
  n = draw(st.sampled_from([4, 8, 16, 32, 64]))
  pool = draw(st.lists(st.binary(min_size=32, max_size=32).map(lambda b: b.hex()), min_size=1, max_size=6,
                       unique=True))
  distinct = draw(st.booleans())
  seed = draw(st.integers(0, 2**32))
  if distinct:
    leaves = [h(seed, i).hex() for i in range(n)]
    leaves[draw(st.integers(0, n - 1))] = pool[0]
  else:
    leaves = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n))
  k = n.bit_length()
  i = draw(st.integers(0, n - 1))
  ops = draw(st.lists(st.one_of(
      st.tuples(st.just('flip'), st.integers(0, k - 1), st.integers(0, 255)),
      st.tuples(st.just('swap'), st.integers(0, k - 1), st.integers(0, k - 1)),
      st.tuples(st.just('node'), st.integers(0, k - 1), st.integers(1, 2 * n - 1)),
      st.tuples(st.just('from'), st.integers(0, n - 1), st.integers(0, 0)),
      st.tuples(st.just('leaf'), st.integers(0, n - 1), st.integers(0, 0)),
      st.tuples(st.just('other'), st.integers(0, n - 1), st.integers(0, n - 1))).map(list),
      min_size=1, max_size=2))
  return dict(leaves=leaves, index=i, ops=ops)


@sub('P23', 'forged openings', tamperings(), 9000,
     rule='the presented opening differs from the honest one for that index')
def forged(case, rec):
  from starks.merkle_tree import merkelize, mk_branch, verify_branch
  L = [bytes.fromhex(x) for x in case['leaves']]
  n, i = len(L), case['index']
  tree = merkelize(list(L))
  honest = mk_branch(tree, i)
  pr = list(honest)
  for op, a, b in case['ops']:
    rec.label(op)
    if op == 'flip':
      x = bytearray(pr[a])
      x[b // 8] ^= 1 << (b % 8)
      pr[a] = bytes(x)
    elif op == 'swap':
      pr[a], pr[b] = pr[b], pr[a]
    elif op == 'node':
      pr[a] = tree[b]
    elif op == 'from':
      pr = list(mk_branch(tree, a))
    elif op == 'leaf':
      pr[0] = L[a]
    else:
      M = list(L)
      M[a] = h('other', b)
      pr = list(mk_branch(merkelize(M), i))
  rec.nt(pr != honest)
  try:
    got = verify_branch(tree[1], i, list(pr))
  except Exception:
    require(pr != honest, 'the honest opening was rejected')
    rec.label('rejected')
    return
  require(got == L[i], 'position %d holds %r, yet an opening to %r was accepted', i, L[i], got)
  rec.label('accepted, true leaf')
  if pr != honest:
    # the path is part of the proof: for distinct leaves every other sibling must be refused
    require(len(set(L)) < n, 'an opening with changed siblings was accepted')


@st.composite
def leaf_changes(draw):
  n = draw(st.sampled_from([4, 8, 16, 32, 64, 128]))
  leaves = [h(draw(st.integers(0, 3)), i).hex() for i in range(min(n, 8))]
  seed = draw(st.integers(0, 2**20))
  leaves += [h(seed, i % draw(st.sampled_from([1, 3, 1000]))).hex() for i in range(8, n)]
  edit = draw(st.sampled_from(['bit', 'swap', 'rotate', 'copy']))
  return dict(leaves=leaves, edit=edit, i=draw(st.integers(0, n - 1)), j=draw(st.integers(0, n - 1)),
              bit=draw(st.integers(0, 255)))


@sub('P23', 'root changes with leaves', leaf_changes(), 2700,
     rule='the two lists differ')
def root_changes(case, rec):
  from starks.merkle_tree import merkelize, mk_branch, verify_branch
  L = [bytes.fromhex(x) for x in case['leaves']]
  M = list(L)
  i, j = case['i'], case['j']
  if case['edit'] == 'bit':
    x = bytearray(M[i])
    x[case['bit'] // 8] ^= 1 << (case['bit'] % 8)
    M[i] = bytes(x)
  elif case['edit'] == 'swap':
    M[i], M[j] = M[j], M[i]
  elif case['edit'] == 'rotate':
    M = M[i:] + M[:i]
  else:
    M[i] = M[j]
  rec.label(case['edit'])
  t1, t2 = merkelize(list(L)), merkelize(list(M))
  if M == L:
    require(t1[1] == t2[1], 'equal lists have different roots')
    return
  rec.nt()
  require(t1[1] != t2[1], 'two different lists of leaves have the same root')
  k = [x for x in range(len(L)) if L[x] != M[x]][0]
  try:
    verify_branch(t1[1], k, mk_branch(t2, k))
  except Exception:
    return
  require(False, 'an opening of another list was accepted at position %d', k)


# ---------------------------------------------------------------- packed leaves


@st.composite
def packed(draw):
  desc = draw(gens.zp_descs())
  dims = draw(st.sampled_from([1, 1, 2, 3, 4, 5, 8]))
  npolys = draw(st.sampled_from([1, 2, 3, 3, 4, 6]))
  n = draw(st.sampled_from([4, 8, 16, 32]))
  pool = draw(st.lists(gens.elements(desc), min_size=2, max_size=10))
  pick = draw(st.lists(st.lists(st.integers(0, len(pool) - 1), min_size=n, max_size=n),
                       min_size=dims * npolys, max_size=dims * npolys))
  return dict(field=desc, dims=dims, npolys=npolys, evals=[[pool[x] for x in r] for r in pick])


@sub('P24', 'packed leaves', packed(), 1920, rule='more than one value per leaf')
def packed_leaves(case, rec):
  from starks.merkle_tree import merkelize_polynomial_evaluations, mk_branch, unpack_merkle_leaf, verify_branch
  K = ref.field(case['field'])
  evals = [[K.real(K.val(j)) for j in row] for row in case['evals']]
  dims, npolys = case['dims'], case['npolys']
  n = len(evals[0])
  rec.label('dims=%d polys=%d' % (dims, npolys))
  rec.nt(dims * npolys > 1)
  tree = merkelize_polynomial_evaluations(dims, evals)
  F = K.real_field()
  for i in range(n):
    leaf = verify_branch(tree[1], i, mk_branch(tree, i))
    require(len(leaf) == 32 * dims * npolys, 'leaf %d has %d bytes', i, len(leaf))
    vals = unpack_merkle_leaf(leaf, dims, npolys)
    require(len(vals) == dims * npolys, '%d values unpacked', len(vals))
    for k, b in enumerate(vals):
      want = K.val(case['evals'][k][i])
      require(int.from_bytes(b, 'big') == want and len(b) == 32,
              'value %d of leaf %d unpacks to %r, was %r', k, i, b, want)
      require(K.canon(F(b)) == want, 'field element of value %d of leaf %d', k, i)
    if n <= 8:
      v = list(vals)
      require(b''.join(v) == leaf, 'unpacked values do not make up the leaf')
  # any change of one evaluation changes the root
  r, c = len(evals) - 1, n - 1
  changed = [list(x) for x in evals]
  changed[r][c] = changed[r][c] + F(1)
  require(merkelize_polynomial_evaluations(dims, changed)[1] != tree[1], 'a changed value left the root as it was')


# ---------------------------------------------------------------- compression

LENS = [1, 3, 4, 5, 31, 32, 32, 32, 32, 33, 64, 96]


def obj(seed, i):
  """The i-th object of a pool: distinct, not two bytes long, not a marker."""
  n = LENS[int.from_bytes(h(seed, i)[:2], 'big') % len(LENS)]
  if n == 1:
    return bytes([i % 251]) if i < 251 else h(seed, i)
  if n in (3, 4, 5):
    return (i + 1).to_bytes(n - 1, 'big')[:n - 1] + b'\x07' if n > 3 or i < 60000 else h(seed, i)
  return (h(seed, i) * 4)[:n]


@st.composite
def fri_shapes(draw):
  seed = draw(st.integers(0, 1000))
  size = draw(st.sampled_from([1, 3, 10, 100, 1000, 100000]))
  big = draw(st.integers(0, 9)) == 0
  o = st.integers(0, size - 1)
  if big:
    rounds = draw(st.integers(1, 3))
    return dict(seed=seed, gen=[rounds, draw(st.integers(1, 80)), draw(st.integers(1, 8)),
                                draw(st.integers(1, 12)), size, draw(st.integers(0, 600))])
  branch = st.lists(o, max_size=5)
  yproof = st.lists(branch, max_size=5)
  rnd = st.tuples(o, st.lists(yproof, max_size=4)).map(list)
  return dict(seed=seed, rounds=draw(st.lists(rnd, max_size=4)), last=draw(st.lists(o, max_size=40)))


def expand_fri(case):
  s = case['seed']
  if 'gen' in case:
    rounds, q, nb, depth, size, tail = case['gen']
    r = lambda *a: obj(s, int.from_bytes(h(s, 'pick', *a)[:4], 'big') % size)
    return [[r(i), [[[r(i, j, k, l) for l in range(depth)] for k in range(nb)] for j in range(q)]]
            for i in range(rounds)] + [[r('t', i) for i in range(tail)]]
  f = lambda i: obj(s, i)
  return [[f(root), [[[f(x) for x in b] for b in y] for y in ys]] for root, ys in case['rounds']] + [
      [f(x) for x in case['last']]]


def check_compressed(comp, objects, markers, rec):
  require(all(isinstance(x, bytes) for x in comp), 'compressed proof holds %r',
          [x for x in comp if not isinstance(x, bytes)][:1])
  lits = [x for x in comp if len(x) != 2]
  rec.label('objects>255' if len(comp) > 255 else 'objects<=255')
  if len(comp) > 10000:
    rec.label('objects>10000')
  require(len(lits) == len(set(lits)), 'an object is stored twice')
  extra = set(lits) - set(objects) - set(markers)
  require(not extra, 'objects not in the proof are stored: %r', list(extra)[:1])
  rec.nt(len(lits) < len(comp))


@sub('P25', 'low-degree proofs', fri_shapes(), 2700, rule='at least one object occurs twice')
def fri_compression(case, rec):
  import copy
  from starks.compression import bin_length, compress_fri, decompress_fri
  prf = expand_fri(case)
  keep = copy.deepcopy(prf)
  comp = compress_fri(prf)
  require(prf == keep, 'compression changed the proof')
  objects = [x for root, ys in prf[:-1] for x in [root] + [z for y in ys for b in y for z in b]] + prf[-1]
  check_compressed(comp, objects, (b'----', b'++++', b'====', b'////'), rec)
  c2 = list(comp)
  got = decompress_fri(comp)
  require(got == prf, 'the proof does not survive compression')
  require(comp == c2, 'decompression changed the compressed proof')
  want = sum(len(x) + (1 if len(x) == 32 else 0) for x in comp)
  require(bin_length(comp) == want, 'size %r, bytes to store %r', bin_length(comp), want)


@st.composite
def branch_shapes(draw):
  seed = draw(st.integers(0, 1000))
  size = draw(st.sampled_from([1, 3, 10, 100, 1000, 100000]))
  if draw(st.integers(0, 9)) == 0:
    return dict(seed=seed, gen=[draw(st.integers(1, 3000)), draw(st.integers(1, 12)), size])
  return dict(seed=seed, branches=draw(st.lists(st.lists(st.integers(0, size - 1), max_size=6), max_size=12)))


@sub('P25', 'branches', branch_shapes(), 2700, rule='at least one object occurs twice')
def branch_compression(case, rec):
  from starks.compression import compress_branches, decompress_branches
  s = case['seed']
  if 'gen' in case:
    n, depth, size = case['gen']
    brs = [[obj(s, int.from_bytes(h(s, i, j)[:4], 'big') % size) for j in range(depth)] for i in range(n)]
  else:
    brs = [[obj(s, i) for i in b] for b in case['branches']]
  keep = [list(b) for b in brs]
  comp = compress_branches(brs)
  require(brs == keep, 'compression changed the branches')
  check_compressed(comp, [x for b in brs for x in b], (b'----',), rec)
  require(decompress_branches(comp) == brs, 'the branches do not survive compression')


@st.composite
def merkle_branches(draw):
  n = draw(st.sampled_from([8, 32, 128, 512, 1024]))
  return dict(n=n, seed=draw(st.integers(0, 1000)), picks=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=90)),
              few=draw(st.sampled_from([1, 4, 2000])))


@sub('P25', 'openings of one tree', merkle_branches(), 540, rule='at least two openings')
def merkle_branch_compression(case, rec):
  from starks.compression import bin_length, compress_branches, compress_fri, decompress_branches, decompress_fri
  from starks.merkle_tree import merkelize, mk_branch, verify_branch
  n = case['n']
  L = [h(case['seed'], i % case['few']) for i in range(n)]
  tree = merkelize(L)
  brs = [mk_branch(tree, i) for i in case['picks']]
  comp = compress_branches(brs)
  back = decompress_branches(comp)
  require(back == brs, 'openings do not survive compression')
  for i, b in zip(case['picks'], back):
    require(verify_branch(tree[1], i, b) == L[i], 'decompressed opening %d', i)
  lits = [x for x in comp if len(x) != 2]
  require(len(lits) == len(set(lits)), 'an object is stored twice')
  rec.nt(len(brs) > 1)
  prf = [[tree[1], [[b] * 5 for b in brs]], L]
  c = compress_fri(prf)
  require(decompress_fri(c) == prf, 'proof of openings does not survive compression')
  require(bin_length(c) < bin_length([x for b in brs for _ in range(5) for x in b] + L) or len(brs) < 3,
          'repeating each opening five times was not compressed')


# ---------------------------------------------------------------- pseudorandom indices


@st.composite
def index_requests(draw):
  mod = draw(st.one_of(st.integers(2, 40), st.integers(2, 2**24 - 1),
                       st.integers(1, 23).map(lambda k: 2**k), st.just(2**24 - 1)))
  e = draw(st.one_of(st.just(0), st.integers(2, 20), st.sampled_from([2, 4, 8, 16, 32])))
  return dict(entropy=draw(st.one_of(st.binary(min_size=32, max_size=32), st.binary(max_size=80))).hex(),
              mod=mod, exclude=e, count=draw(st.one_of(st.integers(0, 12), st.integers(0, 400))),
              flip=draw(st.integers(0, 639)))


@sub('P26', 'ranges', index_requests(), 9000, rule='some index requested with multiples excluded')
def index_ranges(case, rec):
  from starks.utils import get_pseudorandom_indices
  ent, mod, e, count = bytes.fromhex(case['entropy']), case['mod'], case['exclude'], case['count']
  rec.label('exclude' if e else 'plain')
  rec.nt(bool(e) and count > 0)
  got = get_pseudorandom_indices(ent, mod, count, exclude_multiples_of=e)
  require(isinstance(got, list) and len(got) == count, '%d indices for a request of %d', len(got), count)
  for x in got:
    require(0 <= x < mod, 'index %r outside [0, %r)', x, mod)
    require(not e or x % e, 'index %r is a multiple of %r', x, e)
  require(got == get_pseudorandom_indices(bytes(ent), mod, count, exclude_multiples_of=e), 'not deterministic')
  if count:
    fewer = get_pseudorandom_indices(ent, mod, count - 1, exclude_multiples_of=e)
    require(len(fewer) == count - 1, '%d indices for a request of %d', len(fewer), count - 1)
  if ent and mod >= 2**12 and count >= len(ent) // 4 + 8:
    rec.label('entropy flip')
    x = bytearray(ent)
    b = case['flip'] % (8 * len(x))
    # one flipped bit reaches the expansion only from the last 32 bytes
    if b // 8 >= len(x) - 32:
      x[b // 8] ^= 1 << (b % 8)
      require(get_pseudorandom_indices(bytes(x), mod, count, exclude_multiples_of=e) != got,
              'flipping bit %d of the entropy changes no index', b)


@st.composite
def coverage_requests(draw):
  mod = draw(st.integers(2, 33))
  return dict(entropy=draw(st.binary(min_size=32, max_size=32)).hex(), mod=mod,
              exclude=draw(st.one_of(st.just(0), st.integers(2, 12), st.sampled_from([2, 4, 8]))))


@sub('P26', 'coverage', coverage_requests(), 1800, rule='more than four admissible indices')
def index_coverage(case, rec):
  """Every admissible index is reachable: 60 draws per index miss one with probability e^-60."""
  from starks.utils import get_pseudorandom_indices
  mod, e = case['mod'], case['exclude']
  want = [x for x in range(mod) if not e or x % e]
  if not want:
    return
  rec.nt(len(want) > 4)
  got = get_pseudorandom_indices(bytes.fromhex(case['entropy']), mod, 60 * len(want), exclude_multiples_of=e)
  require(sorted(set(got)) == want, 'admissible indices %r, drawn %r', want, sorted(set(got)))
  most = max(got.count(x) for x in want)
  require(most < 60 * 3, 'one index was drawn %d times, 60 expected', most)


@sub('P26', 'too large', st.tuples(st.integers(2**24, 2**40), st.sampled_from([0, 2, 8])).map(list), 60,
     rule='every case')
def index_too_large(case, rec):
  from pbt.core import must_reject
  from starks.utils import get_pseudorandom_indices
  rec.nt()
  must_reject('a range of %d' % case[0], get_pseudorandom_indices, b'\x01' * 32, case[0], 4,
              exclude_multiples_of=case[1])
