"""Strategies shared by the checks.  Everything drawn is JSON-able."""
from hypothesis import strategies as st

from pbt import ref

STARK_P = 2**256 - 2**32 * 351 + 1
SMALL = [2, 3, 5, 7, 11, 13, 17, 31, 97, 101, 251, 257]
BIG = [65537, 2**31 - 1, 2**61 - 1, 2**127 - 1, 2**255 - 19, STARK_P]
HUGE = [2**521 - 1, 2**607 - 1, 2**1279 - 1]

small_primes = st.sampled_from(SMALL)
random_primes = st.integers(3, 2**80).map(ref.next_prime)
primes = st.one_of(small_primes, st.sampled_from(BIG), random_primes)  # all below 2^256
huge_primes = st.one_of(st.sampled_from(HUGE), st.integers(2**256, 2**400).map(ref.next_prime))
odd_primes = primes.map(lambda p: 3 if p == 2 else p)


def ints_for(p):
  """Integers interesting modulo p: any sign, any size, and the edges."""
  return st.one_of(
      st.integers(0, 3), st.integers(-3, -1), st.integers(p - 2, p + 2),
      st.integers(0, p - 1), st.integers(0, p - 1), st.integers(-p, 2 * p),
      st.sampled_from([0, 1, p - 1, p, 2 * p, -p, (p + 1) // 2, (p - 1) // 2, p * p, p * p - 1,
                       -p * p + 1]),
      st.integers(-2**600, 2**600))


# Values this far apart look the same to code that cuts them off or keeps their Python hash only
APART = [2**8, 2**16, 2**24, 2**32, 2**61 - 1, 2**61 - 1, 2**64, 2**128]


def residues(p):
  """Canonical residues with edges, and some that are easily taken for one another."""
  far = [d for d in APART if 4 * d < p]
  alike = [st.tuples(st.integers(0, 3), st.integers(1, 3), st.sampled_from(far)).map(lambda t: t[0] + t[1] * t[2])] if far else []
  return st.one_of(st.integers(0, min(3, p - 1)), st.integers(max(0, p - 3), p - 1),
                   st.integers(0, p - 1), *alike)


@st.composite
def fq_descs(draw, ps=(2, 2, 3, 5, 7, 11), max_m=6, min_m=2, max_q=None):
  p = draw(st.sampled_from(ps))
  top = max_m
  if max_q:
    while p**top > max_q and top > min_m:
      top -= 1
  m = draw(st.integers(min_m, top))
  return ['F', p, list(ref.find_irreducible(p, m, draw(st.integers(0, 7))))]


def zp_descs(ps=primes):
  return ps.map(lambda p: ['Z', p])


def elements(desc, nonzero=False):
  """JSON for an element of the described field."""
  if desc[0] == 'Z':
    p = desc[1]
    return residues(p) if not nonzero else st.one_of(
        st.integers(1, min(3, p - 1)), st.integers(max(1, p - 3), p - 1), st.integers(1, p - 1))
  if desc[0] == 'F':
    p, m = desc[1], len(desc[2]) - 1
    s = st.one_of(st.lists(st.integers(0, p - 1), min_size=0, max_size=m),
                  st.lists(st.integers(0, p - 1), min_size=m, max_size=m))
    if nonzero:
      return st.tuples(s, st.integers(0, m - 1), st.integers(1, p - 1)).map(
          lambda t: t[0] if any(t[0]) else [0] * t[1] + [t[2]])
    return s
  num = st.integers(-40, 40) if not nonzero else st.integers(-40, 39).map(lambda x: x + 1 if x >= 0 else x)
  return st.tuples(num, st.integers(1, 12)).map(list)


def distinct_elements(desc, min_size, max_size):
  K = ref.field(desc)
  if K.p and K.q < 4000:
    allv = [list(e) if desc[0] == 'F' else e for e in K.elements()]
    hi = min(max_size, len(allv))
    return st.lists(st.integers(0, len(allv) - 1), min_size=min(min_size, hi), max_size=hi,
                    unique=True).map(lambda ix: [allv[i] for i in ix])
  return st.lists(elements(desc), min_size=min_size, max_size=max_size,
                  unique_by=lambda j: K.val(j))


def sizes(lo, hi):
  """A length: the library's own list sizes are biased towards small ones."""
  mid = min(hi, lo + 4)
  return st.one_of(st.integers(lo, mid), st.integers(lo, hi), st.integers(lo, hi),
                   st.integers(max(lo, hi - 2), hi))


def exact(el, lo, hi):
  """A list whose length is drawn first."""
  return sizes(lo, hi).flatmap(lambda n: st.lists(el, min_size=n, max_size=n))


def exponents(p, q=None, top=2**64):
  """Exponents around the orders that matter in a field of q elements of characteristic p."""
  q = q or p
  near = st.integers(-3, 3)
  marks = sorted({p, q, q - 1, p - 1, (q - 1) // 2, 2 * q, p * p, q * q, q + p})
  opts = [
      st.integers(0, 9), st.integers(0, 9), st.integers(0, 2**16), st.integers(0, top),
      st.tuples(st.sampled_from(marks), near).map(lambda t: max(0, t[0] + t[1])),
      st.tuples(st.integers(1, 9), st.sampled_from([q - 1, p - 1, q, p]), st.integers(-1, 2)).map(
          lambda t: max(0, t[0] * t[1] + t[2])),
      st.tuples(st.integers(0, 70), st.integers(-1, 1)).map(lambda t: max(0, 2**t[0] + t[1])),
  ]
  if q - 1 <= 4096:
    divs = [d for d in range(1, q) if (q - 1) % d == 0]
    opts.append(st.tuples(st.sampled_from(divs), st.integers(1, 6)).map(lambda t: t[0] * t[1]))
  return st.one_of(*opts)


def polys(desc, max_len=7, min_len=0):
  """Coefficient lists, not necessarily trimmed; sparse and dense, of every length."""
  el = elements(desc)
  zero = [] if desc[0] == 'F' else ([0, 1] if desc[0] == 'Q' else 0)
  one = [1] if desc[0] == 'F' else ([1, 1] if desc[0] == 'Q' else 1)
  sparse = st.one_of(st.just(zero), st.just(zero), el)
  tiny = st.sampled_from([zero, one, one])
  return st.one_of(st.lists(el, min_size=min_len, max_size=max_len),
                   st.lists(sparse, min_size=min_len, max_size=max_len),
                   exact(el, min_len, max_len), exact(sparse, min_len, max_len),
                   exact(tiny, min_len, max_len))


def nonzero_polys(desc, max_len=6):
  return st.tuples(polys(desc, max_len - 1), elements(desc, nonzero=True)).map(
      lambda t: list(t[0]) + [t[1]])


def multis(desc, width, max_terms=5, max_exp=3):
  """[[exponents], coefficient] lists with distinct exponents."""
  e = st.one_of(st.integers(0, max_exp), st.integers(0, max_exp), st.integers(0, min(2, max_exp)))
  term = st.tuples(st.lists(e, min_size=width, max_size=width).map(list), elements(desc)).map(list)
  key = lambda t: tuple(t[0])
  return st.one_of(st.lists(term, max_size=max_terms, unique_by=key),
                   exact(term, 0, max_terms).map(lambda ts: list({key(t): t for t in ts}.values())))


def mixed_fields(q=True, big=True):
  z = zp_descs(primes if big else small_primes)
  opts = [z, z, fq_descs(max_m=4)]
  if q:
    opts.append(st.just(['Q']))
  return st.one_of(*opts)
