"""P35-P39, P45: primality, Blum Blum Shub, commitments, zero-knowledge games, small helpers."""
import functools
import math

from hypothesis import strategies as st

from pbt import gens, ref
from pbt.core import known, must_reject, prep, require, sub

# ---------------------------------------------------------------- primality

CARMICHAEL = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361,
              101101, 115921, 126217, 162401, 172081, 188461, 252601, 278545, 294409, 314821, 334153, 340561, 399001,
              410041, 449065, 488881, 512461, 825265, 321197185, 5394826801, 232250619601]
PSEUDO = [2047, 3277, 4033, 4681, 8321, 3215031751, 1373653, 25326001, 3825123056546413051, 341550071728321,
          318665857834031151167461, 3317044064679887385961981]


# k with 6k+1, 12k+1 and 18k+1 all prime: their product is a Carmichael number
CHERNICK = [653170, 3168665, 12445281, 230461686, 3415332020, 67389956195, 13017365170925, 4153781636535421, 609901498795603161,
            912479681564928714285, 25105986385041168925711750, 725480504871921625366681520535,
            992365525527616953142929798911100856, 1069480451945221589269194601216730829319490415,
            1020536606800525036318056805529602550032915859537161, 4560118370292147643394310985315585641644979436233750,
            1007128556558106663974634085393297106485094616416826587058206,
            1761832353202109872684755883383814338060144948964205565173440500275960427027720,
            1484246381608889695870242200355304330139698201045393475146303177336727177318003266516246162487385605]
# p with 2p-1 prime: many strong liars for p(2p-1)
TWINS = [6982458517, 17357943438020042041, 31186839283763992267, 70809511000429536339349785841,
         293047749097898477003828157654287195101, 1116312408256450586249060330834792406408899315641,
         3679268333578991284781594506911354537348704598682659265327,
         99042920292502904306271573215320681065665495309493126382934487094069911469777,
         1377438489954574639051039404392220369291844139027244864614770399658740931672646646372154497,
         11750139159502364025460588363251388123100919066446475879123570971985892044945339896587855768049526448301792156030299694141655710747426034712339298557346131]
PRIMES = ([6 * k + 1 for k in CHERNICK] + [12 * k + 1 for k in CHERNICK] + [18 * k + 1 for k in CHERNICK] + TWINS +
          [2 * p - 1 for p in TWINS] + [2**n - 1 for n in (61, 89, 107, 127, 521, 607)] + [2**255 - 19, 2**224 - 2**96 + 1])


def carmichael(k):
  return (6 * k + 1) * (12 * k + 1) * (18 * k + 1)


@st.composite
def numbers_to_test(draw):
  k = draw(st.integers(0, 11))
  if k == 10:
    return draw(st.one_of(st.sampled_from(CHERNICK).map(carmichael), st.sampled_from(TWINS).map(lambda p: p * (2 * p - 1))))
  if k == 11:
    return draw(st.sampled_from(PRIMES)) * draw(st.one_of(st.just(1), st.sampled_from(PRIMES), gens.primes))
  if k == 8:
    # primes with many factors of two below them
    e = draw(st.integers(1, 60))
    return ref.next_in_progression(draw(st.integers(1, 2**20)) * 2 + 1, 2**e)
  if k == 9:
    return draw(st.sampled_from([2**n - 1 for n in (61, 67, 89, 101, 107, 127, 137, 521, 607)] +
                                [2**n + 1 for n in (4, 8, 16, 32, 64)] + [2**255 - 19, 2**224 - 2**96 + 1, 2**414 - 17]))
  if k == 0:
    return draw(st.integers(-20, 1000))
  if k == 1:
    return draw(st.sampled_from(CARMICHAEL + PSEUDO))
  if k == 2:
    return draw(gens.primes)
  if k == 3:
    a = ref.next_prime(draw(st.integers(3, 2**60)))
    return a * ref.next_prime(draw(st.one_of(st.integers(3, 2**60), st.just(a))))
  if k == 4:
    # p and 2p-1 both prime: many strong liars
    p = draw(st.integers(3, 2**24))
    while True:
      p = ref.next_prime(p + 1)
      if ref.is_prime(2 * p - 1):
        return p * (2 * p - 1)
  if k == 5:
    return draw(st.integers(2, 20)).__rpow__(2) * draw(st.integers(1, 2**20)) + 1
  if k == 6:
    return draw(gens.primes)**2
  return draw(st.integers(2, 2**90))


@sub('P35', 'primes and composites', numbers_to_test(), 3600, rule='odd and above 1000')
def primality(case, rec):
  from starks.primality import probablyPrime
  want = ref.is_prime(case)
  rec.label('prime' if want else 'composite')
  rec.nt(case > 1000 and case % 2 == 1)
  got = probablyPrime(case)
  require(isinstance(got, bool), 'answer %r', got)
  require(got == want, '%d: answered %r', case, got)
  if want:
    for acc in (1, 2, 5):
      require(probablyPrime(case, accuracy=acc) is True, '%d is prime, answered False with accuracy %d', case, acc)
  elif case < 2 or case % 2 == 0:
    require(probablyPrime(case, accuracy=1) is False, '%d with accuracy 1', case)


@sub('P35', 'decomposition', st.tuples(st.integers(0, 200), st.integers(0, 2**200).map(lambda n: 2 * n + 1)).map(list),
     600, rule='even')
def decomposition(case, rec):
  from starks.primality import decompose
  k, odd = case
  rec.nt(k > 0)
  require(tuple(decompose(2**k * odd)) == (k, odd), 'decompose(2^%d * %d) is %r', k, odd, decompose(2**k * odd))


@sub('P35', 'witnesses', st.one_of(st.integers(2, 700).map(lambda n: 2 * n + 1),
                                   st.sampled_from([n for n in CARMICHAEL if n < 50000])), 300,
     rule='composite')
def witnesses(case, rec):
  """Every base of an odd modulus: a prime has no witness, a composite has at least 3/4 of them."""
  from starks.primality import decompose, isWitness
  n = case
  k, odd = decompose(n - 1)
  step = 1 if n < 3000 else 37
  bases = list(range(1, n, step))
  count = 0
  for a in bases:
    w = bool(isWitness(a, n, k, odd))
    x = pow(a, odd, n)
    liar = x == 1 or any(pow(a, odd << i, n) == n - 1 for i in range(k))
    require(w == (not liar), 'base %d against %d: %r', a, n, w)
    count += w
  rec.label('prime' if ref.is_prime(n) else 'composite')
  if ref.is_prime(n):
    require(count == 0, 'the prime %d has %d witnesses', n, count)
  else:
    rec.nt()
    require(step > 1 or 4 * count >= 3 * (n - 1), 'the composite %d has only %d witnesses', n, count)


@st.composite
def big_bases(draw):
  p, q = draw(st.sampled_from(PRIMES)), draw(st.sampled_from(PRIMES + [3, 5, 7, 257, 65537]))
  return dict(p=p, q=q if draw(st.booleans()) and q != p else 1, x=draw(st.integers(0, 20)), y=draw(st.integers(0, 20)),
              a=draw(st.integers(2, 2**64)), odd=draw(st.booleans()))


@sub('P35', 'bases of large numbers', big_bases(), 600, rule='a composite with a base that passes the test of Fermat')
def big_witnesses(case, rec):
  """Bases of a chosen order modulo either factor, and random ones."""
  from starks.primality import decompose, isWitness
  p, q = case['p'], case['q']
  n = p * q
  k, odd = 0, n - 1
  while odd % 2 == 0:
    k, odd = k + 1, odd // 2
  require(tuple(decompose(n - 1)) == (k, odd), 'decompose(%d)', n - 1)

  def part(r, level):
    """An element of order 2^level, or as close as there is, times one that the odd power removes."""
    if r < 3:
      return 1
    j = 0
    while (r - 1) >> j & 1 == 0:
      j += 1
    level = min(level, j, k)
    g = case['a'] % (r - 2) + 2
    while pow(g, (r - 1) // 2, r) == 1:
      g = g % (r - 1) + 1
    x = pow(g, (r - 1) >> level, r)
    if case['odd']:
      x = x * pow(g, (r - 1) // math.gcd((r - 1) >> j, odd), r) % r
    return x

  a, b = part(p, case['x']), part(q, case['y'])
  base = a if q == 1 else (a + p * ((b - a) * pow(p, -1, q) % q)) % n
  rec.nt(q > 1 and pow(base, n - 1, n) == 1)
  for c in {base, n - base, case['a'] % (n - 1) + 1}:
    x = pow(c, odd, n)
    liar = x == 1 or any(pow(c, odd << i, n) == n - 1 for i in range(k))
    require(bool(isWitness(c, n, k, odd)) == (not liar), 'base %d against %d: not %r', c, n, not liar)
    rec.label('liar' if liar else 'witness')


# ---------------------------------------------------------------- Blum Blum Shub


PATTERNS = st.lists(st.one_of(st.integers(0, 3000), st.sampled_from([7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256])),
                    max_size=6).map(lambda ks: sum(1 << k for k in set(ks)))


@sub('P36', 'parity', st.one_of(st.integers(0, 70), st.integers(0, 2**600), PATTERNS), 1500, rule='at least two bits set')
def parity_of_bits(case, rec):
  from starks.blum_blum_shub import parity
  ones = 0
  n = case
  while n:
    n, b = divmod(n, 2)
    ones += b
  rec.nt(ones > 1)
  require(parity(case) == ones % 2, 'parity(%d) is %r, %d bits are set', case, parity(case), ones)


@sub('P36', 'moduli', st.tuples(st.sampled_from([3, 4, 5, 6, 8, 10, 16, 24, 32, 64, 128]),
                                st.integers(0, 2**30)).map(list), 240,
     rule='at least 8 bits')
def moduli(case, rec):
  from starks.blum_blum_shub import find_good_prime, good_prime, make_modulus
  bits = case[0]
  rec.label('%d bits' % bits)
  rec.nt(bits >= 8)
  p = find_good_prime(bits)
  require(p % 4 == 3 and ref.is_prime(p) and p < 2**bits, '%r is not a prime congruent to 3 mod 4 of %d bits', p, bits)
  m = make_modulus(bits)
  require(m < 4**bits, 'modulus of %d bits', m.bit_length())
  if bits <= 24:
    fs = []
    x, d = m, 2
    while d * d <= x and d < 2**24:
      while x % d == 0:
        fs.append(d)
        x //= d
      d += 1 if d == 2 else 2
    if x > 1:
      fs.append(x)
    require(len(fs) == 2 and all(f % 4 == 3 for f in fs), 'modulus %d has the prime factors %r', m, fs)
  n = case[1] % 2**bits
  require(bool(good_prime(n)) == (n % 4 == 3 and ref.is_prime(n)), 'good_prime(%d) is %r', n, good_prime(n))


@st.composite
def blum_candidates(draw):
  n = draw(numbers_to_test().filter(lambda n: n % 4 == 3))
  if draw(st.integers(0, 3)):
    # composites with as many strong liars as there can be
    p = draw(st.integers(3, 2**draw(st.integers(4, 28))))
    while True:
      p = ref.next_prime(p + 1)
      if p % 4 == 3 and ref.is_prime(2 * p - 1):
        return p * (2 * p - 1)
  return n


@sub('P36', 'Blum primes', blum_candidates(), 480, rule='a composite congruent to 3 modulo 4')
def blum_primes(case, rec):
  from starks.blum_blum_shub import good_prime
  want = ref.is_prime(case)
  rec.nt(not want and case > 1)
  rec.label('prime' if want else 'composite')
  # a few liars are no excuse: the same number is asked for repeatedly
  for _ in range(3 if want else 30):
    got = good_prime(case)
    require(bool(got) == want, 'good_prime(%d) is %r', case, got)


@sub('P36', 'generator', st.tuples(st.sampled_from([3, 4, 5, 6, 8, 16, 32, 64]),
                                   st.lists(st.integers(-2**140, 2**140), min_size=1, max_size=8)).map(list), 300,
     rule='an input at least as long as the modulus')
def generator(case, rec):
  """The step is squaring modulo one fixed number, which the outputs give away."""
  from starks.blum_blum_shub import blum_blum_shub
  bits, xs = case
  f = blum_blum_shub(bits)
  # x^2 - f(x) is a multiple of the modulus
  g = 0
  for x in range(1, 400):
    v = 2**(3 * bits) + x * x + 7 * x
    g = math.gcd(g, v * v - f(v))
  require(g > 1, 'the outputs do not fit a single modulus')
  require(g < 4**bits and g.bit_length() >= 3, 'modulus %d', g)
  if bits <= 8:
    fs = [d for d in range(2, g) if g % d == 0 and ref.is_prime(d)]
    require(fs and all(d % 4 == 3 for d in fs) and len(fs) <= 2 and fs[0] * fs[-1] == g, 'modulus %d = product of %r',
            g, fs)
  for x in xs:
    rec.nt(abs(x) >= g)
    y = f(x)
    require(y == x * x % g, '%d goes to %d modulo %d', x, y, g)
    require(0 <= y < g, 'output %d outside the modulus', y)
    require(f(x) == y, 'not deterministic')
  if bits <= 5:
    squares = {f(x) for x in range(g)}
    require({f(s) for s in squares} == squares, 'squaring does not permute the squares modulo %d', g)
  a, b = blum_blum_shub(64)(2**200 + 1), blum_blum_shub(64)(2**200 + 1)
  require(a != b, 'two generators share a modulus')


# ---------------------------------------------------------------- commitments


@functools.lru_cache(maxsize=None)
def generators():
  """Squarings modulo products of primes the harness chose, by size of the primes."""
  def make(bits, i):
    p = ref.next_prime(2**bits + 977 * i)
    while p % 4 != 3:
      p = ref.next_prime(p + 1)
    q = ref.next_prime(p + 2 + 131 * i)
    while q % 4 != 3:
      q = ref.next_prime(q + 1)
    return p * q
  return [make(b, i) for b in (60, 128, 512) for i in range(3)]


def squaring(m):
  return lambda x: pow(x, 2, m)


def ones(n):
  return bin(n).count('1') % 2


@sub('P37', 'bits', st.tuples(st.integers(0, 8), st.integers(0, 1), st.integers(8, 700), st.integers(0, 2**30)).map(list),
     600, rule='every case')
def bit_commitments(case, rec):
  from starks.blum_blum_shub import parity
  from starks.commitment import BBSBitCommitmentScheme, BBSBitCommitmentVerifier
  gi, bit, sec, salt = case
  m = generators()[gi]
  f = squaring(m)
  rec.nt()
  s = BBSBitCommitmentScheme(f, parity, sec)
  c = s.commit(bit)
  secret = s.reveal()
  v = BBSBitCommitmentVerifier(f, parity)
  require(v.verify(secret, c) is True, 'the honest opening is refused')
  require(v.decode(secret, c) == bit, 'committed %d, opened %r', bit, v.decode(secret, c))
  require(secret == s.reveal(), 'a second opening differs')
  require(pow(secret, 2, m) == c[0], 'the commitment does not bind the secret')
  require(s.commit(bit) == c, 'committing again differs')
  other = s.commit(1 - bit)
  require(v.verify(secret, other) and v.decode(secret, other) == 1 - bit, 'the other bit')
  require(other != c, 'both bits have the same commitment')
  # binding: an opening with another secret is refused (the negation has the same square)
  for x in (secret + 1, secret ^ 1, salt, c[0], 0, secret * 2):
    if pow(x, 2, m) != c[0]:
      require(not v.verify(x, c), 'opening with another secret is accepted')
  require(not v.verify(secret, (c[0] + 1, c[1])), 'a changed commitment is accepted')
  # only bits are committed to
  for w in (c[1] ^ 2, c[1] ^ 3, c[1] ^ -1, c[1] ^ -2, c[1] ^ (2 + salt)):
    require(refuses(v, secret, (c[0], w)), 'a commitment to %r is accepted', ones(secret) ^ w)
  # hiding: the masked bit is the bit exactly when the mask is 0
  require(c[1] ^ ones(secret) == bit, 'mask %d, bit %d, stored %r', ones(secret), bit, c[1])


@sub('P37', 'renewed secrets', st.tuples(st.integers(0, 8), st.lists(st.integers(0, 1), min_size=2, max_size=12),
                                         st.integers(40, 600)).map(list), 240, rule='both bits are committed to')
def renewed_secrets(case, rec):
  """One scheme that draws a new secret for each commitment."""
  from starks.blum_blum_shub import parity
  from starks.commitment import BBSBitCommitmentScheme, BBSBitCommitmentVerifier
  gi, bits, sec = case
  f = squaring(generators()[gi])
  rec.nt(len(set(bits)) > 1)
  s = BBSBitCommitmentScheme(f, parity, sec)
  v = BBSBitCommitmentVerifier(f, parity)
  kept = []
  for i, bit in enumerate(bits):
    if i:
      new = s.generateSecret()
      require(new == s.reveal(), 'the new secret is not the one revealed')
    kept.append((bit, s.commit(bit), s.reveal()))
  for bit, c, secret in kept:
    require(v.verify(secret, c) is True, 'the honest opening is refused')
    require(v.decode(secret, c) == bit, 'committed %d, opened %r', bit, v.decode(secret, c))
    require(c == (f(secret), ones(secret) ^ bit), 'the commitment is not the image and the masked bit')


def refuses(v, secrets, commitments):
  try:
    return not v.verify(secrets, commitments)
  except Exception:
    return True


@sub('P37', 'integers', st.tuples(st.integers(0, 8), gens.sizes(1, 70), st.integers(0, 2**70), st.integers(0, 69),
                                  st.integers(0, 2**30)).map(list), 600, rule='at least two bits')
def int_commitments(case, rec):
  from starks.blum_blum_shub import parity
  from starks.commitment import BBSIntCommitmentScheme, BBSIntCommitmentVerifier
  gi, nbits, x, j, salt = case
  x %= 2**nbits
  j %= nbits
  m = generators()[gi]
  f = squaring(m)
  rec.nt(nbits > 1)
  s = BBSIntCommitmentScheme(nbits, f, parity)
  c = s.commit(x)
  require(len(c) == nbits, '%d commitments for %d bits', len(c), nbits)
  secrets = s.reveal()
  require(len(secrets) == nbits and len(set(secrets)) == nbits, 'secrets are shared between bits')
  v = BBSIntCommitmentVerifier(nbits, f, parity)
  require(v.verify(secrets, c) is True and v.decode(secrets, c) == x, 'committed %d, opened %r', x, v.decode(secrets, c))
  require(list(v.decodeBits(secrets, c)) == [int(b) for b in bin(x)[2:].zfill(nbits)], 'bits of %d', x)
  y = (x + 1 + salt) % 2**nbits
  cy = s.commit(y)
  require(v.decode(secrets, cy) == y and v.verify(secrets, cy), 'committed %d, opened %r', y, v.decode(secrets, cy))
  require(x == y or cy != c, 'two integers have the same commitment')
  bad = list(secrets)
  bad[j] = bad[j] + 1 + salt
  if pow(bad[j], 2, m) != c[j][0]:
    require(not v.verify(bad, c), 'opening bit %d of %d with another secret is accepted', j, nbits)
  if nbits > 1:
    sw = list(secrets)
    sw[j], sw[j - 1] = sw[j - 1], sw[j]
    require(not v.verify(sw, c), 'exchanged secrets are accepted')
  cc = list(c)
  cc[j] = (c[j][0] ^ 1, c[j][1])
  require(not v.verify(secrets, cc), 'a changed commitment is accepted')
  # a commitment opens as a whole: no bit left out, none added
  for a, b in ((secrets[:j], c), (secrets, c[:j]), (secrets[:j], c[:j]), (secrets[j + 1:], c[j + 1:]),
               (secrets + secrets[j:], c), (secrets, c + c[j:]), (secrets + secrets[j:], c + c[j:])):
    require(refuses(v, a, b), 'an opening with %d secrets of %d commitments is accepted for %d bits', len(a), len(b), nbits)
  for y in (2**nbits + x, 2**nbits, 2**(nbits + 3) - 1 - x, -1 - x):
    must_reject('committing %d in %d bits' % (y, nbits), s.commit, y)


@st.composite
def crafted(draw):
  """Commitments made by hand: few secrets shared by many bits, and an opening wrong in some places."""
  nbits = draw(gens.sizes(1, 24))
  pool = draw(st.lists(st.integers(2, 2**40), min_size=1, max_size=4, unique=True))
  return dict(gi=draw(st.integers(0, 8)), secrets=[draw(st.sampled_from(pool)) for _ in range(nbits)], pool=pool,
              bits=[draw(st.integers(0, 1)) for _ in range(nbits)],
              masks=draw(st.lists(st.tuples(st.integers(0, nbits - 1), st.sampled_from([2, 3, -1, -2, 4, 1 << 40])).map(list),
                                  max_size=1)),
              drop=draw(st.sampled_from([0] * 9 + [1, 2, -1])),
              wrong=draw(st.lists(st.tuples(st.integers(0, nbits - 1), st.integers(-1, 3), st.integers(1, 2**30)).map(list),
                                  max_size=3)))


@sub('P37', 'crafted commitments', crafted(), 900, rule='some secret is wrong and some string is shared by two bits')
def crafted_commitments(case, rec):
  from starks.blum_blum_shub import parity
  from starks.commitment import BBSIntCommitmentVerifier
  m = generators()[case['gi']]
  f = squaring(m)
  c = [(f(x), ones(x) ^ b) for x, b in zip(case['secrets'], case['bits'])]
  opened = list(case['secrets'])
  for i, which, salt in case['wrong']:
    opened[i] = opened[i] + salt if which < 0 else case['pool'][which % len(case['pool'])]
  v = BBSIntCommitmentVerifier(len(c), f, parity)
  for i, k in case['masks']:
    c[i] = (c[i][0], c[i][1] ^ k)
  if case['drop'] < 0:
    opened.append(opened[0])
  else:
    opened = opened[:len(opened) - case['drop']]
  true = all(f(x) == y for x, (y, _) in zip(opened, c)) and not case['masks'] and len(opened) == len(c)
  require(not refuses(v, opened, c) == true, 'an opening with %s secrets is %s', 'right' if true else 'wrong',
          'refused' if true else 'accepted')
  if true and opened == case['secrets']:
    require(v.decode(opened, c) == int(''.join(map(str, case['bits'])), 2), 'decoded %r', v.decode(opened, c))
  rec.label('right' if true else 'wrong')
  rec.nt(not true and len(set(case['secrets'])) < len(c))


@known('P37', 'negated-secret')
def negated_secret():
  """M - s has the same square as s, and often the other parity: it opens the commitment to the other bit."""
  from starks.blum_blum_shub import parity
  from starks.commitment import BBSBitCommitmentVerifier
  m = generators()[0]
  f = squaring(m)
  v = BBSBitCommitmentVerifier(f, parity)
  s = next(s for s in range(m // 3, m) if ones(s) != ones(m - s))
  c = (f(s), ones(s))
  return bool(v.verify(s, c) and v.verify(m - s, c) and v.decode(s, c) != v.decode(m - s, c))


@sub('P37', 'fresh secrets', st.tuples(st.integers(0, 8), st.integers(40, 600)).map(list), 120, rule='every case')
def fresh_secrets(case, rec):
  """Equal values committed twice look different, and the mask is not constant."""
  from starks.blum_blum_shub import parity
  from starks.commitment import BBSBitCommitmentScheme
  m = generators()[case[0]]
  rec.nt()
  cs = []
  for _ in range(80):
    s = BBSBitCommitmentScheme(squaring(m), parity, case[1])
    c = s.commit(1)
    cs.append(c)
    r = s.reveal()
    require(pow(r, (ref_order(m)), m) == 1 or math.gcd(r, m) > 1, 'the secret is not a square')
  require(len({c[0] for c in cs}) == 80, 'a secret was used twice')
  require({c[1] for c in cs} == {0, 1}, 'the masked bit of 80 commitments is always %r', cs[0][1])


def ref_order(m):
  """(p-1)(q-1)/4: odd part of the group order, annihilating exactly the squares."""
  p, q = factors(m)
  return (p - 1) * (q - 1) // 4


@functools.lru_cache(maxsize=None)
def factors(m):
  # the two primes are close together
  a = math.isqrt(m)
  if a * a < m:
    a += 1
  while True:
    b = math.isqrt(a * a - m)
    if b * b == a * a - m:
      return a - b, a + b
    a += 1


# ---------------------------------------------------------------- graph isomorphism


@st.composite
def graphs(draw):
  """Every vertex in some edge; lists of edges, maybe repeated, in either direction."""
  n = draw(st.one_of(st.integers(2, 8), st.integers(2, 8), st.integers(2, 30)))
  edges = draw(gens.exact(st.tuples(st.integers(1, n), st.integers(1, n - 1)).map(
      lambda e: (e[0], e[1] + (e[1] >= e[0]))), 0, 2 * n))
  have = {v for e in edges for v in e}
  for v in range(1, n + 1):
    if v not in have:
      w = v % n + 1
      edges.append((v, w) if draw(st.booleans()) else (w, v))
  return n, [list(e) for e in edges]


@st.composite
def iso_cases(draw):
  n, g = draw(graphs())
  perm = draw(st.permutations(range(n)))
  return dict(n=n, graph=g, perm=list(perm), cut=draw(st.integers(0, 100)), flip=draw(st.integers(1, n)))


@sub('P38', 'complete', iso_cases(), 3600, rule='the isomorphism is not the identity')
def iso_complete(case, rec):
  from starks import zero_knowledge as zk
  n = case['n']
  G1 = [tuple(e) for e in case['graph']]
  perm = list(case['perm'])
  rec.nt(perm != sorted(perm))
  require(zk.num_vertices(G1) == n, '%r vertices, %d expected', zk.num_vertices(G1), n)
  f = zk.make_permutation_function(perm)
  finv = zk.make_inverse_permutation_function(perm)
  require(sorted(f(i) for i in range(1, n + 1)) == list(range(1, n + 1)), 'not a permutation of the vertices')
  for i in range(1, n + 1):
    require(f(i) == perm[i - 1] + 1, 'vertex %d goes to %r', i, f(i))
    require(finv(f(i)) == i and f(finv(i)) == i, 'the inverse permutation fails at %d', i)
  G2 = zk.apply_isomorphism(G1, f)
  require([tuple(e) for e in G2] == [(perm[a - 1] + 1, perm[b - 1] + 1) for a, b in G1], 'image of the graph')
  require(zk.apply_isomorphism(G2, finv) == G1, 'the inverse does not bring the graph back')
  prover, verifier = zk.ZKProver(G1, G2, perm), zk.ZKVerifier(G1, G2)
  for choice in (1, 2):
    iso, H = prover.send_isomorphic_copy()
    require(sorted(iso) == list(range(n)), 'the blinding is not a permutation: %r', iso)
    require(verifier.accepts(prover.prove_isomorphic_to(iso, choice), choice, H) is True,
            'the honest answer about graph %d is refused', choice)
  require(verifier.choose_graph() in (1, 2), 'choice')
  require(zk.run_protocol(G1, G2, perm) is True, 'an honest run is refused')
  H, choice, w = zk.messages_from_protocol(G1, G2, perm)
  require(verifier.accepts(w, choice, H) is True, 'the transcript of an honest run is refused')
  H, choice, w = zk.simulate_protocol(G1, G2)
  require(verifier.accepts(w, choice, H) is True, 'a simulated transcript is refused')
  zk.convince_beyond_doubt(G1, G2, perm, 1e-3)


@sub('P38', 'sound', iso_cases(), 3600, rule='the two graphs are not isomorphic')
def iso_sound(case, rec):
  """No answer convinces for both graphs when they are not isomorphic; wrong maps are refused."""
  import itertools
  from starks import zero_knowledge as zk
  n = case['n']
  G1 = [tuple(e) for e in case['graph']]
  f = zk.make_permutation_function(case['perm'])
  G2 = zk.apply_isomorphism(G1, f)
  # turn or move one edge end; as lists of edges the graphs then differ
  k = case['cut'] % len(G2)
  a, b = G2[k]
  G2 = list(G2)
  G2[k] = (a, case['flip']) if case['flip'] != b else (b, a)
  if {v for e in G2 for v in e} != set(range(1, n + 1)) or zk.num_vertices(G2) != n:
    return
  verifier = zk.ZKVerifier(G1, G2)
  maps = itertools.permutations(range(n)) if n <= 5 else [case['perm'], list(range(n))]
  iso = any([(m[x - 1] + 1, m[y - 1] + 1) for x, y in G1] == G2 for m in maps) if n <= 5 else None
  # labelled structure decides: the map on vertices is forced by the lists of edges
  forced, ok = {}, True
  for (x, y), (u, v) in zip(G1, G2):
    for s, t in ((x, u), (y, v)):
      ok = ok and forced.setdefault(s, t) == t
  ok = ok and len(set(forced.values())) == len(forced)
  if iso is not None:
    require(iso == ok, 'harness: %r %r', iso, ok) if iso != ok else None
  rec.label('isomorphic' if ok else 'not isomorphic')
  rec.nt(not ok)
  prover = zk.ZKProver(G1, G2, case['perm'])
  got = set()
  for _ in range(3):
    i, H = prover.send_isomorphic_copy()
    require(verifier.accepts(prover.prove_isomorphic_to(i, 1), 1, H) is True, 'the copy of graph 1 is refused')
    if bool(verifier.accepts(prover.prove_isomorphic_to(i, 2), 2, H)):
      require(ok and all(forced[s] == f(s) for s in forced), 'a false isomorphism was accepted')
    # arbitrary permutations as answers
    for _ in range(4):
      w = zk.random_permutation(n)
      wf = zk.make_permutation_function(w)
      for choice, G in ((1, G1), (2, G2)):
        want = [(w[x - 1] + 1, w[y - 1] + 1) for x, y in H] == G
        require(bool(verifier.accepts(wf, choice, H)) == want, 'answer %r about graph %d: accepted %r', w, choice, not want)
        if want:
          got.add(choice)


@st.composite
def merged_graphs(draw):
  """Two graphs on the same vertices, and a third that an arbitrary map of vertices takes to either of them."""
  n, g = draw(graphs())
  how = draw(st.sampled_from(['disjoint', 'shifted', 'glued', 'proper']))
  n2, other = n, draw(st.permutations(g))
  perm = draw(st.permutations(range(n)))
  return dict(n=n, graph=g, other=[list(e) for e in other], perm=list(perm), how=how, at=draw(st.integers(0, 10**6)))


@sub('P38', 'merging', merged_graphs(), 1200, rule='the answer gives two vertices one image')
def iso_merging(case, rec):
  """A map that merges vertices is no isomorphism, although it takes the copy to the graph."""
  from starks import zero_knowledge as zk
  n, how = case['n'], case['how']
  G1 = [tuple(e) for e in case['graph']]
  p = case['perm']
  G2 = [(p[a - 1] + 1, p[b - 1] + 1) for a, b in case['other']]
  v = zk.ZKVerifier(G1, G2)
  for choice, G in ((1, G1), (2, G2)):
    ends = [x for e in G for x in e]
    if how == 'disjoint':
      # every edge on vertices of its own
      names = list(range(1, len(ends) + 1))
    elif how == 'proper':
      names = [p.index(x - 1) + 1 for x in ends]
    else:
      # one occurrence of a vertex gets a new name
      names = list(ends)
      k = case['at'] % len(ends)
      names[k] = n + 1 if how == 'glued' else max(ends) + 1 + case['at'] % 7
    H = list(zip(names[::2], names[1::2]))
    back = dict(zip(names, ends))
    want = len(set(back.values())) == len(back)
    rec.nt(not want)
    require(bool(v.accepts(lambda i: back[i], choice, H)) == want, 'a map that %s is %s', 'is an isomorphism' if want
            else 'merges vertices', 'refused' if want else 'accepted')


@st.composite
def copies(draw):
  n, g = draw(graphs())
  perms = [list(draw(st.permutations(range(n)))) for _ in range(2)]
  ops = draw(st.lists(st.tuples(st.sampled_from(['drop', 'drop first', 'drop last', 'repeat', 'turn', 'swap', 'add', 'move', 'empty', 'half']),
                                st.integers(0, 10**6), st.integers(0, 10**6)), max_size=3))
  return dict(n=n, graph=g, perms=perms, ops=[list(o) for o in ops], shorter=draw(st.integers(0, 3)))


@sub('P38', 'other copies', copies(), 1800, rule='the copy is not the image of the graph')
def other_copies(case, rec):
  """Copies with more, fewer, turned, moved or reordered edges, and pairs of graphs of which one continues the other."""
  from starks import zero_knowledge as zk
  n, (p, q) = case['n'], case['perms']
  image = lambda G, m: [(m[a - 1] + 1, m[b - 1] + 1) for a, b in G]
  G1 = [tuple(e) for e in case['graph']]
  G2 = image(G1, p)
  if case['shorter']:
    cut = [G2[:-case['shorter']], G2[case['shorter']:], G2 + G2[:case['shorter']]][case['shorter'] - 1]
    if cut and zk.num_vertices(cut) == n:
      G2 = cut
  v = zk.ZKVerifier(G1, G2)
  back = zk.make_inverse_permutation_function(q)
  for choice, G in ((1, G1), (2, G2)):
    H = image(G, q)
    for op, i, j in case['ops']:
      k = i % len(H) if H else 0
      a, b = H[k] if H else (1, 2)
      if op == 'add' or not H:
        H.insert(i % (len(H) + 1), (1 + i % n, 1 + j % n))
      elif op.startswith('drop'):
        del H[{'drop': k, 'drop first': 0, 'drop last': -1}[op]]
      elif op == 'repeat':
        H.append(H[k])
      elif op == 'turn':
        H[k] = (b, a)
      elif op == 'swap':
        m = j % len(H)
        H[k], H[m] = H[m], H[k]
      elif op == 'move':
        H[k] = (a, 1 + j % n)
      elif op == 'half':
        H = H[:len(H) // 2]
      else:
        H = []
    want = H == image(G, q)
    rec.nt(not want)
    rec.label('%s edges' % ('as many' if len(H) == len(G) else 'fewer' if len(H) < len(G) else 'more'))
    require(bool(v.accepts(back, choice, H)) == want, 'a copy %r of %r is %s', H, G, 'refused' if want else 'accepted')
  # the honest copy of graph 1, and what the prover says about graph 2
  prover = zk.ZKProver(G1, G2, p)
  iso, H = prover.send_isomorphic_copy()
  require(bool(v.accepts(prover.prove_isomorphic_to(iso, 2), 2, H)) == (G2 == image(G1, p)), 'the answer for %r about %r', G1, G2)


@sub('P38', 'blinding', st.integers(2, 5), 60, rule='every case')
def iso_blinding(case, rec):
  """The blinding permutation takes every value, and the challenge both."""
  import math as m
  from starks import zero_knowledge as zk
  n = case
  rec.nt()
  seen, choices = set(), set()
  G = [(i, i % n + 1) for i in range(1, n + 1)]
  p, v = zk.ZKProver(G, G, list(range(n))), zk.ZKVerifier(G, G)
  for _ in range(30 * m.factorial(n)):
    iso, H = p.send_isomorphic_copy()
    seen.add(tuple(iso))
    choices.add(v.choose_graph())
  require(len(seen) == m.factorial(n), 'only %d blindings of %d vertices occur', len(seen), n)
  require(choices == {1, 2}, 'challenges %r', choices)
  require({zk.simulate_protocol(G, G)[1] for _ in range(60)} == {1, 2}, 'simulated challenges')


# ---------------------------------------------------------------- three-colouring


@prep('P39')
def import_colouring():
  import starks.zkp_3_coloring  # makes a 1024-bit modulus
  assert starks.zkp_3_coloring


@st.composite
def colour_cases(draw):
  n = draw(st.one_of(st.integers(2, 7), st.integers(2, 14)))
  col = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n))
  if len(set(col)) == 1:
    col[0] = (col[0] + 1) % 3
  ok = [(a, b) for a in range(1, n + 1) for b in range(1, n + 1) if col[a - 1] != col[b - 1]]
  edges = draw(gens.exact(st.sampled_from(ok), 1, 12))
  have = {v for e in edges for v in e}
  for v in range(1, n + 1):
    if v not in have:
      edges.append(draw(st.sampled_from([e for e in ok if v in e])))
  return dict(n=n, colors=col, edges=[list(e) for e in edges], gen=draw(st.integers(0, 8)), cheat=draw(st.integers(0, 8)),
              pick=draw(st.integers(0, 1000)))


def coloured(case):
  from starks import zkp_3_coloring as z
  from starks.blum_blum_shub import parity
  G = [tuple(e) for e in case['edges']]
  col = {i + 1: c for i, c in enumerate(case['colors'])}
  f = squaring(generators()[case['gen']])
  return z, G, col, f, parity


@sub('P39', 'complete', colour_cases(), 480, rule='more than one edge')
def colour_complete(case, rec):
  z, G, col, f, parity = coloured(case)
  rec.nt(len(set(map(tuple, case['edges']))) > 1)
  prover = z.ZK3ColProver(G, col, f, parity)
  verifier = z.ZK3ColVerifier(G, f, parity)
  for _ in range(2):
    committed = prover.commit_to_coloring()
    require(set(committed) == set(col), 'committed vertices %r', set(committed))
    edge = verifier.choose_edge(committed)
    und = {tuple(sorted(e)) for e in G}
    require(tuple(sorted(edge)) in und, 'challenge %r is not an edge', edge)
    require(verifier.accepts(prover.reveal_colors(*edge)) is True, 'an honest answer is refused')
    # every edge, in both directions, opens to the committed, permuted colours
    perm = {}
    for u, v in G:
      for x, y in ((u, v), (v, u)):
        lo, hi = min(x, y), max(x, y)
        a, b = prover.reveal_colors(x, y)
        for w, s in ((lo, a), (hi, b)):
          require(verifier.verifier.verify(s, committed[w]), 'opening of vertex %d', w)
          c = verifier.verifier.decode(s, committed[w])
          require(c in (0, 1, 2) and perm.setdefault(col[w], c) == c, 'vertex %d opens to %r', w, c)
    require(len(set(perm.values())) == len(perm), 'colours are merged: %r', perm)
  non = [(u, v) for u in col for v in col if u < v and (u, v) not in und]
  for u, v in non[:3]:
    must_reject('opening the non-edge %r' % ((u, v),), prover.reveal_colors, u, v)


@sub('P39', 'sound', colour_cases(), 720, rule='every case')
def colour_sound(case, rec):
  z, G, col, f, parity = coloured(case)
  rec.nt()
  verifier = z.ZK3ColVerifier(G, f, parity)
  und = [tuple(sorted(e)) for e in G]
  target = und[case['pick'] % len(und)]
  u, v = target
  cheat = case['cheat']
  rec.label('cheat %d' % cheat)
  bad = dict(col)
  if cheat == 0:
    bad[v] = bad[u]
  prover = z.ZK3ColProver(G, bad, f, parity)
  # honest rounds first, of the same verifier and in part of the same prover
  friend = prover if cheat and case['pick'] % 2 else z.ZK3ColProver(G, col, f, parity)
  for _ in range(case['pick'] // 2 % 4 * 2):
    require(verifier.accepts(friend.reveal_colors(*verifier.choose_edge(friend.commit_to_coloring()))) is True,
            'an honest answer is refused')
  committed = prover.commit_to_coloring()
  if cheat == 1:
    # commit one end to a value that is no colour
    committed[v] = prover.vertexToScheme[v].commit(3)
  elif cheat == 2:
    # commit both ends to one value directly
    committed[u] = prover.vertexToScheme[u].commit(case['pick'] % 3)
    committed[v] = prover.vertexToScheme[v].commit(case['pick'] % 3)
  elif cheat == 6:
    # both ends have one colour, to be opened in part: '01' shows 0, or '01' and '0'
    committed[u] = prover.vertexToScheme[u].commit(1)
    committed[v] = prover.vertexToScheme[v].commit(1)
  elif cheat == 7:
    # masked values that decode to no bit: a fourth colour
    w = (u, v)[case['pick'] % 2]
    k = case['pick'] // 2 % 2
    committed[w] = list(committed[w])
    committed[w][k] = (committed[w][k][0], committed[w][k][1] ^ (-1, -2, 2, 3)[case['pick'] // 4 % 4])
  for _ in range(400):
    e = verifier.choose_edge(committed)
    if tuple(sorted(e)) == target:
      break
  else:
    require(False, 'edge %r of %d is never challenged', target, len(und))
  a, b = prover.reveal_colors(*e)
  m = generators()[case['gen']]
  if cheat == 3:
    a = list(a)
    k = case['pick'] % 2
    a[k] = a[k] + 1 + case['pick']
    if pow(a[k], 2, m) == committed[u][k][0]:
      return
  elif cheat == 4:
    a, b = b, a
  elif cheat == 5:
    b = prover.vertexToScheme[[w for w in col if w != v][0]].reveal()
  elif cheat == 6:
    a = list(a)[:1]
    if case['pick'] % 3 == 1:
      a, b = list(prover.vertexToScheme[u].reveal()), list(b)[:1]
    elif case['pick'] % 3 == 2:
      b = []
  revealed = (a, b)
  if cheat == 8:
    # one answer only, or none
    revealed = (a, b)[:case['pick'] % 2]
  try:
    got = verifier.accepts(revealed)
  except Exception:
    got = False
  require(not got, 'a dishonest answer is accepted (cheat %d)', cheat)


@sub('P39', 'fair challenges', colour_cases(), 120, rule='at least two different edges')
def colour_fair(case, rec):
  z, G, col, f, parity = coloured(case)
  verifier = z.ZK3ColVerifier(G, f, parity)
  und = {tuple(sorted(e)) for e in G}
  rec.nt(len(und) > 1)
  got = {tuple(sorted(verifier.choose_edge({}))) for _ in range(40 * len(G))}
  require(got == und, 'edges challenged %r of %r', got, und)
  prover = z.ZK3ColProver(G, col, squaring(generators()[0]), parity)
  v1 = z.ZK3ColVerifier(G, squaring(generators()[0]), parity)
  u = min(und)
  seen = set()
  for _ in range(60):
    c = prover.commit_to_coloring()
    a, b = prover.reveal_colors(*u)
    seen.add((v1.verifier.decode(a, c[u[0]]), v1.verifier.decode(b, c[u[1]])))
  want = {(x, y) for x in range(3) for y in range(3) if x != y}
  require(seen == want, 'sixty openings of one edge show only the colours %r', sorted(seen))


@st.composite
def big_graphs(draw):
  """Three classes of vertices, and many edges between them."""
  n = draw(st.integers(20, 60))
  return dict(n=n, m=draw(st.one_of(st.integers(257, 600), st.integers(60, 256))), seed=draw(st.integers(0, 2**20)),
              gen=draw(st.integers(0, 8)))


@sub('P39', 'large graphs', big_graphs(), 24, rule='more than 256 edges')
def colour_large(case, rec):
  import random
  from starks import zkp_3_coloring as z
  from starks.blum_blum_shub import parity
  r = random.Random(case['seed'])
  n = case['n']
  col = {i + 1: i % 3 for i in range(n)}
  all_edges = [(a, b) for a in col for b in col if a < b and col[a] != col[b]]
  r.shuffle(all_edges)
  G = all_edges[:case['m']]
  for v in col:
    if not any(v in e for e in G):
      G.append(next(e for e in all_edges if v in e))
  rec.nt(len(G) > 256)
  f = squaring(generators()[case['gen']])
  verifier = z.ZK3ColVerifier(G, f, parity)
  got = {tuple(sorted(verifier.choose_edge({}))) for _ in range(40 * len(G))}
  require(got == set(G), '%d of %d edges are never challenged', len(set(G) - got), len(G))
  prover = z.ZK3ColProver(G, col, f, parity)
  committed = prover.commit_to_coloring()
  require(set(committed) == set(col), 'committed vertices')
  for _ in range(3):
    e = verifier.choose_edge(committed)
    require(verifier.accepts(prover.reveal_colors(*e)) is True, 'an honest answer is refused')
  # one edge with equal colours is refused, whichever it is
  u, v = G[r.randrange(len(G))]
  bad = dict(col)
  bad[u] = bad[v]
  prover = z.ZK3ColProver(G, bad, f, parity)
  committed = prover.commit_to_coloring()
  for a, b in G:
    if bad[a] == bad[b]:
      verifier.committed_coloring, verifier.chosen_edge = committed, (a, b)
      try:
        ok = verifier.accepts(prover.reveal_colors(a, b))
      except Exception:
        ok = False
      require(not ok, 'an edge with equal colours is accepted')


@sub('P39', 'whole runs', colour_cases(), 96, rule='every case')
def colour_runs(case, rec):
  z, G, col, f, parity = coloured(case)
  rec.nt()
  require(z.run_protocol(G, col, security_parameter=64) is True, 'an honest run is refused')


# ---------------------------------------------------------------- small helpers


@sub('P45', 'mimc', st.tuples(st.one_of(st.integers(0, 5), gens.ints_for(gens.STARK_P)), st.integers(1, 300),
                              gens.exact(gens.ints_for(gens.STARK_P), 1, 70)).map(list), 900,
     rule='more steps than constants')
def mimc_steps(case, rec):
  from starks.utils import mimc
  inp, steps, consts = case
  rec.nt(steps - 1 > len(consts))
  keep = list(consts)
  got = mimc(inp, steps, consts)
  require(consts == keep, 'the constants were changed')
  m, x = gens.STARK_P, inp
  for i in range(steps - 1):
    x = (x * x * x + consts[i % len(consts)]) % m
  require(got == x, '%d steps from %d give %r, expected %r', steps, inp, got, x)
  if steps > 2:
    # running the first part and then the rest, with the constants turned, gives the same
    k = steps // 2
    rest = [consts[(i + k - 1) % len(consts)] for i in range(len(consts))]
    require(mimc(mimc(inp, k, consts), steps - k + 1, rest) == got, 'two half runs differ from one run')


@st.composite
def cycle_cases(draw):
  if draw(st.integers(0, 2)):
    p = draw(st.sampled_from([3, 5, 7, 11, 13, 17, 31, 97, 101, 251, 257]))
    return dict(field=['Z', p], r=draw(st.integers(1, p - 1)))
  if draw(st.booleans()):
    # a root of unity of a large field
    k = draw(st.integers(1, 10))
    p = gens.STARK_P
    return dict(field=['Z', p], r=pow(7, (p - 1) >> k, p))
  d = draw(gens.fq_descs(max_q=300))
  return dict(field=d, r=draw(gens.elements(d, nonzero=True)))


@sub('P45', 'power cycles', cycle_cases(), 1350, rule='order above 2')
def power_cycles(case, rec):
  from starks.utils import get_power_cycle
  K = ref.field(case['field'])
  r = K.val(case['r'])
  if r == K.one:
    return
  want = [K.one]
  while True:
    x = K.mul(want[-1], r)
    if x == K.one:
      break
    want.append(x)
  rec.nt(len(want) > 2)
  got = [K.canon(x) for x in get_power_cycle(K.real(r), K.real_field())]
  require(got == want, 'powers %r, expected %r', got[:6], want[:6])


@sub('P45', 'powers of two', st.one_of(st.integers(-5000, 5000), st.just(0), st.integers(-900, 0).map(lambda k: -2**-k), st.integers(0, 3000).map(lambda k: 2**k),
                                       st.integers(1, 900).map(lambda k: 2**k - 1),
                                       st.tuples(st.integers(0, 300), st.integers(0, 300)).map(lambda t: 2**t[0] + 2**t[1])),
     900, rule='above 2')
def powers_of_two(case, rec):
  from starks.utils import is_a_power_of_2
  rec.nt(case > 2)
  require(bool(is_a_power_of_2(case)) == (case > 0 and bin(case).count('1') == 1), 'is_a_power_of_2(%d)', case)


@st.composite
def xi_cases(draw):
  d = draw(gens.mixed_fields(q=False))
  w = draw(st.integers(1, 8))
  return dict(field=d, width=w, point=draw(st.lists(gens.elements(d), min_size=w, max_size=w)))


@sub('P45', 'coordinate polynomials', xi_cases(), 900, rule='at least two variables')
def coordinate_polynomials(case, rec):
  from pbt.real import canon_multi
  from starks.utils import generate_Xi_s
  K = ref.field(case['field'])
  w = case['width']
  rec.nt(w > 1)
  xs = generate_Xi_s(K.real_field(), w)
  require(len(xs) == w, '%d polynomials for %d variables', len(xs), w)
  pt = [K.val(j) for j in case['point']]
  for i, x in enumerate(xs):
    e = tuple(1 if k == i else 0 for k in range(w))
    require(canon_multi(K, w, x) == {e: K.one}, 'coordinate %d is %r', i, x)
    got = x([K.real(a) for a in pt])
    require(K.canon(got) == pt[i], 'coordinate %d of the point', i)
