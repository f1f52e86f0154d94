"""Building objects of /repo from JSON, and reading them back into the models."""
from pbt import ref
from pbt.core import require


def uni(K):
  from starks.polynomial import polynomials_over
  return polynomials_over(K.real_field())


def poly(K, coeffs):
  """Real polynomial of model coefficients."""
  return uni(K)([K.real(a) for a in coeffs])


def mpoly_of(K, js):
  """Trimmed model polynomial of JSON coefficients."""
  return ref.trim(K, [K.val(j) for j in js])


def canon_poly(K, x):
  """Model polynomial of a real polynomial, checking it is in canonical form."""
  P = uni(K)
  require(type(x) is P, 'expected a polynomial over %s, got %s', P.ring.__name__, type(x).__name__)
  c = [K.canon(a) for a in x.coefficients]
  require(not c or c[-1] != K.zero, 'trailing zero coefficients: %r', c)
  return c


def canon_poly_or_elem(K, x):
  """As canon_poly; a constant result may also be a field element."""
  if type(x) is uni(K):
    return canon_poly(K, x)
  return ref.trim(K, [K.canon(x)])


def multis(K, width):
  from starks.multivariate_polynomial import multivariates_over
  return multivariates_over(K.real_field(), width)


def model_multi(K, js):
  out = {}
  for e, c in js:
    v = K.val(c)
    if v != K.zero:
      out[tuple(e)] = v
  return out


def multi(K, width, model):
  return multis(K, width)({e: K.real(c) for e, c in model.items()})


def canon_multi(K, width, x):
  M = multis(K, width)
  require(type(x) is M, 'expected a polynomial in %d variables, got %s', width, type(x).__name__)
  out = {}
  for e, c in x.coefficients.items():
    require(isinstance(e, tuple) and len(e) == width, 'bad monomial %r', e)
    v = K.canon(c)
    require(v != K.zero, 'stored zero coefficient at %r', e)
    out[tuple(e)] = v
  return out


def quiet(fn, *args, **kw):
  """Run with stdout discarded (shards already discard it; replays do not)."""
  return fn(*args, **kw)
