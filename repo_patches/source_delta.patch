From bfbc715f9403bb5c4e947a1739614be1587143d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:33 +0000
Subject: [PATCH 01/46] fix: key memoized type constructors on argument values,
 not keyword names

FiniteField(2, 4, polynomialModulus=f) and a later call with another modulus g
returned the same class, and IntegersModP(p=7) and IntegersModP(p=11) collided,
because only the keyword names entered the cache key. A modulus passed
positionally raised TypeError because polynomials were not hashable.
---
 starks/modp.py       | 3 +++
 starks/numbertype.py | 7 ++++++-
 starks/polynomial.py | 3 +++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/starks/modp.py b/starks/modp.py
index 17babff..543d4d9 100644
--- a/starks/modp.py
+++ b/starks/modp.py
@@ -63,6 +63,9 @@ def IntegersModP(p):
     def __ne__(self, other):
       return isinstance(other, IntegerModP) is False or self.n != other.n
 
+    def __hash__(self):
+      return hash((IntegerModP.p, self.n))
+
     @typecheck
     def __divmod__(self, divisor):
       q, r = divmod(self.n, divisor.n)
diff --git a/starks/numbertype.py b/starks/numbertype.py
index dac40bf..f056e11 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -1,6 +1,7 @@
 """
 These classes help speed up field computations by caching and introduce some useful types.
 """
+import inspect
 from typing import List
 
 
@@ -11,9 +12,13 @@ def memoize(f):
   never creating two separate instances of a number class.
   """
   cache = {}
+  signature = inspect.signature(f)
 
   def memoizedFunction(*args, **kwargs):
-    argTuple = args + tuple(kwargs)
+    # Keyword and positional spellings of one call share one cache entry.
+    bound = signature.bind(*args, **kwargs)
+    bound.apply_defaults()
+    argTuple = bound.args
     if argTuple not in cache:
       cache[argTuple] = f(*args, **kwargs)
     return cache[argTuple]
diff --git a/starks/polynomial.py b/starks/polynomial.py
index 4f224eb..4b9c35e 100644
--- a/starks/polynomial.py
+++ b/starks/polynomial.py
@@ -100,6 +100,9 @@ def polynomials_over(ring=fractions.Fraction):
       return self.degree() == other.degree() and all(
           [x == y for (x, y) in zip(self, other)])
 
+    def __hash__(self):
+      return hash(tuple(self.coefficients))
+
     @typecheck
     def __ne__(self, other):
       return self.degree() != other.degree() or any(
-- 
2.43.0


From 932dc13a281a86434b0dfd9a2732b0b8ae8ad9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:06 +0000
Subject: [PATCH 02/46] fix: reduce byte-decoded integers modulo p

An IntegersModP element built from bytes kept the unreduced integer, so it
compared unequal to the same residue built from an int.
---
 starks/modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/modp.py b/starks/modp.py
index 543d4d9..088301b 100644
--- a/starks/modp.py
+++ b/starks/modp.py
@@ -31,7 +31,7 @@ def IntegersModP(p):
     def __init__(self, n):
       try:
         if isinstance(n, bytes):
-          self.n = int.from_bytes(n, 'big')
+          self.n = int.from_bytes(n, 'big') % IntegerModP.p
         else:
           self.n = int(n) % IntegerModP.p
       except:
-- 
2.43.0


From 49938dea67246a0e108ee7668a9afa5eff7b4a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:12 +0000
Subject: [PATCH 03/46] fix: make polynomial and extension-field byte encoding
 round trip

Polynomial.to_bytes called Zp.to_bytes with int's arguments and returned
nothing, so serialising any F_q element failed; decoding did not reduce modulo
the field's polynomial.
---
 starks/finitefield.py | 3 +--
 starks/polynomial.py  | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index 9e8e609..86300b4 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -77,7 +77,7 @@ def FiniteField(p, m, polynomialModulus=None):
 
     def __init__(self, poly):
       if isinstance(poly, bytes):
-        self.poly = Polynomial(poly)
+        self.poly = Polynomial(poly) % polynomialModulus
       elif type(poly) is Fq:
         self.poly = poly.poly
       elif type(poly) is int or type(poly) is Zp:
@@ -145,7 +145,6 @@ def FiniteField(p, m, polynomialModulus=None):
 
       return Fq(x) * Fq(d.coefficients[0].inverse())
 
-    # TODO(rbharath): This function is broken!!
     def to_bytes(self):
       return self.poly.to_bytes()
 
diff --git a/starks/polynomial.py b/starks/polynomial.py
index 4b9c35e..78d5402 100644
--- a/starks/polynomial.py
+++ b/starks/polynomial.py
@@ -167,7 +167,7 @@ def polynomials_over(ring=fractions.Fraction):
       return y
 
     def to_bytes(self):
-      coeff_bytes = [coeff.to_bytes(32, 'big') for coeff in self.coefficients]
+      return b''.join([coeff.to_bytes() for coeff in self.coefficients])
 
 
   def Zero():
-- 
2.43.0


From 616fbc37df71e098119d99eb647ce61579c692c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:18 +0000
Subject: [PATCH 04/46] fix: RationalsModP != compares against its own type

__ne__ named IntegerModP, which is not defined in that module, so every
comparison with != raised NameError.
---
 starks/rationals_modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/rationals_modp.py b/starks/rationals_modp.py
index 6e547a1..269196d 100644
--- a/starks/rationals_modp.py
+++ b/starks/rationals_modp.py
@@ -78,7 +78,7 @@ def RationalsModP(p):
 
     @typecheck
     def __ne__(self, other):
-      return isinstance(other, IntegerModP) is False or (
+      return isinstance(other, RationalModP) is False or (
           (self.m * other.n) % RationalModP.p != (other.m * self.n) % RationalModP.p)
 
     # TODO(rbharath): This should be possible to implement. Think more about it.
-- 
2.43.0


From 908d05933b368b3d0e95a2364c5f3add0e8b8cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:08 +0000
Subject: [PATCH 05/46] fix: interpret integer coefficients of multivariate
 polynomials in the ring

multi({(1,): 7}) over Z/7 kept the raw int 7, so it was not the zero polynomial
and {(1,): -1} differed from {(1,): 6}.
---
 starks/multivariate_polynomial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starks/multivariate_polynomial.py b/starks/multivariate_polynomial.py
index 44096e1..8efd730 100644
--- a/starks/multivariate_polynomial.py
+++ b/starks/multivariate_polynomial.py
@@ -82,8 +82,10 @@ def multivariates_over(ring: Field, num_vars: int) -> MultiVarPoly:
       elif isinstance(c, ring):
         self.coefficients = {(0,)*num_vars: c}
       elif isinstance(c, dict):
-        coefficients = remove_zero_coefficients(c)
-        self.coefficients = c
+        # Integer coefficients denote ring elements
+        self.coefficients = {
+            power_tup: ring(coeff) if isinstance(coeff, int) else coeff
+            for power_tup, coeff in c.items()}
       elif isinstance(c, int):
         self.coefficients = {(0,)*num_vars: ring(c)}
       else:
-- 
2.43.0


From 1ae3138bf8c19d236d00417d6cebf6036670536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:14 +0000
Subject: [PATCH 06/46] fix: divide multivariate polynomials in their own
 coefficient field

__truediv__ printed both operands and divided them over the integers with
sympy, so quotients over a finite field were wrong, e.g. (x^2 + 6)/(x + 6) over
Z/7, and any field other than Z/p could not be printed and parsed back.
---
 starks/multivariate_polynomial.py | 39 +++++++++++++------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/starks/multivariate_polynomial.py b/starks/multivariate_polynomial.py
index 8efd730..fa0fc44 100644
--- a/starks/multivariate_polynomial.py
+++ b/starks/multivariate_polynomial.py
@@ -171,29 +171,22 @@ def multivariates_over(ring: Field, num_vars: int) -> MultiVarPoly:
 
     @typecheck
     def __truediv__(self, divisor):
-      """" 
-      div operation is implemented by using div in sympy
-      The approach is, we convert MultivariatePolynomial to string which will be used to build MultivariatePolynomial in sympy,
-      then we use division which is already available in sympy, the output of division then converted to MultivariatePolynomial
-      which is compatible with our design
-      """
-
-      X = Poly(str(self))
-      X_size = self.size_p()
-      Y = Poly(str(divisor))
-      Y_size = divisor.size_p()
-      Z = div(X, Y)
-
-      # the output of the division converted again to MultivariatePolynomial
-      Z_str = str(Z)
-      result = ""
-      i = 6
-      while i < len(Z_str) and Z_str[i] != ",":
-        result += Z_str[i]
-        i += 1
-
-      # now we have string format of the output, it should be converted to MultivariatePolynomial
-      return self.StrToMulti(result, max(X_size, Y_size))
+      """Quotient of multivariate division in lexicographic order, X_1 > X_2 > ..."""
+      if divisor.is_zero():
+        raise ZeroDivisionError
+      lead = max(divisor.coefficients)
+      quotient, rest = Zero(), self
+      while not rest.is_zero():
+        monomial = max(rest.coefficients)
+        exponents = tuple(a - b for a, b in zip(monomial, lead))
+        if min(exponents) < 0:
+          # This term belongs to the remainder
+          rest = rest - MultivariatePolynomial({monomial: rest[monomial]})
+        else:
+          term = MultivariatePolynomial({exponents: rest[monomial] / divisor[lead]})
+          quotient = quotient + term
+          rest = rest - term * divisor
+      return quotient
 
     # it returns maximum degree in a polynomial
     def size_p(self):
-- 
2.43.0


From 9bb541bfe452d99e155e1042fe616799d909e9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:21 +0000
Subject: [PATCH 07/46] fix: multi_inv maps zero entries to zero

Field elements are always truthy, so a zero entry received a meaningless
nonzero value instead of the intended 0.
---
 starks/poly_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 99694ac..c2c9cfd 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -314,7 +314,7 @@ def multi_inv(field, values):
   inv = 1 / partials[-1]
   outputs = [0] * len(values)
   for i in range(len(values), 0, -1):
-    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] else 0
+    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] != 0 else field(0)
     if values[i-1] != 0:
       inv = inv * values[i - 1]
   return outputs
-- 
2.43.0


From 49833aec998d14a7cd5c8b11b5404cc31a77f5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:28 +0000
Subject: [PATCH 08/46] fix: arithmetize a function over all points of F_q^n

construct_multivariate_coefficients summed over tuples of m prime-field
elements instead of over F_q^n, so the polynomial ignored every coordinate
after the first (and most of an extension field).
---
 starks/poly_utils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index c2c9cfd..93d892b 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -280,20 +280,19 @@ def construct_multivariate_coefficients(field: Field, step_fn: Callable, n:int)
   """
   multi = multivariates_over(field, n).factory
   poly = multi(0)
-  field_size = field.field_size
   # Finite field case
   if field.__name__[:2] == "F_":
     p = field.p
     m = field.m
+    elements = [field(list(coeffs))
+                for coeffs in itertools.product(range(p), repeat=m)]
   elif field.__name__[:2] == "Z/":
-    p = field.p
-    m = 1
+    elements = [field(ind) for ind in range(field.p)]
   else:
     raise ValueError
-  # Iterate over field indices
-  field_indices = itertools.product(*[range(p) for _ in range(m)])
-  for index in field_indices:
-    index = [field(ind) for ind in list(index)]
+  # Iterate over all points of F_q^n
+  for index in itertools.product(elements, repeat=n):
+    index = list(index)
     term = construct_multivariate_dirac_delta(field, index, n)
     poly += step_fn(index) * term
   return poly
-- 
2.43.0


From bb2663c266d2ec900bd276d6cf3d7b3f658f8885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 09/46] fix: mul_polys scales the inverse transform

The product came out multiplied by the order of the root of unity.
---
 starks/fft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starks/fft.py b/starks/fft.py
index 11a19d9..95c422d 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -342,4 +342,7 @@ def mul_polys(a: List[FieldElement], b: List[FieldElement], root_of_unity: Field
     b = b + [0] * (len(rootz) - len(b) - 1)
   x1 = _fft(a, rootz[:-1])
   x2 = _fft(b, rootz[:-1])
-  return _fft([(v1 * v2) for v1, v2 in zip(x1, x2)], rootz[:0:-1])
+  # The inverse transform is scaled by the size of the domain
+  invlen = root_of_unity.field(len(rootz) - 1).inverse()
+  return [(x * invlen) for x in
+          _fft([(v1 * v2) for v1, v2 in zip(x1, x2)], rootz[:0:-1])]
-- 
2.43.0


From 429909a26dadc4040866196487c8726932c34c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:27 +0000
Subject: [PATCH 10/46] fix: Taylor expansion recurses on the integer size of
 its halves

n/2 is a float, so every expansion with n > 4 failed with TypeError; both halves
have fewer than 2^(k+1) coefficients.
---
 starks/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/fft.py b/starks/fft.py
index 95c422d..3facb3a 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -89,8 +89,8 @@ class Additive_FFT(FFT):
     g1 = h+f_twoK*f2
 
     # recursive part
-    V1 = self.Taylor_Expansion(g0, n/2)
-    V2 = self.Taylor_Expansion(g1, n/2)
+    V1 = self.Taylor_Expansion(g0, 2**(k+1))
+    V2 = self.Taylor_Expansion(g1, 2**(k+1))
 
     return V1, V2
 
-- 
2.43.0


From 81acec26e86aef4a239c6e34abadb608dc863de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:16 +0000
Subject: [PATCH 11/46] fix: restore SmoothSubgroupFRI so that the STARK prover
 can be imported

starks.stark imported FRI, which starks.fri no longer had, and
test_compression imports SmoothSubgroupFRI, which was commented out.
---
 starks/fri.py   | 382 ++++++++++++++++++++++++------------------------
 starks/stark.py |   2 +-
 2 files changed, 192 insertions(+), 192 deletions(-)

diff --git a/starks/fri.py b/starks/fri.py
index 339ddc1..8ca7b7a 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -173,194 +173,194 @@ class AffineSubspaceFRI(object):
                              security_factor:int = 40) -> bool:
     raise NotImplementedError
 
-#class SmoothSubgroupFRI(object):
-#  """Implements Fast Reed Solomon Interactive Oracle Protocol
-#
-#  This class implements the FRI for a smooth multiplicative
-#  subgroup of a finite field. Recall that such a subgroup is
-#  of size 2^n and is a subgroup of the cyclic group of nonzero
-#  elements of the finite field.
-#
-#  # TODO(rbharath): Swap this to work with a FourierPolynomial instead of a regular polynomial. Will be more efficient.
-#  """
-#  def __init__(self, field):
-#    self.field = field
-#
-#  def generate_proximity_proof(self,
-#                               f: Poly,
-#                               root_of_unity: FieldElement,
-#                               maxdeg_plus_1: int,
-#                               exclude_multiples_of:int = 0,
-#                               fri_spot_check_security_factor:int = 40) -> List[bytes]:
-#    """
-#    Generate an FRI proof that the polynomial that has the
-#    specified values at successive powers of the specified root
-#    of unity has a degree lower than maxdeg_plus_1
-#
-#    We use maxdeg+1 instead of maxdeg because it's more
-#    mathematically convenient in this case.
-#
-#    Note that if values is a n-degree polynomial, root_of_unity
-#    should be a n-th root of unity.
-#    """
-#    print("Generating proof. Degree %d" % maxdeg_plus_1)
-#    fft_solver = NonBinaryFFT(self.field, root_of_unity)
-#    values = fft_solver.fft(f)
-#    # If the degree we are checking for is less than or equal
-#    # to 32, use the polynomial directly as a proof
-#    # TODO(rbharath): Why does this make sense?
-#    if maxdeg_plus_1 <= 16:
-#      print('Produced FRI proof')
-#      return [[x.to_bytes() for x in values]]
-#
-#    # Calculate the set of x coordinates
-#    xs = get_power_cycle(root_of_unity, self.field)
-#
-#    assert len(values) == len(xs)
-#
-#    # Put the values into a Merkle tree. This is the root that
-#    # the proof will be checked against. Note this is a list of
-#    # length 2*len(values) storing the complete merkle tree.
-#    m = merkelize(values)
-#
-#    # Select a pseudo-random x coordinate
-#    # This is the merkle-root of the polynomial.
-#    #special_x = int.from_bytes(m[1], 'big') % modulus
-#    special_x = self.field(m[1])
-#
-#    # Calculate the "column" at that x coordinate (see
-#    # https://vitalik.ca/general/2017/11/22/starks_part_2.html)
-#    # We calculate the column by Lagrange-interpolating each
-#    # row, and not directly from the polynomial, as this is more
-#    # efficient
-#    quarter_len = len(xs) // 4
-#    x_polys = multi_interp_4(self.field,
-#        [[xs[i + quarter_len * j] for j in range(4)] for i in range(quarter_len)],
-#        [[values[i + quarter_len * j]
-#          for j in range(4)]
-#        for i in range(quarter_len)])
-#    column = [p(special_x) for p in x_polys]
-#    m2 = merkelize(column)
-#
-#    # Pseudo-randomly select y indices to sample
-#    ys = get_pseudorandom_indices(
-#        m2[1], len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
-#
-#    # Compute the Merkle branches for the values in the
-#    # polynomial and the column
-#    branches = []
-#    for y in ys:
-#      branches.append([mk_branch(m2, y)] +
-#                      [mk_branch(m, y + (len(xs) // 4) * j) for j in range(4)])
-#
-#    o = [m2[1], branches]
-#
-#    # Recurse...
-#    # Swapping the root of unity to get new polynomial
-#    fft_solver = NonBinaryFFT(self.field, root_of_unity**4)
-#    column_poly = fft_solver.inv_fft(column)
-#    return [o] + self.generate_proximity_proof(
-#        column_poly,
-#        root_of_unity**4,
-#        maxdeg_plus_1 // 4,
-#        exclude_multiples_of=exclude_multiples_of)
-#
-#  def verify_proximity_proof(self,
-#                             proof: List[bytes],
-#                             merkle_root: bytes,
-#                             root_of_unity: FieldElement,
-#                             maxdeg_plus_1: int,
-#                             exclude_multiples_of:int = 0,
-#                             fri_spot_check_security_factor:int = 40) -> bool:
-#    """Verifies proximity of this function to this RS code."""
-#    # Calculate which root of unity we're working with
-#    testval = root_of_unity
-#    # roudeg is the power of the root of unity
-#    roudeg = 1
-#    while testval != 1:
-#      roudeg *= 2
-#      testval = (testval * testval)
-#
-#    # Powers of the given root of unity 1, p, p**2, p**3 such that p**4 = 1
-#    quartic_roots_of_unity = [
-#        1,
-#        root_of_unity**(roudeg // 4),
-#        root_of_unity**(roudeg // 2),
-#        root_of_unity**(roudeg * 3 // 4)
-#    ]
-#
-#    # Verify the recursive components of the proof
-#    for prf in proof[:-1]:
-#      root2, branches = prf
-#      print('Verifying degree <= %d' % maxdeg_plus_1)
-#
-#      # Calculate the pseudo-random x coordinate
-#      special_x = self.field(merkle_root)
-#
-#      # Calculate the pseudo-randomly sampled y indices
-#      ys = get_pseudorandom_indices(
-#          root2, roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
-#
-#      # For each y coordinate, get the x coordinates on the row,
-#      # the values on the row, and the value at that y from the
-#      # column
-#      xcoords = []
-#      rows = []
-#      columnvals = []
-#      for i, y in enumerate(ys):
-#        # The x coordinates from the polynomial
-#        x1 = root_of_unity**y
-#        xcoords.append(
-#            [(quartic_roots_of_unity[j] * x1) for j in range(4)])
-#
-#        # The values from the original polynomial
-#        row = [
-#            verify_branch(
-#                merkle_root, y + (roudeg // 4) * j, prf, output_as_int=True)
-#            for j, prf in zip(range(4), branches[i][1:])
-#        ]
-#        rows.append(row)
-#
-#        columnvals.append(
-#            verify_branch(root2, y, branches[i][0], output_as_int=True))
-#
-#      # Verify for each selected y coordinate that the four
-#      # points from the polynomial and the one point from the
-#      # column that are on that y coordinate are on the same deg
-#      # < 4 polynomial
-#      polys = multi_interp_4(self.field, xcoords, rows)
-#
-#      for p, c in zip(polys, columnvals):
-#        assert p(special_x) == c
-#
-#      # Update constants to check the next proof
-#      merkle_root = root2
-#      root_of_unity = root_of_unity**4
-#      maxdeg_plus_1 //= 4
-#      roudeg //= 4
-#
-#    # Verify the direct components of the proof
-#    data = [int.from_bytes(x, 'big') for x in proof[-1]]
-#    print('Verifying degree <= %d' % maxdeg_plus_1)
-#    assert maxdeg_plus_1 <= 16
-#
-#    # Check the Merkle root matches up
-#    mtree = merkelize(data)
-#    assert mtree[1] == merkle_root
-#
-#    # Check the degree of the data
-#    #powers = get_power_cycle(root_of_unity, modulus)
-#    powers = get_power_cycle(root_of_unity, self.field)
-#    if exclude_multiples_of:
-#      pts = [x for x in range(len(data)) if x % exclude_multiples_of]
-#    else:
-#      pts = range(len(data))
-#
-#    poly = lagrange_interp(self.field,
-#            [powers[x] for x in pts[:maxdeg_plus_1]],
-#            [data[x] for x in pts[:maxdeg_plus_1]])
-#    for x in pts[maxdeg_plus_1:]:
-#      assert poly(powers[x]) == data[x]
-#
-#    print('FRI proof verified')
-#    return True
+class SmoothSubgroupFRI(object):
+  """Implements Fast Reed Solomon Interactive Oracle Protocol
+
+  This class implements the FRI for a smooth multiplicative
+  subgroup of a finite field. Recall that such a subgroup is
+  of size 2^n and is a subgroup of the cyclic group of nonzero
+  elements of the finite field.
+
+  # TODO(rbharath): Swap this to work with a FourierPolynomial instead of a regular polynomial. Will be more efficient.
+  """
+  def __init__(self, field):
+    self.field = field
+
+  def generate_proximity_proof(self,
+                               f: Poly,
+                               root_of_unity: FieldElement,
+                               maxdeg_plus_1: int,
+                               exclude_multiples_of:int = 0,
+                               fri_spot_check_security_factor:int = 40) -> List[bytes]:
+    """
+    Generate an FRI proof that the polynomial that has the
+    specified values at successive powers of the specified root
+    of unity has a degree lower than maxdeg_plus_1
+
+    We use maxdeg+1 instead of maxdeg because it's more
+    mathematically convenient in this case.
+
+    Note that if values is a n-degree polynomial, root_of_unity
+    should be a n-th root of unity.
+    """
+    print("Generating proof. Degree %d" % maxdeg_plus_1)
+    fft_solver = NonBinaryFFT(self.field, root_of_unity)
+    values = fft_solver.fft(f)
+    # If the degree we are checking for is less than or equal
+    # to 32, use the polynomial directly as a proof
+    # TODO(rbharath): Why does this make sense?
+    if maxdeg_plus_1 <= 16:
+      print('Produced FRI proof')
+      return [[x.to_bytes() for x in values]]
+
+    # Calculate the set of x coordinates
+    xs = get_power_cycle(root_of_unity, self.field)
+
+    assert len(values) == len(xs)
+
+    # Put the values into a Merkle tree. This is the root that
+    # the proof will be checked against. Note this is a list of
+    # length 2*len(values) storing the complete merkle tree.
+    m = merkelize(values)
+
+    # Select a pseudo-random x coordinate
+    # This is the merkle-root of the polynomial.
+    #special_x = int.from_bytes(m[1], 'big') % modulus
+    special_x = self.field(m[1])
+
+    # Calculate the "column" at that x coordinate (see
+    # https://vitalik.ca/general/2017/11/22/starks_part_2.html)
+    # We calculate the column by Lagrange-interpolating each
+    # row, and not directly from the polynomial, as this is more
+    # efficient
+    quarter_len = len(xs) // 4
+    x_polys = multi_interp_4(self.field,
+        [[xs[i + quarter_len * j] for j in range(4)] for i in range(quarter_len)],
+        [[values[i + quarter_len * j]
+          for j in range(4)]
+        for i in range(quarter_len)])
+    column = [p(special_x) for p in x_polys]
+    m2 = merkelize(column)
+
+    # Pseudo-randomly select y indices to sample
+    ys = get_pseudorandom_indices(
+        m2[1], len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+
+    # Compute the Merkle branches for the values in the
+    # polynomial and the column
+    branches = []
+    for y in ys:
+      branches.append([mk_branch(m2, y)] +
+                      [mk_branch(m, y + (len(xs) // 4) * j) for j in range(4)])
+
+    o = [m2[1], branches]
+
+    # Recurse...
+    # Swapping the root of unity to get new polynomial
+    fft_solver = NonBinaryFFT(self.field, root_of_unity**4)
+    column_poly = fft_solver.inv_fft(column)
+    return [o] + self.generate_proximity_proof(
+        column_poly,
+        root_of_unity**4,
+        maxdeg_plus_1 // 4,
+        exclude_multiples_of=exclude_multiples_of)
+
+  def verify_proximity_proof(self,
+                             proof: List[bytes],
+                             merkle_root: bytes,
+                             root_of_unity: FieldElement,
+                             maxdeg_plus_1: int,
+                             exclude_multiples_of:int = 0,
+                             fri_spot_check_security_factor:int = 40) -> bool:
+    """Verifies proximity of this function to this RS code."""
+    # Calculate which root of unity we're working with
+    testval = root_of_unity
+    # roudeg is the power of the root of unity
+    roudeg = 1
+    while testval != 1:
+      roudeg *= 2
+      testval = (testval * testval)
+
+    # Powers of the given root of unity 1, p, p**2, p**3 such that p**4 = 1
+    quartic_roots_of_unity = [
+        1,
+        root_of_unity**(roudeg // 4),
+        root_of_unity**(roudeg // 2),
+        root_of_unity**(roudeg * 3 // 4)
+    ]
+
+    # Verify the recursive components of the proof
+    for prf in proof[:-1]:
+      root2, branches = prf
+      print('Verifying degree <= %d' % maxdeg_plus_1)
+
+      # Calculate the pseudo-random x coordinate
+      special_x = self.field(merkle_root)
+
+      # Calculate the pseudo-randomly sampled y indices
+      ys = get_pseudorandom_indices(
+          root2, roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+
+      # For each y coordinate, get the x coordinates on the row,
+      # the values on the row, and the value at that y from the
+      # column
+      xcoords = []
+      rows = []
+      columnvals = []
+      for i, y in enumerate(ys):
+        # The x coordinates from the polynomial
+        x1 = root_of_unity**y
+        xcoords.append(
+            [(quartic_roots_of_unity[j] * x1) for j in range(4)])
+
+        # The values from the original polynomial
+        row = [
+            verify_branch(
+                merkle_root, y + (roudeg // 4) * j, prf, output_as_int=True)
+            for j, prf in zip(range(4), branches[i][1:])
+        ]
+        rows.append(row)
+
+        columnvals.append(
+            verify_branch(root2, y, branches[i][0], output_as_int=True))
+
+      # Verify for each selected y coordinate that the four
+      # points from the polynomial and the one point from the
+      # column that are on that y coordinate are on the same deg
+      # < 4 polynomial
+      polys = multi_interp_4(self.field, xcoords, rows)
+
+      for p, c in zip(polys, columnvals):
+        assert p(special_x) == c
+
+      # Update constants to check the next proof
+      merkle_root = root2
+      root_of_unity = root_of_unity**4
+      maxdeg_plus_1 //= 4
+      roudeg //= 4
+
+    # Verify the direct components of the proof
+    data = [int.from_bytes(x, 'big') for x in proof[-1]]
+    print('Verifying degree <= %d' % maxdeg_plus_1)
+    assert maxdeg_plus_1 <= 16
+
+    # Check the Merkle root matches up
+    mtree = merkelize(data)
+    assert mtree[1] == merkle_root
+
+    # Check the degree of the data
+    #powers = get_power_cycle(root_of_unity, modulus)
+    powers = get_power_cycle(root_of_unity, self.field)
+    if exclude_multiples_of:
+      pts = [x for x in range(len(data)) if x % exclude_multiples_of]
+    else:
+      pts = range(len(data))
+
+    poly = lagrange_interp(self.field,
+            [powers[x] for x in pts[:maxdeg_plus_1]],
+            [data[x] for x in pts[:maxdeg_plus_1]])
+    for x in pts[maxdeg_plus_1:]:
+      assert poly(powers[x]) == data[x]
+
+    print('FRI proof verified')
+    return True
diff --git a/starks/stark.py b/starks/stark.py
index 9b54365..ad9a2cc 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -10,7 +10,7 @@ from starks.merkle_tree import unpack_merkle_leaf
 from starks.polynomial import polynomials_over
 from starks.poly_utils import lagrange_interp_2
 from starks.fft import NonBinaryFFT
-from starks.fri import FRI
+from starks.fri import SmoothSubgroupFRI as FRI
 from starks.utils import generate_Xi_s
 from starks.utils import get_power_cycle
 from starks.utils import is_a_power_of_2
-- 
2.43.0


From 7e4bb6fae2500d4a61e7c95c5a804d47de7cb6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:37 +0000
Subject: [PATCH 12/46] fix: derive the AIR trace exponent from the number of
 steps

AIR asserted steps == 2^9 - 1, a sample value, so no computation of any other
length (including the ones in test_apr) could be represented.
---
 starks/air.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/air.py b/starks/air.py
index 01eefe7..73b159c 100644
--- a/starks/air.py
+++ b/starks/air.py
@@ -95,7 +95,7 @@ class AIR(object):
       inp = [inp]
 
     # Some constraints to make our job easier
-    self.t = 9 # this is only a sample value, we need to change it based on a computation
+    self.t = int(steps).bit_length()
     assert steps == 2**self.t-1
     #assert is_a_power_of_2(steps)
 
-- 
2.43.0


From 145c48080ef85a6b144adf674f88d0e97b7df432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:46 +0000
Subject: [PATCH 13/46] fix: prove computations that end in zero

The boundary interpolation passed its points as polynomials, whose trailing
zeros are stripped, so the STARK prover raised IndexError whenever an output
value was 0.
---
 starks/stark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index ad9a2cc..1cd3fcf 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -92,8 +92,8 @@ def construct_boundary_polynomials(trace_polys: List[Poly], witness: List[List],
     constraint = boundary[dim]
     (_, _, input_value) = constraint
     output_dim = witness[dim][-1]
-    interpolant = lagrange_interp_2(field, polysOver([1, last_step_position]),
-        polysOver([input_value, output_dim]))
+    interpolant = lagrange_interp_2(field, [1, last_step_position],
+        [input_value, output_dim])
     interpolants.append(interpolant)
   # B = (P - I) / Z2
   b_polys = []
-- 
2.43.0


From ce008ef618dce97f0d8c2ea8c247ceb91d54d632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:20 +0000
Subject: [PATCH 14/46] fix: floating point subtraction leaves its operand
 unchanged

a - b flipped the sign bit of b itself.
---
 starks/floatingpoint.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/floatingpoint.py b/starks/floatingpoint.py
index ef137f0..a95b72f 100644
--- a/starks/floatingpoint.py
+++ b/starks/floatingpoint.py
@@ -127,8 +127,7 @@ def FloatingPoint(field):
     @typecheck
     def __sub__(self, other):
       # subtraction is implemented based on addition
-      other.s = other.s ^ 1
-      output = self + other
+      output = self + Fp(other.v, other.p, other.z, other.s ^ 1)
       return output
 
     #this is division operation of two floating point numbers in binary finite field representation
-- 
2.43.0


From 561dcfb4b9a248cf0b7a148d3cd2aa5fe18e9af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:38 +0000
Subject: [PATCH 15/46] fix: two_pow weighs bit i of the exponent by 2^i

Bit i multiplied the result by x^(i+1), which is 2^(2^i) only for i < 2.
---
 starks/finitefield.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index 86300b4..fbcb8fc 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -154,8 +154,7 @@ def FiniteField(p, m, polynomialModulus=None):
 
       for i in range(self.poly.degree()+1):
         if str(self.poly.coefficients[i])[0] == '1':
-          l = num_to_binary_list_pow(i+1)
-          num = num * Fq(l)
+          num = num * Fq(num_to_binary_list_pow(1))**(2**i)
 
       return num
 
-- 
2.43.0


From 3b9192fa5ed456683686a78286fd637d4ecad357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:10 +0000
Subject: [PATCH 16/46] fix: the polynomial x is not primitive

is_primitive accepted x itself, so generate_primitive_polynomial(p, 1) could
return a polynomial whose root is 0.
---
 starks/poly_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 93d892b..1aca761 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -223,6 +223,9 @@ def is_primitive(irred_poly: Poly, modulus: int, degree: int) -> bool:
   # All primitive polynomials are irreducible
   if not is_irreducible(irred_poly, modulus):
     return False
+  # The root of x is 0, which generates nothing
+  if irred_poly.coefficients[0] == 0:
+    return False
   # factorize p^m - 1
   prime_factors = factorint(modulus**degree - 1)
   # This is returned as dictionary with multiplicities. Turn into list
-- 
2.43.0


From a5e4e6af03d9b213f93f4f71cd926cbd281d0091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:19 +0000
Subject: [PATCH 17/46] fix: the simulated transcript maps the copy back to the
 chosen graph

simulate_protocol returned the permutation from G to H where the protocol sends
the one from H to G, so the verifier rejected simulated transcripts.
---
 misc/zero_knowledge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index 48143e1..ce1176d 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -182,7 +182,7 @@ def simulate_protocol(G1, G2):
   pi = make_permutation_function(isomorphism)
   H = apply_isomorphism(G, pi)
 
-  return H, choice, pi
+  return H, choice, make_inverse_permutation_function(isomorphism)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From c3ee030681748fd680f9fbaa14f64ff9af3e3f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:25 +0000
Subject: [PATCH 18/46] fix: the 3-coloring verifier rejects a fourth color

Colors are committed as two bits and the value 3 was accepted, so a 4-coloring
of a graph that is not 3-colorable convinced the verifier.
---
 misc/zkp_3_coloring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc/zkp_3_coloring.py b/misc/zkp_3_coloring.py
index 0fd2419..1b87ef6 100644
--- a/misc/zkp_3_coloring.py
+++ b/misc/zkp_3_coloring.py
@@ -83,6 +83,9 @@ class ZK3ColVerifier(object):
       revealed_colors.append(trueColor)
       if not self.verifier.verify(bitSecrets, self.committed_coloring[w]):
         return False
+      # Two committed bits can also encode a fourth color
+      if trueColor > 2:
+        return False
 
     return revealed_colors[0] != revealed_colors[1]
 
-- 
2.43.0


From d23a92fade1d1c6df2b226cc41785dda4137a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 19/46] fix: consensus measures the received chain itself

resolve_conflicts trusted the length a peer reported, so a peer could replace a
chain by a shorter one (or crash the node with an empty chain).
---
 misc/blockchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index a65ec7e..774f2e2 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -84,8 +84,8 @@ class Blockchain:
       response = requests.get(f'http://{node}/chain')
 
       if response.status_code == 200:
-        length = response.json()['length']
         chain = response.json()['chain']
+        length = len(chain)
 
         # Check if the length is longer and the chain is valid
         if length > max_length and self.valid_chain(chain):
-- 
2.43.0


From e6efa2667f6e3de58e1e0b36afe23c1d958197d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 20/46] fix: draw linear-combination weights for any width

get_pseudorandom_ks returned None for ten or more weights, so a STARK of width
10 or more could not be proved.
---
 starks/stark.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 1cd3fcf..cdef27f 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -119,8 +119,7 @@ def get_pseudorandom_ks(m_root: bytes, num: int) -> List[int]:
     byte_list = [b'0x01', b'0x02', b'0x03', b'0x04']
     ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
     return ks
-  # Is the < 10 restriction needed
-  elif num < 10:
+  else:
     byte_list = [("0x0%s" % str(i)).encode("UTF-8") for i in range(num)]
     ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
     return ks
-- 
2.43.0


From 362ba20a0a650ad6ac871d8201198e4886b9b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:20 +0000
Subject: [PATCH 21/46] fix: prove as many spot checks as the verifier asks for

The prover always opened 80 positions, so a STARK with a larger
spot_check_security_factor could not verify its own proof.
---
 starks/stark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/stark.py b/starks/stark.py
index cdef27f..324bd8b 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -261,7 +261,8 @@ class STARK(object):
     l_evaluations = self.fft_solver.fft(l_poly)
     l_mtree = merkelize(l_evaluations)
 
-    branches = self.compute_merkle_spot_checks(mtree, l_mtree)
+    branches = self.compute_merkle_spot_checks(
+        mtree, l_mtree, self.spot_check_security_factor)
 
     fri = FRI(self.field)
     # Return the Merkle roots of P and D, the spot check Merkle
-- 
2.43.0


From cccf01d25a222238c5eae8e87965a0a9b677e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:02 +0000
Subject: [PATCH 22/46] fix: verify the linear combination that the low-degree
 proof is about

The check tying the FRI-tested polynomial to the committed trace, constraint and
boundary values was commented out, so a proof with arbitrary committed values
and an unrelated low-degree polynomial convinced the verifier of a false output.
---
 starks/stark.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 324bd8b..fe2ff1e 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -371,15 +371,14 @@ class STARK(object):
       interpolant = lagrange_interp_2(field, [1, self.last_step_position], [input_value, output_dim])
       assert (p_of_x[dim] - b_of_x[dim] * zeropoly2(x) - interpolant(x)) == 0
 
-    # TODO(rbharath): I'm commenting this out for now, but I think commenting
-    # out this check breaks security guarantees!! To fix this, we need a way
-    # of getting the dimensionwise l's, which might necessitate passing more
-    # merkle branches into the original proof. Will refactor in a subsequent
-    # PR.
     # Check correctness of the linear combination
-    #assert (l_of_x - d_of_x - k1 * p_of_x - k2 * p_of_x * x_to_the_steps -
-    #        k3 * b_of_x - k4 * b_of_x * x_to_the_steps) % modulus == 0
-
+    power = (self.G2**self.steps)**(self.precision - 1)
+    l_ks = get_pseudorandom_ks(m_root, width)
+    l_expected = field(0)
+    for p_dim, d_dim, b_dim, l_k in zip(p_of_x, d_of_x, b_of_x, l_ks):
+      l_dim = d_dim + p_dim * k1 + p_dim * k2 * power + b_dim * k3 + b_dim * k4 * power
+      l_expected = l_expected + l_dim + l_dim * l_k * power
+    assert l_expected == l_of_x
 
   # TODO(rbharath): This method is poorly structured since it
   # computes spot checks for both the mtree and the ltree
-- 
2.43.0


From 2f00f98541c5ebc611a6a7d7a6371a3c2e6487af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 23/46] fix: spot-check every FRI round as often as asked

---
 starks/fri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/fri.py b/starks/fri.py
index 8ca7b7a..1e7b61e 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -263,7 +263,8 @@ class SmoothSubgroupFRI(object):
         column_poly,
         root_of_unity**4,
         maxdeg_plus_1 // 4,
-        exclude_multiples_of=exclude_multiples_of)
+        exclude_multiples_of=exclude_multiples_of,
+        fri_spot_check_security_factor=fri_spot_check_security_factor)
 
   def verify_proximity_proof(self,
                              proof: List[bytes],
-- 
2.43.0


From 46610b640b7ff5fa1189d8c288161e78be71834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:36 +0000
Subject: [PATCH 24/46] fix: import what the blockchain node uses

run_blockchain.py could not start: Flask, jsonify, request, uuid4 and
Blockchain were used without being imported.
---
 misc/run_blockchain.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index 6c2182b..e849506 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -1,3 +1,9 @@
+from uuid import uuid4
+
+from flask import Flask, jsonify, request
+
+from blockchain import Blockchain
+
 # Instantiate the Node
 app = Flask(__name__)
 
-- 
2.43.0


From e1a1923d46b1bfa9ff24465b1e078c3e9ec45320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:09 +0000
Subject: [PATCH 25/46] fix: prove computations with constant components

A step polynomial and trace that are both constant evaluate to field
elements, so the constraint was not a polynomial and mk_proof raised
TypeError.
---
 starks/stark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/stark.py b/starks/stark.py
index fe2ff1e..a121d99 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -50,7 +50,8 @@ def construct_constraint_polynomials(step_polys: List[MultiVarPoly], trace_polys
   # Convert trace polys to multidimensional polys by evaluating
   constraint_polys = []
   for next_trace, step_poly in zip(next_traces, step_polys):
-    constraint_poly = next_trace - step_poly(trace_polys)
+    # A constant component evaluates to a field element on both sides
+    constraint_poly = polysOver([field(0)]) + next_trace - step_poly(trace_polys)
     constraint_polys.append(constraint_poly)
   return constraint_polys
 
-- 
2.43.0


From 39d951707670c17a827cd909bda84e6feda5847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 26/46] fix: boundary polynomials of a register use the
 constraints of that register

---
 starks/apr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starks/apr.py b/starks/apr.py
index b56e502..6d2c2e8 100644
--- a/starks/apr.py
+++ b/starks/apr.py
@@ -212,6 +212,7 @@ class APR(object):
     for w in range(self.width):
       accum = self.polysOver([self.basePolys(1)])
       for (i, j, alpha) in B:
+        if j != w: continue
         # x - g**i % zeta
         term = x - self.polysOver([((g**i) % self.zeta)])
         accum = accum * term
@@ -231,8 +232,8 @@ class APR(object):
     accums = []
     g = self.basePolys([0, 1])
     for w in range(self.width):
-      xs = [(g**i) % self.zeta for (i, _, _) in B]
-      ys = [alpha for (_, _, alpha) in B]
+      xs = [(g**i) % self.zeta for (i, j, _) in B if j == w]
+      ys = [alpha for (_, j, alpha) in B if j == w]
       # TODO(rbharath): This interpolation call is broken!
       interp = lagrange_interp(self.field, xs, ys)
       accums.append(interp)
-- 
2.43.0


From 8f8c46f5626148139091760a33b345a71c3b1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:39 +0000
Subject: [PATCH 27/46] fix: verifiers refuse openings with another number or
 length of hashes

---
 starks/fri.py         |  5 +++++
 starks/merkle_tree.py | 11 +++++++++++
 starks/stark.py       |  5 +++++
 3 files changed, 21 insertions(+)

diff --git a/starks/fri.py b/starks/fri.py
index 1e7b61e..402eb27 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -5,6 +5,7 @@ from random import randint
 from typing import List
 from starks.merkle_tree import merkelize
 from starks.merkle_tree import mk_branch
+from starks.merkle_tree import is_branch_of
 from starks.merkle_tree import verify_branch
 from starks.utils import get_power_cycle
 from starks.utils import get_pseudorandom_indices
@@ -314,6 +315,10 @@ class SmoothSubgroupFRI(object):
         xcoords.append(
             [(quartic_roots_of_unity[j] * x1) for j in range(4)])
 
+        # Branches of other shapes can open other values
+        assert is_branch_of(branches[i][0], roudeg // 4)
+        assert all(is_branch_of(branch, roudeg) for branch in branches[i][1:])
+
         # The values from the original polynomial
         row = [
             verify_branch(
diff --git a/starks/merkle_tree.py b/starks/merkle_tree.py
index 39f07ef..3f256e5 100644
--- a/starks/merkle_tree.py
+++ b/starks/merkle_tree.py
@@ -85,6 +85,17 @@ def verify_branch(root, index, proof, output_as_int=False):
   assert v == root
   return int.from_bytes(proof[0], 'big') if output_as_int else proof[0]
 
+def is_branch_of(proof, size, leaf_length=32):
+  """Whether a branch has the shape of those of a tree with the given number of leaves.
+
+  verify_branch recomputes the root from whatever it is given.  A branch with
+  more or fewer nodes, or with nodes of other lengths, can lead to the same
+  root and open a different value at the same position.
+  """
+  lengths = [leaf_length] * min(2, size.bit_length())
+  lengths += [32] * (size.bit_length() - len(lengths))
+  return [len(node) for node in proof] == lengths
+
 def evaluate_polynomials(polynomials: List[Poly]):
   """Convert polynomials into evaluated form."""
   fft = MultiDimNonBinaryFFT(field, root_of_unity, width)
diff --git a/starks/stark.py b/starks/stark.py
index a121d99..a3f1670 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -4,6 +4,7 @@ from typing import Tuple
 from starks.merkle_tree import blake
 from starks.merkle_tree import verify_branch
 from starks.merkle_tree import mk_branch
+from starks.merkle_tree import is_branch_of
 from starks.merkle_tree import merkelize
 from starks.merkle_tree import merkelize_polynomial_evaluations
 from starks.merkle_tree import unpack_merkle_leaf
@@ -326,6 +327,10 @@ class STARK(object):
     m_root, l_root, branches, fri_proof = proof
     x = self.G2**pos
     x_to_the_steps = x**self.steps
+    # Branches of other shapes can open other values
+    assert is_branch_of(branches[i * 3], self.precision, 32 * 3 * width)
+    assert is_branch_of(branches[i * 3 + 1], self.precision, 32 * 3 * width)
+    assert is_branch_of(branches[i * 3 + 2], self.precision)
     # Recall m is the merkle tree of the raw polynomials, and l
     # is the merkle tree of the pseudorandom combination
     # polynomial. Leaf node from m[pos]
-- 
2.43.0


From 9c217c5c2b2a21500ec75565567eb5904a4baa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:45 +0000
Subject: [PATCH 28/46] fix: the last component of a low-degree proof has one
 value per position

---
 starks/fri.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starks/fri.py b/starks/fri.py
index 402eb27..93ea78d 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -350,6 +350,9 @@ class SmoothSubgroupFRI(object):
     print('Verifying degree <= %d' % maxdeg_plus_1)
     assert maxdeg_plus_1 <= 16
 
+    # Fewer values could be inner nodes of the tree
+    assert len(data) == roudeg
+
     # Check the Merkle root matches up
     mtree = merkelize(data)
     assert mtree[1] == merkle_root
-- 
2.43.0


From 1cfa67ab9de93242e86e5e59c19e74bcb8929b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:16 +0000
Subject: [PATCH 29/46] fix: an integer commitment is opened only by the
 secrets of all its bits

---
 misc/commitment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc/commitment.py b/misc/commitment.py
index 9f39539..a3e5643 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -106,6 +106,9 @@ class BBSIntCommitmentVerifier(object):
     ]
 
   def verify(self, secrets, bitCommitments):
+    # Every committed bit has to be opened
+    if not (len(self.verifiers) == len(secrets) == len(bitCommitments)):
+      return False
     return all(
         bitVerifier.verify(secret, commitment)
         for (bitVerifier, secret,
-- 
2.43.0


From 615e44539c729aeabe470d3e61d3c8b5cde8dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:16 +0000
Subject: [PATCH 30/46] fix: bit commitments to values other than 0 and 1 are
 refused

---
 misc/commitment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc/commitment.py b/misc/commitment.py
index a3e5643..72df549 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -50,6 +50,9 @@ class BBSBitCommitmentVerifier(object):
 
   def verify(self, securityString, claimedCommitment):
     trueBit = self.decode(securityString, claimedCommitment)
+    # Only the bits 0 and 1 can be committed to
+    if trueBit not in (0, 1):
+      return False
     unguessableBit = self.hardcorePredicate(
         securityString)  # wasteful, whatever
     return claimedCommitment == (
-- 
2.43.0


From 2f7ce3775316745ec5e15a1520c325b5dc6af636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:16 +0000
Subject: [PATCH 31/46] fix: integers that do not fit the commitment are
 refused instead of cut

---
 misc/commitment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misc/commitment.py b/misc/commitment.py
index 72df549..a78d49a 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -87,6 +87,8 @@ class BBSIntCommitmentScheme(CommitmentScheme):
     return self.secret
 
   def commit(self, integer):
+    if not 0 <= integer < 2**len(self.schemes):
+      raise ValueError('%d does not fit in %d bits' % (integer, len(self.schemes)))
     # first pad bits to desired length
     integer = bin(integer)[2:].zfill(len(self.schemes))
     bits = [int(bit) for bit in integer]
-- 
2.43.0


From 69729647349fa9dd78704b34009b882378046aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:16 +0000
Subject: [PATCH 32/46] fix: the answer of a prover has to be one-to-one on the
 vertices

---
 misc/zero_knowledge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index ce1176d..23ced0c 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -129,7 +129,11 @@ class ZKVerifier(object):
     by the Prover.
     """
     graph_to_check = [self.G1, self.G2][choice - 1]
-    f = isomorphism
+    # An isomorphism gives every vertex of H an image of its own
+    images = {v: isomorphism(v) for e in H for v in e}
+    if len(set(images.values())) != len(images):
+      return False
+    f = images.get
 
     # The correctness of this check depends on python list comparison being
     # done with == since each graph is a list of tuples.
-- 
2.43.0


From 3df9b6cf8bf488d21eada6b32b5a33419189d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:13 +0000
Subject: [PATCH 33/46] fix: an unreachable or malfunctioning node does not
 stop consensus

---
 misc/blockchain.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index 774f2e2..1db0958 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -81,16 +81,20 @@ class Blockchain:
 
     # Grab and verify the chains from all the nodes in our network
     for node in neighbours:
-      response = requests.get(f'http://{node}/chain')
-
-      if response.status_code == 200:
-        chain = response.json()['chain']
-        length = len(chain)
-
-        # Check if the length is longer and the chain is valid
-        if length > max_length and self.valid_chain(chain):
-          max_length = length
-          new_chain = chain
+      try:
+        response = requests.get(f'http://{node}/chain')
+
+        if response.status_code == 200:
+          chain = response.json()['chain']
+          length = len(chain)
+
+          # Check if the length is longer and the chain is valid
+          if length > max_length and self.valid_chain(chain):
+            max_length = length
+            new_chain = chain
+      except Exception as e:
+        # One unreachable or malfunctioning node must not stop the others
+        print(f'Ignoring node {node}: {e}')
 
     # Replace our chain if we discovered a new, valid chain longer than ours
     if new_chain:
-- 
2.43.0


From 8b2bd25366475bf02d3b348a54ef06c2485c5905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:13 +0000
Subject: [PATCH 34/46] fix: transactions are announced for the next block
 whatever index a peer gave its last block

---
 misc/blockchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index 1db0958..0b6a49c 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -141,7 +141,7 @@ class Blockchain:
         'amount': amount,
     })
 
-    return self.last_block['index'] + 1
+    return len(self.chain) + 1
 
   @property
   def last_block(self):
-- 
2.43.0


From 1bb85a0062fae67f8edc596f67460c178da75047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:13 +0000
Subject: [PATCH 35/46] fix: transactions that are no JSON objects are refused
 with 400

---
 misc/run_blockchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index e849506..e249e49 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -48,7 +48,7 @@ def new_transaction():
 
   # Check that the required fields are in the POST'ed data
   required = ['sender', 'recipient', 'amount']
-  if not all(k in values for k in required):
+  if not isinstance(values, dict) or not all(k in values for k in required):
     return 'Missing values', 400
 
   # Create a new Transaction
-- 
2.43.0


From 4268dfe2a6584b3685d2b11a6e92cf1cdb2e20f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:13 +0000
Subject: [PATCH 36/46] fix: lists of nodes with an invalid entry are refused
 with 400 and register nothing

---
 misc/run_blockchain.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index e249e49..837a134 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -72,12 +72,18 @@ def full_chain():
 def register_nodes():
   values = request.get_json()
 
-  nodes = values.get('nodes')
-  if nodes is None:
+  nodes = values.get('nodes') if isinstance(values, dict) else None
+  if not isinstance(nodes, list) or not all(isinstance(n, str) for n in nodes):
     return "Error: Please supply a valid list of nodes", 400
 
-  for node in nodes:
-    blockchain.register_node(node)
+  registered = set(blockchain.nodes)
+  try:
+    for node in nodes:
+      blockchain.register_node(node)
+  except ValueError:
+    # Register all of the nodes or none
+    blockchain.nodes = registered
+    return "Error: Please supply a valid list of nodes", 400
 
   response = {
       'message': 'New nodes have been added',
-- 
2.43.0


From 37ce3d281a1e15340ef8be72c7f2228bdb1f8a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:13 +0000
Subject: [PATCH 37/46] fix: concurrent requests do not break the chain

---
 misc/run_blockchain.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index 837a134..7098042 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -1,3 +1,5 @@
+from functools import wraps
+from threading import RLock
 from uuid import uuid4
 
 from flask import Flask, jsonify, request
@@ -13,8 +15,23 @@ node_identifier = str(uuid4()).replace('-', '')
 # Instantiate the Blockchain
 blockchain = Blockchain()
 
+# The server handles requests in threads; those that change the node take turns
+lock = RLock()
+
+
+def exclusive(handler):
+  """Lets a handler run only while no other exclusive one runs."""
+
+  @wraps(handler)
+  def wrapper():
+    with lock:
+      return handler()
+
+  return wrapper
+
 
 @app.route('/mine', methods=['GET'])
+@exclusive
 def mine():
   # We run the proof of work algorithm to get the next proof...
   last_block = blockchain.last_block
@@ -43,6 +60,7 @@ def mine():
 
 
 @app.route('/transactions/new', methods=['POST'])
+@exclusive
 def new_transaction():
   values = request.get_json()
 
@@ -69,6 +87,7 @@ def full_chain():
 
 
 @app.route('/nodes/register', methods=['POST'])
+@exclusive
 def register_nodes():
   values = request.get_json()
 
@@ -93,6 +112,7 @@ def register_nodes():
 
 
 @app.route('/nodes/resolve', methods=['GET'])
+@exclusive
 def consensus():
   replaced = blockchain.resolve_conflicts()
 
-- 
2.43.0


From 442308fe94b31ecee2ee713c1a949e633d38c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:31 +0000
Subject: [PATCH 38/46] fix: the chain and the length served are those of one
 moment

---
 misc/run_blockchain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index 7098042..03c01f3 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -79,9 +79,11 @@ def new_transaction():
 
 @app.route('/chain', methods=['GET'])
 def full_chain():
+  # The chain may grow while the answer is put together
+  chain = list(blockchain.chain)
   response = {
-      'chain': blockchain.chain,
-      'length': len(blockchain.chain),
+      'chain': chain,
+      'length': len(chain),
   }
   return jsonify(response), 200
 
-- 
2.43.0


From b970683d4835c4e679d6552fb8172c96cfa0e578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:25 +0000
Subject: [PATCH 39/46] fix: low-degree proofs sample rows that depend on the
 values, not on the column alone

---
 starks/fri.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/starks/fri.py b/starks/fri.py
index 93ea78d..9066f4e 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -3,6 +3,7 @@ import hashlib
 from random import seed
 from random import randint
 from typing import List
+from starks.merkle_tree import blake
 from starks.merkle_tree import merkelize
 from starks.merkle_tree import mk_branch
 from starks.merkle_tree import is_branch_of
@@ -243,9 +244,10 @@ class SmoothSubgroupFRI(object):
     column = [p(special_x) for p in x_polys]
     m2 = merkelize(column)
 
-    # Pseudo-randomly select y indices to sample
+    # Pseudo-randomly select y indices to sample. They depend on both
+    # commitments: otherwise rows could be chosen to fit a column
     ys = get_pseudorandom_indices(
-        m2[1], len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+        blake(m[1] + m2[1]), len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
 
     # Compute the Merkle branches for the values in the
     # polynomial and the column
@@ -301,7 +303,7 @@ class SmoothSubgroupFRI(object):
 
       # Calculate the pseudo-randomly sampled y indices
       ys = get_pseudorandom_indices(
-          root2, roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+          blake(merkle_root + root2), roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
 
       # For each y coordinate, get the x coordinates on the row,
       # the values on the row, and the value at that y from the
-- 
2.43.0


From a8317ed229ec3585840a94493abfd3241697420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:25 +0000
Subject: [PATCH 40/46] fix: STARK spot checks depend on the trace commitment,
 not on the combination alone

---
 starks/stark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index a3f1670..554a684 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -308,7 +308,7 @@ class STARK(object):
     ## Performs the spot checks
     samples = self.spot_check_security_factor
     positions = get_pseudorandom_indices(
-        l_root, self.precision, samples,
+        blake(m_root + l_root), self.precision, samples,
         exclude_multiples_of=self.extension_factor)
     ks = get_pseudorandom_ks(m_root, 4)
     for i, pos in enumerate(positions):
@@ -398,7 +398,7 @@ class STARK(object):
     # coordinates, excluding multiples of `extension_factor`
     branches = []
     positions = get_pseudorandom_indices(
-        l_mtree[1], self.precision, samples, exclude_multiples_of=self.extension_factor)
+        blake(mtree[1] + l_mtree[1]), self.precision, samples, exclude_multiples_of=self.extension_factor)
     for pos in positions:
       branches.append(mk_branch(mtree, pos))
       branches.append(mk_branch(mtree, (pos + self.extension_factor) % self.precision))
-- 
2.43.0


From bdd0a342045d0095b34f15e3884561f406e5f91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:07 +0000
Subject: [PATCH 41/46] fix: negative exponents are refused: x**-1 was x and
 x**-2 was 1

---
 starks/numbertype.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starks/numbertype.py b/starks/numbertype.py
index f056e11..6461812 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -73,6 +73,8 @@ class DomainElement(object):
   def __pow__(self, n):
     if type(n) is not int:
       raise TypeError
+    if n < 0:
+      raise ValueError("negative exponent")
 
     Q = self
     R = self if n & 1 else self.__class__(1)
@@ -92,6 +94,8 @@ class DomainElement(object):
     """requires the additional % operator (i.e. a Euclidean Domain)"""
     if type(n) is not int:
       raise TypeError
+    if n < 0:
+      raise ValueError("negative exponent")
 
     Q = self
     R = self if n & 1 else self.__class__(1)
-- 
2.43.0


From 9737146b1d065c38f74b051bfdd66067d8326064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:07 +0000
Subject: [PATCH 42/46] fix: the factory of multivariate polynomials failed
 with NameError for a step function

---
 starks/multivariate_polynomial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starks/multivariate_polynomial.py b/starks/multivariate_polynomial.py
index fa0fc44..0a2d1fa 100644
--- a/starks/multivariate_polynomial.py
+++ b/starks/multivariate_polynomial.py
@@ -9,7 +9,6 @@ from typing import Tuple
 from typing import Dict
 from typing import Callable
 from typing import Any
-#from starks.poly_utils import construct_multivariate_coefficients
 from starks.numbertype import memoize
 from starks.numbertype import Field
 from starks.numbertype import FieldElement
@@ -73,8 +72,9 @@ def multivariates_over(ring: Field, num_vars: int) -> MultiVarPoly:
       if coefficients is not None:
         return MultivariatePolynomial(coefficients) 
       elif step_fn is not None:
-        coefficients = construct_multivariate_coefficients(step_fn)
-        return MultivariatePolynomial(coefficients)
+        # Imported here since poly_utils imports this module
+        from starks.poly_utils import construct_multivariate_coefficients
+        return construct_multivariate_coefficients(ring, step_fn, num_vars)
 
     def __init__(self, c):
       if type(c) is MultivariatePolynomial:
-- 
2.43.0


From 1994c1862e6416de071a5970325409a83933557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:48 +0000
Subject: [PATCH 43/46] fix: powmod of exponents 0 and 1 did not reduce by the
 modulus

---
 starks/numbertype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/numbertype.py b/starks/numbertype.py
index 6461812..6da5396 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -109,7 +109,7 @@ class DomainElement(object):
 
       i = i << 1
 
-    return R
+    return R % modulus
 
   def to_bytes(self):
     raise NotImplementedError 
-- 
2.43.0


From b0962cac20aac33172358c9e886e9e8fc0fbe141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:49 +0000
Subject: [PATCH 44/46] fix: an extension element to the power 1/2 was None,
 and negative exponents recursed without end

---
 starks/finitefield.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index fbcb8fc..6e577d9 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -110,6 +110,10 @@ def FiniteField(p, m, polynomialModulus=None):
       return not self == other
 
     def __pow__(self, n):
+      if type(n) is not int:
+        raise TypeError
+      if n < 0:
+        raise ValueError("negative exponent")
       if n == 0: return Fq([1])
       if n == 1: return self
       if n % 2 == 0:
-- 
2.43.0


From 00dcaa87c28b068d3d2eca05ff33dc1ba8a655fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:27 +0000
Subject: [PATCH 45/46] fix: the affine spaces L and Lcmp could not be
 enumerated and had |F|^n points in place of p^n

---
 starks/apr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/apr.py b/starks/apr.py
index 6d2c2e8..5ecb648 100644
--- a/starks/apr.py
+++ b/starks/apr.py
@@ -133,13 +133,13 @@ class APR(object):
     """Constructs the affine space L"""
     basis = [g**i for i in range(1 + self.k + self.R + self.t + self.d)] + [g**(1+self.k+self.R+self.t+self.d)*(1+g)]
     shift = g**(1+self.k+self.R+self.t+self.d)
-    return AffineSpace(self.field, basis, shift)
+    return AffineSpace(self.field.base_field, basis, shift)
 
   def construct_L_cmp(self,g):
     """Constructs the affine space Lcmp"""
     basis = [g**i for i in range(1 + self.k + self.R + self.t + self.d)]
     shift = g**(1+self.k+self.R+self.t+self.d)
-    return AffineSpace(self.field, basis, shift)
+    return AffineSpace(self.field.base_field, basis, shift)
 
   def compute_rho_js(self, Z_boundaries, L):
     """Computes rho_j
-- 
2.43.0


From d3cdac84eac77d4bb806399dc5af41c4008796ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:55 +0000
Subject: [PATCH 46/46] fix: the power-of-two test recursed without end for
 zero and too deeply for large powers

---
 starks/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starks/utils.py b/starks/utils.py
index c435ab9..b5f763d 100644
--- a/starks/utils.py
+++ b/starks/utils.py
@@ -91,4 +91,6 @@ def get_pseudorandom_indices(entropy, modulus, count, exclude_multiples_of=0):
 
 
 def is_a_power_of_2(x):
-  return True if x == 1 else False if x % 2 else is_a_power_of_2(x // 2)
+  while x > 1 and x % 2 == 0:
+    x //= 2
+  return x == 1
-- 
2.43.0

