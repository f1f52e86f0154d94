#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'starks/'
M = 'misc/'

# id, title, statement, over, quantifier text, why tests cannot, [(mechanism, where)], technique, note
P = [
('P01', 'Integers modulo a prime form a field',
 'For every prime p, arithmetic on residues (addition, subtraction, negation, multiplication, division, inverse, '
 'non-negative powers, and the same mixed with plain integers on either side) gives the canonical residue that integer '
 'arithmetic modulo p gives, and leaves its operands unchanged. Division by zero, and the inverse of zero, are refused; a negative power is refused or the power of the inverse. '
 'Two elements are equal (and equal to an integer) exactly when they are congruent, and equal elements have equal hashes.',
 ['inputs', 'programs'], 'every prime modulus below 2^256, every residue, every sequence of operations',
 'The tests compute a dozen sums and products modulo 2, 7 and 23; the claim is about all residues of all primes, and about values built by chains of operations.',
 [('residue class type', S + 'modp.py IntegersModP'), ('reflected operators and powers', S + 'numbertype.py DomainElement, FieldElement, typecheck'),
  ('inverse', S + 'euclidean.py extended_euclidean_algorithm')],
 'random programs of field operations against integer arithmetic modulo p'),

('P02', 'Extension fields F_{p^m} obey the field laws',
 'Elements of a finite field built from a monic irreducible polynomial add, subtract, multiply, divide, invert and are '
 'raised to non-negative powers exactly as residues of polynomials modulo that polynomial, alone and mixed with integers, '
 'elements of the prime field and polynomials over it. Every non-zero element has an inverse, x^(p^m) = x, and the '
 'inverse of zero and division by zero are refused; a negative power is refused or the power of the inverse. Equality is equality of residues, and no operation changes its operands.',
 ['inputs', 'programs'], 'every finite field p^m and irreducible modulus of it, every element, every sequence of operations',
 'The tests check a few products in F_4, F_8 and F_125; the field laws range over all triples of elements of all fields and all moduli.',
 [('quotient ring arithmetic', S + 'finitefield.py FiniteField'), ('polynomial reduction', S + 'polynomial.py __divmod__'),
  ('inverse by Bezout', S + 'euclidean.py extended_euclidean_algorithm')],
 'random programs and laws against an independent model of F_p[x]/(f)'),

('P03', 'One type per set of parameters, whatever the history',
 'Asking for a prime field, an extension field, a polynomial ring or a multivariate ring returns the type with exactly the '
 'parameters asked for, after any history of earlier requests. The same parameters give the same type however they are '
 'written (by position, by keyword, in any order), and different parameters give different types. A reducible modulus '
 'for an extension field is refused every time it is presented.',
 ['histories', 'inputs'], 'every history of constructor calls, in every spelling of their arguments',
 'The cache is shared by the whole process; tests construct each type once in one spelling and never see a stale or confused entry.',
 [('memoised constructors', S + 'numbertype.py memoize'), ('field construction', S + 'finitefield.py FiniteField'),
  ('other constructors', S + 'modp.py, polynomial.py, multivariate_polynomial.py, rationals_modp.py')],
 'stateful generation: histories of constructor calls against a table of parameters'),

('P04', 'Irreducibility and primitivity are decided and generated correctly',
 'A monic polynomial over Z/p is reported irreducible exactly when it has no factor of smaller positive degree. A '
 'polynomial is reported primitive exactly when it is irreducible and x generates the multiplicative group of the field '
 'it defines. Randomly generated irreducible (primitive) polynomials are monic, of the requested degree, and irreducible (primitive).',
 ['inputs'], 'every prime, every monic polynomial of positive degree, every random seed of the generators',
 'Tests try a handful of polynomials over F_2 and F_3; products of equal-degree factors, squares and larger primes are where such tests fail.',
 [('irreducibility test', S + 'poly_utils.py is_irreducible'), ('primitivity test', S + 'poly_utils.py is_primitive'),
  ('generators', S + 'poly_utils.py generate_irreducible_polynomial, generate_primitive_polynomial')],
 'generated polynomials with known factorisation against trial division and the order of x'),

('P05', 'Euclidean algorithm: greatest common divisor and Bezout identity',
 'For integers, and for polynomials over a field, the greatest common divisor divides both arguments and is divisible by '
 'every common divisor (it is unique up to a unit), and the extended algorithm returns coefficients x, y with '
 'a*x + b*y equal to that divisor. This holds when either or both arguments are zero, when one divides the other, and for '
 'negative integers, and the arguments are not changed.',
 ['inputs'], 'all pairs of integers; all pairs of polynomials over prime fields, extension fields and the rationals',
 'Tests use fixed small pairs; the identity must hold for every pair including degenerate ones.',
 [('algorithms', S + 'euclidean.py gcd, extended_euclidean_algorithm')],
 'pairs with a planted common factor against math.gcd and a model polynomial gcd'),

('P06', 'Rationals modulo p compute in Z/p',
 'A fraction m/n with n not divisible by p stands for m times the inverse of n modulo p: sums, differences, products, '
 'quotients, negation, inverses and non-negative powers, also mixed with integers, stand for the corresponding results in Z/p. '
 'Two fractions are equal exactly when they stand for the same residue, and != is the negation of ==. Division by zero is refused, and a negative power is refused or the power of the inverse.',
 ['inputs', 'programs'], 'every prime, every numerator and invertible denominator, every sequence of operations',
 'No test of the stable suite exercises this type over more than a couple of values.',
 [('fraction type', S + 'rationals_modp.py RationalsModP')],
 'random programs against integer arithmetic modulo p (isomorphism oracle)'),

('P07', 'Byte encodings are fixed-length, injective and round-trip',
 'The byte encoding of a field element is its canonical residue as 32 big-endian bytes (64 bytes for a fraction); '
 'a polynomial and an extension-field element encode their coefficients in 32-byte blocks, lowest first. Decoding an encoding gives back '
 'the value, different values have different encodings, and equal values the same. Decoding any other bytes gives the '
 'value they denote reduced modulo p, and a polynomial is not decoded from a length that is not a multiple of 32.',
 ['inputs'], 'every prime below 2^256, every element and polynomial, every byte string',
 'Merkle roots and challenges depend on the encoding; tests encode one or two values and never decode random bytes.',
 [('encodings', S + 'modp.py, rationals_modp.py, polynomial.py, finitefield.py to_bytes'), ('decoding', S + 'modp.py, rationals_modp.py, polynomial.py, finitefield.py constructors')],
 'round-trip and injectivity over random values, and decoding of random bytes'),

('P08', 'Univariate polynomials form a commutative ring in canonical form',
 'Polynomials over a prime field, an extension field or the rationals add, subtract, negate, multiply and are raised to non-negative powers as '
 'the coefficient formulas say, also with integers and (over prime fields and the rationals) coefficients mixed in on either side. Results carry no trailing zero coefficients, so '
 'degree, length, iteration, leading coefficient and the zero test are those of the mathematical polynomial. Equality is coefficientwise, '
 'equal polynomials over a prime field have equal hashes, negative powers without a meaning are refused, and no operation changes its operands.',
 ['inputs', 'programs'], 'every field, every polynomial, every sequence of ring operations',
 'Tests compute fixed sums and products of short polynomials; cancellation, zero and mixed operands in long chains are untested.',
 [('polynomial type', S + 'polynomial.py polynomials_over'), ('canonical form', S + 'polynomial.py strip'),
  ('mixed operands', S + 'numbertype.py typecheck')],
 'random programs and ring laws against a coefficient-list model'),

('P09', 'Polynomial division is Euclidean',
 'Dividing a polynomial a by a non-zero polynomial b over a field gives q and r with a = q*b + r and r of smaller degree than b; / and % '
 'give those q and r, and division of a multiple is exact. Division by the zero polynomial or the scalar zero is refused. Modular powers are the remainder of the power '
 'modulo the given polynomial (a negative one is refused or that of the inverse), and the operands are unchanged.',
 ['inputs'], 'every field, every dividend and divisor, every exponent',
 'Tests divide a few fixed pairs; quotient and remainder are determined for every pair.',
 [('long division', S + 'polynomial.py __divmod__, __truediv__, __mod__'), ('modular power', S + 'numbertype.py powmod')],
 'random divisions (arbitrary, exact, by scalars, by zero) against a model division'),

('P10', 'Evaluating a polynomial is a ring homomorphism',
 'The value of a polynomial at a point (an element of its field, an integer, or an element of an extension of its field) is the sum of its coefficients times the powers of the point, '
 'so values of sums, differences and products are the sums, differences and products of values. '
 'Evaluating a polynomial over a prime field or the rationals at another polynomial gives their composition.',
 ['inputs'], 'every polynomial, every point of its field, of an extension of it, every integer, every inner polynomial',
 'Tests evaluate two fixed polynomials at two points.',
 [('evaluation', S + 'polynomial.py __call__')],
 'random evaluations and compositions against Horner evaluation in a model'),

('P11', 'Multivariate polynomials form a ring, with evaluation and substitution',
 'Polynomials in several variables over a field add, subtract, negate, multiply and are raised to non-negative powers as their monomials say, also with integers and '
 'field elements mixed in on either side; they store no zero coefficient, integer coefficients are read in the field, and total degree, iteration, indexing, the zero test and equality agree with that. '
 'Evaluating at a point, or substituting polynomials for the variables, is a ring homomorphism, and the wrong number of values is refused. Negative powers without a meaning are refused. '
 'No operation changes its operands.',
 ['inputs', 'programs'], 'every field, every number of variables, every polynomial, every sequence of operations, every point',
 'Constraint systems of proofs are such polynomials; tests check fixed ones over two fields.',
 [('type', S + 'multivariate_polynomial.py multivariates_over')],
 'random programs against a monomial-dictionary model, with evaluation as a second oracle'),

('P12', 'Multivariate division leaves no reducible term',
 'Dividing a multivariate polynomial a by a non-zero b over a field (any prime or extension field) gives the quotient of lexicographic division: no term of '
 'a - q*b is divisible by the leading (lexicographically largest) term of b, and that difference is the remainder reported. A multiple of b is divided exactly, an integer divisor divides every coefficient in the field, and '
 'division by zero raises ZeroDivisionError.',
 ['inputs'], 'every field, every number of variables, every dividend and divisor',
 'Tests divide a few two-variable polynomials over one field.',
 [('division', S + 'multivariate_polynomial.py __truediv__, div_remainder')],
 'random and exact divisions against a model of lexicographic division'),

('P13', 'Conversions between univariate and multivariate polynomials keep the polynomial',
 'Embedding a univariate polynomial as one variable of a ring in several gives the same polynomial in that variable, with the same values. Viewing a '
 'multivariate polynomial as univariate in one variable collects exactly its coefficients in the other variables.',
 ['inputs'], 'every field, every polynomial, every number of variables and choice of variable',
 'Tests convert two small polynomials over one field.',
 [('embedding', S + 'poly_utils.py make_multivar'), ('projection', S + 'poly_utils.py project_to_univariate')],
 'generated polynomials against a monomial-dictionary model'),

('P14', 'Interpolation finds the unique polynomial through the points',
 'Given values at distinct points of a field, interpolation returns the one polynomial of degree below the number of points that takes them: values of a '
 'polynomial of smaller degree give that polynomial back. The two-point, four-point and batched four-point variants agree with the general one for every set of distinct points.',
 ['inputs'], 'every field, every set of distinct points, every list of values (zero values included)',
 'Tests interpolate a few points modulo 31 and similar; batching must be right for every position and every mixture of sets.',
 [('general', S + 'poly_utils.py lagrange_interp, zpoly'), ('fixed sizes', S + 'poly_utils.py lagrange_interp_2, lagrange_interp_4, multi_interp_4')],
 'random point sets against a model interpolation, and recovery of known polynomials'),

('P15', 'Vanishing polynomials and affine spaces are exactly the sets they denote',
 'The polynomial built from a list of roots is monic and vanishes at exactly those roots with their multiplicities. An affine space enumerates exactly the combinations of its basis plus its '
 'shift, once per choice of coefficients and in the same order every time; its size, its vanishing polynomial, values on it, and its subspaces agree with that enumeration.',
 ['inputs'], 'every list of roots of every field; every basis and shift in an extension field',
 'Tests check one space of four elements over F_2.',
 [('roots', S + 'poly_utils.py zpoly'), ('space', S + 'reedsolomon.py AffineSpace'),
  ('vanishing polynomial', S + 'poly_utils.py construct_affine_vanishing_polynomial'), ('subspaces', S + 'fri.py select_subspace, eval_on_subspace')],
 'random root lists and bases against direct enumeration'),

('P16', 'Batch inversion inverts every entry',
 'Inverting a list of field elements at once gives, at every position, the inverse of the entry there, and zero where the entry is zero. '
 'The list is not changed.',
 ['inputs'], 'every field, every list, with zeros at any positions (the empty list included)',
 'Tests invert one list; an error confined to the entries around a zero shows only on lists with zeros at certain places.',
 [('batch inversion', S + 'poly_utils.py multi_inv')],
 'random lists with zeros against elementwise inversion'),

('P17', 'Arithmetisation agrees with the function at every point',
 'The multivariate polynomial built from a function on F_q^n takes the value of the function at every point of F_q^n, and the indicator polynomial of a point is one there and zero at '
 'every other point. The same polynomial results when the ring is asked for it with the function, and no exponent reaches q.',
 ['inputs'], 'every small prime or extension field, every number of variables, every function given by its table',
 'Tests arithmetise two functions over F_2 and F_3; extension fields and whole tables are not sampled.',
 [('indicator', S + 'poly_utils.py construct_multivariate_dirac_delta'), ('sum over the points', S + 'poly_utils.py construct_multivariate_coefficients'),
  ('enumeration of the field', S + 'modp.py iterate_modp, finitefield.py')],
 'random function tables, polynomial compared at every point of F_q^n'),

('P18', 'Gaussian elimination solves non-singular systems',
 'For every non-singular square linear system over a finite field the solver returns the solution, whatever row exchanges it needs.',
 ['inputs'], 'every finite field, every non-singular matrix (zeros on the diagonal included), every right-hand side',
 'The solver is used inside other constructions only; no test solves a system that needs pivoting.',
 [('elimination', S + 'poly_utils.py gauss')],
 'generated non-singular systems with a known solution'),

('P19', 'The number-theoretic transform evaluates, and its inverse interpolates',
 'On the powers of a root of unity of order n (a prime field or extension field, any n) the transform of a polynomial of degree below n is the list of its values at those powers in order, '
 'and the inverse transform of any n values is the polynomial of degree below n taking them. The two are inverse to each other.',
 ['inputs'], 'every field with a root of unity of order n, every n (powers of two or not), every polynomial of degree below n and value list',
 'Tests transform fixed polynomials of a few sizes over one prime.',
 [('transform', S + 'fft.py NonBinaryFFT, fft_1d, _fft, _simple_ft')],
 'random domains and polynomials against pointwise evaluation, and round trips'),

('P20', 'Multiplication by FFT is multiplication',
 'Multiplying two coefficient lists through the transform on a domain large enough for the product gives the coefficients of the product polynomial, padded with zeros to the size of the domain.',
 ['inputs'], 'every field with a suitable root of unity, every domain size, every pair of lists whose product fits',
 'No stable test multiplies this way with lists whose scaling or padding matters.',
 [('product', S + 'fft.py mul_polys, fft_1d')],
 'random products against schoolbook multiplication'),

('P21', 'Taylor expansion at x^2 + x preserves the polynomial',
 'The expansion of a binary polynomial of degree below n (a power of two) splits it recursively into pairs; recombining the parts with the corresponding powers of x^2 + x gives the polynomial back.',
 ['inputs'], 'every binary field, every power of two n up to the degree of the field, every polynomial of degree below n',
 'Tests expand one polynomial.',
 [('expansion', S + 'fft.py Additive_FFT.Taylor_Expansion')],
 'random expansions recombined independently'),

('P22', 'Every leaf of a Merkle tree opens to itself',
 'For every list of leaves whose length is a power of two of at least four, the opening of each position verifies against the root and returns exactly the bytes (or integer) of that leaf. The root depends only on the list, '
 'elements, integers and 32-byte strings of the same values give the same root, and building or opening the tree changes neither the list nor the tree.',
 ['inputs'], 'every power-of-two size of at least 4, every kind of leaf, every position',
 'Tests open one position of one tree; positions go through a permutation of quarters, so each position is a case of its own.',
 [('tree', S + 'merkle_tree.py merkelize, permute4'), ('openings', S + 'merkle_tree.py mk_branch, verify_branch, get_index_in_permuted')],
 'random leaf lists, every position opened'),

('P23', 'Merkle openings are binding',
 'No opening accepted at a position of a committed list returns anything but the leaf committed there: an opening with altered, exchanged or foreign hashes of the right number and length is refused (or returns the true leaf). Two different lists have different roots, and an opening taken from one is not accepted '
 'against the root of the other where they differ.',
 ['inputs', 'fault_sequences'], 'every list of equally long leaves, every position, every alteration of the nodes of an opening that keeps their number and length',
 'Tests flip nothing; soundness is a statement about every wrong proof.',
 [('verification', S + 'merkle_tree.py verify_branch'), ('tree', S + 'merkle_tree.py merkelize')],
 'fault injection into openings and leaf lists against the committed list'),

('P24', 'Packed Merkle leaves unpack to the committed evaluations',
 'Committing several evaluation tables of several dimensions puts into leaf i the i-th values of all tables, in order, as 32 bytes each: opening and unpacking leaf i gives exactly those values back. Changing any one value changes the root.',
 ['inputs'], 'every number of tables and dimensions, every table of field elements, every position',
 'Tests pack one table of one dimension.',
 [('packing', S + 'merkle_tree.py merkelize_polynomial_evaluations'), ('unpacking', S + 'merkle_tree.py unpack_merkle_leaf')],
 'random tables, every leaf opened and unpacked'),

('P25', 'Proof compression is lossless',
 'Compressing a low-degree proof or a list of Merkle branches and decompressing it gives back the identical structure, for any nesting, repetition and number of byte strings (up to 65535 distinct ones, none two bytes long or equal to a marker). Every distinct byte string is stored once, neither direction changes its argument, and the '
 'reported size is the number of bytes stored plus one per 32-byte string.',
 ['inputs'], 'every proof shape, with arbitrary sharing of byte strings and more than 255 objects',
 'Tests compress tiny proofs with few repetitions; references need more than one byte only in large proofs.',
 [('low-degree proofs', S + 'compression.py compress_fri, decompress_fri'), ('branches', S + 'compression.py compress_branches, decompress_branches'), ('size', S + 'compression.py bin_length')],
 'random proof structures with controlled sharing, round trip and storage oracle'),

('P26', 'Pseudorandom indices are in range, admissible, deterministic and cover',
 'A request for indices below a modulus, optionally excluding multiples of a number, returns exactly as many as asked, each in range and none an excluded multiple, and the same for the same entropy. Every admissible index occurs with about the same frequency, '
 'different entropy gives different indices, and a range of 2^24 or more is refused.',
 ['inputs'], 'every entropy, modulus below 2^24 and at least 2, exclusion (none, or at least 2) and count',
 'Spot checks of proofs rest on these; tests draw indices once.',
 [('index derivation', S + 'utils.py get_pseudorandom_indices')],
 'random requests with range, determinism and coverage oracles'),

('P27', 'Traces, witnesses and transition constraints describe the computation',
 'The trace of a computation of polynomial steps starts at the input and applies the steps simultaneously to the previous state, the witness is its transpose, the output its last state, and the degree the largest of the steps. The transition constraints vanish on a pair of states exactly when the second follows the first, '
 'and the boundary constraints fix the input. The circuit is true exactly when all constraints vanish on all consecutive states of the trace, and its degree is the largest of the constraints. A number of steps that is not 2^t - 1 is refused. The AIR keeps the field, the number of steps T and the width w it was made with.',
 ['inputs', 'programs'], 'every field, every width, every system of step polynomials, every input, every number of steps',
 'Tests run Fibonacci-like systems of width 2 and one width-1 system.',
 [('trace', S + 'air.py get_computational_trace'), ('constraints', S + 'air.py AIR')],
 'random step systems against a model interpreter'),

('P28', 'Every honest low-degree proof is accepted',
 'For every polynomial of degree below the bound (the zero polynomial included), every smooth domain, every exclusion of multiples and every number of spot checks, the low-degree proof is accepted by the verifier with the same parameters, before and after compression. It has one component per folding round, each with the number of '
 'spot checks asked for, plus the last component, and proving is deterministic.',
 ['inputs', 'configurations'], 'every field with the root of unity, domain size, admissible bound (divisible by four while above 16), exclusion, spot-check count and polynomial',
 'Tests prove a few polynomials with default parameters.',
 [('prover', S + 'fri.py SmoothSubgroupFRI.generate_proximity_proof'), ('verifier', S + 'fri.py SmoothSubgroupFRI.verify_proximity_proof')],
 'random parameters and polynomials, honest proofs must verify'),

('P29', 'Low-degree proofs of false claims are rejected',
 'A proof produced for a polynomial whose degree reaches the bound or more is not accepted. Neither is an honest proof after any change to it: another byte anywhere in it, another root, a smaller bound, '
 'a dropped component, folding rounds left out, exchanged openings. A prover that folds into an unrelated low-degree word, or replaces the last component, is caught, and so is one who commits to values that can be opened '
 'in two ways (a deeper opening, another boundary between leaf and sibling) or gives inner nodes of the tree for the values of the last component, or who makes one commitment to fit the rows that another one leads to.',
 ['inputs', 'fault_sequences'], 'every degree at or above the bound, every alteration of an honest proof, with forty or the asked number of spot checks, fields above 2^64 elements for false claims',
 'Tests have one negative case; every check of the verifier matters only against the one forgery it stops.',
 [('verifier', S + 'fri.py SmoothSubgroupFRI.verify_proximity_proof'), ('direct check of the last component', S + 'fri.py verify_proximity_proof, last loop')],
 'adversarial generation: high-degree words, tampered and dishonestly folded proofs'),

('P30', 'Every honest STARK proof is accepted',
 'For every computation of polynomial steps (any width, degree, number of steps a power of two, extension factor, input and number of spot checks) the proof of its trace is accepted, also by a verifier that has only the input and the output, and also after compression. Proving changes nothing it is given, gives the same proof again, and '
 'opens as many positions as asked.',
 ['inputs', 'programs', 'configurations'], 'every step system with steps*degree divisible by four while above 16, prime field with the roots of unity, extension factor at least the degree, spot-check count',
 'Tests prove fixed computations (MiMC, Fibonacci-like, quadratic) with default parameters.',
 [('prover', S + 'stark.py STARK.mk_proof'), ('verifier', S + 'stark.py STARK.verify_proof, verify_proof_at_position')],
 'random step systems and parameters, honest proofs must verify'),

('P31', 'STARK proofs of false statements are rejected',
 'A proof is not accepted for another input, another output or other step polynomials than those it was made for, nor after any change to its roots, openings or low-degree part. '
 'A trace with a wrong cell gives no accepted proof. Proofs forged component by component for a false output (inconsistent quotients, unrelated combination, committed garbage, tampered boundary, openings of another depth or boundary, inner nodes in the last component, a trace made to fit the positions that a combination chosen first would lead to) are rejected.',
 ['inputs', 'fault_sequences'], 'every statement, every alteration of proof or statement, every wrong trace, and a family of hand-built forgeries with an extension factor large enough for the degree',
 'Tests contain no forged proof; a verifier that skips one of its checks passes all of them.',
 [('verifier', S + 'stark.py STARK.verify_proof, verify_proof_at_position'), ('commitments', S + 'merkle_tree.py'), ('weights', S + 'stark.py compute_pseudorandom_linear_combination')],
 'adversarial generation: tampering, wrong traces and twelve kinds of forged proofs'),

('P32', 'The polynomials of a proof are those the protocol defines',
 'Trace polynomials take the trace values on the step domain; constraint polynomials are the difference between the next value and the step applied to the current values everywhere; quotients times the vanishing polynomial of all but the last step give the constraint, and a wrong trace has none; boundary polynomials complete '
 'the line through input and output. The random combination is linear in all polynomials with one weight each, weights being distinct, in range and determined by the commitment, as many as requested.',
 ['inputs'], 'every step system, trace, field and width; every commitment and number of weights',
 'Tests compare a few lengths and types of these intermediate polynomials.',
 [('trace, constraint, quotient, boundary', S + 'stark.py construct_*_polynomials'), ('weights', S + 'stark.py get_pseudorandom_ks, compute_pseudorandom_linear_combination')],
 'random instances against polynomial identities evaluated in a model'),

('P33', 'Affine commitment: one round commits to the coefficients of the word',
 'On an affine space of a binary field, one commit round returns the coefficients of the polynomial interpolating the word. Verifier challenges are elements of the field, functions of the transcript, and differ between transcripts.',
 ['inputs'], 'every binary field, every independent basis, every word given by a polynomial of degree below the size of the space',
 'The test commits one word in one space.',
 [('commit', S + 'fri.py AffineSubspaceFRI.commit'), ('challenges', S + 'fri.py select_random')],
 'random words and spaces against the interpolated polynomial'),

('P34', 'The affine placement has the boundary polynomials of the computation',
 'In the affine placement (APR) of a computation over F_{p^m}, of width at most m, with any boundary constraints (i, j, a): the boundary polynomial Z_j of register j is the product of x - (g^i mod zeta) over the constraints of register j alone, and, when these points are '
 'distinct, E_j is the polynomial of least degree that takes each constraint\'s value at its point. zeta is a monic irreducible polynomial of degree width, the neighbours of each register are x, g x and g x + zeta, the degree exponent d satisfies deg C <= 2^d <= 2 deg C, and the rates are '
 '(2^(k+t) - deg Z_j)/|L| for each register and (1 + 2^(k+t+d))/|Lcmp|, where t is the logarithm of the number of steps rounded down. With n = 1 + k + R + t + d, Lcmp is the affine space over F_p that g^0 .. g^(n-1) span, shifted by g^n, with p^n points; L has the element g^n (1 + g) more in its basis; '
 'the points of both can be enumerated.',
 ['inputs', 'configurations'], 'every field F_{p^m}, width, step system, set of boundary constraints and expansion parameter',
 'Tests only construct two instances and look at nothing in them.',
 [('boundary polynomials', S + 'apr.py APR.construct_Z_boundaries, construct_Eps_boundaries'), ('neighbours and rates', S + 'apr.py APR.construct_neighbors, compute_rho_js, compute_rho_cmp')],
 'random computations and boundary constraints against products and interpolation in the model'),

('P35', 'The primality test never rejects a prime and finds composites',
 'Every prime is reported prime at any accuracy, every composite (Carmichael numbers, strong pseudoprimes, squares, products of two primes) is reported composite at the default accuracy, as are numbers below two. The decomposition into a power of two and an odd part is exact, and a base is called a witness exactly when the strong '
 'pseudoprime condition fails for it.',
 ['inputs'], 'every integer; every base of an odd modulus',
 'No stable test covers it, and a weakened test still answers almost all random inputs correctly.',
 [('Miller-Rabin', M + 'primality.py probablyPrime, isWitness, decompose')],
 'structured numbers (Carmichael, p(2p-1), squares) against a deterministic test'),

('P36', 'Blum Blum Shub squares modulo a product of two Blum primes',
 'Generated primes are primes congruent to 3 modulo 4 of at most the requested bits, the modulus is the product of two of them, and the generator maps every integer to its square modulo one such modulus, different generators having different moduli. The parity predicate is the parity of the number of set bits.',
 ['inputs'], 'every bit length from three, every integer input',
 'Tests are not in the stable suite; the modulus is hidden in a closure.',
 [('primes', M + 'blum_blum_shub.py good_prime, find_good_prime, make_modulus'), ('generator', M + 'blum_blum_shub.py blum_blum_shub, parity')],
 'recovery of the hidden modulus from outputs, factoring and exhaustive small cases'),

('P37', 'Commitments open to what was committed, and to nothing else',
 'A bit or integer commitment verifies against its own opening and decodes to the committed value. An opening with a different secret, exchanged secrets, secrets left out or added, or a changed commitment is refused, and so are commitments to anything but bits; an integer that does not fit the width is not committed to. Fresh commitments use fresh secrets that are squares, one per bit, and the masked bit is not constant.',
 ['inputs', 'fault_sequences'], 'every bit, every integer of every width, every secret length, every altered opening',
 'The existing tests commit one value and are not in the stable suite.',
 [('schemes', M + 'commitment.py BBSBitCommitmentScheme, BBSIntCommitmentScheme'), ('verifiers', M + 'commitment.py BBSBitCommitmentVerifier, BBSIntCommitmentVerifier')],
 'random commitments with harness-chosen moduli, honest and altered openings'),

('P38', 'Graph-isomorphism proofs are complete, sound and simulatable',
 'With a true isomorphism every round, challenge and simulated transcript is accepted. An answer is accepted exactly when it maps the blinded copy to the chosen graph, different vertices to different ones, so a false isomorphism fails one of the challenges. The permutation helpers are bijections with their inverses, blindings take every permutation, and both challenges occur.',
 ['inputs', 'schedules'], 'every graph in which each vertex has an edge, every permutation, every challenge',
 'Tests run fixed graphs and are not in the stable suite.',
 [('protocol', M + 'zero_knowledge.py ZKProver, ZKVerifier, simulate_protocol'), ('permutations', M + 'zero_knowledge.py make_permutation_function, make_inverse_permutation_function')],
 'random graphs and permutations; acceptance compared with the definition'),

('P39', 'Three-colouring proofs are complete, sound and blinded',
 'With a proper 3-colouring every challenge edge is opened to two different colours consistently with one permutation of the colours, and accepted; opening a pair that is not an edge is refused. An answer showing equal colours, a colour outside the three, or secrets that do not open the whole commitment is rejected. Challenges reach every edge and openings show every '
 'pair of different colours.',
 ['inputs', 'fault_sequences', 'schedules'], 'every graph with a proper 3-colouring using at least two colours, every challenge edge in either direction, every dishonest answer of the listed kinds',
 'Tests run fixed graphs and are not in the stable suite.',
 [('prover', M + 'zkp_3_coloring.py ZK3ColProver'), ('verifier', M + 'zkp_3_coloring.py ZK3ColVerifier')],
 'random coloured graphs, honest and six kinds of dishonest provers'),

('P40', 'A chain is valid exactly when its blocks are linked and worked for',
 'Chains grown by mining are valid, contain exactly the submitted transactions in order, and stay valid after travelling as JSON and with reordered keys; their prefixes are valid too. A chain is invalid when any block but the last is edited, when blocks are removed, exchanged, repeated or spliced, when a link is wrong, or when a proof lacks four leading zero digits of the hash of previous proof, proof and previous block hash.',
 ['histories', 'inputs', 'fault_sequences'], 'every history of transactions and mining, every single alteration of a chain',
 'The tests mine one block and are not in the stable suite.',
 [('validity', M + 'blockchain.py valid_chain, hash'), ('work', M + 'blockchain.py proof_of_work, valid_proof'), ('growth', M + 'blockchain.py new_block, new_transaction')],
 'random mining histories and tampering against an independent definition of validity'),

('P41', 'Consensus adopts the longest valid chain and nothing else',
 'Resolving conflicts asks every registered node and replaces the own chain exactly when some node serves a valid chain that is really longer, with a longest such; invalid or malformed chains, nodes that cannot be reached or answer nonsense, and false claims about the length change nothing and stop nobody. Pending transactions survive, the answer says whether the chain was replaced, and node addresses '
 '(URL with scheme, or IPv4 address with or without port) are reduced to host and port.',
 ['inputs', 'fault_sequences', 'configurations'], 'every set of nodes serving valid, invalid, shorter, longer, missing or misdescribed chains',
 'No test exercises consensus.',
 [('consensus', M + 'blockchain.py resolve_conflicts'), ('addresses', M + 'blockchain.py register_node')],
 'random networks of simulated peers against a model of the longest valid chain'),

('P42', 'The HTTP node records every accepted transaction exactly once',
 'Over any sequence of requests, the served chain holds exactly the transactions that were accepted before each block was mined, in order, followed by one reward for the node, or the chain adopted from a peer, and other nodes find it valid. Incomplete or malformed requests (a transaction that is no object with sender, recipient and amount; nodes that are no list of addresses) are refused with 400 and change nothing; the announced block index, the chain length and the list of nodes are right.',
 ['histories'], 'every sequence of submitting, mining, registering, resolving and reading requests',
 'The node has no test; its promises are about histories of requests.',
 [('routes', M + 'run_blockchain.py'), ('state', M + 'blockchain.py')],
 'stateful testing of request histories against a model node'),

('P43', 'Floating-point numbers over binary fields follow their definition',
 'Sum, difference, quotient, product and power of the floating-point type are those its definition gives from the significand, exponent, zero flag and sign of the operands (products up to the exponent correction by significand degrees): zero is neutral for addition and absorbing for multiplication, signs multiply, subtraction is addition of the negated number, and a power is repeated multiplication. '
 'The fixed-point conversion is significand times x to the exponent, division by zero is refused, and operands are not changed.',
 ['inputs'], 'every binary field, every pair of operands',
 'Tests add and multiply a handful of numbers in one field.',
 [('arithmetic', S + 'floatingpoint.py FloatingPoint')],
 'random operands against a model of the definition'),

('P44', 'Binary words compare, add and exponentiate as integers',
 'Read as binary words, elements of a field of 2^m elements compare as the integers they denote (less or equal), add as integers whenever the sum fits in m bits, and x raised to the power of the word is the element the integer exponent gives. Operands are not changed.',
 ['inputs'], 'every binary field, every pair of words',
 'Tests compare and add one pair.',
 [('word operations', S + 'finitefield.py LT, Regular_Binary_Addition, two_pow')],
 'random word pairs against integer arithmetic'),

('P45', 'MiMC, power cycles and the other helpers compute what they name',
 'The MiMC function iterates x^3 plus the round constants in turn (used cyclically) modulo 2^256 - 351*2^32 + 1, steps - 1 times, and does not change the constants. The power cycle of an element other than one lists its powers from one until it returns to one, each once. The power-of-two test and the coordinate polynomials are exact.',
 ['inputs'], 'every input, step count and constant list; every non-zero field element other than one; every integer (zero and negative ones included); every field and width',
 'Tests check a few values; the constant schedule wraps only when there are more steps than constants.',
 [('helpers', S + 'utils.py mimc, get_power_cycle, is_a_power_of_2, generate_Xi_s')],
 'random inputs against direct definitions'),

('P46', 'What is sent to others does not depend on the process that computes it',
 'Merkle roots, openings, low-degree and STARK proofs and their compressed forms, pseudorandom indices, combination weights, affine-FRI challenges, byte encodings, block hashes and proofs of work are functions of their arguments: two processes with different hash seeds, '
 'different earlier work and a different order of it compute the same bytes, and each accepts what the other made.',
 ['histories', 'schedules'], 'every job, every history of earlier jobs in the process, every hash seed',
 'Prover and verifier share one process in every test, so anything that depends on hash seeds, caches or global state agrees with itself.',
 [('Fiat-Shamir', S + 'utils.py get_pseudorandom_indices; ' + S + 'poly_utils.py; ' + S + 'stark.py get_pseudorandom_ks'), ('proofs', S + 'fri.py, stark.py, merkle_tree.py, compression.py'),
  ('blocks', M + 'blockchain.py')],
 'differential between two processes over random jobs'),

('P47', 'Requests that overlap take effect one after the other',
 'When requests to the node overlap (mining, submitting, resolving conflicts, registering, reading the chain, in threads of one server), every answer and the state afterwards are those of some order of the same requests, each taking effect once: no transaction is lost or mined twice, every chain served is valid and as long as announced, '
 'and no request waits for another for ever, even when two nodes resolve conflicts with each other at once.',
 ['schedules', 'histories'], 'every group of overlapping requests, every line of the node at which one of them may be overtaken by the others',
 'The node has no test, and a race needs a request that arrives within a window of another.',
 [('routes', M + 'run_blockchain.py'), ('state', M + 'blockchain.py')],
 'generated schedules (a request stopped at a chosen line while others arrive) judged by linearizability against a model node'),

('P48', 'Values of unrelated structures do not mix',
 'Adding, subtracting, multiplying, dividing or reducing (+ - * / // % divmod and their in-place forms) never yields a value for operands without a common structure: elements of extension fields of different characteristic or modulus, '
 'fractions modulo different primes, polynomials over unrelated fields, multivariate polynomials in different numbers of variables or over fields of another kind, a univariate and a multivariate polynomial, or any of these (residues too) with something that is no number (None, '
 'a text that spells no number, a complex number, NaN, infinity, a function). Such operands are refused, are never equal, and stay as they were. A power with an exponent that is no integer is refused. Not included: residues of different primes and polynomials over them, which are read through their integers.',
 ['inputs'], 'every pair of structures with nothing in common, every value of each, every operator in both orders',
 'Every test combines values of one structure; a conversion that is too generous gives a plausible wrong value instead of an error.',
 [('operand conversion', S + 'numbertype.py typecheck'), ('constructors', S + 'finitefield.py, polynomial.py, multivariate_polynomial.py, rationals_modp.py, modp.py')],
 'random pairs of structures and values, every operator in both orders must refuse'),
]

NOTES = {
 'P29': ' Soundness is probabilistic: cases are chosen so that a correct verifier errs with probability below 2^-16 per case of the weakest kind, with fixed pseudorandom transcripts per seed.',
 'P31': ' Forgeries are the listed strategies, not all provers.',
 'P33': ' The query phase is a recorded finding (KNOWN_FINDINGS.txt).',
 'P43': ' Equality and the product exponent are recorded findings (KNOWN_FINDINGS.txt).',
 'P15': ' The Moore-matrix construction is a recorded finding (KNOWN_FINDINGS.txt).',
 'P21': ' The additive FFT itself is a recorded finding (KNOWN_FINDINGS.txt).',
}


def main():
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for id_, title, statement, over, text, why, mech, tech in P:
      files = sorted({w for _, ws in mech for w in _files(ws)})
      fh.write(json.dumps(dict(
          id=id_, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
          anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))) + '\n')
      assert len(title) <= 80, title
  checks = [dict(property=id_, quick_cmd='python3 run.py ' + id_, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + id_,
                 evidence_file='evidence/%s.json' % id_,
                 technique='property-based testing (Hypothesis, shrinking): ' + tech, level='exploration',
                 level_note='No counterexample in the generated cases of the run (counts in the evidence file); '
                 'the generators and the independent models in pbt/ are trusted.' + NOTES.get(id_, ''))
            for id_, title, statement, over, text, why, mech, tech in P]
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
                   notes='No hooks: the checks import /repo as it is. DESIGN.md describes generators, oracles and bounds; '
                   'KNOWN_FINDINGS.txt lists recorded and repaired defects.'), fh, indent=1)
    fh.write('\n')


def _files(ws):
  pre, out = '', []
  for part in ws.replace(',', ' ').split():
    if part.endswith('.py'):
      if '/' in part:
        pre = part.rsplit('/', 1)[0] + '/'
      out.append(part if '/' in part else pre + part)
  return out or []


main()
