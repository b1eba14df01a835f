# property -> (technique, level note)
NOTES = {
 'U01': ('Hypothesis expression graphs against forward differentiation in 60-digit arithmetic',
  'Random search over expression graphs and single operators; trusts Python float arithmetic (nominal values) and mpmath (derivatives); derivatives to 1e-10 of the sum over paths. No claim outside 1e-140..1e140.'),
 'U02': ('generated arguments over each function\'s domain against the math module (values) and mpmath (derivatives)',
  'Random search, all umath functions; values bit-identical, derivatives to 1e-12 relative (1e-6 of scale for gamma and lgamma, whose derivatives are numerical; absolute 1e-15 for tanh). Trusts the math module and mpmath.'),
 'U03': ('generated sums of powers and functions at their singular points, with sequences of standard deviations, against a table of where derivatives exist',
  'Random search over a fixed grid of boundary points (all combinations of bases and exponents), embedded in sums with shared variables; standard deviations null or not, changed afterwards; a second group looks at derivatives near and beyond the range of floats.'),
 'U04': ('generated plain and uncertain arguments, in and out of the domains, against the outcome (value, type or exception type) of the math module and of float operators',
  'Random search with all functions and operators; no claim where a numerical derivative or a power of 2 overflows. Messages of exceptions are not compared.'),
 'U05': ('generated linear programs against exact rational linear forms; regrouped sums; algebraic identities as metamorphic relations',
  'Derivatives of linear programs are compared exactly (dyadic coefficients that fit in 53 bits); nonlinear identities to 1e-11 of the scale.'),
 'U06': ('model-based histories: creations, operations, readings, copies and assignments of standard deviations, compared with a model after each assignment',
  'Histories of 3 to 20 steps on up to about 25 numbers; single thread.'),
 'U07': ('generated calculations put in containers, through chains of copies, deep copies and pickles of any protocol, against the originals',
  'Values, tags, attributes, derivatives, covariances between clones and with the originals, and independence of later assignments.'),
 'U08': ('all pairs of results of generated linear programs, and plain numbers equal or next to nominal values, against exact equality of linear forms',
  'Finite nominal values; equality of functions decided in exact rational arithmetic.'),
 'U09': ('generated sets of numbers against rational arithmetic on independently derived coefficients',
  'Up to 6 numbers of 6 variables, variances within the range of floats; 1e-12 of the sum of the absolute values of the terms.'),
 'U10': ('generated semi-definite matrices of any rank and scale, with linear calculations as further checks',
  'Up to 6 values; covariances to 1e-11 of the geometric mean of the variances.'),
 'U11': ('generated linear programs and numbers against exact coefficients and the definitions',
  'Random search; helpers are also applied to other kinds of objects.'),
 'U12': ('functions of all kinds of signatures called in generated forms, with recognisable derivative functions, and analytical derivatives as oracle for numerical ones',
  'A fixed set of 19 signatures; numerical derivatives to 1e-6 of the scale of the function.'),
 'U13': ('generated numbers and format specifications against a reference formatter written in decimal arithmetic',
  'Random search over the whole float range (normal numbers, ties, neighbours of powers of ten, parts of any ratio), special values; trusts the decimal module. Shorthand digits beyond 15 to 4 ulps; subnormal numbers and those next to the largest float are known findings or outside.'),
 'U14': ('generated format specifications (whole grammar) against a reference layout; mutated specifications must give ValueError',
  'Random search over the specification grammar crossed with number classes; the expected text is built independently from the digits. Sign and zero padding of NaN and infinity in LaTeX, and % with P and L, are not claimed.'),
 'U15': ('round trip of generated numbers through every readable style, against decimal arithmetic',
  'Random search; half a unit of the last displayed digit, repr() bit-exact.'),
 'U16': ('strings generated from the documented grammar with their exact decimal value, and mutated or random strings that must be rejected or agree with an independent recogniser',
  'Random search, grammar-based and mutation-based; trusts the decimal module and float().'),
 'U17': ('generated arguments of all numeric types in every call form, and histories of valid and invalid assignments, against a record of the number',
  'Random search; histories of 1 to 6 assignments.'),
 'U18': ('differential: each array function against the scalar function on every element, over generated shapes, containers, correlated elements and elements out of the domain',
  'All functions except modf; arrays of up to 12 elements; the scalar functions are decided by U02 to U04. Integer results (ceil, floor, trunc) of empty arrays and beyond 2**53 excluded (known finding).'),
 'U19': ('differential: array operations against scalar operations on generated shapes and kinds of operands; exact linear forms for sums and matrix products; text-file round trip',
  'Up to 12 elements per operand; element-wise results bit-identical, sums and products of matrices exact by construction.'),
 'U20': ('generated matrices with correlated entries against exact (pseudo-)inverses and derivatives in 60-digit arithmetic; identities',
  'Matrices up to 4x4 (at times up to 10x10) with condition number below 1e5; derivatives to 1e-12 times the condition number; derivatives of pseudo-inverses by the product rule, independently of the Golub-Pereyra formula used by the code.'),
 'U21': ('generated programs rendered both in the old and in the current form: the conversion is compared as a syntax tree, as text, and by running both programs',
  'Programs of 1 to 7 statements; old forms written directly or after one module name. Double-dotted names and trailing commas are left unchanged by design and not generated.'),
 'U22': ('generated long chains, trees and sums with evaluations at generated points, against exact coefficients or forward differentiation',
  'Up to 40000 operations (1500 when intermediate results are used several times). Linear time: processor time of 1000 and 16000 terms, with a wide margin and repeated measurements.'),
 'U23': ('generated histories interrupted by an exception at generated points (line or byte code instruction), and generated interleavings of threads run by a deterministic scheduler, against the model of U06',
  'Faults and schedules are injected with sys.settrace at lines or byte code instructions of the library only; no assignment of standard deviations during concurrent readings; derivatives given by Python generators are not covered.'),
 'U24': ('differential: generated calculations run here and in processes without NumPy, with -O or -OO, other hash seeds and locales; numbers exchanged by pickling both ways',
  'Four environments, one version of Python; scalar operations only; the results here are decided by the other properties.'),
 'U25': ('generated functions of arrays with additional arguments, on generated arrays of correlated numbers, against their exact differentials; inverses against the analytical ones',
  'Smooth functions of values of order 1, arrays of up to 27 elements; numerical derivatives to 2e-4 of the largest value or derivative. Scalar results of other types than NumPy ones and empty arrays are not covered.'),
 'U26': ('generated calculations repeated hundreds of times on other values, on new numbers and on kept ones; the number of blocks of the Python allocator must not grow',
  'Up to 10 kinds of calculations per program among 47; 200 repetitions, and thousands more in case of a growth, so that caches of a limited size are accepted.'),
}
