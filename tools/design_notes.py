# property -> (oracle, why the tests of the repository cannot settle it)
NOTES = {
 'U01': ('Nominal values: the same graph evaluated on floats, bit for bit. Derivatives: forward differentiation of the graph in 60-digit arithmetic. Standard deviation: quadratic sum over the *variables*, with the reference derivatives. The case is evaluated in generated orders (results read first-to-last, last-first or not at all before the final one).',
  'The formula of each operator holds or not at every point (signs, null values, placement of constants), and errors of the lazy expansion only show for some graphs (shared subexpressions, cached intermediate results).'),
 'U02': ('The math module for values (identical floats and types), mpmath closed forms for derivatives, generated over the whole domain of each function, including its ends.',
  'Tests compare analytical with numerical derivatives at a few moderate points; a formula which loses accuracy or overflows far away passes them.'),
 'U03': ('A table of where value and derivative exist, per function and grid point, combined with the standard deviations of the moment: NaN exactly when a non-null uncertainty enters an undefined derivative.',
  'The interplay of singular points with null uncertainties, shared variables and later assignments is combinatorial.'),
 'U04': ('The outcome (value and type, or exception type) of the math module and of float operators at the same point.',
  'Tests try some failing points of some functions only.'),
 'U05': ('Exact rational linear forms; equality of derivatives without any tolerance where all products fit in 53 bits.',
  'The tests check x-x and a few sums; correlations may be lost in any particular combination of operations, caching and order.'),
 'U06': ('A model that stores, for each number, its derivatives with respect to the variables, and recomputes everything from the current standard deviations.',
  'A property of histories: any stale cache, shared dictionary or lost link shows only for some orders of reading, copying and assigning.'),
 'U07': ('The originals: values, tags, attributes, derivative multisets, covariances of clones among themselves and with originals, predicted per kind of copy; then assignments on either side.',
  'Tests pickle a few objects with one protocol; chains of copies and containers with sharing are not tried.'),
 'U08': ('Exact equality of linear forms (rational arithmetic), and comparisons of floats.',
  'Consistency is over all pairs (and kinds of plain numbers), on both sides.'),
 'U09': ('Rational arithmetic on independently derived coefficients.',
  'Any list, with repeated, constant, nonlinear numbers, and after changes.'),
 'U10': ('The given matrix itself: covariances read back through covariance_matrix(), error components and further linear calculations.',
  'Singular, badly scaled or large semi-definite matrices are not in the tests.'),
 'U11': ('Exact coefficients, and the definitions.', 'All results of any calculation, in any order of evaluation.'),
 'U12': ('Recognisable derivative functions (their values encode the parameter and arguments they received), analytical derivatives for numerical ones.',
  'The binding of arguments to derivatives is a matter of combinations of signatures and call forms.'),
 'U13': ('The reference formatter in decimal arithmetic on exact binary values.',
  'Rounding is decided digit by digit: ties, carries to the next power of ten and thresholds of the Particle Data Group rules are everywhere in the range of floats.'),
 'U14': ('An independent layout of the digits given by the same format without options.',
  'The grammar of options has thousands of combinations, crossed with classes of numbers.'),
 'U15': ('Round trip, with exact decimal arithmetic for half a unit of the last digit.',
  'Any text the formatter may produce must be in the language of the parser.'),
 'U16': ('The exact decimal value known at generation; an independent recogniser for other strings.',
  'The set of strings is infinite; ambiguous or partly matched strings are not sampled by tests.'),
 'U17': ('A record (value, standard deviation, tag) updated as documented.', 'Types, call forms and histories combine.'),
 'U18': ('The scalar function on each element (correlations included, by exact identity of derivatives).',
  'Shapes, containers, element types and failing elements combine.'),
 'U19': ('Scalar operations on the elements (bit-identical), exact linear forms for reductions and matrix products; operands are unchanged and results share no memory with them.',
  'Shapes, kinds and sides of operands, classes and in-place operations combine.'),
 'U20': ('Exact rational and 60-digit (pseudo-)inverses; derivatives by the product rule, not by the formula of the code; identities such as M*M.I = 1.',
  'The tests check one or two matrices; the pseudo-inverse has several cases (tall, wide, rank-deficient, cutoff).'),
 'U21': ('A second renderer writes the program in the current form: the conversion must be the same syntax tree, layout and tokens, and run to the same results without warnings; a second conversion changes nothing.',
  'Fixers are patterns over syntax trees: any nesting or neighbouring code may escape or be changed by mistake.'),
 'U23': ('The model of U06 (derivatives and standard deviations recomputed from scratch) after interruptions and after concurrent calculations; recognisable derivatives for functions. Faults and thread switches are injected by a trace function at generated lines or instructions of the library: a schedule is data, so that failures are shrunk and replayed.',
  'Interruption points and interleavings are not reachable by ordinary tests.'),
 'U24': ('The same calculation in this process; results are compared as texts (type, value, standard deviation, derivatives per tag, or exception type).',
  'Tests run in one environment.'),
 'U22': ('Exact coefficients known by construction, or forward differentiation; processor time as a function of the number of terms.',
  'Depth and length beyond the recursion limit, in any association order and with evaluations in the middle.'),
 'U25': ('Exact differentials of each function, applied to the exact derivatives of the elements; the analytical inverses of ulinalg.',
  'Shapes, memory layouts, classes, correlated and exact elements combine.'),
 'U26': ('The number of allocated blocks of memory after a garbage collection, before and after some repetitions (and after thousands of others, so that a cache of a limited size is not a leak).',
  'Any cache, registry or reference that grows with the values used, in any part of the library.'),
}

STRENGTHENED = [
 'u12-many-arguments, u20-large-matrices (and trials of the same kind in covariances, correlated values and standard deviations): groups `large` (section 2); U20: elements with a variable of their own whose coefficient is not 1.',
 'u22-deepcopy was at times not caught, because the time limit of a case was lost in a callback of the garbage collector: limits of time and memory of section 5.',
 'u10-repeated-tags: variables have tags, which may be the same for different variables, in U01, U03, U05, U09, U10, U19, U20, U22, U25.',
 'u11-skip-zero-factor: results are evaluated first-to-last or last-first (U11).',
 'u10-std-devs-float32: group `range` of U10 (standard deviations from 1e-300 to 1e290).',
 'u14-align-fill: more fill characters (tab, newline, characters of the format grammar).',
 'u19-mul-constant: operands must be unchanged and share no memory with results; scalars 0, 1, True, and powers 1.',
 'u05-residues: differences of results are also taken in another unit (powers of 2 from 2**-500 to 2**500), exactly (U05).',
 'u23-shared-kwargs: wrapped functions are also called with keyword arguments in threads (U23).',
 'u24-fraction: plain operands and results of wrapped functions of all numeric types (Fraction, Decimal, bool, complex) in the worker (U24).',
 'u21-raw-string: tokens of the conversion are compared with those of the expected program; prefixes of strings.',
 'u04 (mutant): the functions that `from uncertainties.umath import *` brings are compared with a fixed list (U04).',
 'one-sided numerical derivatives, functions that return np.bool_ (mutants): steep functions and more result types (U12).',
 'numbers created from equal arguments (u17-fromstr-cache): group `several` of U17.',
 'u02-hypot-overflow: U02 had magnitudes up to 1e140 for functions of two arguments: 1e-290 to 1e290 now.',
 'u24-docstring: arrays and matrices are also calculated with -O and -OO, and pickled arrays exchanged (group `arrays` of U24).',
 'u04-float-exact: conversions of constants made as AffineScalarFunc objects, correlated values, elements of arrays, copies (U04).',
 'u11-default-factory (mutant): reading the derivative for an unrelated variable raises KeyError (U11).',
]
