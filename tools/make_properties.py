#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code because JSON lines are hard to edit)."""
import json
import os
P = []
C = 'uncertainties/core.py'
U = 'uncertainties/umath_core.py'
N = 'uncertainties/unumpy/core.py'


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [dict(name=n, where=w) for n, w in mech],
                          'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': None}})


p('U01', 'Expressions obey linear error propagation',
  'For every expression built with + - * / // % **, unary operators and mathematical functions on numbers with uncertainties and plain numbers (on either side), the nominal value equals what the same expression gives on plain floats, and the derivatives with respect to each independent variable are the exact partial derivatives at the nominal values. '
  'The standard deviation is the square root of the sum of the squares of (derivative times standard deviation of the variable), over the independent variables.',
  ['inputs', 'programs'], 'all expression graphs over any number of variables, with shared subexpressions, constants of any real type and values over the float range',
  'The tests compare each operator with numerical derivatives at a few random points between -2 and 2, and never a composed expression with an independent oracle.',
  [C], [('operators and their derivatives', C + ': get_ops_with_reflection(), add_operators_to_AffineScalarFunc()'),
        ('chain rule', C + ': wrap(), LinearCombination.expand()'),
        ('quadratic sum', C + ': AffineScalarFunc.std_dev, error_components()')],
  observe=['nominal_value', 'std_dev', 'derivatives', 'error_components()'])

p('U02', 'Mathematical functions have exact values and derivatives',
  'For every function of the umath module and every point of its domain where it is differentiable, applying it to numbers with uncertainties gives as nominal value exactly what the math module gives on the nominal values, and as derivative with respect to each argument the true derivative. '
  'This includes two-argument functions with either or both arguments uncertain (possibly the same number), functions that return several values or take a list, and locally constant functions, which return plain results.',
  ['inputs'], 'all umath functions, all arguments in their domains',
  'The tests use random arguments between -2 and 2 and compare the derivatives with numerical ones obtained from the same module.',
  [U], [('derivative table', U + ': fixed_derivatives'), ('wrapping loop', U + ': for name in dir(math)'),
        ('special functions', U + ': fsum, modf, ldexp, frexp')],
  observe=['umath.*'])

p('U03', 'Undefined derivatives give NaN only where they matter',
  'Where a function or power has a value but no derivative with respect to an argument, a variable of non-zero uncertainty that enters this argument makes the uncertainty of the result NaN, and variables with a zero uncertainty contribute exactly nothing: the result then has the uncertainty due to the other variables, in the standard deviation, the error components and the covariances. '
  'Powers on the boundaries (zero base, zero exponent, negative base with integer exponent) have the value that floats give and the derivatives of the power function where they exist. An operation whose value is a float never fails because its derivative is out of the range of floats.',
  ['inputs'], 'all singular points of all functions (sqrt, acos, asin, acosh, hypot, atan2, powers, ...), all combinations of zero and non-zero uncertainties, and expressions containing them',
  'The tests list about twenty hand-picked powers and hypot(0, 0).',
  [C, U], [('NaN on failure', C + ': nan_if_exception()'), ('powers', C + ': pow_deriv_0, pow_deriv_1; ' + U + ': _deriv_pow_0, _deriv_pow_1'),
           ('zero uncertainty', C + ': error_components(), covariance_matrix()')],
  observe=['std_dev', 'error_components()', 'covariance_matrix()'])

p('U04', 'Plain numbers behave as in the math module; failures as for floats',
  'Functions of umath, unumpy-free utilities and wrapped functions called with no number with uncertainty return exactly what the original function returns (same value and type) and raise the same exceptions. '
  'With numbers with uncertainties, an operation or function whose float counterpart raises an exception at the nominal values raises an exception of that type, an operation with a complex result raises ValueError, and converting to float, int or complex raises TypeError.',
  ['inputs'], 'all functions and operators, all plain arguments (floats, integers, special values), all failing points',
  'The tests check about ten failing powers and sin(3).',
  [C, U], [('pass-through', C + ': wrap()'), ('no complex result', C + ': no_complex_result()'), ('coercions', C + ': raise_error()')],
  observe=['return values and exception types'])

p('U05', 'Correlations are tracked exactly',
  'Results that share variables stay exactly correlated: any algebraic combination of results that is identically constant in the variables has a zero uncertainty (x - x, (x+y) - y - x, ...), the order and grouping of a calculation does not change its uncertainty (to within rounding), and numbers created separately are independent even if they are equal. '
  'For linear expressions with exactly representable coefficients the derivatives are exactly the integer or dyadic coefficients of the expression.',
  ['programs', 'inputs'], 'all linear programs (sums, differences, products and quotients with constants, built-in sum) with any sharing of intermediate results',
  'The tests check a handful of correlated expressions such as x - x.',
  [C], [('variables as keys', C + ': Variable.__hash__, LinearCombination'), ('expansion', C + ': LinearCombination.expand()')],
  observe=['derivatives', 'std_dev', '=='])

p('U06', 'Results follow later changes of standard deviations',
  'After the standard deviation of a variable is changed, every number that depends on it (whenever it was created, and whether or not it was read before) has the standard deviation, error components, covariances and text that linear propagation gives for the current standard deviations, while nominal values and derivatives stay what they were. '
  'Reading any attribute, printing, comparing, copying or pickling never changes later results, and numbers that do not depend on the variable are unaffected.',
  ['histories'], 'all sequences of creations, operations, standard-deviation updates, reads, copies and collections of temporaries',
  'The tests change one standard deviation once.',
  [C], [('live standard deviations', C + ': AffineScalarFunc.std_dev, Variable.std_dev'), ('lazy expansion', C + ': LinearCombination.expand(), AffineScalarFunc.derivatives')],
  observe=['std_dev', 'derivatives', 'covariance_matrix()', 'format()'])

p('U07', 'Copies and pickles keep values and the right correlations',
  'copy.copy, copy.deepcopy and pickling (every protocol) of a number with uncertainty, or of a container of them, give numbers with the same nominal value, standard deviation, tag and derivative values, for any history and pickling (or copying a calculated result) also preserves the class and the extra attributes of instances of subclasses. '
  'A copied or deep-copied independent variable is a new variable independent of the original, a plain copy of a calculated result stays correlated with it, a deep copy does not, and numbers pickled together keep their mutual correlations after loading while being independent of the originals.',
  ['inputs', 'histories'], 'all numbers and containers of numbers, all pickle protocols, subclasses with and without __slots__, before and after evaluation',
  'The tests copy three numbers and pickle a few instances.',
  [C], [('copy hooks', C + ': Variable.__copy__, __deepcopy__, AffineScalarFunc.__deepcopy__'), ('pickle hooks', C + ': __getstate__, __setstate__')],
  observe=['copy', 'pickle', 'covariance_matrix()'])

p('U08', 'Comparisons and truth value are consistent',
  'Two numbers with (finite) values are equal exactly when their difference has a zero nominal value and a zero standard deviation, != is the negation of ==, < and > compare nominal values, <= and >= mean "less (greater) or equal", and the truth value of x is that of x != 0. '
  'A plain number compares as a number with no uncertainty, on either side, and comparison with an unrelated type does not raise for == and != (which give False and True).',
  ['inputs'], 'all pairs of results (same, correlated, independent, exact, NaN) and plain numbers of all real types on either side',
  'The tests check some twenty fixed comparisons and random ones for a single pair of variables.',
  [C], [('comparison operators', C + ': eq_on_aff_funcs(), gt_on_aff_funcs(), ..., force_aff_func_args()')],
  observe=['== != < <= > >= bool() sorted()'])

p('U09', 'Covariance and correlation matrices are exact',
  'covariance_matrix() of any list of numbers with uncertainties is the symmetric list of lists of floats whose element (i, j) is the sum over the variables of (derivative of i)(derivative of j)(variance of the variable); its diagonal is the square of the standard deviations, and numbers that share no variable have covariance 0. '
  'correlation_matrix() is the corresponding array normalised by the standard deviations, when these are not zero.',
  ['inputs'], 'all lists of numbers (variables, results, repeated numbers, exact numbers), in any order',
  'The tests compare a few 2x2 and 3x3 examples.',
  [C], [('matrices', C + ': covariance_matrix(), correlation_matrix()')],
  observe=['covariance_matrix()', 'correlation_matrix()'])

p('U10', 'Correlated values reproduce the given covariances',
  'correlated_values() with any nominal values and any symmetric positive semi-definite covariance matrix (including null variances and singular matrices) returns numbers with exactly these nominal values, whose standard deviations and covariances are the given ones, also after going through further linear calculations; correlated_values_norm() does the same from standard deviations and a correlation matrix. '
  'The returned numbers depend only on newly created variables, with the given tags, and two calls give independent numbers.',
  ['inputs'], 'all positive semi-definite covariance matrices of any size and scale, all nominal values',
  'The tests use three fixed matrices.',
  [C], [('diagonalisation', C + ': correlated_values(), correlated_values_norm()')],
  observe=['correlated_values()', 'covariance_matrix()'])

p('U11', 'Analysis helpers agree with the numbers they describe',
  'error_components() has one entry per independent variable of the result, equal to |derivative| times its standard deviation (0 for an exact variable), whose quadratic sum is the standard deviation, and no entry for other variables (KeyError, like derivatives); std_score(v) is (v - nominal value)/standard deviation, and raises ValueError when the standard deviation is zero. '
  'nominal_value() and std_dev() (and the short attributes n and s) return the attributes of numbers with uncertainties, and leave other objects unchanged or give 0, respectively.',
  ['inputs'], 'all results and all other objects',
  'The tests check one error budget and a few scores.',
  [C], [('helpers', C + ': error_components(), std_score(), nominal_value(), std_dev()')],
  observe=['error_components()', 'std_score()', 'n', 's', 'nominal_value()', 'std_dev()'])

p('U12', 'Wrapped functions propagate uncertainties for any call form',
  'For any Python function returning a real number, wrap() gives a function that can be called in every way the original can (positional, keyword, default, variable and keyword-only arguments, bound methods): its nominal value is that of the function at the nominal values, and the derivative with respect to each uncertain argument is the one supplied for that parameter or, if None or missing (also in a short or infinite iterable of derivatives), an accurate numerical derivative. '
  'Calls with no uncertain argument return the value of the function unchanged.',
  ['inputs', 'programs'], 'all signatures, all ways to call them, all ways to give derivatives, repeated calls of the same wrapped function',
  'The tests wrap six functions and call each in a few ways.',
  [C], [('wrapper', C + ': wrap(), IndexableIter'), ('numerical derivatives', C + ': partial_derivative()')],
  observe=['wrap()'])

p('U13', 'Formatted numbers are correctly rounded with the right precision',
  'In every text representation the nominal value and the uncertainty have the same last decimal place, and each is the actual value correctly rounded there (the uncertainty being displayed as a power of ten where the Particle Data Group rules say so, from 0.950); with no explicit precision the uncertainty has the number of significant digits of the Particle Data Group rules, with ".Nu" exactly N, and otherwise precision and presentation type mean what they mean for floats. '
  'A common exponent is used exactly when the presentation type e is asked for, or when the g or default type would use one for the larger of the two values rounded to the displayed precision.',
  ['inputs'], 'all values and standard deviations over the float range (normal numbers), all precisions and presentation types',
  'The tests list about three hundred fixed examples.',
  [C], [('precision', C + ': PDG_precision(), signif_dgt_to_limit(), first_digit(), __format__()'), ('formatting', C + ': format_num()')],
  observe=['str()', 'format()'])

p('U14', 'Format options only change the layout they control',
  'Every combination of fill, alignment, sign, zero padding, width, comma, precision, type and the options P, L, S, p and % gives the same numbers laid out as documented: +/- or the ± sign or \\pm, shorthand digits in parentheses, exponent factored out unless a width is given, parentheses where asked for or needed, percent sign last, fields (or the whole, in shorthand form) at least as wide as asked for. '
  'Null uncertainties are written 0, NaN and infinite values as such and with no exponent of their own; an invalid format specification raises ValueError.',
  ['inputs', 'configurations'], 'all format specifications of the documented grammar, all values including special ones',
  'The tests list about three hundred fixed examples out of an unbounded grammar.',
  [C], [('format grammar', C + ': AffineScalarFunc.__format__()'), ('layout', C + ': format_num(), robust_align()')],
  observe=['format()'])

p('U15', 'Text representations read back as the same number',
  'Every text produced by str() or format() in the default, shorthand, pretty-print and parenthesised styles (without comma, percent sign, fill characters or LaTeX) is read back by ufloat_fromstr() as the numbers displayed, that is the original ones to within half a unit of the last displayed digit. '
  'repr() of a number without a tag reads back as exactly the same nominal value and standard deviation.',
  ['inputs', 'configurations'], 'all numbers, including zero and NaN or infinite uncertainties, all such format specifications',
  'The tests read back the same fixed examples that they format.',
  [C], [('formatting', C + ': format_num(), __repr__()'), ('parsing', C + ': str_to_number_with_uncert(), parse_error_in_parentheses()')],
  observe=['ufloat_fromstr()', 'repr()'])

p('U16', 'Strings are parsed by the documented grammar, or rejected',
  'Every string of a documented form (a+/-b, a±b, with e or ×10 exponents on each part or factored out, a(b) with digits or an absolute uncertainty, nan and inf, a plain number meaning an uncertainty of one unit of its last digit, surrounding spaces and outer parentheses) is read as the exact decimal values it denotes. '
  'Any other string, including numbers out of the range of floats, raises ValueError (NegativeStdDev for a negative uncertainty), and never another exception or a silent wrong value.',
  ['inputs'], 'all strings',
  'The tests parse about forty fixed strings, and check two invalid ones.',
  [C], [('grammar', C + ': NUMBER_WITH_UNCERT_RE_STR, str_to_number_with_uncert(), parse_error_in_parentheses(), to_float()')],
  observe=['ufloat_fromstr()', 'ufloat()'])

p('U17', 'Numbers with uncertainties are created as asked, or rejected',
  'ufloat(value, std_dev, tag) creates an independent variable with this nominal value (as a float), this standard deviation and this tag, for all real numeric types; negative standard deviations (including minus infinity) are rejected with NegativeStdDev at creation and on assignment, leaving the number unchanged, and NaN is accepted. '
  'The older call forms (a tuple, a string, optionally followed by a tag) give the same result as the current ones, with a warning, and the standard deviation may still be read by a call.',
  ['inputs', 'histories'], 'all arguments and argument types, all sequences of assignments',
  'The tests create some ten variables.',
  [C], [('creation', C + ': ufloat(), ufloat_obsolete(), Variable'), ('validation', C + ': Variable.std_dev')],
  observe=['ufloat()', 'Variable.std_dev', 'tag'])

p('U18', 'Array functions are the scalar functions, element by element',
  'Each function of unumpy applied to an array-like of any shape (with broadcasting for several arguments) gives the array whose elements are what the umath function of the same meaning gives on each element, in value, derivatives and correlations, whether elements are uncertain or plain. '
  'A function raises what the scalar function raises at an element; isnan and isinf give boolean arrays usable as masks, and functions have the NumPy names (arccos for acos, ...).',
  ['inputs'], 'all functions, shapes (including 0 and 3 dimensions), mixtures of plain and uncertain elements',
  'The tests apply four functions to small vectors.',
  [N], [('vectorised functions', N + ': define_vectorized_funcs()')],
  observe=['unumpy.*'])

p('U19', 'Arrays keep values, uncertainties and correlations',
  'uarray() and umatrix() make arrays of the given shape whose elements are independent variables with the given nominal values and standard deviations, nominal_values() and std_devs() give these back as float arrays of the same shape (also for mixed arrays, with 0 for plain numbers, and as plain NumPy matrices for matrices). '
  'Array arithmetic, broadcasting, comparisons, sums, means and matrix products of such arrays and of plain arrays and scalars, in any order, give element by element what scalar operations give, including correlations.',
  ['inputs', 'programs'], 'all shapes, all elementwise and matrix operations between uncertain arrays, plain arrays and scalars on either side',
  'The tests use vectors of two or three elements.',
  [N, C], [('array creation', N + ': uarray(), umatrix(), nominal_values(), std_devs()'), ('matrix class', N + ': matrix'),
           ('refusal of arrays', C + ': wrap() [NotImplemented], force_aff_func_args()')],
  observe=['unumpy.uarray', 'unumpy.umatrix', 'nominal_values', 'std_devs'])

p('U20', 'Matrix inverses and pseudo-inverses propagate uncertainties',
  'For any well-conditioned matrix of numbers with uncertainties (mixed with plain numbers, possibly correlated), inv(), pinv() and the I attribute have as nominal value what NumPy gives for the nominal values, and as derivatives with respect to each variable the exact derivatives of the inverse or pseudo-inverse (square, tall, wide, and rank-deficient of locally constant rank), so that a square matrix times its inverse is the identity with no uncertainty. '
  'Arrays give arrays, and matrices give matrices that can be inverted again; matrices without uncertainties give what NumPy gives.',
  ['inputs'], 'all well-conditioned matrices of all shapes, all sets of uncertain and correlated elements',
  'The tests use three fixed matrices.',
  [N, 'uncertainties/unumpy/ulinalg.py'], [('inverse', N + ': inv_with_derivatives()'), ('pseudo-inverse', N + ': pinv_with_derivatives()'),
     ('propagation', N + ': func_with_deriv_to_uncert_func(), array_derivative()')],
  observe=['ulinalg.inv', 'ulinalg.pinv', 'umatrix.I'])

p('U21', 'The 1to2 converter updates old code and nothing else',
  'For any program that uses the old call forms (std_dev(), set_std_dev(v) as a statement, std_devs(), ufloat with a tuple or string and optional tag, uarray and umatrix with a tuple or a single argument), the converter produces the equivalent program with the current forms, which computes the same results without obsolescence warnings. '
  'Other code, comments and layout are left untouched, and converting a second time changes nothing.',
  ['programs'], 'all Python programs that mix old calls, in any expression context and layout, with unrelated code',
  'The tests convert about thirty fixed lines.',
  ['uncertainties/lib1to2/fixes/fix_ufloat.py', 'uncertainties/lib1to2/fixes/fix_std_dev.py', 'uncertainties/lib1to2/fixes/fix_std_devs.py', 'uncertainties/lib1to2/fixes/fix_uarray_umatrix.py'],
  [('fixers', 'uncertainties/lib1to2/fixes/')],
  observe=['lib2to3 refactoring with uncertainties.lib1to2.fixes'])

p('U22', 'Long calculations stay exact and do not overflow the stack',
  'Sums, products, alternating and nested calculations of tens of thousands of terms, in any association order (running totals, balanced trees, built-in sum, accumulated in arrays), give the nominal value of the float calculation and the exact derivatives, without recursion errors when they are evaluated, printed, compared, copied or pickled. '
  'Evaluating part of a long calculation first does not change the result of the rest. The time taken by a sum or by a weighted mean is proportional to the number of its terms, and iterations that use their intermediate results several times (Newton iterations, recurrences, means) are evaluated in a time that does not grow exponentially.',
  ['inputs', 'programs'], 'all long calculations, with intermediate evaluations at any point',
  'The tests sum one list of 10^5 terms.',
  [C], [('iterative expansion', C + ': LinearCombination.expand()')],
  observe=['std_dev', 'derivatives'])

p('U23', 'Interruptions and threads never corrupt numbers',
  'Reading a number with uncertainty (standard deviation, derivatives, error components, text, comparisons, covariances, copies, pickles) or calculating with it can be interrupted at any point by an exception (KeyboardInterrupt, MemoryError...), or done by several threads at the same time in any interleaving: every later result obtained from this number, from the numbers it was calculated from, and from those calculated from it is what it would have been without interruption and with a single thread. '
  'An interrupted assignment of a standard deviation leaves the previous one or sets the new one. Functions made by wrap(), operators and umath functions keep the right derivatives when their first calls are interrupted or concurrent.',
  ['inputs', 'schedules', 'crash_points'], 'all interruption points, and interleavings of readings and calculations',
  'The tests run each function once, in one thread and without any interruption.',
  [C, 'uncertainties/umath_core.py'],
  [('expansion', C + ': LinearCombination.expand()'), ('derivatives of functions', C + ': IndexableIter, wrap()')],
  observe=['std_dev', 'derivatives', 'wrap', 'operators'])

p('U24', 'Same results without NumPy, with -O, and in other processes',
  'NumPy is optional: without it, calculations with numbers, mathematical functions, comparisons, wrapped functions, formatting, parsing, copies and pickles give the same results, warnings and exception types as with it, and only arrays, correlated_values(), correlated_values_norm() and correlation_matrix() are absent. '
  'Optimised byte code (-O and -OO), the hash seed and the locale have no influence on results, and numbers pickled in a process are the same numbers, with their correlations, in another process with a different environment.',
  ['inputs', 'configurations'], 'all calculations, in all environments',
  'The tests are run in a single environment (with NumPy, without -O).',
  [C, 'uncertainties/__init__.py', 'uncertainties/umath_core.py'],
  [('optional NumPy', C + ': try: import numpy')],
  observe=['all scalar operations', '__all__'])

p('U25', 'Wrapped functions of arrays propagate uncertainties',
  'unumpy.core.wrap_array_func(f), where f is a function of a NumPy array (and of other arguments) that returns an array, gives for any array or matrix that contains numbers with uncertainties an array of the shape of f(nominal values) whose nominal values are those of f, and whose derivatives with respect to each independent variable are those of f combined with those of the elements (to within the precision of numerical differentiation), so that correlations between elements of the argument and of the result are kept. '
  'f is only called with pure numbers and with the additional arguments, the argument is not modified, and arrays without uncertainties give exactly what f returns. array_derivative() is the exact derivative of each element.',
  ['inputs'], 'all smooth functions of arrays, all shapes, kinds and contents of arrays',
  'The tests wrap a pseudo-inverse of one matrix.',
  ['uncertainties/unumpy/core.py'], [('numerical differentiation', 'uncertainties/unumpy/core.py: wrap_array_func()'), ('derivatives', 'uncertainties/unumpy/core.py: array_derivative(), derivative()')],
  observe=['nominal_value', 'derivatives', 'std_dev', 'shape'])

p('U26', 'Numbers that are no longer used are released',
  'Numbers with uncertainties, and what is made with them (results, wrapped functions, copies, pickles, arrays, texts, covariances, comparisons, exceptions), leave nothing behind when they are no longer used: repeating any calculations, on new numbers or on numbers that are kept, does not use more and more memory. '
  'The memory used by a running total (or by an array that is updated) that is evaluated at each step does not depend on the number of steps.',
  ['programs', 'histories'], 'all programs that repeat calculations',
  'The tests never repeat a calculation and do not measure memory.',
  [C, 'uncertainties/unumpy/core.py'], [('reference cycles and closures', C + ': Variable, wrap()'), ('expansion', C + ': LinearCombination.expand()')],
  observe=['memory allocated by Python'])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
