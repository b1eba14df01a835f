"""Planted bugs: (file, original text, changed text), a demonstration, and what
each needs in order to manifest.  plant.py confirms them and writes
/verif/seeded/.  No check reads this file or that directory."""
CORE = 'uncertainties/core.py'
UMATH = 'uncertainties/umath_core.py'
UNUMPY = 'uncertainties/unumpy/core.py'
FIX = 'uncertainties/lib1to2/fixes/'
SEEDS = []


def seed(id, property, changes, needs, breaks, demo):
    SEEDS.append({'id': id, 'property': property, 'changes': changes,
                  'needs': needs, 'breaks': breaks, 'demo': demo})


################ U01
seed('u01-rsub-cache', 'U01',
     [(CORE, """    f_with_affine_output.name = f.__name__

    return f_with_affine_output
""", """    f_with_affine_output.name = f.__name__

    if f.__name__ == '__sub__':
        # Optimization: x-x is exactly zero
        def sub(x, y):
            if x is y:
                return AffineScalarFunc(0., LinearCombination({}))
            return f_with_affine_output(x, y)
        return sub

    return f_with_affine_output
""")],
     'subtracting an infinite or NaN number from itself',
     'inf-inf gives 0 instead of NaN',
     """
x = ufloat(float('inf'), 1)
assert math.isnan((x-x).nominal_value)
x = ufloat(float('nan'), 1)
assert math.isnan((x-x).nominal_value)
""")

################ U02
seed('u02-log-base', 'U02',
     [(UMATH, "            lambda x, y: -math.log(x, y)/y/math.log(y)],", "            lambda x, y: -math.log(x, y)/y/abs(math.log(y))],")],
     'the two-argument logarithm, with an uncertain base smaller than 1',
     'the sign of the derivative with respect to the base is wrong',
     """
b = ufloat(0.5, 0.01)
r = umath.log(3., b)
h = 1e-6
num = (math.log(3, 0.5+h)-math.log(3, 0.5-h))/(2*h)
assert close(r.derivatives[b], num, 1e-6), (r.derivatives[b], num)
""")
seed('u02-copysign-zero', 'U02',
     [(UMATH, """def _deriv_copysign(x,y):
    if x >= 0:
        return math.copysign(1, y)
    else:
        return -math.copysign(1, y)
""", """def _deriv_copysign(x,y):
    # The sign of the result is that of y
    if x*y >= 0:
        return 1.
    else:
        return -1.
""")],
     'copysign() with a negative zero as its second argument, or with '
     'arguments whose product underflows',
     'the derivative of copysign(x, -0.0) has the wrong sign',
     """
x = ufloat(3, 0.5)
assert umath.copysign(x, -0.0).derivatives[x] == -1
""")
seed('u02-erfc-large', 'U02',
     [(UMATH, "    'exp': [math.exp],", "    'exp': [lambda x: math.expm1(x)+1],")],
     'the exponential of a large negative number',
     'the uncertainty of exp(x) is inexact or exactly 0 for negative x',
     """
x = ufloat(-40, 0.5)
assert close(umath.exp(x).std_dev, 0.5*math.exp(-40)), umath.exp(x)
""")
seed('u02-modf-sign', 'U02',
     [(UMATH, "        return (AffineScalarFunc(frac_part, aff_func._linear_part), int_part)", "        return (AffineScalarFunc(\n            frac_part, (x-int_part)._linear_part if frac_part\n            else LinearCombination({})), int_part)")],
     'modf() of an integer value with an uncertainty',
     'the fractional part of a number with an integer nominal value has no '
     'uncertainty',
     """
x = ufloat(3, 0.5)
(f, i) = umath.modf(x)
assert f.std_dev == 0.5, f
""")

################ U03
seed('u03-overflow-derivative', 'U03',
     [(CORE, "        except (ValueError, ZeroDivisionError, OverflowError):\n            return float('nan')", "        except (ValueError, ZeroDivisionError):\n            return float('nan')")],
     'a derivative that overflows although the value does not',
     'OverflowError is raised instead of a NaN uncertainty',
     """
x = ufloat(1e-200, 1e-300)
r = x**-1.5
assert math.isnan(r.std_dev) or math.isinf(r.std_dev), r
""")
seed('u03-exact-nan', 'U03',
     [(CORE, """            if variable._std_dev == 0:
                # !!! Shouldn't the errors always be floats, as a
                # convention of this module?
                error_components[variable] = 0
            else:
                error_components[variable] = abs(derivative*variable._std_dev)
""", """            error = abs(derivative*variable._std_dev)
            # An exact variable does not contribute, even with an
            # undefined derivative:
            if isnan(error) and not self._nominal_value % 1:
                error = 0 if variable._std_dev == 0 else error
            error_components[variable] = error
""")],
     'an undefined derivative with respect to an exact variable, in a result '
     'that is not an integer',
     'the uncertainty of the result is NaN although the undefined derivative '
     'concerns an exact variable',
     """
x = ufloat(0, 0)
y = ufloat(1.25, 0.5)
r = umath.sqrt(x) + y
assert r.std_dev == 0.5, r
""")

################ U04
seed('u04-plain-modf', 'U04',
     [(UMATH, "    aff_func = to_affine_scalar(x)  # Uniform treatment of all numbers\n\n    (frac_part, int_part) = math.modf(aff_func.nominal_value)", "    aff_func = to_affine_scalar(x)  # Uniform treatment of all numbers\n\n    int_part = math.trunc(aff_func.nominal_value)*1.\n    frac_part = aff_func.nominal_value - int_part")],
     'modf() of -0.0, of a negative fraction or of an infinity',
     'the sign of a zero is lost, and infinities raise OverflowError',
     """
assert math.copysign(1, umath.modf(-0.5)[1]) == -1
assert umath.modf(float('inf')) == (0.0, float('inf'))
""")
seed('u04-fsum-order', 'U04',
     [(UMATH, "original_func = math.fsum  # For optimization purposes", "def original_func(values):\n    '''Like math.fsum().'''\n    return math.fsum(sorted(values))")],
     'fsum() of infinities or NaN (that sort strangely)... or of a generator '
     'with values of which an intermediate sum overflows',
     'OverflowError is raised for sums that math.fsum() can calculate in the '
     'given order',
     """
values = [1e308, -1e308, 1e308, -1e308, 1e308]
assert umath.fsum(values) == math.fsum(values)
""")
seed('u04-trunc-float', 'U04',
     [(UMATH, """        args_float = map(uncert_core.nominal_value, args)
""", """        args_float = [float(uncert_core.nominal_value(arg)) for arg in args]
""")],
     'floor(), ceil(), trunc() of integers that floats cannot represent',
     'plain numbers do not give the result of the math module',
     """
n = 2**53+1
assert umath.floor(n) == math.floor(n)
assert umath.trunc(n) == n
""")

################ U05
seed('u05-consume-nested', 'U05',
     [(CORE, """                    derivatives[var] += main_factor*factor

            else:  # Non-expanded form
""", """                    derivatives[var] += factor*main_factor

            elif len(main_combo) > 2:  # Non-expanded form, many terms
                # The terms are handled one by one, for saving memory:
                while main_combo:
                    (factor, expr) = main_combo.pop()
                    main_factors[expr] += main_factor*factor
                    num_terms[expr] -= 1
                    if not num_terms[expr]:
                        terms.append(expr)

            else:  # Non-expanded form, few terms
""")],
     'an intermediate result with more than two arguments (fsum, wrapped '
     'function) used again after a result that contains it was evaluated',
     'the intermediate result loses its variables',
     """
x, y, z = ufloat(1, 0.1), ufloat(2, 0.1), ufloat(3, 0.1)
s = umath.fsum([x, y, z])
t = 2*s
t.std_dev
assert close(s.std_dev, 0.1*math.sqrt(3)), s
""")
seed('u05-overwrite', 'U05',
     [(CORE, "                    derivatives[var] += main_factor*factor\n", "                    if main_factor*factor:\n                        derivatives[var] += main_factor*factor\n                    else:\n                        derivatives[var] = 0.\n")],
     'the same variable appearing in a result with a zero coefficient after a '
     'non-zero one',
     'the derivative is reset to 0',
     """
x = ufloat(3, 0.5)
r = 0*x + x
assert r.std_dev == 0.5, r
r = x + 0*x
assert r.std_dev == 0.5, r
""")

################ U06
seed('u06-setter-nan', 'U06',
     [(CORE, "        self._std_dev = CallableStdDev(std_dev)\n", "        if std_dev == std_dev or not hasattr(self, '_std_dev'):\n            self._std_dev = CallableStdDev(std_dev)\n")],
     'setting the standard deviation of an existing variable to NaN',
     'the change is ignored',
     """
x = ufloat(3, 0.1)
r = 2*x
x.std_dev = float('nan')
assert math.isnan(r.std_dev), r
""")

################ U07
seed('u07-deepcopy-tag', 'U07',
     [(CORE, "        return self.__copy__()\n", "        return Variable(self.nominal_value, self.std_dev)\n")],
     'a deep copy of a tagged variable',
     'the tag is lost',
     """
x = ufloat(3, 0.1, 'mass')
assert copy.deepcopy(x).tag == 'mass'
""")

################ U08

################ U09
seed('u09-generator-symmetry', 'U09',
     [(CORE, """        coefs_expr1 = []

        for expr2 in nums_with_uncert[:i1]:
""", """        coefs_expr1 = []

        # Numbers with uncertainties can appear multiple times:
        if nums_with_uncert.index(expr1) < i1-1:
            covariance_matrix.append(list(
                covariance_matrix[nums_with_uncert.index(expr1)]
                + [covariance_matrix[nums_with_uncert.index(expr1)][-1]]*(
                    i1-1-nums_with_uncert.index(expr1))))
            continue

        for expr2 in nums_with_uncert[:i1]:
""")],
     'a sequence in which a number is repeated with other numbers in between',
     'the covariances of the repeated number with the numbers in between are '
     'wrong',
     """
x, y = ufloat(1, 0.1), ufloat(2, 0.2)
cov = uncertainties.covariance_matrix([x, y, x])
assert close(cov[2][1] + 1, 1), cov
assert close(cov[2][0], 0.01), cov
""")

################ U10
seed('u10-variance-threshold', 'U10',
     [(CORE, "        variances[variances < 0] = 0.\n", "        variances[variances < 1e-5] = 0.\n")],
     'almost perfectly correlated values',
     'the small independent part of highly correlated values is lost',
     """
c = 1-1e-6
(x, y) = uncertainties.correlated_values([1, 2], [[1, c], [c, 1]])
assert close((x-y).std_dev, math.sqrt(2-2*c), 1e-3), (x-y).std_dev
""")

################ U11
seed('u11-nominal-attribute', 'U11',
     [(CORE, """    if isinstance(x, AffineScalarFunc):
        return x.nominal_value
    else:
        return x
""", """    try:
        return x.nominal_value
    except AttributeError:
        return float(x)
""")],
     'nominal_value() of something that is not a number with uncertainty',
     'plain values are not returned unchanged',
     """
assert type(uncertainties.nominal_value(3)) is int
assert uncertainties.nominal_value(2**53+1) == 2**53+1
""")
seed('u11-components-tag', 'U11',
     [(CORE, "                error_components[variable] = abs(derivative*variable._std_dev)\n", "                error_components[variable] = derivative*variable._std_dev\n                if len(self.derivatives) > 1:\n                    error_components[variable] = abs(\n                        error_components[variable])\n")],
     'a function of a single variable with a negative derivative',
     'error_components() contains a negative error',
     """
x = ufloat(3, 0.5)
assert list((-2*x).error_components().values()) == [1]
""")
################ U12
seed('u12-step', 'U12',
     [(CORE, """        step = STEP_SIZE*abs(args_with_var[arg_ref])
        if not step:
""", """        step = STEP_SIZE*abs(args_with_var[arg_ref])
        if step < STEP_SIZE**2:
""")],
     'a numerical derivative at a small value (< 1e-8)',
     'the step is much larger than the value',
     """
f = uncertainties.wrap(lambda x: x**3)
x = ufloat(1e-10, 1e-12)
assert close(f(x).std_dev, 3e-20*1e-12, 1e-5), f(x)
""")
seed('u12-kwargs-cache', 'U12',
     [(CORE, """            derivative = derivatives_all_kwargs.setdefault(
                name,
                # Derivative never needed before:
                partial_derivative(f, name))
""", """            derivative = derivatives_all_kwargs.setdefault(
                name if name in derivatives_all_kwargs else None,
                # Derivative never needed before:
                partial_derivative(f, name))
""")],
     'a function with **kwargs, called with two different keyword parameters '
     'with uncertainty',
     'the derivative with respect to the first one is used for both',
     """
f = uncertainties.wrap(lambda **kwargs: 3*kwargs.get('a', 1)*kwargs.get('b', 1) + kwargs.get('b', 0))
x = ufloat(2, 0.1)
assert close(f(a=x, b=1.).derivatives[x], 3, 1e-6)
assert close(f(b=x, a=1.).derivatives[x], 4, 1e-6)
""")
seed('u12-result-type', 'U12',
     [(CORE, "        if not isinstance(f_nominal_value, FLOAT_LIKE_TYPES):\n", "        if not isinstance(f_nominal_value, float):\n")],
     'a wrapped function that returns an integer or a Fraction',
     'NotImplemented is returned instead of a number with uncertainty',
     """
f = uncertainties.wrap(lambda x: 3 if x > 0 else 4)
assert isinstance(f(ufloat(1, 0.1)), uncertainties.UFloat)
""")

################ U13
seed('u13-carry', 'U13',
     [(CORE, "    if fst_digit_rounded > fst_digit:\n", "    if fst_digit_rounded > fst_digit and num_signif_d == 1:\n")],
     'two or more significant digits required and an uncertainty that is '
     'rounded up to the next power of ten',
     'one digit too many',
     """
assert '{:.2uf}'.format(ufloat(10, 0.0999)) == '10.00+/-0.10', '{:.2uf}'.format(ufloat(10, 0.0999))
""")

################ U14
seed('u14-zero-comma', 'U14',
     [(CORE, """                fmt_prefix_e = '%s%d%s' % (
                    fmt_parts['zero'],
                    remaining_width if error_has_exp else width,
                    fmt_parts['comma'])
""", """                fmt_prefix_e = '%s%d' % (
                    fmt_parts['zero'],
                    remaining_width if error_has_exp else width)
""")],
     'zero padding, thousands separators and an uncertainty above 1000',
     'the uncertainty has no thousands separator',
     """
text = '{:012,.1f}'.format(ufloat(1234567., 12345.6))
assert text.split('+/-')[1].count(',') >= 1, text
""")
seed('u14-p-width', 'U14',
     [(CORE, "            elif 'p' in options:\n", "            elif 'p' in options and not fmt_parts['width']:\n")],
     'the p option with a width',
     'no parentheses',
     """
text = '{:10.1fp}'.format(ufloat(1, 0.5))
assert text.startswith('(') and text.endswith(')'), text
""")
seed('u14-percent-latex', 'U14',
     [(CORE, """        if 'L' in options:
            # % is a special character, in LaTeX: it must be escaped.
""", """        if print_type == 'latex' and 'S' not in options:
            # % is a special character, in LaTeX: it must be escaped.
""")],
     'percents in LaTeX with the shorthand notation',
     'the percent sign is not escaped',
     """
text = '{:.1u%SL}'.format(ufloat(0.5, 0.05))
assert r'\\%' in text, text
""")

################ U15
################ U16
seed('u16-inf-upper', 'U16',
     [(CORE, "uncert in {'nan', 'NAN', 'inf', 'INF'}:", "uncert in {'nan', 'NAN', 'inf'}:")],
     'the notation 1.2(INF)',
     'TypeError instead of an infinite uncertainty',
     """
assert ufloat_fromstr('1.2(INF)').std_dev == float('inf')
""")
seed('u16-anchor', 'U16',
     [(CORE, """    (?:[eE]|\\\\s*×\\\\s*10) (?P<exp_value>.*)
    $''', re.VERBOSE).match""", """    (?:[eE]|\\\\s*×\\\\s*10) (?P<exp_value>[-+\\\\d⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹]*)
    ''', re.VERBOSE).match""")],
     'garbage after the factored exponent',
     'invalid representations are accepted',
     """
try:
    x = ufloat_fromstr('(1.2+/-0.3)e5 m')
except ValueError:
    pass
else:
    raise SystemExit('accepted: %r' % x)
""")

################ U17
seed('u17-empty-tag', 'U17',
     [(CORE, """        if tag is not None:
            tag_arg = tag  # tag keyword used:
        else:
            tag_arg = std_dev  # 2 positional arguments form
""", """        # tag keyword, or 2 positional arguments form:
        tag_arg = std_dev or tag
""")],
     'the obsolete form with both a number and a tag',
     'the tag is replaced by the second argument',
     """
x = ufloat('3+/-0.1', 'second', tag='third')
assert x.tag == 'third', x.tag
""")
seed('u17-obsolete-tuple-tag', 'U17',
     [(CORE, "        return ufloat(representation[0], representation[1], tag)\n", "        return ufloat(*representation, **({'tag': tag} if len(\n            representation) == 2 and isinstance(tag, str) else {}))\n")],
     'an obsolete tuple call with a tag that is not a string',
     'the tag is lost',
     """
x = ufloat((3, 0.1), 5)
assert x.tag == 5
x = ufloat((3, 0.1), tag=('a', 1))
assert x.tag == ('a', 1)
""")

################ U18
seed('u18-otypes', 'U18',
     [(UNUMPY, "            else {'otypes': [object]})\n", "            else {'otypes': [object]} if function_name not in (\n                'fabs', 'ldexp', 'copysign') else {})\n")],
     'fabs(), ldexp() or copysign() of an array whose first element is a plain '
     'number',
     'TypeError for mixed arrays',
     """
arr = numpy.array([1.5, ufloat(-2, 0.1)], dtype=object)
r = unumpy.fabs(arr)
assert r[1].nominal_value == 2
""")
################ U19
seed('u19-nominal-otypes', 'U19',
     [(UNUMPY, """to_nominal_values = numpy.vectorize(
    uncert_core.nominal_value,
    otypes=[float],  # Because vectorize() has side effects (dtype setting)
""", """to_nominal_values = numpy.vectorize(
    uncert_core.nominal_value,
""")],
     'a mixed array whose first element is an integer',
     'the nominal values are truncated to integers',
     """
arr = numpy.array([1, ufloat(2.5, 0.1)], dtype=object)
assert unumpy.nominal_values(arr)[1] == 2.5
""")
seed('u19-rmul', 'U19',
     [(UNUMPY, """        if numeric.isscalar(other):
            return numeric.dot(self, other)
        else:
            return numeric.dot(other, self)  # The order is important
""", """        if numeric.ndim(other) < 2:
            return numeric.dot(self, other)
        else:
            return numeric.dot(other, self)  # The order is important
""")],
     'a list (or 1-D sequence) times a unumpy.matrix',
     'the product is calculated in the wrong order',
     """
m = unumpy.umatrix([[1, 2], [3, 4]], [[0.1, 0.1], [0.1, 0.1]])
r = [1, 10]*m
assert numpy.allclose(unumpy.nominal_values(r), [[31, 42]]), r
""")
seed('u19-array-shared', 'U19',
     [(UNUMPY, """    return (numpy.vectorize(
        # ! Looking up uncert_core.Variable beforehand through
        # '_Variable = uncert_core.Variable' does not result in a
        # significant speed up:
        lambda v, s: uncert_core.Variable(v, s), otypes=[object])
        (nominal_values, std_devs))
""", """    exact = {}  # Exact values are not duplicated (memory optimization)

    def variable(v, s):
        if s != 0:
            return uncert_core.Variable(v, s)
        return exact.setdefault(v, uncert_core.Variable(v, s))

    return numpy.vectorize(variable, otypes=[object])(
        nominal_values, std_devs)
""")],
     'an array with several equal exact values, whose standard deviations are '
     'later set',
     'equal exact elements are the same variable',
     """
arr = unumpy.uarray([1, 1, 2], [0, 0, 0.1])
assert arr[0] is not arr[1]
arr[0].std_dev = 0.5
assert arr[1].std_dev == 0
""")

################ U20
seed('u20-exact-misaligned', 'U20',
     [(UNUMPY, "            (array_derivative(array_version, var) for var in variables),\n", "            (array_derivative(array_version, var) for var in variables\n             if var.std_dev),\n")],
     'the inverse of a matrix that contains exact variables together with '
     'uncertain ones',
     'the derivatives are attributed to the wrong variables',
     """
for _ in range(20):
    m = unumpy.umatrix([[2, 1], [1, 3]], [[0.1, 0], [0, 0.2]])
    a, b, c, d = m.flat
    det = a*d-b*c
    r = m.I
    ref = [d/det, -b/det, -c/det, a/det]
    for (x, y) in zip(r.flat, ref):
        assert close(x.std_dev, y.std_dev, 1e-6), (x, y)
""")
seed('u20-term3', 'U20',
     [(UNUMPY, "    factor31 = numpy.eye(arr.shape[1])-AP\n", "    # The columns are generally independent\n    factor31 = (numpy.eye(arr.shape[1])-AP if arr.shape[0] < arr.shape[1]\n                else 0*AP)\n")],
     'a pseudo-inverse of a rank-deficient matrix whose rank does not change',
     'the uncertainties of the pseudo-inverse are wrong',
     """
x, y = ufloat(1, 0.1), ufloat(2, 0.1)
m = numpy.array([[x*1, x*y], [y*x, y*x*y]])   # rank 1
r = ulinalg.pinv(m, 1e-10)
def ref(x, y):
    return numpy.linalg.pinv(numpy.array([[x, x*y], [y*x, y*x*y]]), 1e-10)
h = 1e-6
num = (ref(1+h, 2)-ref(1-h, 2))/(2*h)
for (e, d) in zip(r.flat, num.flat):
    assert close(e.derivatives.get(x, 0.), d, 1e-4), (e.derivatives, d)
num = (ref(1, 2+h)-ref(1, 2-h))/(2*h)
for (e, d) in zip(r.flat, num.flat):
    assert close(e.derivatives.get(y, 0.), d, 1e-4), (e.derivatives, d)
""")
seed('u20-rcond', 'U20',
     [(UNUMPY, "    return pinv_with_uncert(array_like, rcond)\n", "    return pinv_with_uncert(array_like, max(rcond, pinv_default))\n")],
     'a pseudo-inverse with a cutoff smaller than the default one',
     'the cutoff is ignored',
     """
m = numpy.array([[1., 0.], [0., 1e-17]])
assert numpy.allclose(ulinalg.pinv(m, 1e-20), numpy.linalg.pinv(m, 1e-20), rtol=1e-6)
""")
################ U21
FIXU = FIX + 'fix_ufloat.py'

################ U22
seed('u22-recursive', 'U22',
     [(CORE, """                    derivatives[var] += main_factor*factor
""", """                    derivatives[var] += factor*main_factor
"""),
      (CORE, """                    if expr not in combos:
""", """                    if expr not in combos:
                        # Function of a single number: its derivatives
                        # are cached:
                        if (not expr.expanded()
                            and len(expr.linear_combo) == 1):
                            expr.expand()
                            expr.linear_combo.default_factory = None
""")],
     'a long chain of operations with a single uncertain operand',
     'RecursionError for about a thousand successive operations',
     """
x = ufloat(1, 0.1)
r = x
for _ in range(5000):
    r = r + 1
assert close(r.std_dev, 0.1)
""")
seed('u22-quadratic', 'U22',
     [(CORE, """        self._nominal_value = float(nominal_value)
""", """        self._nominal_value = float(nominal_value)

        if not linear_part.expanded() and len(linear_part.linear_combo) > 1:
            linear_part.expand()
            linear_part.linear_combo.default_factory = None
""")],
     'a long sum of independent variables',
     'the calculation time and memory become quadratic',
     """
import time
def duration(n):
    xs = [ufloat(1, 0.1) for _ in range(n)]
    t = time.process_time()
    s = 0
    for x in xs:
        s = s + x
    s.std_dev
    return time.process_time()-t
def best(n):
    return min(duration(n) for _ in range(3))
ratios = []
for _ in range(3):
    ratios.append(best(2000)/max(best(125), 1e-5))  # 16, or 256
    if ratios[-1] < 60:
        break
else:
    raise AssertionError('too slow: %s' % ratios)
""")

FIXDEMO = """
from lib2to3.refactor import RefactoringTool, get_fixers_from_package
tool = RefactoringTool(get_fixers_from_package('uncertainties.lib1to2.fixes'))
for (old, new) in CASES:
    got = str(tool.refactor_string(old+'\\n', 'x'))
    assert got == new+'\\n', (old, got)
"""

################ Second series
seed('u11-skip-zero-factor', 'U11',
     [(CORE, """                    derivatives[var] += main_factor*factor
""", """                    derivatives[var] += factor*main_factor
"""),
      (CORE, """                    # The main_factor is applied to expr:
""", """                    if not factor and main_expr is not self:
                        num_terms[expr] -= 1
                        if not num_terms[expr] and expr in main_factors:
                            terms.append(expr)
                        continue

                    # The main_factor is applied to expr:
""")],
     'an intermediate result in which a variable has a null derivative',
     'error_components() and derivatives lack the variables that enter with a '
     'null coefficient below the top level',
     """
x = ufloat(1, 0.1)
y = ufloat(2, 0.1)
r = (x*0 + y) + 1
assert x in r.error_components() and x in r.derivatives
""")
seed('u02-negative-zero', 'U02',
     [(CORE, "        self._nominal_value = float(nominal_value)\n",
       "        # Uniform representation of a null value:\n"
       "        self._nominal_value = float(nominal_value) or 0.0\n")],
     'a negative zero as nominal value',
     'functions with a branch cut (atan2, copysign) see a positive zero',
     """
r = umath.atan2(ufloat(-0.0, 0.1), -1.0)
assert r.nominal_value == math.atan2(-0.0, -1.0), r
""")
seed('u06-sum-cache', 'U06',
     [(CORE, """    __slots__ = ('_nominal_value', '_linear_part')
""", """    __slots__ = ('_nominal_value', '_linear_part', '_components')
"""),
      (CORE, """        # Calculation of the variance:
        error_components = {}

        for (variable, derivative) in self.derivatives.items():
""", """        # The components only change with the standard deviations:
        key = sum([variable._std_dev for variable in self.derivatives])
        try:
            (cached_key, error_components) = self._components
        except AttributeError:
            pass
        else:
            if cached_key == key:
                return dict(error_components)

        # Calculation of the variance:
        error_components = {}
        self._components = (key, error_components)

        for (variable, derivative) in self.derivatives.items():
""")],
     'standard deviations that are changed while their sum stays the same',
     'the error components are those of the previous standard deviations',
     """
x = ufloat(1, 1)
y = ufloat(2, 3)
r = x + 10*y
assert close(r.std_dev, math.sqrt(1+900))
x.std_dev = 3
y.std_dev = 1
assert close(r.std_dev, math.sqrt(9+100)), r
""")
seed('u07-grandparent-slots', 'U07',
     [(CORE, "        for cls in type(self).mro():\n",
       "        for cls in type(self).mro()[:3]:\n")],
     'pickling an instance of a subclass of a subclass of Variable',
     'the value is lost',
     """
class A(core.Variable):
    __slots__ = 'a'
class B(A):
    __slots__ = 'b'
x = B(1, 0.1)
x.a, x.b = 5, 6
y = pickle.loads(pickle.dumps(x))
assert (y.n, y.s, y.a, y.b) == (1, 0.1, 5, 6)
""")
seed('u07-copy-empty-tag', 'U07',
     [(CORE, "        return Variable(self.nominal_value, self.std_dev, self.tag)\n",
       "        return Variable(self.nominal_value, self.std_dev,\n"
       "                        str(self.tag) if self.tag else None)\n")],
     'copying a variable whose tag is empty or not a string',
     'the tag of the copy is not the tag of the original',
     """
for tag in ('', 0, 1, ('a', 2)):
    x = ufloat(1, 0.1, tag)
    assert copy.copy(x).tag == tag and copy.deepcopy(x).tag == tag
""")
seed('u07-deepcopy-exact', 'U07',
     [(CORE, """        return AffineScalarFunc(self._nominal_value,
                                copy.deepcopy(self._linear_part))
""", """        if not self.std_dev:  # Constant
            return AffineScalarFunc(self._nominal_value, self._linear_part)
        return AffineScalarFunc(self._nominal_value,
                                copy.deepcopy(self._linear_part))
""")],
     'a deep copy of a result of exact variables that are given an uncertainty '
     'afterwards',
     'the deep copy follows the variables of the original',
     """
x = ufloat(1, 0)
y = 2*x
z = copy.deepcopy(y)
x.std_dev = 1
assert z.std_dev == 0 and (y-z).std_dev == 2
""")
seed('u08-error-components', 'U08',
     [(CORE, """    difference = self - y_with_uncert
    # Only an exact zero difference means that self and y are
    # equal numerically:
    return not(difference._nominal_value or difference.std_dev)
""", """    if self._nominal_value != y_with_uncert._nominal_value:
        return False
    # The same value and dependence on the variables are needed:
    errors = [
        dict((var, error) for (var, error) in num.error_components().items()
             if error)
        for num in (self, y_with_uncert)]
    return errors[0] == errors[1]
""")],
     'numbers of the same value and opposite derivatives',
     'x == 2a-x when a is the nominal value of x',
     """
x = ufloat(3, 0.1)
assert not (x == 6-x) and x != 6-x
assert x == 6-(6-x)
""")
seed('u13-pdg-round', 'U13',
     [(CORE, "    digits = int(std_dev/10.**exponent*factor)  # int rounds towards zero\n",
       "    digits = int(round(std_dev/10.**exponent*factor, 1))\n")],
     'an uncertainty just below 355 or 950 (0.35499, 0.94999)',
     'the number of digits does not follow the Particle Data Group rules',
     """
assert '%s' % ufloat(1, 0.035499) == '1.000+/-0.035', ufloat(1, 0.035499)
assert '%s' % ufloat(1, 0.094997) == '1.00+/-0.09', ufloat(1, 0.094997)
""")
seed('u13-exp-unrounded', 'U13',
     [(CORE, """                # The number of significant digits of the reference value
                # rounded at digits_limit is exponent-digits_limit+1:
                if -4 <= common_exp < common_exp-digits_limit+1:
""", """                # The number of significant digits of the reference value
                # rounded at digits_limit is exponent-digits_limit+1:
                if -4 <= first_digit(exp_ref_value) < common_exp-digits_limit+1:
""")],
     'a value that is rounded up to 1e-4',
     'an exponent is used although the displayed value does not need one',
     """
x = ufloat(0.000099996, 0.0000001)
assert '%s' % format(x, '.1u') == '0.0001000+/-0.0000001', format(x, '.1u')
""")
seed('u14-shorthand-zero-width', 'U14',
     [(CORE, "            nom_val_width = max(int(fmt_parts['width']) - len(value_end), 0)\n",
       "            nom_val_width = max(int(fmt_parts['width'])\n"
       "                                - len('(%s)' % uncert_str) - len(exp_str),\n"
       "                                0)\n")],
     'zero padding of a percentage in the shorthand notation',
     'the result is wider than asked for',
     """
r = format(ufloat(0.5, 0.01), '020S%'[:3]+'%S')
assert len(r) == 20, r
""")
seed('u14-error-exp-zero', 'U14',
     [(CORE, "        error_has_exp = not any_exp_factored and not special_error\n",
       "        error_has_exp = (not any_exp_factored\n"
       "                         and not (error_main == 0 or isnan(error_main)))\n")],
     'an infinite uncertainty with a width and an exponent',
     'an exponent is added to an infinite uncertainty',
     """
r = format(ufloat(1e20, float('inf')), '10e')
assert 'infe' not in r, r
""")
seed('u14-align-fill', 'U14',
     [(CORE, """            value_str = robust_align(
                value_str, fmt_parts['fill'], fmt_parts['align'] or '>',
                fmt_parts['width'])
""", """            value_str = robust_align(
                value_str, fmt_parts['fill'].strip(), fmt_parts['align'] or '>',
                fmt_parts['width'].lstrip('0'))
""")],
     'a tab as fill character in shorthand', 'spaces are used',
     """
r = format(ufloat(1.0, 0.1), '\\t>12S')
assert r == '\\t'*(12-len(r.strip())) + r.strip() and len(r) == 12, repr(r)
""")
seed('u16-uncert-decimals', 'U16',
     [(CORE, "    if uncert_dec is not None or uncert in {'nan', 'NAN', 'inf', 'INF'}:\n",
       "    if uncert and ('.' in uncert or uncert in {'nan', 'NAN', 'inf', 'INF'}\n"
       "                   or len(uncert) > len(main.replace('.', ''))):\n")],
     'a shorthand uncertainty with more digits than the value',
     '1.2(345) is read as 1.2+/-345',
     """
assert close(ufloat_fromstr('1.2(345)').s, 34.5)
""")
seed('u16-lstrip-paren', 'U16',
     [(CORE, """        representation = representation[1:-1]

    match = NUMBER""", """        representation = representation.strip('()')

    match = NUMBER""")],
     'a shorthand form in parentheses: (1.2(3))',
     'not read', """
x = ufloat_fromstr('(1.2(3))')
assert close(x.s, 0.3)
""")
seed('u06-drop-exact', 'U06',
     [(CORE, """                    derivatives[var] += main_factor*factor
""", """                    if len(main_combo) > 1 and not var._std_dev:
                        # Exact variable of a calculated result: no
                        # contribution
                        derivatives[var] += 0.
                    else:
                        derivatives[var] += main_factor*factor
""")],
     'a variable that is exact when a result that depends on it is evaluated, '
     'through another evaluated result of several variables, and that is given '
     'an uncertainty later',
     'the derivative with respect to the variable is 0',
     """
x = ufloat(1, 0)
y = ufloat(2, 1)
s = x + y
assert s.std_dev == 1
r = 2*s
assert r.std_dev == 2
x.std_dev = 1
y.std_dev = 0
assert r.std_dev == 2, r
""")
seed('u08-le-difference', 'U08',
     [(CORE, """    return (lt_on_aff_funcs(self, y_with_uncert)
            or eq_on_aff_funcs(self, y_with_uncert))
""", """    # Same nominal value: only equal numbers
    return (self._nominal_value <= y_with_uncert._nominal_value
            and (self._nominal_value < y_with_uncert._nominal_value
                 or self is y_with_uncert
                 or self.std_dev == y_with_uncert.std_dev == 0
                 or self.derivatives == y_with_uncert.derivatives))
""")],
     'equal numbers with different sets of variables of null derivative, or '
     'of exact variables',
     'x <= y is False although x == y',
     """
x = ufloat(1, 0.1)
y = ufloat(2, 0.1)
z = x + 0*y
assert x == z and x <= z and z <= x
""")
seed('u10-std-devs-float32', 'U10',
     [(CORE, """        (nominal_values, std_devs) = numpy.transpose(values_with_std_dev)
""", """        (nominal_values, std_devs) = (
            numpy.array([float(v) for (v, _) in values_with_std_dev]),
            numpy.array([s for (_, s) in values_with_std_dev]))
        std_devs = numpy.where(numpy.isfinite(1/numpy.maximum(
            std_devs, 1e-300)**2), std_devs, 0)
""")],
     'standard deviations below 1e-154', 'they are set to 0', """
(a,) = uncertainties.correlated_values_norm([(1, 1e-160)], [[1]])
assert close(a.s, 1e-160)
""")
seed('u13-signif-no-carry', 'U13',
     [(CORE, "    if fst_digit_rounded > fst_digit:\n", "    if fst_digit_rounded > fst_digit and num_signif_d < 10:\n")],
     'ten significant digits or more, with a carry', 'one digit too many', """
r = format(ufloat(10, 0.99999999999), '.10u')
assert r.endswith('1.000000000'), r
""")
seed('u15-pretty-nested', 'U15',
     [(CORE, "PRETTY_PRINT_MATCH = re.compile(u'(.*?)\\\\s*×\\\\s*10(.*)').match",
       "PRETTY_PRINT_MATCH = re.compile(u'([-\\\\d. ]*?)\\\\s*×\\\\s*10(.*)').match")],
     'a pretty-printed number with a plus sign, an exponent and a width',
     'the representation cannot be read', """
x = ufloat(1.5e20, 1e18)
r = format(x, '+10.2eP')
assert ufloat_fromstr(r).n == 1.5e20, r
""")
seed('u16-global-exp-greedy', 'U16',
     [(CORE, """    \\\\(
    (?P<simple_num_with_uncert>.*)
    \\\\)
    (?:[eE]|""", """    \\\\(
    (?P<simple_num_with_uncert>[^()]*)
    \\\\)
    (?:[eE]|""")],
     'a shorthand notation in parentheses with a factored exponent: (1.2(3))e5',
     'rejected', """
assert close(ufloat_fromstr('(1.2(3))e5').s, 3e4)
""")
seed('u17-bool-none', 'U17',
     [(CORE, "        value = float(value)\n", "        if not isinstance(value, float):\n            value = float(str(value))\n")],
     'booleans, fractions', 'rejected or wrong value', """
from fractions import Fraction
assert ufloat(Fraction(1, 4), 0.1).n == 0.25 and ufloat(True, 0.1).n == 1
""")
seed('u19-mul-constant', 'U19',
     [(UNUMPY, """        if numeric.isscalar(other):
            return numeric.dot(self, other)
""", """        if numeric.isscalar(other):
            return self if other == 1 else numeric.dot(self, other)
""")],
     'the product of 1 and a matrix, that is then modified in place',
     'the original matrix is modified too', """
m = unumpy.umatrix([[1., 2.]], [[0.1, 0.1]])
n = 1*m
n[0, 0] = 5
assert m[0, 0].n == 1
""")
seed('u20-derivative-zero', 'U20',
     [(UNUMPY, """                if derivative_value:
                    derivative_dict[var] = derivative_value

        # An array of numbers""", """                if abs(derivative_value) > 1e-20:
                    derivative_dict[var] = derivative_value

        # An array of numbers""")],
     'the inverse of a matrix of large numbers (> 1e10)',
     'it has no uncertainty', """
m = unumpy.umatrix([[1e12, 0], [0, 2e12]], [[1e11, 0], [0, 1e11]])
assert close(m.I[0, 0].s, 1e-13)
""")
seed('u21-raw-string', 'U21',
     [(FIX+'fix_ufloat.py', """            new_func_name = 'ufloat_fromstr'

            # New arguments:
            new_args=[results['string'].clone()]
""", """            new_func_name = 'ufloat_fromstr'

            # New arguments (Unicode strings do not need any prefix):
            new_string = results['string'].clone()
            new_string.value = new_string.value.lstrip('urbURB')
            new_args=[new_string]
""")],
     'a string with a prefix, like r"..." or u"..."', 'the string prefix is lost',
     "CASES = [('ufloat(u\"1.2(3)\")', 'ufloat_fromstr(u\"1.2(3)\")')]" + FIXDEMO)
seed('u22-expand-children', 'U22',
     [(CORE, """                    derivatives[var] += main_factor*factor
""", """                    derivatives[var] += factor*main_factor
"""),
      (CORE, """                    if expr not in combos:
""", """                    if expr not in combos:
                        # The intermediate results are also expanded:
                        if not expr.expanded() and len(expr.linear_combo) > 1:
                            expr.expand()
""")],
     'deeply nested calculations with two arguments', 'RecursionError', """
x = ufloat(1, 0.1)
s = x
for i in range(5000):
    s = s + x
assert close(s.std_dev, 500.1)
""")

################ Third series
seed('u02-degrees-constant', 'U02',
     [(UMATH, "    'degrees': [lambda x: math.degrees(1)],\n", "    'degrees': [lambda x: 57.29578],\n")],
     'the derivative of degrees() examined to better than 1e-8',
     'the derivative is truncated', """
x = ufloat(1, 0.1)
assert close(umath.degrees(x).derivatives[x], 180/math.pi, 1e-14)
""")
seed('u04-rpow-imag', 'U04',
     [(CORE, "            if isinstance(value, complex):\n", "            if isinstance(value, complex) and abs(value.imag) > 1e-12:\n")],
     'a power of a negative number whose complex value is tiny, or almost real',
     'TypeError instead of ValueError', """
for f in (lambda: ufloat(-1e-20, 1e-21)**1.5, lambda: (-1e-20)**ufloat(1.5, 1)):
    try:
        f()
    except ValueError:
        pass
    else:
        raise SystemExit('no exception')
""")
seed('u05-residues', 'U05',
     [(CORE, "        self.linear_combo = derivatives\n", """        # Rounding errors are removed:
        if len(derivatives) > 1:
            for (var, factor) in derivatives.items():
                if -1e-14 < factor < 1e-14:
                    derivatives[var] = 0.

        self.linear_combo = derivatives
""")],
     'results of several variables with very small derivatives',
     'small derivatives are replaced by 0', """
x, y = ufloat(1, 0.1), ufloat(1, 0.1)
r = 1e-15*x - 1e-15*y
assert close(r.std_dev, 1e-16*math.sqrt(2)), r.std_dev
""")
seed('u06-setter-close', 'U06',
     [(CORE, "        if std_dev < 0:  # False for NaN\n", """        try:
            if abs(std_dev-self._std_dev) < 1e-12:  # Unchanged
                return
        except AttributeError:  # New variable
            pass

        if std_dev < 0:  # False for NaN
""" )],
     'small standard deviations that are modified', 'the change is ignored', """
x = ufloat(1e-15, 1e-16)
y = 2*x
x.std_dev = 3e-16
assert close(y.std_dev, 6e-16)
""")
seed('u08-eq-nominal-first', 'U08',
     [(CORE, "    difference = self - y_with_uncert\n", """    if self._nominal_value == y_with_uncert._nominal_value == 0:
        return not (self.std_dev or y_with_uncert.std_dev)

    difference = self - y_with_uncert
""")],
     'comparison of two correlated null numbers', 'x == x is false', """
x = ufloat(0, 0.1)
y = ufloat(1, 0.1)
assert x == x and (x*1) == x and not (x != x) and x <= x
""")
seed('u09-float32', 'U09',
     [(CORE, "        cov_mat = numpy.array(covariance_matrix(nums_with_uncert))\n", "        cov_mat = numpy.array(covariance_matrix(nums_with_uncert),\n                              dtype=numpy.float32)\n")],
     'the correlation matrix, to better than 1e-7', 'loss of precision', """
x, y = ufloat(1, 0.1), ufloat(1, 0.3)
c = uncertainties.correlation_matrix([x, x+y])
assert close(c[0, 1], 0.1/math.hypot(0.1, 0.3), 1e-13), c
""")
seed('u09-noise', 'U09',
     [(CORE, "        covariance_matrix.append(coefs_expr1)\n", """        # Rounding errors are removed:
        covariance_matrix.append([
            coef if abs(coef) > 1e-16 else 0. for coef in coefs_expr1])
""")],
     'small numbers (with standard deviations below 1e-8)',
     'their variances and covariances are null', """
x = ufloat(1e-8, 1e-9)
assert close(uncertainties.covariance_matrix([x, 2*x])[1][0], 2e-18)
""")
seed('u10-negligible', 'U10',
     [(CORE, "        variances[variances < 0] = 0.\n", "        variances[variances < 1e-8*variances.max()] = 0.\n")],
     'strongly correlated values',
     'the difference of strongly correlated values has a null uncertainty', """
r = 1 - 1e-10
c = [[1, r], [r, 1]]
x, y = uncertainties.correlated_values([1, 2], c)
assert close((x-y).std_dev, math.sqrt(2e-10), 1e-5), (x-y).std_dev
""")
seed('u14-sign-space', 'U14',
     [(CORE, "            (?P<sign>[-+ ]?)\n", "            (?P<sign>[-+]?)\\s*\n")],
     'the sign option " "', 'no space in front of positive values', """
assert format(ufloat(3.14, 0.1), ' .1f') == ' 3.1+/-0.1'
""")
seed('u15-exp-plus', 'U15',
     [(CORE, "        exp_str = EXP_LETTERS[main_pres_type]+'%+03d' % common_exp\n", "        exp_str = EXP_LETTERS[main_pres_type]+('%+03d' % common_exp)[:3]\n")],
     'exponents of three digits', 'the exponent is truncated', """
assert str(ufloat(1e150, 1e149)) == '(1.00+/-0.10)e+150'
""")
seed('u16-leading-dot', 'U16',
     [(CORE, "POSITIVE_DECIMAL_UNSIGNED_OR_NON_FINITE = r'((\\d*)(\\.\\d*)?|nan|NAN|inf|INF)'\n", "POSITIVE_DECIMAL_UNSIGNED_OR_NON_FINITE = r'((\\d+)(\\.\\d*)?|nan|NAN|inf|INF)'\n")],
     'a number or an uncertainty without digits before the point, in '
     'shorthand notation', 'valid strings are rejected', """
x = ufloat_fromstr('12.3(.4)e-5')
assert close(x.std_dev, 0.4e-5), x
""")
seed('u17-fraction', 'U17',
     [(CORE, "        self._std_dev = CallableStdDev(std_dev)\n", "        self._std_dev = CallableStdDev(std_dev if type(std_dev) is not int else abs(std_dev) % 2**63)\n")],
     'huge integer standard deviations', 'the value is changed', """
assert ufloat(1, 2**64).std_dev == 2.**64
""")
seed('u18-excluded', 'U18',
     [(UNUMPY, "                            **otypes))\n", "                            excluded=[1] if function_name == 'ldexp' else None,\n                            **otypes))\n")],
     'ldexp() of an array with an array of exponents', 'TypeError', """
a = unumpy.ldexp(unumpy.uarray([1, 2], [0.1, 0.2]), [1, 2])
assert [x.n for x in a] == [2, 8]
""")
seed('u20-term1-square', 'U20',
     [(UNUMPY, "        yield term1+term2+term3\n", "        yield term1+term2 if arr.shape[0] >= arr.shape[1] else term1+term3\n")],
     'the pseudo-inverse of a singular matrix', 'wrong derivatives', """
x = ufloat(1, 0.1)
m = numpy.array([[x, 0], [2*x, 0]])
r = ulinalg.pinv(m)
assert close(r[0, 0].n, 0.2)
y = ufloat(0, 0.1)
p = numpy.array([[1, y], [0, 0]])
r = ulinalg.pinv(p)
# The pseudo-inverse of (1, y) is (1, y)/(1+y**2):
assert close(r[1, 0].derivatives.get(y, 0.), 1), r[1, 0].derivatives
""")
seed('u20-skip-exact', 'U20',
     [(UNUMPY, "                variables |= set(element.derivatives.keys())\n\n        array_nominal", "                variables |= set(var for var in element.derivatives\n                                 if var.std_dev)\n\n        array_nominal")],
     'a matrix with exact elements that are given an uncertainty later',
     'the inverse does not depend on them', """
x = ufloat(2, 0)
r = ulinalg.inv(numpy.array([[x, 1], [0, 1]]))
x.std_dev = 0.1
assert close(r[0, 0].std_dev, 0.025)
""")
seed('u22-repr-recursive', 'U22',
     [(CORE, "        self._nominal_value = float(nominal_value)\n", "        self._nominal_value = float(nominal_value)\n\n        # Memory optimization: long expressions are expanded:\n        if (isinstance(linear_part.linear_combo, list)\n            and len(linear_part.linear_combo) > 1):\n            linear_part.expand()\n            linear_part.linear_combo.default_factory = None\n")],
     'sums of many variables', 'the time is quadratic', """
import time
def t(n):
    xs = [ufloat(1, 0.1) for _ in range(n)]
    start = time.process_time()
    s = sum(xs)
    s.std_dev
    return time.process_time()-start
t(200)
a, b = min(t(400) for _ in range(3)), min(t(3200) for _ in range(2))
assert b < 30*a, (a, b)
""")
seed('u23-shared-kwargs', 'U23',
     [(CORE, "        kwargs_uncert_values = {}\n", "        kwargs_uncert_values.clear()\n"),
      (CORE, "    # It is easier to work with f_with_affine_output, which represents\n", "    # Optimization: created only once\n    kwargs_uncert_values = {}\n\n    # It is easier to work with f_with_affine_output, which represents\n")],
     'a wrapped function called with keyword arguments in several threads (or '
     'that calls itself)', 'the arguments of the calls are mixed up', """
def f(a, n=0):
    # (Recursive: like another thread)
    if n:
        g(a=ufloat(5, 1), n=0)
    return 2*a
g = uncertainties.wrap(f)
x = ufloat(1, 0.1)
r = g(a=x, n=1)
assert list(r.derivatives) == [x], r.derivatives
""")
seed('u23-setter', 'U23',
     [(CORE, """        if std_dev < 0:  # False for NaN
            raise NegativeStdDev("The standard deviation cannot be negative")

        self._std_dev = CallableStdDev(std_dev)
""", """        self._std_dev = CallableStdDev(0)

        if std_dev < 0:  # False for NaN
            raise NegativeStdDev("The standard deviation cannot be negative")

        self._std_dev = CallableStdDev(std_dev)
""")],
     'an assignment of a standard deviation that is interrupted, or negative',
     'the standard deviation becomes 0', """
x = ufloat(1, 0.1)
try:
    x.std_dev = -1
except Exception:
    pass
assert x.std_dev == 0.1
""")
seed('u01-floordiv', 'U01',
     [(CORE, "        'pow': no_complex_result(float.__pow__),\n", "        'floordiv': lambda x, y: float(math.floor(x/y)),\n        'pow': no_complex_result(float.__pow__),\n")],
     'a floor division by a number that is not exactly representable',
     'the nominal value is not that of floats', """
assert (ufloat(1, 0.1)//0.1).n == 9, ufloat(1, 0.1)//0.1
""")
seed('u23-early', 'U23',
     [(CORE, "                    derivatives[var] += main_factor*factor\n\n            else:  # Non-expanded form\n", "                    derivatives[var] += factor*main_factor\n\n            else:  # Non-expanded form\n                if main_expr is self:\n                    # The original terms are not needed anymore:\n                    self.linear_combo = derivatives\n")],
     'the first reading of a result interrupted by Ctrl-C, or done by two '
     'threads',
     'the result only depends on some of its variables', """
class Stop(KeyboardInterrupt):
    pass
for n in range(1, 150):
    x, y = ufloat(1, 0.1), ufloat(2, 0.1)
    r = x + 2*y
    left = [n]
    def trace(frame, event, arg):
        if frame.f_code.co_name == 'expand':
            left[0] -= 1
            if left[0] == 0:
                raise Stop
        return trace
    sys.settrace(trace)
    try:
        r.std_dev
    except Stop:
        pass
    finally:
        sys.settrace(None)
    assert close(r.std_dev, 0.1*math.sqrt(5)), (n, r)
""")
seed('u24-fraction', 'U24',
     [(CORE, """except ImportError:
    pass
else:

    # NumPy numbers do not depend on Variable objects:
""", """except ImportError:
    # Faster than numbers.Number:
    FLOAT_LIKE_TYPES = (float, int)
    CONSTANT_TYPES = FLOAT_LIKE_TYPES+(complex,)
else:

    # NumPy numbers do not depend on Variable objects:
""")],
     'wrapped functions that return a Fraction, or comparison with a Fraction, '
     'without NumPy', 'NotImplemented is returned', """
import subprocess
code = '''
import sys
sys.modules['numpy'] = None
sys.dont_write_bytecode = True
import uncertainties
from fractions import Fraction
f = uncertainties.wrap(lambda x: Fraction(1, 2)*int(x))
assert f(uncertainties.ufloat(2, 0.1)).n == 1
assert uncertainties.ufloat(0.5, 0) == Fraction(1, 2)
'''
assert subprocess.call([sys.executable, '-B', '-c', code]) == 0
""")
seed('u24-numpy-nan', 'U24',
     [(CORE, "        elif isnan(error_main):\n            uncert_str", "        elif numpy.isnan(error_main):\n            uncert_str")],
     'the shorthand notation without NumPy', 'NameError', """
import subprocess
code = '''
import sys
sys.modules['numpy'] = None
sys.dont_write_bytecode = True
import uncertainties
assert format(uncertainties.ufloat(1, 0.1), 'S') == '1.00(10)'
'''
assert subprocess.call([sys.executable, '-B', '-c', code]) == 0
""")
seed('u24-assert', 'U24',
     [(CORE, "            self._linear_part.expand()\n", "            assert self._linear_part.expand() is None\n")],
     'python -O', 'AttributeError when a result is read', """
import subprocess
code = '''
import sys
sys.dont_write_bytecode = True
import uncertainties
x = uncertainties.ufloat(1, 0.1)
(2*x).std_dev
'''
assert subprocess.call([sys.executable, '-O', '-B', '-c', code]) == 0
""")


################ Fourth series
seed('u03-sqrt-zero', 'U03',
     [(UMATH, "    'sqrt': [lambda x: 0.5/math.sqrt(x)],\n", "    'sqrt': [lambda x: 0.5/math.sqrt(x) if x else float('inf')],\n")],
     'square root of an uncertain zero', 'the uncertainty is infinite, not NaN',
     """
assert math.isnan(umath.sqrt(ufloat(0, 0.1)).std_dev)
""")
seed('u17-fromstr-cache', 'U17',
     [(CORE, "    try:\n        (nominal_value, std_dev) = str_to_number_with_uncert(\n            representation.strip())\n    except OverflowError:  # Exponent or digits out of the range of floats\n        raise ValueError(cannot_parse_ufloat_msg_pat % representation)\n\n    return ufloat(nominal_value, std_dev, tag)\n",
       "    key = (representation, tag)\n    if key in _parsed:\n        return _parsed[key]\n    try:\n        (nominal_value, std_dev) = str_to_number_with_uncert(\n            representation.strip())\n    except OverflowError:  # Exponent or digits out of the range of floats\n        raise ValueError(cannot_parse_ufloat_msg_pat % representation)\n\n    if tag is not None:\n        _parsed[key] = result = ufloat(nominal_value, std_dev, tag=tag)\n        return result\n    return ufloat(nominal_value, std_dev, tag)\n\n_parsed = {}\n")],
     'two numbers created from the same string with the same tag',
     'the two numbers are the same variable instead of independent variables',
     """
a = ufloat_fromstr('1.2+/-0.3', 'length')
b = ufloat_fromstr('1.2+/-0.3', 'length')
assert abs((a-b).std_dev - 0.3*2**.5) < 1e-9
""")
seed('u07-pickle-zero', 'U07',
     [(CORE, "        return (self.linear_combo,)\n", "        return ({var: coef for (var, coef) in self.linear_combo.items()\n                 if coef == coef},)\n")],
     'pickling a result with an undefined (NaN) derivative',
     'the copy loses its NaN uncertainty', """
x = ufloat(0, 0.1)
r = umath.sqrt(x)
assert math.isnan(r.std_dev)
assert math.isnan(pickle.loads(pickle.dumps(r)).std_dev)
""")
seed('u14-option-order', 'U24',
     [(CORE, "        if 'P' in options:\n            # Unicode has priority over LaTeX, so that users with a\n            # Unicode-compatible LaTeX source can use ±:\n            pm_symbol = u'±'\n        elif 'L' in options:\n            pm_symbol = r' \\pm '\n        else:\n            pm_symbol = '+/-'\n",
       "        pm_symbol = '+/-'\n        for option in options:\n            pm_symbol = {'P': u'±', 'L': r' \\pm '}.get(option, pm_symbol)\n")],
     'both the P and L options, and some values of PYTHONHASHSEED',
     'the symbol depends on the hash seed of the process', """
import subprocess
outs = set()
for k in range(1, 12):
    outs.add(subprocess.run([sys.executable, '-B', '-c',
        "from uncertainties import ufloat; print(ascii('{:.1fLP}'.format(ufloat(1.5, 0.2))))"],
        env=dict(os.environ, PYTHONHASHSEED=str(k)), stdout=subprocess.PIPE,
        text=True).stdout)
assert len(outs) == 1, outs
""")
seed('u23-shared-options', 'U23',
     [(CORE, "        options = set(match.group('options'))\n", "        options = _OPTIONS\n        options.clear()\n        options.update(match.group('options'))\n"),
      (CORE, "def first_digit(value):\n", "# Options of the format being handled:\n_OPTIONS = set()\n\ndef first_digit(value):\n")],
     'formatting numbers in several threads',
     'the options of another number are used', """
import threading
sys.setswitchinterval(1e-6)
x = ufloat(1.5, 0.2)
bad = []
end = time.time()+20 if 'time' in globals() else None
import time
end = time.time()+20
def work(spec):
    want = {'S': '1.50(20)', 'P': '1.50±0.20', 'L': '1.50 \\\\pm 0.20', '': '1.50+/-0.20'}[spec]
    while time.time() < end and not bad:
        got = ('{:.2u'+spec+'}').format(x)
        if got != want:
            bad.append((spec, got))
ts = [threading.Thread(target=work, args=(s,)) for s in ('S', 'P', 'L', '')]
end = time.time()+15
for t in ts: t.start()
for t in ts: t.join()
assert not bad, bad
""")
seed('u22-deepcopy', 'U22',
     [(CORE, "        return AffineScalarFunc(self._nominal_value,\n                                copy.deepcopy(self._linear_part))\n",
       "        def copied(part):\n            if part.expanded():\n                return copy.deepcopy(part)\n            return LinearCombination([(coef, copied(expr)) for (coef, expr)\n                                      in part.linear_combo])\n\n        if len(self._linear_part.linear_combo) == 1:\n            # No correlation to be kept between several terms:\n            return AffineScalarFunc(self._nominal_value,\n                                    copied(self._linear_part))\n        return AffineScalarFunc(self._nominal_value,\n                                copy.deepcopy(self._linear_part))\n")],
     'deep copy of a result of thousands of successive operations, not yet '
     'evaluated', 'RecursionError', """
x = ufloat(1, 0.1)
for i in range(3000):
    x = -x
copy.deepcopy(x).std_dev
""")
seed('u07-deepcopy-parts', 'U07',
     [(CORE, "        return AffineScalarFunc(self._nominal_value,\n                                copy.deepcopy(self._linear_part))\n",
       "        if self._linear_part.expanded():\n            return AffineScalarFunc(self._nominal_value,\n                                    copy.deepcopy(self._linear_part))\n        # The terms are not evaluated:\n        return AffineScalarFunc(self._nominal_value, LinearCombination(\n            [(coef, copy.deepcopy(expr)) for (coef, expr)\n             in self._linear_part.linear_combo]))\n")],
     'deep copy of a result not evaluated yet in which a variable enters '
     'through several terms', 'the copy considers the terms as independent', """
x = ufloat(1, 0.1)
r = copy.deepcopy(x - 0.5*x)
assert abs(r.std_dev - 0.05) < 1e-9, r
""")

################ U25
seed('u25-min-shift', 'U25',
     [(UNUMPY, "            shift_var = max(var._std_dev/1e5, 1e-8*abs(var._nominal_value))\n",
       "            shift_var = var._std_dev/1e5 or 1e-8*abs(var._nominal_value)\n")],
     'an uncertainty that is very small with respect to its value',
     'the numerical derivative is wrong, or zero', """
x = ufloat(1., 1e-13)
f = uncertainties.unumpy.core.wrap_array_func(lambda a: a**2)
r = f(numpy.array([x, 3.], dtype=object))
assert abs(r[0].derivatives[x]-2) < 1e-3, r[0].derivatives
""")
seed('u25-noise', 'U25',
     [(UNUMPY, """            # Update of the list of variables and associated
            # derivatives, for each element:
            for (derivative_dict, derivative_value) in (
                zip(derivatives.flat, numerical_deriv.flat)):

                if derivative_value:
""", """            # Update of the list of variables and associated
            # derivatives, for each element (without the numerical noise):
            noise_level = 1e-12*numpy.max(numpy.abs(numerical_deriv))
            for (derivative_dict, derivative_value) in (
                zip(derivatives.flat, numerical_deriv.flat)):

                if abs(derivative_value) > noise_level:
""")],
     'a function that returns elements of very different magnitudes',
     'the smaller elements have no uncertainty', """
x = ufloat(2., 0.1)
f = uncertainties.unumpy.core.wrap_array_func(
    lambda a: numpy.array([a[0]*1e10, a[0]*1e-6]))
r = f(numpy.array([x], dtype=object))
assert abs(r[1].std_dev-1e-7) < 1e-11, r[1].std_dev
""")
seed('u25-own-variables', 'U25',
     [(UNUMPY, """                variables |= set(element.derivatives.keys())

        # If the matrix has no variables, then the function value can be
        # directly returned:
        if not variables:
            return func_nominal_value

        # Calculation of the derivatives of each element with respect
        # to the variables.  Each element must be independent of the
""", """                variables |= (set([element]) if element in element.derivatives
                              else set(element.derivatives.keys())
                              if element.std_dev else set())

        # If the matrix has no variables, then the function value can be
        # directly returned:
        if not variables:
            return func_nominal_value

        # Calculation of the derivatives of each element with respect
        # to the variables.  Each element must be independent of the
""")],
     'a result with a zero standard deviation (for example because of its '
     'correlations), in the argument', 'the dependence is lost', """
x = ufloat(2., 0.)
f = uncertainties.unumpy.core.wrap_array_func(lambda a: a**2)
r = f(numpy.array([2*x], dtype=object))
x.std_dev = 0.1
assert abs(r[0].std_dev-1.6) < 1e-4, r[0].std_dev
""")
seed('u25-positional', 'U25',
     [(UNUMPY, "            func_shifted = func(shifted_arr_values, *args, **kwargs)\n",
       "            func_shifted = func(shifted_arr_values, *args[:1], **kwargs)\n")],
     'a function with optional arguments, called with at least two additional '
     'positional arguments', 'the derivatives are incorrect', """
x = ufloat(2., 0.1)
f = uncertainties.unumpy.core.wrap_array_func(
    lambda a, p=1, q=0: p*a + q)
r = f(numpy.array([x], dtype=object), 3, 5)
assert abs(r[0].std_dev-0.3) < 1e-6, r
""")

################ U18
seed('u18-numpy-rounding', 'U18',
     [(UNUMPY, "        func = getattr(umath_core, function_name)\n",
       "        func = getattr(umath_core, function_name)\n        if function_name in ('ceil', 'floor'):\n            # NumPy is faster, for locally constant functions:\n            func = lambda x, numpy_func=getattr(numpy, function_name): (\n                numpy_func(uncert_core.nominal_value(x)))\n")],
     'the ceil() and floor() of NaN or of an infinity in an array',
     'no exception is raised, contrary to the function for scalars', """
for f in (unumpy.ceil, unumpy.floor):
    try:
        f([1.5, float('nan')])
    except ValueError:
        continue
    raise AssertionError(f)
""")

################ U21

################ U01, U15, again
seed('u01-pow-quotient', 'U01',
     [(CORE, """        elif x != 0 or y % 1 == 0:
            return y*x**(y-1)
        else:
            return float('nan')

    def pow_deriv_1""", """        elif x != 0:
            return y*x**y/x  # The power is the result: no other power
        elif y % 1 == 0:
            return y*x**(y-1)
        else:
            return float('nan')

    def pow_deriv_1""")],
     'a power that underflows', 'null derivative', """
x = ufloat(1e-170, 1e-171)
assert close((x**2).derivatives[x], 2e-170)
""")
seed('u15-repr-nan', 'U15',
     [(CORE, "        if std_dev:\n            std_dev_str = repr(std_dev)\n", "        if std_dev > 0:\n            std_dev_str = repr(std_dev)\n")],
     'the repr() of a number with a NaN standard deviation',
     'it reads back with a standard deviation of 0', """
assert math.isnan(ufloat_fromstr(repr(ufloat(1.5, float('nan')))).std_dev)
""")
seed('u15-tiny', 'U15',
     [(CORE, "        factor = 10.**exponent\n", "        # Positive powers of 10 are more precise:\n        factor = 10.**exponent if exponent > 0 else 1/10.**(-exponent)\n")],
     'text with a factored exponent, below e-308', 'OverflowError', """
x = ufloat_fromstr('(1.20+/-0.10)e-309')
assert close(x.n, 1.2e-309, 1e-6), x
""")

################ New ones, for several properties
seed('u02-hypot-overflow', 'U02',
     [(UMATH, """    'hypot': [lambda x, y: x/math.hypot(x, y),
              lambda x, y: y/math.hypot(x, y)],
""", """    'hypot': [lambda x, y: x/math.sqrt(x*x+y*y),
              lambda x, y: y/math.sqrt(x*x+y*y)],
""")],
     'hypot() of large or tiny numbers', 'the derivatives are 0 or raise', """
x = ufloat(3e200, 1)
assert close(umath.hypot(x, 4e200).derivatives[x], 0.6)
""")
seed('u11-score-int', 'U11',
     [(CORE, "            return (value - self._nominal_value) / self.std_dev\n",
       "            return (float(value) - self._nominal_value) / self.std_dev\n")],
     'the score of a number with an uncertainty', 'TypeError', """
x = ufloat(1, 0.5)
y = ufloat(2, 0.25)
assert close(y.std_dev, 0.25) and close(x.std_score(y).nominal_value, 2)
""")
seed('u04-float-exact', 'U04',
     [(CORE, """            raise TypeError("can't convert an affine function (%s)"
                            ' to %s; use x.nominal_value'
                            # In case AffineScalarFunc is sub-classed:
                            % (self.__class__, coercion_type))
""", """            if not self._linear_part:  # No uncertainty
                return self._nominal_value
            raise TypeError("can't convert an affine function (%s)"
                            ' to %s; use x.nominal_value'
                            # In case AffineScalarFunc is sub-classed:
                            % (self.__class__, coercion_type))
""")],
     'a number that depends on no variable',
     'it is converted to float', """
from uncertainties.core import AffineScalarFunc, LinearCombination
x = AffineScalarFunc(1.5, LinearCombination({}))
try:
    float(x)
except TypeError:
    pass
else:
    raise AssertionError('converted')
""")
seed('u24-docstring', 'U24',
     [('uncertainties/unumpy/core.py', '''    """ % numpy.linalg.inv.__doc__
''', '''    """ % numpy.linalg.inv.__doc__.strip()
''')],
     'Python run with -OO', 'the unumpy module cannot be imported', """
import subprocess, sys
subprocess.check_call([sys.executable, '-B', '-OO', '-c', 'from uncertainties import unumpy'])
""")
seed('u11-default-factory', 'U11',
     [(CORE, """            # Attempts to get the contribution of a variable that the
            # function does not depend on raise a KeyError:
            self._linear_part.linear_combo.default_factory = None
""", """            # (The contribution of a variable that the function does not
            # depend on is 0.)
""")],
     'reading the derivative with respect to an unrelated variable',
     'an entry is added to the derivatives and error components', """
x, y, z = ufloat(1, 0.1), ufloat(2, 0.1), ufloat(3, 0.1)
r = x*y
try:
    r.derivatives[z]
except KeyError:
    pass
assert len(r.error_components()) == 2
""")

################ U26
COUNT = """
import gc
def blocks():
    gc.collect()
    return sys.getallocatedblocks()
def grows(f, n=3000):
    for k in range(n):
        f(k)
    before = blocks()
    for k in range(n, 2*n):
        f(k)
    return blocks()-before > n/2
"""
seed('u26-registry', 'U26',
     [(CORE, "        super(Variable, self).__init__(value, LinearCombination({self: 1.}))\n",
       """        linear_part = IDENTITIES[id(self)] = LinearCombination({self: 1.})
        super(Variable, self).__init__(value, linear_part)
"""), (CORE, "class Variable(AffineScalarFunc):\n",
       "# Linear part of the variables:\nIDENTITIES = {}\n\nclass Variable(AffineScalarFunc):\n")],
     'many variables created during the life of a process',
     'variables are never released', COUNT + """
assert not grows(lambda k: ufloat(k, 1))
""")
seed('u26-partial-derivatives', 'U26',
     [(CORE, "    return partial_derivative_of_f\n",
       """    return PARTIAL_DERIVATIVES.setdefault(
        (f, arg_ref), partial_derivative_of_f)
"""), (CORE, "def partial_derivative(f, arg_ref):\n",
       "PARTIAL_DERIVATIVES = {}\n\ndef partial_derivative(f, arg_ref):\n")],
     'functions wrapped repeatedly (lambda, local functions)',
     'they are never released', COUNT + """
assert not grows(lambda k: uncertainties.wrap(lambda t: t*k)(ufloat(1, 1)))
""")
seed('u26-expression', 'U26',
     [(CORE, '    __slots__ = "linear_combo"\n', '    __slots__ = ("linear_combo", "expression")\n'),
      (CORE, "        self.linear_combo = derivatives\n",
       "        (self.expression, self.linear_combo) = (self.linear_combo, derivatives)\n")],
     'a running total that is evaluated at each step',
     'all the steps are kept in memory', COUNT + """
x = ufloat(1, 0.1)
total = x+0
def step(k):
    global total
    total = total+x if k % 2 else total-x
    total.std_dev
assert not grows(step)
""")
seed('u26-constants', 'U26',
     [(CORE, "        return AffineScalarFunc(x, LinearCombination({}))\n\n    # Case of lists",
       """        try:
            return CONSTANTS[x]
        except KeyError:
            return CONSTANTS.setdefault(
                x, AffineScalarFunc(x, LinearCombination({})))

    # Case of lists"""), (CORE, "def to_affine_scalar(x):\n",
       "CONSTANTS = {}\n\ndef to_affine_scalar(x):\n")],
     'comparisons with many different plain numbers',
     'they are all kept in memory', COUNT + """
x = ufloat(1, 0.1)
assert not grows(lambda k: x < k)
""")
seed('u10-repeated-tags', 'U10',
     [(CORE, """        variables = tuple(
            # The variables represent "pure" uncertainties:
            Variable(0, sqrt(variance), tag)
            for (variance, tag) in zip(variances, tags))
""", """        # The variables represent "pure" uncertainties:
        variables = dict(
            ((index if tag is None else tag), Variable(0, sqrt(variance), tag))
            for (index, (variance, tag)) in enumerate(zip(variances, tags)))
        variables = [variables[index if tag is None else tag]
                     for (index, tag) in enumerate(tags)]
""")],
     'tags that are not all different', 'variables are lost', """
cov = [[1, 0.5], [0.5, 2]]
xs = uncertainties.correlated_values([1, 2], cov, tags=['length', 'length'])
got = uncertainties.covariance_matrix(xs)
assert all(abs(a-b) < 1e-9 for r, s in zip(cov, got) for a, b in zip(r, s))
""")
seed('u12-keyword-tag', 'U12',
     [(CORE, """            # Saving for future use:
            kwargs_uncert_values[name] = value_with_uncert
            # The original dictionary is modified (for efficiency reasons):
            kwargs[name] = value_with_uncert.nominal_value
""", """            # Saving for future use:
            kwargs_uncert_values[name] = value_with_uncert
            # The original dictionary is modified (for efficiency reasons):
            kwargs.update([(name, value_with_uncert.nominal_value)])
            if not value_with_uncert.std_dev:
                del kwargs_uncert_values[name]
        names_w_uncert = list(kwargs_uncert_values)
""")],
     'a wrapped function called with an exact number as keyword argument, '
     'whose standard deviation is then assigned',
     'the standard deviation of the result remains 0', """
f = uncertainties.wrap(lambda a, b=1: a*b)
x = ufloat(2, 0)
r = f(3, b=x)
x.std_dev = 1
assert close(r.std_dev, 3, 1e-5)
""")
seed('u12-many-arguments', 'U12',
     [(CORE, """        pos_w_uncert = [index for (index, value) in enumerate(args)
                        if isinstance(value, AffineScalarFunc)]
""", """        pos_w_uncert = [index for (index, value) in zip(range(16), args)
                        if isinstance(value, AffineScalarFunc)]
""")],
     'a wrapped function called with an uncertain number after the 16th '
     'positional argument',
     'the number is given to the original function', """
f = uncertainties.wrap(lambda *args: math.fsum(
    uncertainties.nominal_value(a) for a in args))
r = f(*[ufloat(k, 1) for k in range(20)])
assert close(r.std_dev, math.sqrt(20), 1e-5)
""")
seed('u20-large-matrices', 'U20',
     [(UNUMPY, """        yield -inverse_mat * derivative_mat * inverse_mat
""", """        changed = numpy.flatnonzero(numpy.asarray(derivative_mat))
        if 0 < len(changed) < len(inverse_mat) // 4:
            # Optimization, for large matrices: a single element
            (row, column) = divmod(int(changed[0]), len(inverse_mat))
            yield -inverse_mat[:, row] * inverse_mat[column, :]
        else:
            yield -inverse_mat * derivative_mat * inverse_mat
""")],
     'the inverse of a matrix of 8 rows or more, with elements that depend on a '
     'common variable with a coefficient that is not 1',
     'the coefficient is lost in the derivatives', """
import numpy as np
a = np.array([[ufloat(1 if i == j else 0.125, 0.1) for j in range(8)]
              for i in range(8)])
x = ufloat(0, 0.1)
b = a.copy()
b[0, 0] = b[0, 0]+2*x
got = unumpy.ulinalg.inv(b)[0, 0].derivatives
assert close(got[x], 2*got[a[0, 0]], 1e-9)
""")
