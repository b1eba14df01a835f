"""U03: undefined derivatives give NaN only where they matter."""
import math
from hypothesis import strategies as st
import uncertainties
from uncertainties import umath, covariance_matrix

from ..core import Group, fail, require, lib
from ..gen import *
from ..gen import tagged as ufloat

ASSUMPTIONS = [
    'a power of a null base with a non-integer exponent larger than 1 may have '
    'a null or an undefined derivative (it is only differentiable on one side)',
    'where a derivative is out of the range of floats, any uncertainty not '
    'smaller than the one due to the other variables is accepted']

EITHER = 'either'      # 0 or NaN


def pow_derivs(x, y):
    """Derivatives of x**y at a point where it has a real value."""
    integer = y == int(y)
    if y == 0:
        d0 = 0.0
    elif x != 0 or (integer and y > 0):
        d0 = float(mpf(y) * mpmath.power(mpf(x), mpf(y) - 1)) \
            if x != 0 else (1.0 if y == 1 else 0.0)
    elif y > 1:
        d0 = EITHER
    else:
        d0 = NAN
    if x > 0:
        d1 = float(mpmath.log(mpf(x)) * mpmath.power(mpf(x), mpf(y)))
    elif x == 0 and y > 0:
        d1 = 0.0
    else:
        d1 = NAN
    return d0, d1


BASES = [-3.0, -2.0, -1.0, -0.5, 0.0, -0.0, 0.25, 1.0, 2.5, 10.0]
EXPS = [-3.0, -2.0, -1.0, -0.5, 0.0, -0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0]


def pow_ok(x, y):
    return not (x == 0 and y < 0) and not (x < 0 and y != int(y))


POW_POINTS = [(x, y) for x in BASES for y in EXPS if pow_ok(x, y)]
SINGULAR = [('sqrt', (0.0,)), ('sqrt', (-0.0,)), ('acos', (1.0,)),
            ('acos', (-1.0,)), ('asin', (1.0,)), ('asin', (-1.0,)),
            ('acosh', (1.0,)), ('hypot', (0.0, 0.0)), ('hypot', (0.0, -0.0)),
            ('atan2', (0.0, 0.0))]


def value(f, args):
    if f in ('pow', 'umath.pow'):
        return args[0] ** args[1] if f == 'pow' else math.pow(*args)
    if f == 'id':
        return args[0]
    return getattr(math, f)(*args)


def derivs(f, args):
    if f in ('pow', 'umath.pow'):
        return pow_derivs(*args)
    if f == 'id':
        return (1.0,)
    return (NAN,) * len(args)


def apply(f, args):
    if f == 'pow':
        return args[0] ** args[1]
    if f == 'umath.pow':
        return umath.pow(*args)
    if f == 'id':
        return args[0]
    return getattr(umath, f)(*args)


points = st.one_of(
    st.sampled_from(POW_POINTS).map(lambda p: ('pow', p)),
    st.sampled_from(POW_POINTS).map(lambda p: ('umath.pow', p)),
    st.sampled_from(SINGULAR))


@st.composite
def cases(draw):
    variables = []      # nominal values
    terms = []
    for k in range(draw(ints(1, 3))):
        if k and draw(bools):
            f, args = 'id', (draw(small_ints),)
        else:
            f, args = draw(points)
        specs = []
        for a in args:
            form = draw(pick('v', 'v', 'v', 'c', 'p'))
            if form == 'c':
                specs.append(['c', a])
                continue
            shift = float(draw(ints(1, 9))) if form == 'p' else 0.0
            need = a - shift if shift else a
            same = [i for i, n in enumerate(variables)
                    if n == need and math.copysign(1, n) == math.copysign(1, need)]
            if same and draw(bools):
                i = same[0]
            else:
                variables.append(need)
                i = len(variables) - 1
            specs.append(['p', i, shift] if shift else ['v', i])
        if all(s[0] == 'c' for s in specs):
            variables.append(args[0])
            specs[0] = ['v', len(variables) - 1]
        terms.append([draw(pick(1.0, 2.0, -1.0, 0.5)), f, specs])
    n = len(variables)
    sig = st.lists(pick(0.0, 0.0, 0.1, 1.0, 2.5), min_size=n, max_size=n)
    return {'vars': variables, 'terms': terms,
            'sigmas': draw(st.lists(sig, min_size=1, max_size=3))}


def close(a, b, what):
    require((a != a) == (b != b) and (a != a or abs(a - b) <=
            1e-12 * abs(b) + 1e-300), '%s is %r, expected %r', what, a, b)


def check(case, rec):
    vs = [ufloat(n, s) for n, s in zip(case['vars'], case['sigmas'][0])]
    total, plain = None, None
    der = {}
    text = []
    for c, f, specs in case['terms']:
        args, vals = [], []
        for s in specs:
            if s[0] == 'c':
                args.append(s[1])
                vals.append(s[1])
            elif s[0] == 'v':
                args.append(vs[s[1]])
                vals.append(case['vars'][s[1]])
            else:
                args.append(vs[s[1]] + s[2])
                vals.append(case['vars'][s[1]] + s[2])
        with lib('%s%r' % (f, tuple(vals))):
            t = c * apply(f, args)
            total = t if total is None else total + t
        pt = c * value(f, vals)
        plain = pt if plain is None else plain + pt
        text.append('%g*%s%r' % (c, f, tuple(
            v if s[0] == 'c' else ufloat(v, case['sigmas'][0][s[1]])
            for v, s in zip(vals, specs))))
        for s, d in zip(specs, derivs(f, vals)):
            if s[0] == 'c':
                continue
            old = der.get(s[1], 0.0)
            der[s[1]] = EITHER if EITHER in (d, old) and d == d and old == old \
                else old + c * d if EITHER not in (d, old) else NAN
        rec.label(f if f in ('pow', 'umath.pow', 'id') else 'singular ' + f)
    what = ' + '.join(text)
    require(isinstance(total, uncertainties.UFloat), '%s is a %s', what,
            type(total))
    require(same_float(total.nominal_value, plain) or
            total.nominal_value == plain,
            '%s: value %r, expected %r', what, total.nominal_value, plain)
    undefined = any(d != d for d in der.values())
    for sigmas_now in case['sigmas']:
        for v, s in zip(vs, sigmas_now):
            v.std_dev = s
        now = '%s with standard deviations %r' % (what, sigmas_now)
        with lib(now):
            s = float(total.std_dev)
            comps = total.error_components()
            cov = covariance_matrix([total] + vs)
            text = '%s %r' % (total, total)
        # A derivative which may be 0 or NaN is read from the library:
        d_now = {}
        for i, d in der.items():
            if d == EITHER:
                got = total.derivatives[vs[i]]
                d = got
                rec.label('one-sided')
            d_now[i] = d
        exp = {i: (0.0 if sigmas_now[i] == 0 else abs(d * sigmas_now[i]))
               for i, d in d_now.items()}
        for i, e in exp.items():
            require(vs[i] in comps, '%s: no error component for a variable',
                    now)
            close(float(comps[vs[i]]), e, '%s: error component of variable %d'
                  % (now, i))
        close(s, math.sqrt(sum(e * e for e in exp.values())),
              now + ': standard deviation')
        close(cov[0][0], sum(e * e for e in exp.values()),
              now + ': variance')
        for i in range(len(vs)):
            if i in d_now:
                e = 0.0 if sigmas_now[i] == 0 else \
                    d_now[i] * sigmas_now[i] ** 2
                close(cov[0][i + 1], e, now + ': covariance with a variable')
                close(cov[i + 1][0], e, now + ': covariance with a variable')
        if undefined and s == s:
            rec.label('undefined derivative without effect')
        if s != s:
            rec.label('NaN uncertainty')
    for i, d in der.items():
        got = total.derivatives[vs[i]]
        if d == EITHER:
            continue
        if d != d:
            require(got != got, '%s: derivative with respect to variable %d is '
                    '%r although it does not exist', what, i, got)
        else:
            close(got, d, '%s: derivative with respect to variable %d'
                  % (what, i))
    rec.nontrivial(undefined or any(f in ('pow', 'umath.pow')
                                    for c, f, s in case['terms']))


# Group: derivatives beyond the range of floats

@st.composite
def ranges(draw):
    f = draw(pick('pow', 'pow', 'umath.pow', '/', 'log', 'log10', 'atan2',
                  'sqrt', 'hypot', 'cosh', 'log1p'))
    if f in ('pow', 'umath.pow'):
        x = draw(magnitudes(-300, 300))
        y = draw(ints(2700, 3079)) / 10. / (math.log10(x) or 1)
        if draw(pick(0, 0, 1)):
            y = -y
        if draw(bools):
            y = float(round(y))
            x = -x if draw(bools) else x
        args = [x, y]
    elif f == '/':
        args = [draw(signed(magnitudes(-300, 300))),
                draw(signed(magnitudes(-307, 307)))]
    elif f in ('atan2', 'hypot'):
        args = [draw(st.one_of(signed(magnitudes(-307, 307)), pick(0.0, 5e-324)))
                for _ in range(2)]
    elif f == 'cosh':
        args = [draw(ints(7000, 7104)) / 10.]
    elif f == 'log1p':
        args = [-1 + 2.0 ** -draw(ints(1, 53))]
    else:
        args = [draw(st.one_of(pick(5e-324, 1e-310), magnitudes(-307, 307)))]
    try:
        v = range_apply(f, args, math)
    except (ValueError, ZeroDivisionError, OverflowError):
        v = INF
    if abs(v) == INF:
        f, args = 'pow', [1e-200, -1.5]
    forms = [draw(pick('v', 'v', 'c')) for _ in args]
    if 'v' not in forms:
        forms[0] = 'v'
    sig = st.lists(pick(0.0, 0.0, 1.0, 1e-3), min_size=len(args),
                   max_size=len(args))
    return {'f': f, 'args': args, 'forms': forms,
            'sigmas': draw(st.lists(sig, min_size=1, max_size=3)),
            'other': draw(pick(None, 1.0, 0.25))}


def range_apply(f, args, module):
    if f == 'pow':
        return args[0] ** args[1]
    if f == 'umath.pow':
        return module.pow(*args)
    if f == '/':
        return args[0] / args[1]
    return getattr(module, f)(*args)


def range_derivs(f, args):
    x = mpf(args[0])
    if f in ('pow', 'umath.pow'):
        y = mpf(args[1])
        p = mpmath.power(x, y - 1)
        return y * p, mpmath.log(x) * p * x if x > 0 else None
    if f == '/':
        y = mpf(args[1])
        return 1 / y, -x / y ** 2
    if f in ('atan2', 'hypot'):
        y = mpf(args[1])
        r2 = x * x + y * y
        if not r2:
            return None, None
        return (y / r2, -x / r2) if f == 'atan2' else \
            (x / mpmath.sqrt(r2), y / mpmath.sqrt(r2))
    return ({'log': lambda: 1 / x, 'log10': lambda: 1 / x / mpmath.log(10),
             'sqrt': lambda: 1 / (2 * mpmath.sqrt(x)),
             'cosh': lambda: mpmath.sinh(x), 'log1p': lambda: 1 / (1 + x)}[f](),)


def check_range(case, rec):
    f, args = case['f'], case['args']
    vs = [ufloat(a, s) for a, s in zip(args, case['sigmas'][0])]
    z = ufloat(0, case['other'] or 0)
    what = '%s%r' % (f, tuple(v if form == 'v' else a for v, a, form in
                              zip(vs, args, case['forms'])))
    with lib(what):
        r = range_apply(f, [v if form == 'v' else a for v, a, form in
                            zip(vs, args, case['forms'])], umath)
    want = range_apply(f, args, math)
    require(r.nominal_value == want, '%s: value %r, expected %r', what,
            r.nominal_value, want)
    total = r if case['other'] is None else r + z
    ds = range_derivs(f, args)
    for sigmas_now in case['sigmas']:
        for v, s in zip(vs, sigmas_now):
            v.std_dev = s
        now = '%s with standard deviations %r' % (what, sigmas_now)
        with lib(now):
            s = float(total.std_dev)
            text = '%s %r' % (total, total)
            comps = total.error_components()
            total == total, total.derivatives
        terms, vague = [mpf(case['other'] or 0)], False
        for v, d, form, sig in zip(vs, ds, case['forms'], sigmas_now):
            if form == 'c' or not sig:
                if form == 'v':
                    require(float(comps[v]) == 0, '%s: error component %r of a '
                            'variable without uncertainty', now, comps[v])
                continue
            if f == 'hypot' and abs(want) < 1e-300:
                d = None        # few digits in the value
            if d is None or not (abs(d) * mpf(sig) < mpf('1e300') and
                                 abs(d) < mpf('1e300') and
                                 (abs(d) > mpf('1e-300') or d == 0)):
                vague = True
            else:
                terms.append(d * mpf(sig))
        exp = float(mp_quad(terms))
        if vague:
            # NaN, infinite, or the value due to all variables:
            require(s != s or s >= exp * (1 - 1e-9), '%s: standard deviation '
                    '%r', now, s)
            rec.label('derivative out of range')
        else:
            require(abs(s - exp) <= 1e-9 * exp + 1e-290,
                    '%s: standard deviation %r, expected %r', now, s, exp)
            if len(terms) == 1:
                rec.label('exact arguments')
    rec.label(f)
    rec.nontrivial(any(d is not None and not mpf('1e-290') < abs(d) <
                       mpf('1e290') for d in ds))


GROUPS = [
    Group('boundaries', cases(), check, 30000, 800000,
          '1 to 3 terms: powers on a grid of bases and exponents, functions at '
          'the points where they have no derivative, variables; then up to '
          'three assignments of (null or not) standard deviations'),
    Group('range', ranges(), check_range, 10000, 250000,
          'powers, quotients and functions with a finite value, near the range '
          'of floats, with up to three assignments of (null or not) standard '
          'deviations; non-trivial: a derivative out of 1e-290..1e290'),
]
