"""U02: values and derivatives of the functions of umath."""
import math
from hypothesis import strategies as st
import uncertainties
from uncertainties import ufloat, umath

from .. import large
from ..core import Group, fail, require, lib
from ..gen import *

ASSUMPTIONS = [
    'the math module is the reference for values, mpmath for derivatives',
    'the derivatives of gamma and lgamma are numerical: they are compared to '
    '1e-6 relative to the scale of the function',
    'arguments are kept off the points where a function is not differentiable '
    '(U03) and derivatives within 1e-290..1e290']

EPS = 2.2e-16
mp = mpmath


def unit(edge):
    """Numbers strictly between -1 and 1, also very close to the ends."""
    return st.one_of(
        st.integers(-999, 999).map(lambda k: k / 1000.),
        signed(magnitudes(-12, -1)),
        signed(magnitudes(-edge, -2).map(lambda d: 1 - d))).map(
            lambda x: 0.5 if abs(x) >= 1 else x)


pos_wide = magnitudes(-290, 290)
pos = st.one_of(magnitudes(-6, 6), pos_wide, st.integers(1, 30).map(float),
                decimals.map(abs).filter(lambda x: x > 0))
real = st.one_of(nominals(-6, 6), nominals(-6, 6), signed(pos_wide))
moderate = st.one_of(small_ints, decimals.map(lambda x: math.fmod(x, 700)),
                     signed(magnitudes(-9, 1)),
                     dyadics.map(lambda x: math.fmod(x, 700)))
angles = st.one_of(small_ints, decimals, dyadics, signed(magnitudes(-9, 9)))
tiny_or_mod = st.one_of(moderate, signed(magnitudes(-200, -9)))


def off_poles(x):
    return x if x > 0 and x >= 0.05 or abs(x - round(x)) >= 0.05 else \
        float(abs(round(x))) + 0.5


gamma_dom = st.one_of(
    magnitudes(-1, 0), st.integers(1, 20).map(float),
    st.integers(-450, 2000).map(lambda k: k / 100.)).map(off_poles)


def d1(f):
    return lambda x: (f(mpf(x)),)


def near_one(x):
    return 1e-12 + 8 * EPS / float(abs(1 - mpf(x) ** 2))


# name -> (argument strategies, exact derivatives, tolerance(args) or None)
# The tolerance is relative to the derivative; a pair adds an absolute part.
F1 = {
    'acos': (unit(9), d1(lambda x: -1 / mp.sqrt(1 - x * x)), near_one),
    'asin': (unit(9), d1(lambda x: 1 / mp.sqrt(1 - x * x)), near_one),
    'atanh': (unit(9), d1(lambda x: 1 / (1 - x * x)), near_one),
    'acosh': (st.one_of(magnitudes(0, 300).map(lambda x: x * 1.001),
                        magnitudes(-9, 1).map(lambda x: 1 + x)),
              d1(lambda x: 1 / mp.sqrt(x * x - 1)), None),
    'asinh': (real, d1(lambda x: 1 / mp.sqrt(1 + x * x)), None),
    'atan': (real, d1(lambda x: 1 / (1 + x * x)), None),
    'cos': (angles, d1(lambda x: -mp.sin(x)), None),
    'sin': (angles, d1(mp.cos), None),
    'tan': (angles, d1(lambda x: 1 + mp.tan(x) ** 2), None),
    'cosh': (tiny_or_mod, d1(mp.sinh), None),
    'sinh': (tiny_or_mod, d1(mp.cosh), None),
    'tanh': (tiny_or_mod, d1(lambda x: 1 / mp.cosh(x) ** 2),
             lambda x: (1e-12, 1e-15)),
    'degrees': (real, d1(lambda x: 180 / mp.pi), None),
    'radians': (real, d1(lambda x: mp.pi / 180), None),
    'erf': (st.one_of(signed(magnitudes(-9, 0)), small_ints, dyadics),
            d1(lambda x: 2 / mp.sqrt(mp.pi) * mp.exp(-x * x)),
            lambda x: 1e-12 + 4 * EPS * x * x),
    'erfc': (st.one_of(signed(magnitudes(-9, 0)), small_ints, dyadics),
             d1(lambda x: -2 / mp.sqrt(mp.pi) * mp.exp(-x * x)),
             lambda x: 1e-12 + 4 * EPS * x * x),
    'exp': (tiny_or_mod, d1(mp.exp), None),
    'expm1': (tiny_or_mod, d1(mp.exp), None),
    'fabs': (nonzero(real), d1(lambda x: mpf(1) if x > 0 else mpf(-1)), None),
    'log': (pos, d1(lambda x: 1 / x), None),
    'log10': (pos, d1(lambda x: 1 / (x * mp.log(10))), None),
    'log1p': (st.one_of(pos, unit(12)), d1(lambda x: 1 / (1 + x)), None),
    'sqrt': (pos, d1(lambda x: 1 / (2 * mp.sqrt(x))), None),
    'gamma': (gamma_dom, d1(lambda x: mp.gamma(x) * mp.digamma(x)),
              lambda x: (1e-6, 1e-6 * abs(math.gamma(x)) / abs(x))),
    'lgamma': (gamma_dom, d1(mp.digamma),
               lambda x: (1e-6, 1e-6 * max(1, abs(math.lgamma(x))) / abs(x))),
}


def log2(x, b):
    lb, lx = mp.log(b), mp.log(x)
    return 1 / (x * lb), -lx / (b * lb ** 2)


def fmod_d(x, y):
    q = mpf(x) / mpf(y)
    return mpf(1), -(mp.floor(q) if q > 0 else mp.ceil(q))


def pow_d(x, y):
    a, b = mpf(x), mpf(y)
    d0 = mpf(0) if y == 0 else b * mp.power(a, b - 1)
    return d0, (mp.log(a) * mp.power(a, b) if x > 0 else None)


def hyp_d(x, y):
    h = mp.sqrt(mpf(x) ** 2 + mpf(y) ** 2)
    return mpf(x) / h, mpf(y) / h


def atan2_d(y, x):
    h2 = mpf(x) ** 2 + mpf(y) ** 2
    return mpf(x) / h2, -mpf(y) / h2


med = st.one_of(nominals(-6, 6), signed(magnitudes(-140, 140)),
                signed(magnitudes(-290, 290)))
F2 = {
    'log': (pos, pos.filter(lambda b: abs(b - 1) > 1e-6),
            lambda x, b: log2(mpf(x), mpf(b)), None),
    'atan2': (med, nonzero(med), atan2_d, None),
    'hypot': (nonzero(med), med, hyp_d, None),
    'fmod': (st.one_of(nominals(-6, 6), signed(magnitudes(-6, 11)),
                       signed(pos_wide)),
             st.one_of(nonzero(nominals(-3, 3)), nonzero(nominals(-3, 3)),
                       signed(pos_wide)), fmod_d, None),
    'copysign': (nonzero(real), nonzero(real),
                 lambda x, y: (mpf(1) if (x > 0) == (y > 0) else mpf(-1),
                               mpf(0)), None),
    'pow': (st.one_of(magnitudes(-4, 4), nonzero(small_ints), pos_wide),
            st.one_of(small_ints, dyadics.map(lambda y: math.fmod(y, 30)),
                      signed(magnitudes(-4, 1))),
            pow_d, lambda x, y: 1e-11),
}


@st.composite
def arg_forms(draw, n):
    """How each argument is made: a variable, a power of 2 times a variable, or
    a constant (at least one is uncertain); in two-argument functions, possibly
    the same variable."""
    forms = [draw(pick('var', 'var', 'scaled', 'const')) for _ in range(n)]
    if all(f == 'const' for f in forms):
        forms[draw(ints(0, n - 1))] = 'var'
    scale = [draw(pick(2.0, -4.0, 0.5, -1.0)) for _ in range(n)]
    return [forms, scale]


@st.composite
def one_arg(draw):
    name = draw(st.sampled_from(sorted(F1)))
    x = draw(F1[name][0])
    return {'f': name, 'args': [x], 'forms': draw(arg_forms(1)),
            'sig': [draw(sigmas(-9, 9))], 'share': False}


@st.composite
def two_args(draw):
    name = draw(st.sampled_from(sorted(F2)))
    x, y = draw(F2[name][0]), draw(F2[name][1])
    forms = draw(arg_forms(2))
    if name == 'pow' and x < 0:
        y = float(round(y))
        forms[0] = ['var', 'const']     # elsewhere: no derivative (U03)
    share = draw(pick(False, False, True))
    if share:
        y = x
        if (name == 'pow' and not 0 < x < 80) or (
                name == 'log' and abs(x - 1) < 1e-6) or x == 0:
            x = y = 2.5
        forms[0] = ['var', 'var']
    if name == 'pow':
        if share:
            x = y = math.fmod(x, 80)
        elif abs(y * math.log(abs(x))) > 200:
            y = math.copysign(
                2.0 if 1e-140 < abs(x) < 1e140 else 1.0 if x < 0 else 0.25, y)
    return {'f': name, 'args': [x, y], 'forms': forms,
            'sig': [draw(sigmas(-9, 9)), draw(sigmas(-9, 9))], 'share': share}


def make_args(case):
    """Library arguments, variables, d(argument)/d(variable)."""
    forms, scales = case['forms']
    args, vs, jac = [], [], []
    for i, (x, form) in enumerate(zip(case['args'], forms)):
        if form == 'const':
            args.append(x)
        elif case['share'] and i == 1:
            args.append(args[0])
            jac.append((0, i, 1.0))
        elif form == 'var':
            v = ufloat(x, case['sig'][i])
            vs.append((v, case['sig'][i]))
            args.append(v)
            jac.append((len(vs) - 1, i, 1.0))
        else:
            k = scales[i]
            v = ufloat(x / k, case['sig'][i])
            vs.append((v, case['sig'][i]))
            args.append(k * v)
            jac.append((len(vs) - 1, i, k))
    return args, vs, jac


def check_func(case, rec):
    name = case['f']
    table = F1 if len(case['args']) == 1 else F2
    entry = table[name]
    values = case['args']
    expect = getattr(math, name)(*values)
    args, vs, jac = make_args(case)
    what = 'umath.%s%r' % (name, tuple(values))
    with lib(what):
        r = getattr(umath, name)(*args)
    require(isinstance(r, uncertainties.UFloat),
            '%s: result is a %s', what, type(r))
    require(same_float(r.nominal_value, expect),
            '%s: value %r, the math module gives %r', what,
            r.nominal_value, expect)
    with lib('derivatives of ' + what):
        got = r.derivatives
        s = float(r.std_dev)
    parts = entry[-2](*values)
    tol = entry[-1](*values) if entry[-1] else 1e-12
    rel, absolute = tol if isinstance(tol, tuple) else (tol, 0)
    exact = {}
    for k, i, scale in jac:
        if parts[i] is None:
            return
        d, t = exact.get(k, (mpf(0), mpf(0)))
        term = parts[i] * mpf(scale)
        exact[k] = (d + term,
                    t + abs(term) * rel + abs(scale) * mpf(absolute))
    if any(abs(d) > 1e290 for d, t in exact.values()):
        rec.label('out of range')
        return
    require(set(map(id, got)) <= {id(v) for v, _ in vs},
            '%s depends on another variable', what)
    terms, tols = [], []
    for k, (d, t) in exact.items():
        v, sigma = vs[k]
        t = t + mpf('1e-295')
        g = got.get(v, 0.0)
        require(abs(mpf(g) - d) <= t,
                '%s: derivative with respect to argument is %r, exact value '
                '%s (tolerance %s)', what, g, mp.nstr(d, 17), mp.nstr(t, 3))
        terms.append(d * mpf(sigma))
        tols.append(t * mpf(sigma))
    q = mp_quad(terms)
    require(s >= 0 and abs(mpf(s) - q) <= mp_quad(tols) + 1e-12 * q,
            '%s: standard deviation %r, expected %s', what, s, mp.nstr(q, 17))
    rec.label(name + '/%d' % len(values))
    if case['share']:
        rec.label('same number twice')
    rec.nontrivial(any(s for v, s in vs))


# Functions with other interfaces

int_exp = st.integers(-60, 60)
special_case = st.one_of(
    st.tuples(st.just('modf'), real, st.just(0)),
    st.tuples(st.just('frexp'), st.one_of(real, st.just(0.0)), st.just(0)),
    st.tuples(st.just('ldexp'), st.one_of(nominals(-9, 9),
                                          signed(magnitudes(-200, 200))),
              int_exp),
    st.tuples(st.sampled_from(['ceil', 'floor', 'trunc', 'isnan', 'isinf']),
              st.one_of(real, st.sampled_from([0.0, -0.0, 0.5, -0.5])),
              st.just(0)),
    st.tuples(st.sampled_from(['isnan', 'isinf']),
              st.sampled_from([NAN, INF, -INF, 0.0]), st.just(0)),
)
specials = st.tuples(special_case, sigmas(-9, 9),
                     pick('var', 'scaled', 'sum', 'const')).map(
    lambda t: [list(t[0]), t[1], t[2]])


def check_special(case, rec):
    (name, x, i), sigma, form = case
    extra = (i,) if name == 'ldexp' else ()
    v = ufloat(x, sigma)
    factor = 1
    if form == 'var':
        arg = v
    elif form == 'scaled':
        v = ufloat(x / 2, sigma)
        arg, factor = 2 * v, 2
    elif form == 'sum':
        arg = v + 0
    else:
        arg = x
    f = getattr(umath, name)
    what = 'umath.%s(%r%s)' % (name, x, ''.join(', %r' % e for e in extra))
    with lib(what):
        r = f(arg, *extra)
    expect = getattr(math, name)(x, *extra)
    rec.label(name, form)
    rec.nontrivial(form != 'const' and sigma != 0)
    plain = form == 'const'
    if name in ('ceil', 'floor', 'trunc', 'isnan', 'isinf'):
        require(type(r) is type(expect) and r == expect,
                '%s with uncertainty is %r, the math module gives %r', what,
                r, expect)
        return
    if name == 'ldexp':
        main, others, mains = r, (), expect
        deriv = mpf(2) ** i
    elif name == 'modf':
        require(type(r) is tuple and len(r) == 2, '%s is %r', what, r)
        main, mains, deriv = r[0], expect[0], mpf(1)
        require(same_float(r[1], expect[1]) and type(r[1]) is float,
                '%s: integer part %r, expected %r', what, r[1], expect[1])
    else:
        require(type(r) is tuple and len(r) == 2, '%s is %r', what, r)
        require(r[1] == expect[1] and type(r[1]) is int,
                '%s: exponent %r, expected %r', what, r[1], expect[1])
        main, mains, deriv = r[0], expect[0], mpf(2) ** -expect[1]
    if plain:
        require(type(main) is float and same_float(main, mains),
                '%s: %r, the math module gives %r', what, main, mains)
        return
    require(isinstance(main, uncertainties.UFloat), '%s: %r', what, main)
    require(same_float(main.nominal_value, mains),
            '%s: value %r, the math module gives %r', what,
            main.nominal_value, mains)
    with lib('derivatives of ' + what):
        got = main.derivatives.get(v, 0.0)
        s = float(main.std_dev)
    d = deriv * factor
    if abs(d) > 1e290:
        return
    require(abs(mpf(got) - d) <= 1e-13 * d,
            '%s: derivative %r, exact value %s', what, got, mp.nstr(d, 17))
    q = d * mpf(sigma)
    require(abs(mpf(s) - q) <= 1e-12 * q, '%s: standard deviation %r, '
            'expected %s', what, s, mp.nstr(q, 17))


@st.composite
def fsums(draw):
    nv = draw(ints(1, 4))
    vs = [[draw(nominals(-9, 9)), draw(sigmas(-9, 9))] for _ in range(nv)]
    terms = draw(st.lists(st.one_of(
        st.tuples(st.just('v'), ints(0, nv - 1)).map(list),
        st.tuples(st.just('k'), ints(0, nv - 1), pick(2.0, -0.5, 3.0)).map(list),
        constants(-9, 9).map(lambda c: ['c', c])), min_size=0, max_size=9))
    return {'vars': vs, 'terms': terms, 'kind': draw(pick('list', 'tuple', 'gen'))}


def check_fsum(case, rec):
    vs = [ufloat(*v) for v in case['vars']]
    args, plain, coef = [], [], {}
    for t in case['terms']:
        if t[0] == 'v':
            args.append(vs[t[1]])
            plain.append(case['vars'][t[1]][0])
            coef[t[1]] = coef.get(t[1], 0) + 1
        elif t[0] == 'k':
            args.append(t[2] * vs[t[1]])
            plain.append(t[2] * case['vars'][t[1]][0])
            coef[t[1]] = coef.get(t[1], 0) + t[2]
        else:
            args.append(make_const(t[1]))
            plain.append(make_const(t[1]))
    seq = {'list': list, 'tuple': tuple, 'gen': iter}[case['kind']](args)
    expect = math.fsum(plain)
    with lib('umath.fsum(%r)' % plain):
        r = umath.fsum(seq)
    if not coef:
        require(type(r) is float and same_float(r, expect),
                'umath.fsum(%r) is %r', plain, r)
        return
    require(isinstance(r, uncertainties.UFloat), 'umath.fsum(%r): %r', plain, r)
    require(same_float(r.nominal_value, expect),
            'umath.fsum(%r): value %r, expected %r', plain, r.nominal_value,
            expect)
    for i, v in enumerate(vs):
        require(r.derivatives.get(v, 0.0) == coef.get(i, 0),
                'umath.fsum: derivative with respect to term is %r, expected %r',
                r.derivatives.get(v, 0.0), coef.get(i, 0))
    q = mp_quad([mpf(coef[i]) * mpf(case['vars'][i][1]) for i in coef])
    require(abs(mpf(float(r.std_dev)) - q) <= 1e-12 * q,
            'umath.fsum: standard deviation %r, expected %s', r.std_dev,
            mp.nstr(q, 17))
    rec.label('%d terms' % min(len(args), 5))
    rec.nontrivial(len(args) > 1)


GROUPS = [
    Group('one-argument', one_arg(), check_func, 20000, 500000,
          'a function, a point of its domain and an argument made of a '
          'variable, directly or scaled; non-trivial: it has an uncertainty'),
    Group('two-arguments', two_args(), check_func, 14000, 400000,
          'the same with two arguments, each a variable, a scaled variable or '
          'a constant, or both the same variable'),
    Group('special', specials, check_special, 8000, 200000,
          'modf, frexp, ldexp and locally constant functions; non-trivial: '
          'uncertain argument'),
    Group('fsum', fsums(), check_fsum, 4000, 100000,
          'lists of variables, scaled variables and constants; non-trivial: '
          'more than one term'),
    Group('large', large.sized(3, 40, 300, ('list', 'tuple')),
          large.check_fsum, 300, 8000,
          'umath.fsum() of 3 to 300 numbers; non-trivial: more than 10'),
]
