"""U05: correlations are tracked exactly."""
import math
import operator
from fractions import Fraction
from functools import reduce
from hypothesis import strategies as st
import uncertainties
from uncertainties import umath, covariance_matrix

from .. import large
from ..core import Group, fail, require, lib
from ..gen import *
from ..gen import tagged as ufloat

ASSUMPTIONS = [
    'exact equality of derivatives is required only when all the path '
    'products fit in 53 bits (tracked by the model)',
    'nonlinear identities: derivatives of the difference are null to 1e-11 of '
    'the sum of the absolute values over the paths']

# Group 1: linear programs with dyadic coefficients, against Fractions.

MULS = (2.0, -2.0, 4.0, 0.5, -0.25, 3.0, -5.0, 1.0, -1.0, 0.0, 1.5, 7, -3)
DIVS = (2.0, -4.0, 0.5, 8.0, -1.0, 1.0, 0.25, 16)
ops = ('add', 'sub', 'sub', 'add', 'neg', 'pos', 'mul', 'rmul', 'div', 'addc',
       'raddc', 'subc', 'rsubc', 'sum', 'fsum', 'abs', 'iadd', 'ldexp', 'fabs',
       'wrap')
dy = st.tuples(st.integers(-256, 256), st.integers(0, 3)).map(
    lambda t: t[0] / 2.0 ** t[1])


@st.composite
def programs(draw):
    nv = draw(ints(1, 5))
    same = draw(bools)
    if same:        # equal but independent variables
        v = [draw(dy), draw(pick(0.25, 1.0, 3.0, 0.0))]
        vs = [list(v) for _ in range(nv)]
    else:
        vs = [[draw(dy), draw(pick(0.25, 0.5, 1.0, 3.0, 0.0, 0.1))]
              for _ in range(nv)]
    prog = []
    n = nv
    for _ in range(draw(ints(1, 14))):
        op = draw(pick(*ops))
        i = draw(ints(0, n - 1))
        if op in ('add', 'sub'):
            prog.append([op, i, draw(ints(0, n - 1))])
        elif op in ('mul', 'rmul'):
            prog.append([op, i, draw(pick(*MULS))])
        elif op == 'div':
            prog.append([op, i, draw(pick(*DIVS))])
        elif op in ('addc', 'raddc', 'subc', 'rsubc'):
            prog.append([op, i, draw(dy)])
        elif op in ('sum', 'fsum', 'iadd'):
            prog.append([op, draw(st.lists(ints(0, n - 1), min_size=1,
                                           max_size=6))])
        elif op == 'ldexp':
            prog.append([op, i, draw(ints(-3, 3))])
        elif op == 'wrap':
            prog.append([op, i, draw(ints(0, n - 1))])
        else:
            prog.append([op, i])
        n += 1
    # Pairs of results to be compared:
    pairs = draw(st.lists(st.tuples(ints(0, n - 1), ints(0, n - 1)).map(list),
                          min_size=1, max_size=3))
    return {'vars': vs, 'prog': prog, 'pairs': pairs,
            'unit': draw(pick(0, -20, -60, 60, -500, 500))}


wrapped_half_diff = uncertainties.wrap(
    lambda a, b: (a - b) / 2, [lambda a, b: 0.5, lambda a, b: -0.5])


class Lin(object):
    """Exact linear form: value, coefficients, and what bounds the rounding:
    a (sum of absolute path products), k (unit is 2**-k)."""
    def __init__(self, val, coefs, a, k):
        self.val, self.coefs, self.a, self.k = val, coefs, a, k


def comb(terms, const=0):
    """Sum of factor*Lin, plus a constant."""
    val, coefs, a, k = Fraction(const), {}, abs(Fraction(const)), 12
    for f, x in terms:
        f = Fraction(f)
        val += f * x.val
        for v, c in x.coefs.items():
            coefs[v] = coefs.get(v, 0) + f * c
        a += abs(f) * x.a + abs(x.val)
        k = max(k, x.k + (f.denominator.bit_length() - 1))
    return Lin(val, coefs, a, k)


def exact(x):
    return x.a * 2 ** x.k < 2 ** 52


def run_program(case, vs):
    nv = len(case['vars'])
    model = [Lin(Fraction(n), {i: Fraction(1)}, abs(Fraction(n)) + 1, 12)
             for i, (n, s) in enumerate(case['vars'])]
    res = list(vs)
    for step in case['prog']:
        op, i = step[0], step[1]
        x, m = (None, None) if isinstance(i, list) else (res[i], model[i])
        arg = step[2] if len(step) > 2 else None
        if op == 'add':
            r, t = x + res[arg], comb([(1, m), (1, model[arg])])
        elif op == 'sub':
            r, t = x - res[arg], comb([(1, m), (-1, model[arg])])
        elif op == 'neg':
            r, t = -x, comb([(-1, m)])
        elif op == 'pos':
            r, t = +x, comb([(1, m)])
        elif op == 'mul':
            r, t = x * arg, comb([(arg, m)])
        elif op == 'rmul':
            r, t = arg * x, comb([(arg, m)])
        elif op == 'div':
            r, t = x / arg, comb([(1 / Fraction(arg), m)])
        elif op == 'addc':
            r, t = x + arg, comb([(1, m)], arg)
        elif op == 'raddc':
            r, t = arg + x, comb([(1, m)], arg)
        elif op == 'subc':
            r, t = x - arg, comb([(1, m)], -Fraction(arg))
        elif op == 'rsubc':
            r, t = arg - x, comb([(-1, m)], arg)
        elif op == 'sum':
            r, t = sum(res[j] for j in i), comb([(1, model[j]) for j in i])
        elif op == 'fsum':
            r, t = umath.fsum([res[j] for j in i]), comb(
                [(1, model[j]) for j in i])
        elif op == 'iadd':
            r = res[i[0]]
            for j in i[1:]:
                r += res[j]
            for j in i[1:]:
                r -= res[j]
            r += 0
            t = comb([(1, model[j]) for j in i] +
                     [(-1, model[j]) for j in i[1:]])
        elif op in ('abs', 'fabs'):
            if m.val == 0:      # not differentiable
                r, t = +x, comb([(1, m)])
            else:
                r = abs(x) if op == 'abs' else umath.fabs(x)
                t = comb([(1 if m.val > 0 else -1, m)])
        elif op == 'ldexp':
            r, t = umath.ldexp(x, arg), comb([(Fraction(2) ** arg, m)])
        elif op == 'wrap':
            r = wrapped_half_diff(x, res[arg])
            t = comb([(Fraction(1, 2), m), (Fraction(-1, 2), model[arg])])
        if not exact(t):
            break
        res.append(r)
        model.append(t)
    return res, model


def check_linear(case, rec):
    vs = [ufloat(n, s) for n, s in case['vars']]
    with lib('a linear calculation'):
        res, model = run_program(case, vs)
    sig = [Fraction(s) for n, s in case['vars']]
    n = len(res)

    def verify(r, m, what):
        require(isinstance(r, uncertainties.UFloat), '%s is a %s', what, type(r))
        require(Fraction(r.nominal_value) == m.val, '%s: value %r, expected %s',
                what, r.nominal_value, m.val)
        for i, v in enumerate(vs):
            got = r.derivatives.get(v, 0.0)
            require(got == m.coefs.get(i, 0), '%s: derivative with respect to '
                    'variable %d is %r, exact value %s', what, i, got,
                    m.coefs.get(i, 0))
        require(set(map(id, r.derivatives)) <= set(map(id, vs)),
                '%s depends on other variables', what)
        q = mp_quad([mpf(c.numerator) / c.denominator * mpf(case['vars'][i][1])
                     for i, c in m.coefs.items()])
        s = float(r.std_dev)
        require(s == 0 if q == 0 else abs(s - q) <= 1e-13 * q,
                '%s: standard deviation %r, expected %s', what, s,
                mp_str(q))
        return q

    zero_sigma = 0
    for idx in range(n - 1, -1, -1):        # last results first
        q = verify(res[idx], model[idx], 'result %d' % idx)
        if q == 0 and idx >= len(vs):
            zero_sigma += 1
    for i, j in case['pairs']:
        if max(i, j) >= n:
            continue
        m = comb([(1, model[i]), (-1, model[j])])
        if not exact(m):
            continue
        d = res[i] - res[j]
        q = verify(d, m, 'result %d - result %d' % (i, j))
        same = m.val == 0 and q == 0
        require((res[i] == res[j]) is same and (res[i] != res[j]) is not same,
                'result %d == result %d is %r, expected %r', i, j,
                res[i] == res[j], same)
        if m.val == 0 and q == 0 and i != j:
            rec.label('equal results')
        if i != j and res[i].nominal_value == res[j].nominal_value and q != 0:
            rec.label('equal values, different numbers')
        # Exact change of unit (multiplication by a power of 2):
        unit = case.get('unit', 0)
        z = (2.0 ** unit * res[i] - umath.ldexp(res[j], unit))
        for v, var in enumerate(vs):
            expected = m.coefs.get(v, 0) * Fraction(2) ** unit
            got = z.derivatives.get(var, 0.0)
            require(got == expected, '(result %d - result %d) times 2**%d has '
                    'derivative %r with respect to variable %d, exact value '
                    '%s', i, j, unit, got, v, float(expected))
        got = float(z.std_dev)
        require(q == 0 and got == 0 or
                abs(got - mpmath.ldexp(q, unit)) <= 1e-13 *
                mpmath.ldexp(q, unit), '(result %d - result %d) '
                'times 2**%d has standard deviation %r, expected %s', i, j,
                unit, got, mp_str(mpmath.ldexp(q, unit)))
        cov = covariance_matrix([res[i], res[j]])
        exact_cov = sum((model[i].coefs.get(v, 0) * model[j].coefs.get(v, 0)
                         * sig[v] ** 2 for v in range(len(vs))), Fraction(0))
        scale = sum((abs(model[i].coefs.get(v, 0) * model[j].coefs.get(v, 0))
                     * sig[v] ** 2 for v in range(len(vs))), Fraction(0))
        require(abs(Fraction(cov[0][1]) - exact_cov) <= scale / 10 ** 13,
                'covariance of results %d and %d is %r, expected %s', i, j,
                cov[0][1], float(exact_cov))
    if zero_sigma:
        rec.label('constant combination')
    rec.nontrivial(any(sum(map(bool, m.coefs.values())) > 0 for m in
                       model[len(vs):]) and any(sig))
    rec.label('%d variables' % len(vs))


def mp_str(q):
    return mpmath.nstr(q, 17)


# Group 2: grouping and order of a sum of products do not matter.

@st.composite
def trees(draw):
    nv = draw(ints(1, 4))
    vs = [[draw(nominals(-3, 3)), draw(sigmas(-3, 3))] for _ in range(nv)]
    terms = draw(st.lists(st.tuples(
        pick(1.0, -1.0, 2.0, 0.1, 3.7, 1e3), ints(0, nv - 1), ints(0, nv - 1),
        pick('lin', 'prod')).map(list), min_size=2, max_size=8))
    order = draw(st.permutations(range(len(terms))))
    splits = draw(st.lists(ints(0, 7), min_size=8, max_size=8))
    return {'vars': vs, 'terms': terms, 'order': order, 'splits': splits}


def check_tree(case, rec):
    vs = [ufloat(*v) for v in case['vars']]
    terms, scale = [], {}
    for c, i, j, kind in case['terms']:
        if kind == 'lin':
            terms.append(c * vs[i])
            scale[i] = scale.get(i, 0) + abs(c)
        else:
            terms.append(c * (vs[i] * vs[j]))
            scale[i] = scale.get(i, 0) + abs(c * vs[j].nominal_value)
            scale[j] = scale.get(j, 0) + abs(c * vs[i].nominal_value)
    with lib('a sum'):
        first = reduce(operator.add, terms)
        pool = [terms[k] for k in case['order']]
        k = 0
        while len(pool) > 1:
            i = case['splits'][k % 8] % len(pool)
            k += 1
            a = pool.pop(i)
            b = pool.pop((i + case['splits'][k % 8]) % len(pool))
            pool.append(a + b)
        second = pool[0]
        # Same terms, subtracted one by one from the total:
        rest = first
        for t in terms:
            rest = rest - t
    for name, r, expect in [('regrouped sum', second, first.derivatives),
                            ('difference', first - second, {}),
                            ('sum minus its terms', rest, {})]:
        terms_q = []
        for i, v in enumerate(vs):
            got = r.derivatives.get(v, 0.0)
            tol = 1e-13 * scale.get(i, 0)
            require(abs(got - expect.get(v, 0.0)) <= tol,
                    '%s: derivative with respect to variable %d is %r, '
                    'expected %r', name, i, got, expect.get(v, 0.0))
            terms_q.append(tol * case['vars'][i][1])
        if name != 'regrouped sum':
            require(float(r.std_dev) <= math.sqrt(sum(t * t for t in terms_q))
                    + 1e-300, '%s has standard deviation %r', name, r.std_dev)
        else:
            s1, s2 = float(first.std_dev), float(second.std_dev)
            require(abs(s1 - s2) <= 2 * math.sqrt(sum(t * t for t in terms_q))
                    + 1e-12 * s1, 'sum and regrouped sum have standard '
                    'deviations %r and %r', s1, s2)
    rec.nontrivial(any(s for n, s in case['vars']))
    rec.label('%d terms' % len(terms))


# Group 3: algebraic identities: both sides must be the same function.

def sq(t):
    return t * t


# name -> (function(x, y, umath-like module), domain)
IDENTITIES = {
    'x*x = x**2': (lambda x, y, m: (x * x, x ** 2), 'any'),
    '(x+y)(x-y)': (lambda x, y, m: ((x + y) * (x - y), x * x - y * y), 'any'),
    '(x+y)**2': (lambda x, y, m: ((x + y) ** 2, x ** 2 + 2 * x * y + y ** 2),
                 'any'),
    'x/y': (lambda x, y, m: (x / y, 1 / (y / x)), 'pos'),
    'x/y*y': (lambda x, y, m: (x / y * y, x), 'pos'),
    '1/x': (lambda x, y, m: (1 / x, x ** -1), 'pos'),
    'sqrt(x)**2': (lambda x, y, m: (m.sqrt(x) ** 2, x), 'pos'),
    'x**0.5': (lambda x, y, m: (x ** 0.5, m.sqrt(x)), 'pos'),
    'x**y': (lambda x, y, m: (x ** y, m.exp(y * m.log(x))), 'pos'),
    'pow': (lambda x, y, m: (m.pow(x, y), x ** y), 'pos'),
    '2**x': (lambda x, y, m: (2 ** x * 2 ** y, 2 ** (x + y)), 'pos'),
    'exp(log(x))': (lambda x, y, m: (m.exp(m.log(x)), x), 'pos'),
    'log(x*y)': (lambda x, y, m: (m.log(x * y), m.log(x) + m.log(y)), 'pos'),
    'log(x, y)': (lambda x, y, m: (m.log(x, y), m.log(x) / m.log(y)), 'big'),
    'log10': (lambda x, y, m: (m.log10(x), m.log(x) / math.log(10)), 'pos'),
    'log1p': (lambda x, y, m: (m.log1p(x), m.log(1 + x)), 'pos'),
    'expm1': (lambda x, y, m: (m.expm1(x), m.exp(x) - 1), 'pos'),
    'sin2+cos2': (lambda x, y, m: (sq(m.sin(x)) + sq(m.cos(x)), x - x + 1),
                  'any'),
    'sin(x+y)': (lambda x, y, m: (m.sin(x + y), m.sin(x) * m.cos(y)
                                  + m.cos(x) * m.sin(y)), 'any'),
    'tan': (lambda x, y, m: (m.tan(x), m.sin(x) / m.cos(x)), 'unit'),
    'cosh2-sinh2': (lambda x, y, m: (sq(m.cosh(x)), 1 + sq(m.sinh(x))), 'any'),
    'tanh': (lambda x, y, m: (m.tanh(x), m.sinh(x) / m.cosh(x)), 'any'),
    'hypot': (lambda x, y, m: (m.hypot(x, y), m.sqrt(x * x + y * y)), 'pos'),
    'hypot(x,x)': (lambda x, y, m: (m.hypot(x, x), x * math.sqrt(2)), 'pos'),
    'atan2': (lambda x, y, m: (m.atan2(x, y), m.atan(x / y)), 'pos'),
    'atan2(x,x)': (lambda x, y, m: (m.atan2(x, x), math.pi / 4 + 0 * x), 'pos'),
    'asin+acos': (lambda x, y, m: (m.asin(x) + m.acos(x), math.pi / 2 + 0 * y),
                  'unit'),
    'sin(asin)': (lambda x, y, m: (m.sin(m.asin(x)), x), 'unit'),
    'tan(atan)': (lambda x, y, m: (m.tan(m.atan(x)), x), 'unit'),
    'sinh(asinh)': (lambda x, y, m: (m.sinh(m.asinh(x)), x), 'unit'),
    'tanh(atanh)': (lambda x, y, m: (m.tanh(m.atanh(x)), x), 'unit'),
    'cosh(acosh)': (lambda x, y, m: (m.cosh(m.acosh(x)), x), 'big'),
    'erf+erfc': (lambda x, y, m: (m.erf(x) + m.erfc(x), 1 + 0 * x), 'unit'),
    'degrees': (lambda x, y, m: (m.radians(m.degrees(x)), x), 'any'),
    'x//y,x%y': (lambda x, y, m: (x, (x // y) * y + x % y), 'mod'),
    'fmod': (lambda x, y, m: (m.fmod(x, y), x % y), 'mod'),
    'abs': (lambda x, y, m: (abs(x) * abs(y), abs(x * y)), 'pos'),
    'frexp': (lambda x, y, m: (m.ldexp(*m.frexp(x)), x), 'pos'),
    'modf': (lambda x, y, m: (sum(m.modf(x)), x), 'pos'),
    'gamma': (lambda x, y, m: (m.gamma(x + 1), x * m.gamma(x)), 'big'),
}
unit = st.integers(-900, 900).map(lambda k: k / 1000.)
DOMAINS = {
    'any': nonzero(st.integers(-500, 500)).map(lambda k: k / 100.),
    'pos': st.one_of(st.integers(1, 800).map(lambda k: k / 100.),
                     magnitudes(-2, 0)),
    'big': st.integers(120, 900).map(lambda k: k / 100.),
    'unit': unit, 'mod': st.integers(1, 99).map(lambda k: k / 10. + 0.03)}


@st.composite
def identities(draw):
    name = draw(st.sampled_from(sorted(IDENTITIES)))
    dom = DOMAINS[IDENTITIES[name][1]]
    return {'name': name, 'x': draw(dom), 'y': draw(dom),
            'sig': [draw(sigmas(-3, 3)), draw(sigmas(-3, 3))],
            'form': draw(pick('vars', 'mixed', 'derived'))}


def check_identity(case, rec):
    name = case['name']
    f, dom = IDENTITIES[name]
    x0, y0 = case['x'], case['y']
    if dom == 'mod' and (min(x0 % y0, y0 - x0 % y0) < 0.02):
        return
    u, v = ufloat(x0, case['sig'][0]), ufloat(y0, case['sig'][1])
    x, y = u, v
    if case['form'] == 'mixed':     # correlated arguments with values x0, y0
        w = ufloat(0, 0.5)
        x, y = u + w, v - 2 * w
    elif case['form'] == 'derived':
        x, y = 2 * u - u, (v + v) / 2
    with lib('identity %s' % name):
        a, b = f(x, y, umath)
        diff = a - b
        pairs = []
        for var in set(a.derivatives) | set(b.derivatives):
            pairs.append((var, a.derivatives.get(var, 0.0),
                          b.derivatives.get(var, 0.0),
                          diff.derivatives.get(var, 0.0)))
        s = float(diff.std_dev)
        sa, sb = float(a.std_dev), float(b.std_dev)
    big = max([1.0, abs(x0), abs(y0), abs(a.nominal_value),
               abs(b.nominal_value)] + [abs(p[1]) for p in pairs] +
              [1 / abs(x0) if x0 else 1, 1 / abs(y0) if y0 else 1])
    if name in ('cosh2-sinh2', 'tanh'):
        big = max(big, math.cosh(x0) ** 2)
    tol = (1e-5 if name == 'gamma' else 1e-11) * big * 2
    total = 0
    for var, da, db, dd in pairs:
        require(abs(da - db) <= tol, 'identity %s at x=%r, y=%r: derivatives '
                '%r and %r', name, x0, y0, da, db)
        require(abs(dd) <= tol, 'identity %s at x=%r, y=%r: the difference has '
                'derivative %r', name, x0, y0, dd)
        total += (tol * float(var.std_dev)) ** 2
    require(s <= math.sqrt(total) * 1.001 + 1e-300,
            'identity %s at x=%r, y=%r: the difference has standard deviation '
            '%r', name, x0, y0, s)
    rec.label(name)
    rec.nontrivial(any(case['sig']))


GROUPS = [
    Group('linear', programs(), check_linear, 10000, 300000,
          'programs of 1 to 14 linear operations with dyadic coefficients on 1 '
          'to 5 (possibly equal) variables; non-trivial: a result depends on a '
          'variable and some uncertainty is not null'),
    Group('grouping', trees(), check_tree, 4000, 100000,
          'sums of 2 to 8 terms added in another order and grouping'),
    Group('identities', identities(), check_identity, 8000, 200000,
          'algebraic identities at random points, for independent, correlated '
          'or derived arguments'),
    Group('large', large.sized(5, 40, 300),
          large.check_cancel, 300, 8000,
          'sums of 5 to 300 variables in two orders; non-trivial: more '
          'than 10'),
]
