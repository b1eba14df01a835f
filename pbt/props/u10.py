"""U10: correlated values reproduce the given covariances."""
import copy
import math
from fractions import Fraction
from hypothesis import strategies as st
import uncertainties
from uncertainties import (ufloat, umath, covariance_matrix, correlated_values,
                           correlated_values_norm, correlation_matrix)

from .. import large
from ..core import Group, fail, require, lib
from ..gen import *

ASSUMPTIONS = [
    'matrices are made as A times its transpose (A has small rational '
    'elements), then scaled row by row: they are semi-definite to rounding',
    'covariances are compared to 1e-11 of the geometric mean of the variances '
    '(the library goes through a numerical diagonalisation)']

elem = st.integers(-8, 8).map(lambda k: k / 2.0)


@st.composite
def cases(draw):
    n = draw(pick(1, 2, 3, 4, 5, 6))
    kind = draw(pick('full', 'full', 'singular', 'diagonal', 'rank1', 'zeros',
                     'near'))
    m = {'full': n + 1, 'singular': max(1, n - 1), 'rank1': 1,
         'diagonal': n, 'zeros': n, 'near': n + 1}[kind]
    rows = [[draw(elem) for _ in range(m)] for _ in range(n)]
    if kind == 'diagonal':
        rows = [[rows[i][0] if i == j else 0.0 for j in range(n)]
                for i in range(n)]
    if kind == 'near':      # nearly of rank 1
        small = draw(pick(1 / 64., 1 / 512., 1 / 4096.))
        rows = [[r[0]] + [x * small for x in r[1:]] for r in rows]
    if kind == 'zeros' or draw(pick(0, 0, 1)):
        for i in range(n):
            if draw(bools):
                rows[i] = [0.0] * m
    scales = [draw(pick(1.0, 1.0, 0.5, 1e-6, 1e5, 0.1, 1e-30, 1e40))
              for _ in range(n)]
    return {'nom': [draw(nominals(-9, 9)) for _ in range(n)], 'rows': rows,
            'scales': scales, 'kind': kind,
            'form': draw(pick('list', 'array', 'array', 'tuple', 'fortran',
                              'matrix')),
            'nomform': draw(pick('list', 'tuple', 'array')),
            'tags': draw(pick(None, None, 'list', 'tuple', 'repeated')),
            'norm': draw(bools), 'diag0': draw(pick(0.0, 1.0, 0.5)),
            'comb': [draw(pick(1.0, -1.0, 0.0, 2.5, -3.0)) for _ in range(n)]}


def matrix_form(c, form):
    if form == 'array':
        return np.array(c)
    if form == 'fortran':
        return np.asfortranarray(np.array(c))
    if form == 'matrix':
        return np.matrix(c)
    if form == 'tuple':
        return tuple(tuple(r) for r in c)
    return [list(r) for r in c]


def check(case, rec):
    n = len(case['nom'])
    rows, sc = case['rows'], case['scales']
    base = [[sum(a * b for a, b in zip(rows[i], rows[j])) for j in range(n)]
            for i in range(n)]
    cov = [[base[i][j] * sc[i] * sc[j] for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(i):
            cov[i][j] = cov[j][i]       # rounding of the scaling
    std = [math.sqrt(base[i][i]) * sc[i] for i in range(n)]
    nom = {'list': list, 'tuple': tuple, 'array': np.array}[case['nomform']](
        case['nom'])
    tags = None if case['tags'] is None else \
        {'list': list, 'tuple': tuple, 'repeated': list}[case['tags']](
            ['tag %d' % (i if case['tags'] != 'repeated' else i // 2)
             for i in range(n)])
    kwargs = {} if tags is None else {'tags': tags}
    if case['norm']:
        corr = [[base[i][j] / math.sqrt(base[i][i]) / math.sqrt(base[j][j])
                 if base[i][i] and base[j][j] else 0.0 for j in range(n)]
                for i in range(n)]
        for i in range(n):
            corr[i][i] = 1.0 if base[i][i] else case['diag0']
            for j in range(i):
                corr[i][j] = corr[j][i]
        mat = matrix_form(corr, case['form'])
        first = [list(p) if case['nomform'] == 'list' else tuple(p)
                 for p in zip(case['nom'], std)]
        if case['nomform'] == 'array':
            first = np.array(first)
        f, name = correlated_values_norm, 'correlated_values_norm()'
    else:
        mat = matrix_form(cov, case['form'])
        first = nom
        f, name = correlated_values, 'correlated_values()'
    before = copy.deepcopy((first, mat))
    with lib(name):
        xs = f(first, mat, **kwargs)
        ys = f(first, mat, **kwargs)
    require(np.array_equal(before[0], first) and np.array_equal(before[1], mat),
            '%s modified its arguments', name)
    require(len(xs) == n, '%s gives %d numbers', name, len(xs))
    for i, x in enumerate(xs):
        require(isinstance(x, uncertainties.UFloat), '%s: element %d is a %s',
                name, i, type(x))
        require(type(x.nominal_value) is float and
                same_float(x.nominal_value, case['nom'][i]),
                '%s: nominal value %d is %r, expected %r', name, i,
                x.nominal_value, case['nom'][i])
        s = float(x.std_dev)
        require(abs(s - std[i]) <= 1e-11 * std[i], '%s: standard deviation %d '
                'is %r, expected %r', name, i, s, std[i])
    # The variables are new, and have the tags:
    variables = {id(v): v for x in xs for v in x.derivatives}
    others = {id(v): v for y in ys for v in y.derivatives}
    require(not set(variables) & set(others), '%s: two calls share variables',
            name)
    require(len(variables) == n, '%s: %d variables instead of %d', name,
            len(variables), n)
    require(sorted(str(v.tag) for v in variables.values()) ==
            sorted([str(t) for t in tags] if tags else ['None'] * n),
            '%s: tags %r, expected %r', name,
            [v.tag for v in variables.values()], tags)
    require(all(isinstance(v, uncertainties.core.Variable) and
                v.derivatives[v] == 1 for v in variables.values()),
            '%s: the numbers do not depend on variables', name)

    def compare(got, expect, scale, what):
        require(abs(got - expect) <= 1e-11 * scale, '%s: %s is %r, expected %r',
                name, what, got, expect)
    with lib('covariance_matrix()'):
        got = covariance_matrix(xs)
    for i in range(n):
        for j in range(n):
            compare(got[i][j], cov[i][j], std[i] * std[j],
                    'covariance (%d, %d)' % (i, j))
    for i in range(n):
        c = covariance_matrix([xs[i], ys[-1]])[0][1]
        require(c == 0, 'numbers from two calls have covariance %r', c)
    # A linear calculation, normalised by the standard deviations:
    k = [a / s if s else a for a, s in zip(case['comb'], std)]
    with lib('a linear calculation'):
        total = sum(a * x for a, x in zip(k, xs))
        last = xs[-1] * 2 - total if n > 1 else 2 * xs[-1]
        c2 = covariance_matrix(list(xs) + [total, last])
        again = correlated_values([x.nominal_value for x in xs],
                                  covariance_matrix(xs))
        c3 = covariance_matrix(again)
    scale = sum(abs(a) for a in case['comb'])
    var = sum(k[i] * k[j] * cov[i][j] for i in range(n) for j in range(n))
    compare(c2[n][n], var, scale ** 2 + 1e-300, 'variance of a combination')
    for i in range(n):
        e = sum(k[j] * cov[i][j] for j in range(n))
        compare(c2[i][n], e, scale * std[i],
                'covariance of a combination with number %d' % i)
        if n > 1:
            e2 = 2 * cov[i][n - 1] - e
            compare(c2[i][n + 1], e2, (2 * std[-1] + scale) * std[i],
                    'covariance of a combination with number %d' % i)
        for j in range(n):
            compare(c3[i][j], cov[i][j], 3 * std[i] * std[j],
                    'covariance (%d, %d) after a second time' % (i, j))
    # Zero variances stay zero:
    for i in range(n):
        if std[i] == 0:
            require(xs[i].std_dev == 0 and got[i] == [0.0] * n,
                    '%s: number %d should be exact: %r', name, i, xs[i])
            rec.label('null variance')
    rec.label(case['kind'], name)
    rec.nontrivial(n > 1 and any(base[i][j] for i in range(n)
                                 for j in range(i)))


# Identities for the fits: perfectly (anti-)correlated values cancel.

correlations = st.one_of(
    st.integers(-100, 100).map(lambda r: r / 100.),
    # Close to 1 or -1:
    signed(st.tuples(st.integers(1, 9), st.integers(2, 10)).map(
        lambda t: 1 - t[0] * 10.0 ** -t[1])))
simple = st.tuples(nominals(-3, 3), nominals(-3, 3), sigmas(-3, 3, zero=False),
                   sigmas(-3, 3, zero=False), correlations).map(list)


def check_pair(case, rec):
    a, b, s, t, rho = case
    with lib('correlated_values()'):
        x, y = correlated_values([a, b], [[s * s, rho * s * t],
                                          [rho * s * t, t * t]])
        u, v = correlated_values_norm([(a, s), (b, t)], [[1, rho], [rho, 1]])
        c = correlation_matrix([x, y])
        d = correlation_matrix([u, v])
        prods = (x * y, u * v, ufloat(a, s) * ufloat(b, t))
    for m in (c, d):
        require(abs(m[0, 1] - rho) <= 1e-10 and abs(m[1, 0] - rho) <= 1e-10,
                'correlation %r, expected %r', m[0, 1], rho)
    var = b * b * s * s + a * a * t * t + 2 * a * b * rho * s * t
    scale = b * b * s * s + a * a * t * t
    for p in prods[:2]:
        require(abs(p.std_dev ** 2 - var) <= 1e-10 * scale + 1e-300,
                'variance of a product is %r, expected %r', p.std_dev ** 2, var)
        require(same_float(p.nominal_value, a * b), 'product %r, expected %r',
                p.nominal_value, a * b)
    # What is left when most of the uncertainty cancels:
    for sign in (1, -1):
        for p, q in ((x, y), (u, v)):
            with lib('a linear calculation'):
                got = (p / s + sign * q / t).std_dev ** 2
            require(abs(got - (2 + 2 * sign * rho)) <= 1e-12,
                    'variance of a %s of normalised values %r, expected %r',
                    'sum' if sign > 0 else 'difference', got,
                    2 + 2 * sign * rho)
    rec.label('null' if not rho else 'perfect' if abs(rho) == 1 else
              'nearly perfect' if abs(rho) > 0.99 else 'partial')
    rec.nontrivial(rho != 0)


# Standard deviations of any magnitude, null or not.

any_sigma = st.one_of(sigmas(-250, 250), sigmas(-300, 290), sigmas(-9, 9))
norm_cases = st.fixed_dictionaries({
    'sigmas': st.lists(any_sigma, min_size=2, max_size=2),
    'others': st.lists(any_sigma, max_size=2),
    'rho': correlations, 'tags': ints(0, 2), 'first': bools,
    'noms': st.lists(nominals(-300, 300), min_size=4, max_size=4)})


def check_norm(case, rec):
    s, others = case['sigmas'], case['others']
    rho = case['rho'] if all(s) else 0.0
    sig = s + others if case['first'] else others + s
    n, i0 = len(sig), 0 if case['first'] else len(others)
    noms = case['noms'][:n]
    corr = np.eye(n)
    corr[i0, i0 + 1] = corr[i0 + 1, i0] = rho
    tags = ['tag %d' % (i // case['tags']) for i in range(n)] \
        if case['tags'] else None
    with lib('correlated_values_norm()'):
        xs = correlated_values_norm(list(zip(noms, sig)), corr, tags)
    for i, (x, v, t) in enumerate(zip(xs, noms, sig)):
        require(same_float(x.nominal_value, v) or x.nominal_value == v == 0,
                'nominal value %d is %r, expected %r', i, x.nominal_value, v)
        with lib('std_dev'):
            got = float(x.std_dev)
        require(abs(got - t) <= 1e-11 * t,
                'standard deviation %d is %r, expected %r', i, got, t)
    with lib('a linear calculation'):
        unit = [(x - v) / t for x, v, t in zip(xs, noms, sig) if t]
        for i, a in enumerate(unit):
            for j, b in enumerate(unit):
                if i == j:
                    continue
                r = rho if len(unit) == n and {i, j} == {i0, i0 + 1} else None
                if r is None and len(unit) < n:
                    continue
                r = r or 0.0
                for sign in (1, -1):
                    got = (a + sign * b).std_dev ** 2
                    require(abs(got - (2 + 2 * sign * r)) <= 1e-12,
                            'variance of a %s of normalised values %d and %d '
                            'is %r, expected %r', 'sum' if sign > 0 else
                            'difference', i, j, got, 2 + 2 * sign * r)
    rec.label('null' if not all(sig) else 'all uncertain')
    rec.nontrivial(any(t and not 1e-100 < t < 1e100 for t in sig))


GROUPS = [
    Group('matrices', cases(), check, 6000, 200000,
          '1 to 6 values with semi-definite matrices of any rank, null rows, '
          'units of very different sizes; non-trivial: some covariance is not '
          'null'),
    Group('pairs', simple, check_pair, 3000, 60000,
          'two values with a correlation between -1 and 1'),
    Group('range', norm_cases, check_norm, 3000, 60000,
          'correlated_values_norm() with two possibly correlated values and up '
          'to two others, standard deviations from 1e-300 to 1e290; non-trivial: '
          'some not in 1e-100..1e100'),
    Group('large', large.sized(5, 16, 40, ('full', 'singular', 'rank1')),
          large.check_correlated, 250, 8000,
          '5 to 40 correlated values; non-trivial: more than 6'),
]
