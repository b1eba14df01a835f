"""Large cases: many variables, numbers, parameters or elements.

A case has a size and a seed: its content is made by a pseudo-random generator
from the seed, so that large cases cost few random draws and reproductions stay
small."""
import copy
import math
import pickle
import random
from fractions import Fraction
from hypothesis import strategies as st
import uncertainties
from uncertainties import umath, UFloat, covariance_matrix, unumpy
from uncertainties.unumpy import core as ucore

from .core import require, lib
from .gen import *
from .gen import tagged as ufloat


@cached
def sized(lo, mid, hi, kinds=('a',)):
    """Sizes: mostly up to mid."""
    return st.fixed_dictionaries({
        'n': st.one_of(ints(lo, mid), ints(lo, mid), ints(mid, hi)),
        'seed': ints(0, 10 ** 6), 'kind': pick(*kinds)})


COEFS = (1.0, -1.0, 2.0, -3.0, 0.5, 5.0, -0.25)


def sources(case, lo=-40, hi=40, exact=True):
    """n variables with small values and standard deviations."""
    r = random.Random(case['seed'])
    specs = [(float(r.randint(lo, hi)), float(r.randint(1, 9)) if exact
              else r.choice((1, 1, 1e-3, 10)) * r.uniform(1, 9))
             for _ in range(case['n'])]
    if r.random() < 0.3:
        k = r.randrange(len(specs))
        specs[k] = (specs[k][0], 0.0)
    return r, specs, [ufloat(v, s) for v, s in specs]


FUNCS = (
    (lambda x: x, lambda v: v, lambda v: 1.0),
    (lambda x: x * x, lambda v: v * v, lambda v: 2 * v),
    (umath.atan, math.atan, lambda v: 1 / (1 + v * v)),
    (lambda x: 1 / (x * x + 1), lambda v: 1 / (v * v + 1),
     lambda v: -2 * v / (v * v + 1) ** 2),
    (umath.sin, math.sin, math.cos),
    (lambda x: umath.sqrt(x * x + 2), lambda v: math.sqrt(v * v + 2),
     lambda v: v / math.sqrt(v * v + 2)))


def compare(y, value, ders, vs, sig, what):
    """Value (the same), derivatives and standard deviation of a result."""
    require(isinstance(y, UFloat), '%s is a %s', what, type(y))
    require(same_float(y.nominal_value, value), '%s is %r, expected %r', what,
            y.nominal_value, value)
    with lib('derivatives'):
        got = y.derivatives
    require(set(map(id, got)) == {id(vs[i]) for i in ders},
            '%s depends on %d variables instead of %d', what, len(got), len(ders))
    terms = []
    for i, d in ders.items():
        require(abs(got[vs[i]] - d) <= 1e-12 * abs(d) + 1e-14, 'derivative of '
                '%s with respect to variable %d of %d is %r, expected %r', what,
                i, len(vs), got[vs[i]], d)
        terms.append((d * sig[i]) ** 2)
    s = math.sqrt(math.fsum(terms))
    with lib('std_dev'):
        t = float(y.std_dev)
    require(abs(s - t) <= 1e-12 * s + 1e-13, 'standard deviation of %s of %d '
            'variables is %r, expected %r', what, len(vs), t, s)


# U01: results of many variables

def check_expression(case, rec):
    r, specs, vs = sources(case, -3, 3, exact=False)
    n = len(vs)
    total, value, ders = 0, 0, {}
    order = list(range(n))
    r.shuffle(order)
    with lib('calculation'):
        for i in order:
            f, fv, fd = r.choice(FUNCS)
            c = r.choice(COEFS)
            total = total + c * f(vs[i])
            value = value + c * fv(specs[i][0])
            ders[i] = c * fd(specs[i][0])
        if case['kind'] == 'outer':
            total, k = total / (1 + total * total), value
            value = k / (1 + k * k)
            ders = {i: d * (1 - k * k) / (1 + k * k) ** 2
                    for i, d in ders.items()}
            if abs(1 - k * k) < 1e-3 * (1 + k * k):
                return
    compare(total, value, ders, vs, [s for _, s in specs], 'an expression')
    rec.nontrivial(n > 10)


# U05, U06, U08, U11: linear forms with exact results

def linear(case):
    r, specs, vs = sources(case)
    coefs = [r.choice(COEFS) for _ in vs]
    order = list(range(len(vs)))
    with lib('calculation'):
        sums = []
        for _ in range(2):
            t = 0
            for i in order:
                t = t + coefs[i] * vs[i]
            sums.append(t)
            r.shuffle(order)
    return r, specs, vs, coefs, sums


def check_cancel(case, rec):
    r, specs, vs, coefs, (a, b) = linear(case)
    value = sum(c * v for c, (v, _) in zip(coefs, specs))
    sig = [s for _, s in specs]
    compare(a, value, dict(enumerate(coefs)), vs, sig, 'a sum')
    compare(b, value, dict(enumerate(coefs)), vs, sig, 'a sum')
    k = r.randrange(len(vs))
    with lib('difference'):
        diff = a - b
        zero = float(diff.std_dev)
        left = a - b + vs[k]
        rest = a
        for c, v in zip(coefs, vs):
            rest = rest - c * v
    require(diff.nominal_value == 0 and zero == 0, 'difference of the same sum '
            'of %d variables in two orders: %r', len(vs), diff)
    require(float(left.std_dev) == sig[k], 'what is left of a sum of %d '
            'variables has the standard deviation %r, expected %r', len(vs),
            left.std_dev, sig[k])
    require(rest.nominal_value == 0 and float(rest.std_dev) == 0 and
            all(d == 0 for d in rest.derivatives.values()),
            'sum of %d variables minus its terms: %r', len(vs), rest)
    other = [ufloat(v, s) for v, s in specs]
    with lib('covariance_matrix()'):
        y = sum(c * v for c, v in zip(coefs, other))
        cov = covariance_matrix([a, y])
    require(cov[0][1] == 0, 'covariance of numbers of %d different variables '
            'is %r', len(vs), cov[0][1])
    rec.nontrivial(len(vs) > 10)


def check_changes(case, rec):
    r, specs, vs, coefs, (a, b) = linear(case)
    sig = [s for _, s in specs]
    value = a.nominal_value
    for _ in range(r.randint(1, 4)):
        k = r.randrange(len(vs))
        sig[k] = float(r.choice((0, 1, 4, 30, 100)))
        if r.random() < 0.5:
            with lib('std_dev'):
                a.std_dev, str(b)
        vs[k].std_dev = sig[k]
        for y in (a, b):
            compare(y, value, dict(enumerate(coefs)), vs, sig,
                    'a sum after a change of variable %d,' % k)
            with lib('error_components()'):
                e = y.error_components()
            require(e[vs[k]] == abs(coefs[k]) * sig[k], 'error component %r of '
                    'variable %d after a change, expected %r', e[vs[k]], k,
                    abs(coefs[k]) * sig[k])
    rec.nontrivial(len(vs) > 10)


def check_equal(case, rec):
    r, specs, vs, coefs, (a, b) = linear(case)
    k = r.randrange(len(vs))
    with lib('comparison'):
        c = b + 1e-3 * (vs[k] - vs[k].nominal_value)
        d = b + 1
        out = [a == b, a != b, a <= b, a >= b, a < b, a > b, a == c, a != c,
               a == d, a < d, a >= d, bool(a - b), bool(c - a)]
    same = specs[k][1] == 0
    want = [True, False, True, True, False, False, same, not same,
            False, True, False, False, not same]
    require(out[:6] == want[:6] and out[8:12] == want[8:12],
            'comparisons of the same sum of %d variables: %r, expected %r',
            len(vs), out, want)
    if c.nominal_value == a.nominal_value:
        require(out == want, 'comparisons of sums of %d variables: %r, expected '
                '%r', len(vs), out, want)
    rec.nontrivial(len(vs) > 10)


def check_components(case, rec):
    r, specs, vs, coefs, (a, b) = linear(case)
    for y in (a, b):
        with lib('error_components()'):
            e = y.error_components()
        require(len(e) == len(vs), '%d error components for %d variables',
                len(e), len(vs))
        for v, c, (_, s) in zip(vs, coefs, specs):
            require(v in e and e[v] == abs(c) * s, 'error component %r of %d, '
                    'expected %r', e.get(v), len(vs), abs(c) * s)
        s = math.sqrt(sum(x * x for x in e.values()))
        require(abs(y.std_dev - s) <= 1e-13 * s, 'standard deviation %r, '
                'quadratic sum %r of %d error components', y.std_dev, s, len(e))
    with lib('std_score()'):
        score = a.std_score(a.nominal_value + 3 * float(a.std_dev))
    require(abs(score - 3) < 1e-9, 'std_score() is %r, expected 3', score)
    rec.nontrivial(len(vs) > 10)


# U07: large containers, numbers of many variables

def check_clones(case, rec):
    r, specs, vs, coefs, (a, b) = linear(case)
    kind = case['kind']
    items = vs + [a, b, a - b, 2 * a + vs[0]]
    r.shuffle(items)
    with lib(kind):
        new = copy.deepcopy(items) if kind == 'deepcopy' else \
            [copy.copy(x) for x in items] if kind == 'copy' else \
            pickle.loads(pickle.dumps(items, int(kind)))
    require(len(new) == len(items), '%s of %d numbers gives %d', kind,
            len(items), len(new))
    for k, (x, y) in enumerate(zip(items, new)):
        require(same_float(x.nominal_value, y.nominal_value) and
                same_float(x.std_dev, y.std_dev) and type(x) is type(y) and
                getattr(x, 'tag', None) == getattr(y, 'tag', None),
                '%s of number %d of %d is %r, expected %r', kind, k, len(items),
                y, x)
        require(sorted(x.derivatives.values()) == sorted(y.derivatives.values()),
                '%s of number %d of %d does not have the same derivatives', kind,
                k, len(items))
    if kind != 'deepcopy':
        with lib('covariance_matrix()'):
            keep = [k for k, x in enumerate(items) if kind != 'copy' or
                    x not in vs][:12]
            c1 = covariance_matrix([items[k] for k in keep])
            c2 = covariance_matrix([new[k] for k in keep])
        require(c1 == c2, '%s of %d numbers does not have the same covariances',
                kind, len(items))
    rec.nontrivial(len(vs) > 10)


# U09: many numbers of many variables

def check_covariances(case, rec):
    r, specs, vs = sources(case, exact=r_exact(case))
    n = len(vs)
    m = r.randint(2, 26)
    rows, nums = [], []
    with lib('calculation'):
        for _ in range(m):
            row = {i: r.choice(COEFS) for i in range(n)
                   if r.random() < case['n'] ** -0.25}
            t = ufloat(1, 0) + 0
            for i, c in row.items():
                t = t + c * vs[i]
            rows.append(row)
            nums.append(t)
    with lib('covariance_matrix()'), np.errstate(all='ignore'):
        cov = covariance_matrix(nums)
        corr = uncertainties.correlation_matrix(nums)
    require(len(cov) == m and all(len(line) == m for line in cov),
            'shape of the covariance matrix of %d numbers', m)
    var = [float(s) ** 2 for _, s in specs]
    for i in range(m):
        for j in range(m):
            terms = [rows[i][k] * rows[j][k] * var[k] for k in rows[i]
                     if k in rows[j]]
            e, scale = math.fsum(terms), math.fsum(map(abs, terms))
            require(abs(cov[i][j] - e) <= 1e-12 * scale, 'covariance (%d, %d) '
                    'of %d numbers of %d variables is %r, expected %r', i, j, m,
                    n, cov[i][j], e)
            require(cov[i][j] == cov[j][i], 'the covariance matrix is not '
                    'symmetric')
            if cov[i][i] and cov[j][j]:
                e /= math.sqrt(cov[i][i]) * math.sqrt(cov[j][j])
                require(abs(corr[i, j] - e) <= 1e-11, 'correlation (%d, %d) of '
                        '%d numbers is %r, expected %r', i, j, m, corr[i, j], e)
    rec.nontrivial(n > 10 or m > 6)


def r_exact(case):
    return case['seed'] % 2 == 0


# U10: many correlated values

def check_correlated(case, rec):
    r = random.Random(case['seed'])
    n = case['n']
    rank = {'full': n + 2, 'singular': max(1, n // 2), 'rank1': 1}[case['kind']]
    a = np.array([[r.randint(-6, 6) / 2. for _ in range(rank)]
                  for _ in range(n)])
    if r.random() < 0.3:
        a[r.randrange(n)] = 0
    a *= np.array([[r.choice((1, 1, 100., 1e-6))] for _ in range(n)])
    cov = a @ a.T
    cov = (cov + cov.T) / 2
    std = np.sqrt(np.diag(cov))
    nom = [float(r.randint(-99, 99)) for _ in range(n)]
    tags = ['t%d' % (i // 2) for i in range(n)] if r.random() < 0.5 else None
    with lib('correlated_values()'):
        xs = uncertainties.correlated_values(nom, cov, tags)
    units = np.where(std == 0, 1, std)
    norm = cov / units / units[:, np.newaxis]
    with lib('correlated_values_norm()'):
        ys = uncertainties.correlated_values_norm(
            list(zip(nom, std)), norm, tags)
    for name, zs in (('correlated_values()', xs),
                     ('correlated_values_norm()', ys)):
        require(len(zs) == n and [z.nominal_value for z in zs] == nom,
                '%s: wrong nominal values for %d values', name, n)
        variables = {v for z in zs for v in z.derivatives}
        require(len(variables) == n and sorted(str(v.tag) for v in variables) ==
                sorted(map(str, tags or [None] * n)), '%s: wrong variables for '
                '%d values', name, n)
        with lib('covariance_matrix()'):
            got = np.array(covariance_matrix(zs))
        error = np.abs(got - cov) / units / units[:, np.newaxis]
        require(error.max() <= 1e-11, '%s: covariances of %d values are wrong by '
                '%g (of the standard deviations)', name, n, error.max())
        for z, s in zip(zs, std):
            require(abs(z.std_dev - s) <= 1e-11 * s, '%s: standard deviation '
                    '%r of %d values, expected %r', name, z.std_dev, n, s)
    rec.label(case['kind'])
    rec.nontrivial(n > 6)


# U12: functions of many parameters

def check_parameters(case, rec):
    r, specs, vs = sources(case, -3, 3)
    n = len(vs)
    coefs = [r.choice(COEFS) for _ in range(n)]
    values = [v for v, _ in specs]

    def function(*args, **kwargs):
        args = args + tuple(kwargs['k%d' % i] for i in range(len(args), n))
        return sum(c * x * x for c, x in zip(coefs, args))
    kind = case['kind']
    split = {'args': n, 'kwargs': 0}.get(kind, r.randint(0, n))
    if kind == 'named':
        space = {'coefs': coefs}
        names = ', '.join('k%d' % i for i in range(n))
        exec('def function(%s): return sum(c*x*x for c, x in zip(coefs, [%s]))'
             % (names, names), space)
        function = space['function']
    given = r.choice(('none', 'all', 'gaps'))

    def derivative(i):
        def d(*args, **kwargs):
            x = args[i] if i < len(args) else kwargs['k%d' % i]
            return 2 * coefs[i] * x
        return d
    ds = [derivative(i) if given == 'all' or given == 'gaps' and
          r.random() < 0.5 else None for i in range(n)]
    own = n if kind == 'named' else split
    dargs = ds[:own] if given != 'none' else []
    dkwargs = {'k%d' % i: d for i, d in list(enumerate(ds))[own:] if d}
    plain = {i for i in range(n) if r.random() < 0.2}
    args = [values[i] if i in plain else vs[i] for i in range(n)]
    with lib('wrap()'):
        f = uncertainties.wrap(function, dargs, dkwargs)
        y = f(*args[:split], **{'k%d' % i: args[i] for i in range(split, n)})
    value = sum(c * x * x for c, x in zip(coefs, values))
    if len(plain) == n:
        require(y == value and not isinstance(y, UFloat), 'plain result %r', y)
        return
    require(isinstance(y, UFloat) and same_float(y.nominal_value, value),
            'function of %d parameters: %r, expected %r', n, y, value)
    with lib('derivatives'):
        got = y.derivatives
    require({id(v) for v in got} == {id(vs[i]) for i in range(n)
                                     if i not in plain}, 'function of %d '
            'parameters: the result does not depend on the right variables', n)
    for i in range(n):
        if i not in plain:
            e = 2 * coefs[i] * values[i]
            tol = 1e-13 * abs(e) if ds[i] else 1e-5 * (abs(e) + abs(value) + 1)
            require(abs(got[vs[i]] - e) <= tol, 'derivative with respect to '
                    'parameter %d of %d is %r, expected %r', i, n, got[vs[i]], e)
    rec.label(kind, given)
    rec.nontrivial(n > 6)


# U19: large arrays

def check_array(case, rec):
    r = random.Random(case['seed'])
    n = case['n']
    shape = {'vector': (n,), 'table': (-(-n // 7), 7), 'column': (n, 1),
             'cube': (2, 2, -(-n // 12), 3), 'matrix': (-(-n // 5), 5)
             }[case['kind']]
    count = int(np.prod(shape))
    nom = np.array([r.uniform(-9, 9) for _ in range(count)]).reshape(shape)
    sig = np.array([float(r.randint(1, 9)) / r.choice((1, 8, 1, 3))
                    for _ in range(count)]).reshape(shape)
    with lib('creation'):
        make = unumpy.umatrix if case['kind'] == 'matrix' else unumpy.uarray
        a = make(nom, sig)
    name = make.__name__
    require(a.shape == shape, '%s has the shape %r, expected %r', name, a.shape,
            shape)
    flat = np.asarray(a).ravel().tolist()
    require(len(set(map(id, flat))) == count, '%s of %d elements: repeated '
            'elements', name, count)
    with lib('nominal_values()'):
        v, s = unumpy.nominal_values(a), unumpy.std_devs(a)
    require(v.dtype == float and s.dtype == float and
            np.array_equal(v, nom) and np.array_equal(s, sig),
            '%s of %d elements: wrong nominal values or standard deviations',
            name, count)
    for x, e, f in zip(flat, nom.ravel(), sig.ravel()):
        require(x.nominal_value == e and x.std_dev == f and
                set(x.derivatives) == {x}, '%s of %d elements: %r, expected '
                '%r+/-%r', name, count, x, e, f)
    c = np.array([r.choice(COEFS) for _ in range(count)]).reshape(shape)
    if case['kind'] == 'matrix':
        with lib('sum'):
            b = 2 * a + c
            total = b.sum()
        expect, d = 2 * nom + c, np.full(shape, 2.0)
    else:
        with lib('arithmetic'):
            b = c * a + 1
            total = b.sum()
        expect, d = c * nom + 1, c
    got = np.asarray(b).ravel().tolist()
    for x, y, e, k in zip(flat, got, np.asarray(expect).ravel(), d.ravel()):
        require(y.nominal_value == e and dict(y.derivatives) == {x: k},
                'arithmetic on arrays of %d elements: %r (%r), expected %r', count,
                y, y.derivatives, e)
    require(abs(total.nominal_value - expect.sum()) <= 1e-12 * count * 50,
            'sum of %d elements is %r', count, total)
    with lib('derivatives'):
        ders = total.derivatives
    require(len(ders) == count and all(ders[x] == k for x, k in
                                       zip(flat, d.ravel())),
            'wrong derivatives of the sum of %d elements', count)
    t = math.sqrt(float(((d * sig) ** 2).sum()))
    require(abs(total.std_dev - t) <= 1e-12 * t, 'sum of %d elements: standard '
            'deviation %r, expected %r', count, total.std_dev, t)
    rec.label(case['kind'])
    rec.nontrivial(count > 12)


# U25: functions of large arrays

def check_wrapped(case, rec):
    r, specs, vs = sources(case, -3, 3)
    n = len(vs)
    c = np.array([r.choice(COEFS) for _ in range(n)])
    f = {'elements': lambda a: np.sin(a) * c, 'sum': lambda a: np.dot(a, c),
         'pairs': lambda a: a[1:] * a[:-1]}[case['kind']]
    a = np.array(vs, dtype=object)
    x = np.array([v for v, _ in specs])
    with lib('wrap_array_func()'):
        y = ucore.wrap_array_func(f)(a)
    want = f(x)
    require(np.shape(y) == np.shape(want), 'shape %r, expected %r', np.shape(y),
            np.shape(want))
    jac = {'elements': lambda: np.diag(np.cos(x) * c),
           'sum': lambda: c[np.newaxis],
           'pairs': lambda: np.diag(x[1:], 0)[:, :] @ np.eye(n - 1, n) +
           np.diag(x[:-1]) @ np.eye(n - 1, n, 1)}[case['kind']]()
    for k, (u, w, row) in enumerate(zip(np.asarray(y).ravel().tolist(),
                                        np.ravel(want), jac)):
        require(isinstance(u, UFloat) and same_float(u.nominal_value, w),
                'element %d of a function of %d elements: %r, expected %r', k, n,
                u, w)
        with lib('derivatives'):
            ders = u.derivatives
        for i in range(n):
            require(abs(ders.get(vs[i], 0) - row[i]) <= 1e-4 * (1 + abs(row[i])),
                    'derivative of element %d with respect to element %d of %d '
                    'is %r, expected %r', k, i, n, ders.get(vs[i], 0), row[i])
    rec.label(case['kind'])
    rec.nontrivial(n > 8)


# U02: sums of many numbers by fsum()

def check_fsum(case, rec):
    r, specs, vs = sources(case)
    n = len(vs)
    plain = {i for i in range(n) if r.random() < 0.2}
    args = [specs[i][0] if i in plain else vs[i] for i in range(n)]
    with lib('umath.fsum()'):
        y = umath.fsum({'list': list, 'tuple': tuple}[case['kind']](args))
    value = math.fsum(v for v, _ in specs)
    if len(plain) == n:
        require(y == value, 'umath.fsum() is %r, expected %r', y, value)
        return
    compare(y, value, {i: 1.0 for i in range(n) if i not in plain}, vs,
            [s for _, s in specs], 'umath.fsum()')
    rec.nontrivial(n > 10)
