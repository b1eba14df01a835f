"""U25: wrapped functions of arrays propagate uncertainties."""
from hypothesis import strategies as st
import uncertainties
from uncertainties import umath, unumpy, UFloat
from uncertainties.unumpy import ulinalg
from uncertainties.unumpy import core as ucore

from .. import large
from ..core import Group, fail, require, lib
from ..gen import *
from ..gen import tagged as ufloat

ASSUMPTIONS = [
    'functions that are smooth on a domain of values of order 1 (the derivatives '
    'are numerical: they are compared to 2e-4 of the largest derivatives and '
    'values, or of those of the element when their magnitudes differ)',
    'the argument is a NumPy array or matrix with at least one element, and the '
    'result too (or a NumPy scalar)']


def inverse(a):
    return np.linalg.inv(np.asarray(a))


SCALES = np.array([1e-6, 1e10, 1.0, 1e-100, 1e100])

# name -> (function of a float array and arguments, differential along da,
#          number of dimensions required or None, square)
FUNCS = {
    'scale': (lambda a, k=2.0: a * k, lambda a, da, k=2.0: da * k, None, False),
    'affine': (lambda a, p=1.0, q=0.0, *others: a * p + q + sum(others),
               lambda a, da, p=1.0, q=0.0, *others: da * p, None, False),
    'scales': (lambda a: np.sum(a) * SCALES, lambda a, da: np.sum(da) * SCALES,
               None, False),
    'square': (lambda a: np.square(a), lambda a, da: 2 * a * da, None, False),
    'sin': (np.sin, lambda a, da: np.cos(a) * da, None, False),
    'exp': (np.exp, lambda a, da: np.exp(a) * da, None, False),
    'cumsum': (np.cumsum, lambda a, da: np.cumsum(da), None, False),
    'cumulative': (lambda a, axis: np.cumsum(a, axis=axis),
                   lambda a, da, axis: np.cumsum(da, axis=axis), None, False),
    'sum': (np.sum, lambda a, da: np.sum(da), None, False),
    'axis sum': (lambda a, axis: np.sum(a, axis),
                 lambda a, da, axis: np.sum(da, axis), None, False),
    'mean': (np.mean, lambda a, da: np.mean(da), None, False),
    'norm': (np.linalg.norm, lambda a, da: np.sum(a * da) / np.linalg.norm(a),
             None, False),
    'normalised': (lambda a: a / np.sum(np.square(a)),
                   lambda a, da: da / np.sum(a * a) -
                   a * 2 * np.sum(a * da) / np.sum(a * a) ** 2, None, False),
    'T': (np.transpose, lambda a, da: np.transpose(da), None, False),
    'ravel': (np.ravel, lambda a, da: np.ravel(da), None, False),
    'reverse': (lambda a: a[::-1], lambda a, da: da[::-1], None, False),
    'outer': (lambda a: np.outer(a, [1.0, -2.0]),
              lambda a, da: np.outer(da, [1.0, -2.0]), None, False),
    'diff': (lambda a: a[1:] - a[:-1] if len(a) > 1 else a,
             lambda a, da: da[1:] - da[:-1] if len(da) > 1 else da, None, False),
    'gram': (lambda a: np.dot(np.asarray(a).T, np.asarray(a)),
             lambda a, da: da.T @ a + a.T @ da, 2, False),
    'constant': (lambda a: np.ones((2, 3)), lambda a, da: np.zeros((2, 3)), None,
                 False),
    'trace': (np.trace, lambda a, da: np.trace(da), 2, True),
    'inv': (lambda a: np.linalg.inv(a + 6 * np.eye(len(a))),
            lambda a, da: -inverse(a + 6 * np.eye(len(a))) @ da
            @ inverse(a + 6 * np.eye(len(a))), 2, True),
    'det': (np.linalg.det, lambda a, da: sum(
        np.linalg.det(np.where(np.arange(len(a))[:, None] == i, da, a))
        for i in range(len(a))), 2, True),
    'power': (lambda a, n, factor=1.0: factor * np.linalg.matrix_power(a, n),
              lambda a, da, n, factor=1.0: factor * sum(
                  np.linalg.matrix_power(a, k) @ da @
                  np.linalg.matrix_power(a, n - 1 - k) for k in range(n)), 2,
              True),
}
# Homogeneous functions, and their degrees
DEGREES = {'scale': 1, 'square': 2, 'cumsum': 1, 'cumulative': 1, 'sum': 1,
           'axis sum': 1, 'mean': 1, 'norm': 1, 'normalised': -1, 'T': 1,
           'ravel': 1, 'reverse': 1, 'outer': 1, 'diff': 1, 'gram': 2, 'trace': 1,
           'scales': 1}
SCALAR = ('sum', 'mean', 'norm', 'trace', 'det')
values = st.tuples(ints(-24, 24), bools).map(
    lambda t: (t[0] / 8.0 or 0.5) if t[1] else 0.5 + abs(t[0]) / 10.0)
devs = pick(0.1, 0.5, 1.0, 0.01, 1e-3, 0.0, 1e-6, 1e-13)
variables = st.one_of(*[st.tuples(values, devs).map(list)] * 5 + [
    st.tuples(pick(0.0, 0.0, -0.0), pick(0.0, 0.0, 0.1, 1.0)).map(list)])


@st.composite
def cases(draw):
    f = draw(st.sampled_from(sorted(FUNCS)))
    ndim, square = FUNCS[f][2:]
    form = draw(pick('array', 'array', 'array', 'matrix', 'umatrix', 'F',
                     'slice'))
    if square:
        n = draw(ints(1, 3))
        shape = [n, n]
    elif ndim == 2 or form in ('matrix', 'umatrix'):
        shape = [draw(ints(1, 3)), draw(ints(1, 3))]
    else:
        shape = draw(st.lists(ints(1, 3), min_size=1, max_size=3))
    nv = draw(ints(1, 3))
    size = int(np.prod(shape))
    args, kwargs = [], {}
    if f == 'scale' and draw(bools):
        k = draw(pick(0.5, -3.0))
        if draw(bools):
            args = [k]
        else:
            kwargs = {'k': k}
    elif f == 'affine':
        args = draw(st.lists(pick(0.5, -3.0, 2.0), max_size=4))
        if len(args) < 2 and draw(bools):
            kwargs = {'q': 0.5}
    elif f in ('cumulative', 'axis sum'):
        axis = draw(ints(0, len(shape) - 1))
        if draw(bools):
            args = [axis]
        else:
            kwargs = {'axis': axis}
    elif f == 'power':
        args = [draw(ints(1, 3))]
        if draw(bools):
            kwargs = {'factor': draw(pick(0.5, -2.0))}
    return {'f': f, 'shape': shape, 'form': form, 'args': args, 'kwargs': kwargs,
            'vars': draw(st.lists(variables, min_size=nv, max_size=nv)),
            'unit': draw(pick(1.0, 1.0, 1.0, 2.0 ** -40, 2.0 ** 30, 2.0 ** -15))
            if f in DEGREES else 1.0,
            'items': draw(st.lists(st.tuples(
                pick('var', 'var', 'var', 'sum', 'product', 'minus', 'const',
                     'int', 'new', 'null'), ints(0, 2), ints(0, 2), values).map(
                         list), min_size=size, max_size=size))
            if not draw(pick(*[False] * 9 + [True])) else
            [['const', 0, 0, draw(values)] for _ in range(size)],
            'changed': draw(devs), 'call': draw(pick('wrapped', 'wrapped',
                                                     'twice'))}


def element(item, vs, xs, made, unit):
    """The element, its value, and its derivatives."""
    kind, i, j, c = item
    if kind != 'sum':
        c *= unit
    i, j = i % len(vs), j % len(vs)
    if kind == 'var':
        return vs[i], xs[i], {i: 1.0}
    if kind == 'sum':
        d = {i: 1.0}
        d[j] = d.get(j, 0.0) + c
        return vs[i] + c * vs[j], None, d
    if kind == 'product':
        d = {i: xs[j] / unit}
        d[j] = d.get(j, 0.0) + xs[i] / unit
        return vs[i] * vs[j] / (2 * unit), None, {k: x / 2 for k, x in d.items()}
    if kind == 'minus':
        return c - vs[i], None, {i: -1.0}
    if kind == 'null':
        return vs[i] - vs[i] + c, None, {}
    if kind == 'new':
        v = ufloat(c, 0.25 * unit)
        made.append(v)
        return v, c, {v: 1.0}
    if kind == 'int' and unit == 1:
        return int(c * 8) or 1, None, {}
    return c, c, {}


def check(case, rec):
    f, df = FUNCS[case['f']][:2]
    args, kwargs = case['args'], case['kwargs']
    unit = case['unit']
    degree = DEGREES.get(case['f'], 1)
    unit_w, unit_d = unit ** degree, unit ** (degree - 1)
    # (with a null value and a null uncertainty, the scale of the numerical
    # derivative is 1e-8)
    start = [(0.5 if x == s == 0 and unit != 1 else x, s)
             for x, s in case['vars']]
    xs = [x * unit for x, _ in start]
    vs = [ufloat(x * unit, s * unit) for x, s in start]
    made = []
    items = [element(item, vs, xs, made, unit) for item in case['items']]
    shape = tuple(case['shape'])
    a = np.empty(len(items), dtype=object)
    a[:] = [e for e, _, _ in items]
    a = a.reshape(shape)
    nominal = np.array([float(getattr(e, 'nominal_value', e))
                        for e, _, _ in items]).reshape(shape)
    if case['f'] in ('norm', 'normalised') and np.sum(
            (nominal / unit) ** 2) < 0.25 or \
            case['f'] == 'inv' and np.linalg.svd(
                nominal + 6 * np.eye(shape[0]))[1][-1] < 0.5:
        return      # (not smooth)
    form = case['form']
    arr, nom_arr = a, nominal
    if form == 'matrix':
        arr, nom_arr = a.view(np.matrix), nominal.view(np.matrix)
    elif form == 'umatrix':
        arr, nom_arr = unumpy.matrix(a), nominal.view(np.matrix)
    elif form == 'F':
        arr = np.asfortranarray(a)
    elif form == 'slice':
        big = np.empty((2 * shape[0],) + shape[1:], dtype=object)
        big[:] = 7.0
        big[::2] = a
        arr = big[::2]
    before = [x for x in arr.flat]
    seen = []

    def watched(x, *args, **kwargs):
        seen.append(x)
        require(not any(isinstance(e, UFloat) for e in np.asarray(x).flat),
                'the function is called with numbers with uncertainties')
        return f(x, *args, **kwargs)

    what = 'wrapped %s of %r' % (case['f'], arr)
    want = f(nom_arr, *args, **kwargs)
    with lib(what):
        wrapped = ucore.wrap_array_func(watched)
        r = wrapped(arr, *args, **kwargs)
        if case['call'] == 'twice':
            r = wrapped(arr, *args, **kwargs)
    require(type(seen[0]) is type(nom_arr), '%s: the function received a %s', what,
            type(seen[0]))
    require(all(x is y for x, y in zip(before, arr.flat)), '%s: the argument was '
            'modified', what)
    uncertain = [e for e, _, _ in items if isinstance(e, UFloat)]
    if not uncertain:
        require(type(r) is type(want) and np.shape(r) == np.shape(want) and
                np.allclose(r, want, 1e-13, 1e-13 * unit ** degree), '%s is %r, the function '
                'returns %r', what, r, want)
        rec.label('no uncertainty')
        return
    require(np.shape(r) == np.shape(want), '%s has shape %r, expected %r', what,
            np.shape(r), np.shape(want))
    if isinstance(want, np.matrix):
        require(isinstance(r, np.matrix), '%s is a %s', what, type(r))
    allvars = vs + made
    index = {v: k for k, v in enumerate(allvars)}
    # Exact derivatives of the result with respect to each variable
    exact = []
    for v in allvars:
        key = index[v] if index[v] < len(vs) else v
        da = np.array([d.get(key, 0.0) for _, _, d in items]).reshape(shape)
        exact.append(np.asarray(df(nominal, da, *args, **kwargs), dtype=float)
                     .reshape(-1) if da.any() else None)
    flat_r = list(np.asarray(r, dtype=object).reshape(-1))
    flat_w = [float(x) for x in np.asarray(want).reshape(-1)]
    # (the scale of the derivatives, and that of the values in these units)
    scale = 1.0 + max(map(abs, flat_w)) / unit_w + max(
        [float(np.max(np.abs(e))) for e in exact if e is not None] or [0.0]
        ) / unit_d
    tols = ([2e-4 * (1 + float(np.sum(np.abs(nominal))) / unit) * c * len(items)
             for c in SCALES] if case['f'] == 'scales' else
            [2e-4 * scale * unit_d] * len(flat_w))
    for k, (x, w, tol) in enumerate(zip(flat_r, flat_w, tols)):
        require(isinstance(x, UFloat), '%s: element %d is a %s', what, k, type(x))
        # (NumPy sums arrays in an order that depends on their layout)
        require(abs(x.nominal_value - w) <= tol * unit * 1e-9, '%s: element %d has '
                'value %r, expected %r', what, k, x.nominal_value, w)
        got = x.derivatives
        require(set(got) <= set(index), '%s: element %d depends on other '
                'variables', what, k)
        for v, e in zip(allvars, exact):
            g, e = got.get(v, 0.0), 0.0 if e is None else float(e[k])
            require(abs(g - e) <= tol, '%s: derivative of element %d is %r, '
                    'expected %r (variable %r)', what, k, g, e, v)
            if case['f'] == 'constant' or e == 0.0 and index[v] >= len(vs) and \
                    case['f'] in ('T', 'ravel', 'reverse', 'scale', 'exp'):
                require(g == 0, '%s: element %d depends on %r', what, k, v)
    # Later changes of standard deviations
    vs[0].std_dev = case['changed'] * unit
    for k, x in enumerate(flat_r):
        s = math.sqrt(sum((0.0 if e is None else float(e[k]) * v.std_dev) ** 2
                          for v, e in zip(allvars, exact)))
        t = 3 * tols[k] * math.sqrt(sum(v.std_dev ** 2 for v in allvars))
        require(abs(x.std_dev - s) <= t, '%s: element %d has standard deviation '
                '%r, expected %r', what, k, x.std_dev, s)
    rec.label(case['f'], form, '%d-D' % len(shape), 'unit %.0e' % unit)
    rec.nontrivial(any(e is not None and np.any(e != 0) for e in exact))


# The numerical derivatives agree with the analytical ones of inv and pinv

@st.composite
def linear_algebra(draw):
    m, n = draw(pick((1, 1), (2, 2), (2, 2), (3, 3), (2, 1), (1, 2), (3, 2),
                     (2, 3)))
    return {'shape': [m, n], 'how': 'inv' if m == n and draw(bools) else 'pinv',
            'items': draw(st.lists(st.tuples(
                ints(-4, 4).map(float), pick('var', 'shared', 'plain', 'var'),
                pick(0.01, 0.1, 0.3, 1e-4)).map(list), min_size=m * n,
                max_size=m * n)),
            'matrix': draw(bools), 'common': draw(values)}


def check_linear_algebra(case, rec):
    m, n = case['shape']
    w = ufloat(case['common'], 0.1)
    rows = []
    for i in range(m):
        row = []
        for j in range(n):
            x, kind, s = case['items'][i * n + j]
            x += 6 * (i == j)
            row.append(ufloat(x, s) if kind == 'var' else
                       x + w - case['common'] if kind == 'shared' else x)
        rows.append(row)
    a = np.empty((m, n), dtype=object)
    a[:] = rows
    nominal = unumpy.nominal_values(a)
    sv = np.linalg.svd(nominal)[1]
    if sv[-1] < 0.3 or sv[0] > 30 * sv[-1]:
        return      # (too close to a singular matrix)
    arr = unumpy.matrix(a) if case['matrix'] else a
    numerical = getattr(np.linalg, case['how'])
    what = '%s of %r' % (case['how'], arr)
    with lib('wrapped ' + what):
        r = ucore.wrap_array_func(numerical)(arr)
    with lib(what):
        e = getattr(ulinalg, case['how'])(arr)
    require(np.shape(r) == np.shape(e), '%s: shapes %r, %r', what, np.shape(r),
            np.shape(e))
    norm = float(np.linalg.norm(numerical(nominal)))
    tol = 1e-3 * (norm + norm ** 2 + norm ** 3)
    for x, y in zip(np.asarray(r).flat, np.asarray(e).flat):
        require(abs(uncertainties.nominal_value(x) - uncertainties.nominal_value(
            y)) <= 1e-9 * (1 + norm), '%s: values %r and %r', what, x, y)
        dx = getattr(x, 'derivatives', {})
        dy = getattr(y, 'derivatives', {})
        for v in set(dx) | set(dy):
            require(abs(dx.get(v, 0.0) - dy.get(v, 0.0)) <= tol, '%s: derivatives '
                    '%r and %r with respect to %r', what, dx.get(v, 0.0),
                    dy.get(v, 0.0), v)
    rec.label(case['how'])
    rec.nontrivial(any(k != 'plain' for _, k, _ in case['items']))


# The Jacobian itself

jacobian_cases = st.fixed_dictionaries({
    'shape': st.lists(ints(1, 3), min_size=1, max_size=3),
    'form': pick('array', 'list', 'matrix', 'tuple'),
    'items': st.lists(st.tuples(pick('var', 'var', 'scaled', 'const', 'sum',
                                     'other'), ints(0, 1),
                                pick(2.0, -1.5, 0.0, 1e-9, 1e12)).map(list),
                      min_size=27, max_size=27)})


def check_jacobian(case, rec):
    vs = [ufloat(1.5, 0.1), ufloat(-2.0, 0.0)]
    other = ufloat(1, 1)
    shape = tuple(case['shape'])
    size = int(np.prod(shape))
    elements, expect = [], []
    for kind, i, c in case['items'][:size]:
        if kind == 'var':
            e, d = vs[i], {i: 1.0}
        elif kind == 'scaled':
            e, d = c * vs[i], {i: c}
        elif kind == 'sum':
            e, d = vs[0] - c * vs[1], {0: 1.0, 1: -c}
        elif kind == 'other':
            e, d = other, {}
        else:
            e, d = c, {}
        elements.append(e)
        expect.append(d)
    a = np.empty(size, dtype=object)
    a[:] = elements
    a = a.reshape(shape)
    arr = {'list': lambda: a.tolist(), 'tuple': lambda: tuple(a.tolist()),
           'matrix': lambda: unumpy.matrix(a) if len(shape) == 2 else a,
           'array': lambda: a}[case['form']]()
    for i, v in enumerate(vs):
        what = 'array_derivative(%r, %r)' % (arr, v)
        with lib(what):
            r = ucore.array_derivative(arr, v)
        require(isinstance(r, np.ndarray) and r.shape == shape and
                r.dtype == float, '%s is %r', what, r)
        for g, d in zip(np.asarray(r).flat, expect):
            require(g == d.get(i, 0.0), '%s is %r, expected %r', what, r,
                    [d.get(i, 0.0) for d in expect])
    rec.label(case['form'])
    rec.nontrivial(any(expect))


GROUPS = [
    Group('functions', cases(), check, 5000, 100000,
          'smooth functions of arrays of 1 to 3 dimensions and of matrices, with '
          'additional arguments, compared with their exact differentials; '
          'non-trivial: some derivative is not null'),
    Group('linear algebra', linear_algebra(), check_linear_algebra, 1500, 30000,
          'numerical inverses and pseudo-inverses compared with the analytical '
          'ones of ulinalg'),
    Group('jacobian', jacobian_cases, check_jacobian, 1500, 30000,
          'array_derivative() of arrays, lists and matrices'),
    Group('large', large.sized(5, 20, 60, ('elements', 'sum', 'pairs')),
          large.check_wrapped, 150, 5000,
          'functions of arrays of 5 to 60 elements; non-trivial: more '
          'than 8'),
]
