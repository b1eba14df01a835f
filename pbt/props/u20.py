"""U20: matrix inverses and pseudo-inverses propagate uncertainties."""
import random
import warnings
from hypothesis import strategies as st
from uncertainties import UFloat, unumpy
from uncertainties.unumpy import ulinalg

from ..core import Group, fail, require, lib, star_import
from ..gen import *
from ..gen import tagged as ufloat

star_import('uncertainties.unumpy.ulinalg', ['inv', 'pinv'])
star_import('uncertainties.unumpy', ['ulinalg'])

ASSUMPTIONS = [
    'matrices of a condition number up to 1e5, of up to 4 (at times 10) rows and columns, '
    'scaled by 1e-60 to 1e60',
    'derivatives are compared to 1e-12*condition number, relative to '
    '|inverse|^2 |derivative of the matrix| (exact derivatives from 60-digit '
    'arithmetic)',
    'rank-deficient matrices: products of two uncertain factors, with a cutoff '
    '(or the default one when NumPy finds the same rank)']

entry_value = st.one_of(ints(-9, 9).map(float), ints(-9, 9).map(float),
                        st.tuples(ints(-99, 99), ints(0, 2)).map(
                            lambda t: t[0] / 10. ** t[1]))
KINDS = ('plain', 'int', 'var', 'var', 'var', 'shared', 'shared', 'factor',
         'same', 'own')


@cached
def entries(n, kinds):
    return st.lists(st.tuples(entry_value, pick(*kinds), sigmas(-4, 2),
                              pick(1.0, -2.0, 0.5, 3.0), ints(0, 1)).map(list),
                    min_size=n, max_size=n)


FORMS = ('array', 'matrix', 'matrix', 'list', 'tuple', 'numpy.matrix', 'F')
common = {'form': pick(*FORMS), 'scale': pick(0, 0, 0, 1, -3, 20, -20, 60, -60),
          'sigmas': st.lists(sigmas(-3, 2), min_size=2, max_size=2),
          'changed': sigmas(-3, 2)}


@st.composite
def squares(draw):
    n = draw(pick(1, 2, 2, 3, 3, 4))
    case = draw(st.fixed_dictionaries(common))
    plain = draw(pick(*[False] * 9 + [True]))
    case.update(shape=[n, n], items=draw(entries(
        n * n, ('plain', 'int') if plain else KINDS)),
        how=draw(pick('inv', 'inv', 'I', 'I', 'getI', 'pinv')),
        boost=draw(pick(0, 5, 12)))
    case['rcond'] = draw(pick(None, None, 1e-12))
    return case


@st.composite
def rectangles(draw):
    m, n = draw(pick((1, 2), (2, 1), (2, 3), (3, 2), (3, 1), (1, 3), (4, 2),
                     (2, 4), (3, 4), (4, 3)))
    case = draw(st.fixed_dictionaries(common))
    plain = draw(pick(*[False] * 9 + [True]))
    case.update(shape=[m, n], items=draw(entries(
        m * n, ('plain', 'int') if plain else KINDS)),
        how=draw(pick('pinv', 'pinv', 'pinv', 'I', 'I', 'getI')),
        boost=draw(pick(0, 5, 12)))
    case['rcond'] = draw(pick(None, None, 1e-12))
    return case


@st.composite
def large_cases(draw):
    m = draw(pick(5, 6, 7, 8, 9))
    n = draw(pick(m, m, m, max(2, m - 2), m + 1))
    case = draw(st.fixed_dictionaries(common))
    items = draw(entries(7, KINDS))
    r = random.Random(draw(ints(0, 10 ** 6)))
    items += [[float(r.randint(-9, 9)), r.choice(KINDS),
               r.choice((0.1, 1.0, 0.5, 2.0)), r.choice((1.0, -2.0, 0.5)),
               r.randint(0, 1)] for _ in range(m * n - 7)]
    r.shuffle(items)
    case.update(shape=[m, n], items=items, boost=draw(pick(12, 20, 5)),
                how=draw(pick('inv', 'I', 'pinv', 'pinv') if m == n else
                         pick('pinv', 'I')),
                rcond=draw(pick(None, None, 1e-12)))
    return case


@st.composite
def deficients(draw):
    m, n, r = draw(pick((2, 2, 1), (2, 3, 1), (3, 2, 1), (3, 3, 2), (3, 3, 1),
                        (2, 4, 1), (3, 4, 2), (4, 3, 2), (4, 4, 2), (4, 4, 3)))
    case = draw(st.fixed_dictionaries(common))
    case.update(shape=[m, n], rank=r, items=draw(entries(m * r, KINDS)),
                right=draw(entries(r * n, KINDS)), how='pinv',
                rcond=draw(pick(1e-10, 1e-10, 1e-8, None)),
                boost=draw(pick(0, 5, 12)))
    case['scale'] = draw(pick(0, 0, 3, -3))
    return case


def make_entry(item, w, scale, boost, made):
    x, kind, s, c, k = item
    x = (x + boost) * scale
    if kind == 'same' and made:
        return made[-1]         # several times the same number
    if kind == 'int' and scale == 1 and x == round(x):
        return int(x)
    if kind in ('plain', 'int'):
        return x
    if kind == 'shared':
        return x + (c * scale) * w[k]
    if kind == 'factor':
        return x * (1 + w[k])
    if kind == 'own':
        return x + (c * scale) * ufloat(0, s)
    e = ufloat(x, s * scale)
    made.append(e)
    return e


def grid(items, shape, w, scale, boost):
    made = []
    m, n = shape
    # "boost" is added to the diagonal
    return [[make_entry(items[i * n + j], w, scale, boost if i == j else 0, made)
             for j in range(n)] for i in range(m)]


# Matrices of 60 digits: lists of rows

def mul(a, b):
    return [[mpmath.fdot(r, c) for c in zip(*b)] for r in a]


def transpose(a):
    return [list(c) for c in zip(*a)]


def add(*ms):
    return [[mpmath.fsum(t) for t in zip(*rs)] for rs in zip(*ms)]


def neg(a):
    return [[-x for x in r] for r in a]


def inverse(a):
    """Gauss-Jordan; the matrix is well conditioned."""
    n = len(a)
    m = [list(r) + [mpf(i == j) for j in range(n)] for i, r in enumerate(a)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(m[k][i]))
        if m[p][i] == 0:
            return None
        m[i], m[p] = m[p], m[i]
        d = m[i][i]
        m[i] = [x / d for x in m[i]]
        for k in range(n):
            if k != i and m[k][i] != 0:
                f = m[k][i]
                m[k] = [x - f * y for x, y in zip(m[k], m[i])]
    return [r[n:] for r in m]


def norm(a):
    return mpmath.sqrt(mpmath.fsum([x * x for r in a for x in r]))


def cond(a):
    """Condition number, or None if it is too large."""
    m = np.array([[float(x) for x in r] for r in a])
    top = np.abs(m).max()
    if top == 0 or not np.isfinite(top):
        return None
    c = np.linalg.cond(m / top)
    return c if c < 1e5 else None


class Full(object):
    """Exact pseudo-inverse of a matrix of full rank, and its derivatives by the
    product rule on (A'A)^-1 A' or A'(AA')^-1."""

    def __init__(self, a):
        self.a, self.t = a, transpose(a)
        self.m, self.n = len(a), len(a[0])
        if self.m == self.n:
            self.x = inverse(a)
        elif self.m > self.n:
            self.g = inverse(mul(self.t, a))
            self.x = mul(self.g, self.t)
        else:
            self.g = inverse(mul(a, self.t))
            self.x = mul(self.t, self.g)

    def derivative(self, d):
        dt = transpose(d)
        if self.m == self.n:
            return neg(mul(mul(self.x, d), self.x))
        if self.m > self.n:
            dg = neg(mul(mul(self.g, add(mul(dt, self.a), mul(self.t, d))),
                         self.g))
            return add(mul(dg, self.t), mul(self.g, dt))
        dg = neg(mul(mul(self.g, add(mul(d, self.t), mul(self.a, dt))), self.g))
        return add(mul(dt, self.g), mul(self.t, dg))


def nominal(e):
    return e.nominal_value if isinstance(e, UFloat) else float(e)


def partial(e, v):
    return e.derivatives.get(v, 0.0) if isinstance(e, UFloat) else 0.0


def exact(rows):
    return [[mpf(nominal(e)) for e in r] for r in rows]


def variables(rows):
    out = {}
    for r in rows:
        for e in r:
            if isinstance(e, UFloat):
                out.update((v, None) for v in e.derivatives)
    return list(out)


def jacobian(rows, v):
    return [[mpf(partial(e, v)) for e in r] for r in rows]


def container(rows, form):
    if form == 'list':
        return [list(r) for r in rows]
    if form == 'tuple':
        return tuple(tuple(r) for r in rows)
    arr = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, e in enumerate(r):
            arr[i, j] = e
    if not any(isinstance(e, UFloat) for r in rows for e in r) and \
            form != 'matrix':
        arr = arr.astype(float)
    if form == 'F':
        return np.asfortranarray(arr)
    if form == 'matrix':
        return arr.view(unumpy.matrix)
    if form == 'numpy.matrix':
        return arr.view(np.matrix)
    return arr


def call(case, obj):
    how = case['how']
    if how in ('I', 'getI') and not isinstance(obj, unumpy.matrix):
        how = 'inv' if case['shape'][0] == case['shape'][1] else 'pinv'
    what = how
    with lib(what):
        if how == 'I':
            return what, obj.I
        if how == 'getI':
            return what, obj.getI()
        if how == 'inv':
            return what, ulinalg.inv(obj)
        if case['rcond'] is None:
            return what, ulinalg.pinv(obj)
        if len(case['items']) % 2:
            return what, ulinalg.pinv(obj, rcond=case['rcond'])
        return what, ulinalg.pinv(obj, case['rcond'])


def floats(rows):
    return np.array([[nominal(e) for e in r] for r in rows])


def check_result(case, rec, rows, obj, x, derivative, c):
    """x: exact (pseudo-)inverse; derivative(v): its exact derivative and the
    norm of that of the matrix."""
    what, got = call(case, obj)
    m, n = case['shape']
    vs = variables(rows)
    require(isinstance(got, np.ndarray) and got.shape == (n, m),
            '%s has the type %s and shape %s', what, type(got), got.shape)
    is_matrix = isinstance(obj, np.matrix)
    if not vs:
        require(isinstance(got, np.matrix) == is_matrix and got.dtype == float,
                '%s of a matrix without uncertainties: %s of type %s', what,
                type(got), got.dtype)
        f = floats(rows)
        ref = np.linalg.inv(f) if what != 'pinv' and m == n else \
            np.linalg.pinv(f) if case['rcond'] is None else \
            np.linalg.pinv(f, case['rcond'])
        require(np.abs(np.asarray(got) - ref).max() <=
                1e-13 * c * np.abs(ref).max(), '%s is %r, NumPy gives %r', what,
                got, ref)
        rec.label('no uncertainty')
        return None
    require(type(got) is (unumpy.matrix if is_matrix else np.ndarray),
            '%s gives a %s', what, type(got))
    cells = [list(r) for r in np.asarray(got)]
    scale = norm(x)
    for i in range(n):
        for j in range(m):
            e = cells[i][j]
            require(isinstance(e, UFloat), '%s has an element of type %s', what,
                    type(e))
            require(abs(mpf(e.nominal_value) - x[i][j]) <= 1e-13 * c * scale,
                    '%s[%d,%d] is %r, expected %s', what, i, j, e.nominal_value,
                    mpmath.nstr(x[i][j], 17))
            require(set(map(id, e.derivatives)) <= set(map(id, vs)),
                    '%s depends on another variable', what)
    exacts = []
    for v in vs:
        d, size = derivative(v)
        tol = 1e-12 * c * scale ** 2 * size
        exacts.append((v, d, tol))
        for i in range(n):
            for j in range(m):
                g = cells[i][j].derivatives.get(v, 0.0)
                require(abs(mpf(g) - d[i][j]) <= tol,
                        'derivative of %s[%d,%d]: %r, expected %s '
                        '(tolerance %s)', what, i, j, g,
                        mpmath.nstr(d[i][j], 17), mpmath.nstr(tol, 3))

    def deviations():
        for i in range(n):
            for j in range(m):
                s = float(cells[i][j].std_dev)
                q = mp_quad([d[i][j] * mpf(v.std_dev) for v, d, _ in exacts])
                t = mp_quad([tol * mpf(v.std_dev) for v, _, tol in exacts])
                require(abs(mpf(s) - q) <= t + 1e-12 * q, 'standard deviation '
                        'of %s[%d,%d]: %r, expected %s', what, i, j, s,
                        mpmath.nstr(q, 17))
    deviations()
    vs[0].std_dev = case['changed']
    deviations()
    rec.label(what, '%dx%d' % (m, n), case['form'], '%d variables' %
              min(len(vs), 5))
    rec.nontrivial(any(v.std_dev for v in vs) and m * n > 1)
    return got


def prepare(case):
    w = [ufloat(0, s) for s in case['sigmas']]
    scale = 10. ** case['scale']
    return w, scale


def check_full(case, rec):
    m, n = case['shape']
    w, scale = prepare(case)
    rows = grid(case['items'], (m, n), w, scale, case['boost'])
    a = exact(rows)
    c = cond(a)
    if c is None:
        rec.label('ill-conditioned')
        return
    full = Full(a)

    def derivative(v):
        d = jacobian(rows, v)
        return full.derivative(d), norm(d)
    obj = container(rows, case['form'])
    got = check_result(case, rec, rows, obj, full.x, derivative, c)
    if got is None:
        return
    # Identities
    back = ulinalg.inv(got) if m == n else ulinalg.pinv(got)
    if isinstance(got, unumpy.matrix):
        with lib('I of the inverse'):
            back = got.I
        require(type(back) is (unumpy.matrix if variables(np.asarray(got))
                               else np.matrix), 'x.I.I is a %s', type(back))
    size = norm(a)
    for i in range(m):
        for j in range(n):
            e, o = np.asarray(back)[i, j], rows[i][j]
            require(abs(nominal(e) - nominal(o)) <= 1e-13 * c * c * size,
                    'inverse of the inverse: %r, expected %r', e, o)
            for v in variables(rows):
                d = partial(o, v)
                t = 1e-12 * c ** 3 * norm(jacobian(rows, v))
                require(abs(partial(e, v) - d) <= t,
                        'derivative of the inverse of the inverse: %r, '
                        'expected %r', partial(e, v), d)
    array = container(rows, 'array')
    ident = np.dot(array, np.asarray(got)) if n >= m else \
        np.dot(np.asarray(got), array)
    k = len(ident)
    for i in range(k):
        for j in range(k):
            e = ident[i, j]
            require(abs(nominal(e) - (i == j)) <= 1e-12 * c,
                    'matrix times inverse: %r', e)
            for v in variables(rows):
                t = 1e-12 * c * (1 + c) * norm(full.x) * norm(jacobian(rows, v))
                require(abs(partial(e, v)) <= t, 'matrix times inverse has '
                        'a derivative of %r', partial(e, v))


def check_deficient(case, rec):
    m, n = case['shape']
    r = case['rank']
    w, scale = prepare(case)
    left = grid(case['items'], (m, r), w, scale, case['boost'])
    right = grid(case['right'], (r, n), w, 1., case['boost'])
    rows = []
    for i in range(m):
        row = []
        for j in range(n):
            e = left[i][0] * right[0][j]
            for k in range(1, r):
                e = e + left[i][k] * right[k][j]
            row.append(e)
        rows.append(row)
    b, a = exact(left), exact(right)
    cb, ca = cond(b), cond(a)
    f = floats(rows)
    # The product has rounding errors: its rank is that of the factors for NumPy
    # if its small singular values are below the cutoff
    if cb is None or ca is None or cb * ca > 1e4:
        rec.label('ill-conditioned')
        return
    fb, fa = Full(b), Full(a)
    x = mul(fa.x, fb.x)
    ref = np.linalg.pinv(f) if case['rcond'] is None else \
        np.linalg.pinv(f, case['rcond'])
    xf = np.array([[float(e) for e in q] for q in x])
    if np.abs(ref - xf).max() > 1e-9 * np.abs(xf).max():
        rec.label('other rank for NumPy')
        return

    def derivative(v):
        db, da = jacobian(left, v), jacobian(right, v)
        d = add(mul(fa.derivative(da), fb.x), mul(fa.x, fb.derivative(db)))
        return d, norm(db) * norm(a) + norm(b) * norm(da)
    obj = container(rows, case['form'])
    check_result(case, rec, rows, obj, x, derivative, 10 * (cb * ca) ** 2)
    rec.label('rank %d' % r)


# Errors: as with NumPy

ERRORS = {'singular': [[1, 2], [2, 4]], 'zero row': [[1.5, 2], [0, 0]],
          'zero': [[0]], 'wide': [[1, 2, 3], [4, 5, 6]], 'tall': [[1], [2]],
          'vector': [1, 2], 'zero column': [[1, 0, 2], [3, 0, 1], [2, 0, 2]]}

error_cases = st.fixed_dictionaries({
    'kind': st.sampled_from(sorted(ERRORS)), 'form': pick('array', 'list',
                                                          'matrix'),
    's': sigmas(-3, 2), 'which': ints(0, 5), 'scale': pick(1.0, 2.0, -4.0)})


def check_errors(case, rec):
    values = np.array(ERRORS[case['kind']], dtype=float) * case['scale']
    arr = values.astype(object)
    flat = arr.reshape(-1)
    k = case['which'] % len(flat)
    flat[k] = ufloat(flat[k], case['s'])
    arr = flat.reshape(values.shape)
    obj = arr.tolist() if case['form'] == 'list' else \
        arr.view(unumpy.matrix) if case['form'] == 'matrix' and arr.ndim == 2 \
        else arr
    try:
        np.linalg.inv(values)
    except Exception as exc:
        want = exc
    else:
        return
    functions = [('inv(%r)', ulinalg.inv), ('inv(%r)', unumpy.core.inv)]
    if case['form'] == 'matrix' and arr.ndim == 2 and \
            arr.shape[0] == arr.shape[1]:
        functions += [('I of %r', lambda m: m.I), ('getI() of %r',
                                                   lambda m: m.getI())]
    for text, f in functions:
        try:
            got = f(obj)
        except Exception as exc:
            require(type(exc) is type(want), text + ' raised %r, NumPy raises %r',
                    arr, exc, want)
        else:
            fail(text + ' is %r, NumPy raises %r', arr, got, want)
    rec.label(case['kind'])
    rec.nontrivial()


# Cutoffs of any size: singular values spread over a large range

@st.composite
def cutoffs(draw):
    n = draw(pick(1, 2, 2, 3))
    exps = [draw(ints(-24, 0)) for _ in range(n)]
    exps[draw(ints(0, n - 1))] = 0
    return {'n': n, 'exps': exps,
            'mant': [draw(ints(10, 99)) / 10. for _ in range(n)],
            'signs': [draw(pick(1, -1)) for _ in range(n)],
            'perm': draw(st.permutations(range(n))),
            'extra': draw(pick((0, 0), (0, 0), (1, 0), (0, 1))),
            'rcond': draw(pick(None, -30, -30, -27, -20, -16, -14, -10, -5, -2)),
            'kw': draw(bools), 'form': draw(pick('array', 'matrix', 'list')),
            'kinds': [draw(pick('var', 'var', 'plain')) for _ in range(n)],
            'scale': draw(pick(0, 10, -10))}


def check_cutoff(case, rec):
    n = case['n']
    m, k = n + case['extra'][0], n + case['extra'][1]
    rows = [[0.0] * k for _ in range(m)]
    cells = []
    for i in range(n):
        x = case['signs'][i] * case['mant'][i] * 10. ** (
            case['exps'][i] + case['scale'])
        e = ufloat(x, abs(x) / 8) if case['kinds'][i] == 'var' else x
        rows[i][case['perm'][i]] = e
        cells.append((i, case['perm'][i], e))
    top = max(abs(nominal(e)) for _, _, e in cells)
    # The default value is documented to be that of NumPy (1e-15)
    cut = (1e-15 if case['rcond'] is None else 10. ** case['rcond']) * top
    if any(0.5 * cut < abs(nominal(e)) < 2 * cut for _, _, e in cells):
        return
    lost = [e for _, _, e in cells if abs(nominal(e)) < cut]
    if any(isinstance(e, UFloat) for e in lost):
        # The rank is not that of the matrix
        rec.label('uncertain singular value below the cutoff')
        return
    if lost and any(isinstance(e, UFloat) for _, _, e in cells):
        rec.label('plain singular value below the cutoff')
    obj = container(rows, case['form'])
    args, kwargs = (), {}
    if case['rcond'] is not None:
        if case['kw']:
            kwargs['rcond'] = 10. ** case['rcond']
        else:
            args = (10. ** case['rcond'],)
    what = 'pinv(%r, *%r, **%r)' % (rows, args, kwargs)
    with lib(what):
        got = ulinalg.pinv(obj, *args, **kwargs)
    require(got.shape == (k, m), '%s has the shape %s', what, got.shape)
    want = {}
    for i, j, e in cells:
        if e not in lost or not lost:
            want[j, i] = e
    for j in range(k):
        for i in range(m):
            g = np.asarray(got)[j, i]
            e = want.get((j, i))
            if any(e is o for o in lost):
                e = None
            if e is None:
                require(abs(nominal(g)) <= 1e-13 * max(
                    [1 / abs(nominal(o)) for o in want.values()] or [1]),
                    '%s[%d,%d] is %r, expected 0', what, j, i, g)
                continue
            require(abs(nominal(g) * nominal(e) - 1) <= 1e-12,
                    '%s[%d,%d] is %r, expected %r', what, j, i, g, 1 / nominal(e))
            if isinstance(e, UFloat):
                d = partial(g, e)
                worst = max(1 / abs(nominal(o)) for o in want.values()) ** 2
                require(abs(d + 1 / nominal(e) ** 2) <= 1e-10 * worst,
                        'derivative of %s[%d,%d]: %r, expected %r', what, j, i,
                        d, -1 / nominal(e) ** 2)
    rec.label('no rcond' if case['rcond'] is None else 'rcond',
              'some below the cutoff' if lost else 'all above the cutoff',
              'plain' if 'var' not in case['kinds'] else 'uncertain')
    rec.nontrivial(n > 1 and min(case['exps']) < -4)


RULE = ('; non-trivial: well conditioned, more than one element, and an '
        'uncertainty')
GROUPS = [
    Group('square', squares(), check_full, 3000, 60000,
          'square matrices of plain numbers, variables, sums with common '
          'variables, products, and repeated numbers' + RULE),
    Group('rectangular', rectangles(), check_full, 2500, 60000,
          'the same with tall and wide matrices of full rank' + RULE),
    Group('deficient', deficients(), check_deficient, 2000, 50000,
          'products of two uncertain factors of full rank' + RULE),
    Group('large', large_cases(), check_full, 80, 4000,
          'matrices of 5 to 9 rows' + RULE),
    Group('errors', error_cases, check_errors, 300, 3000,
          'singular and non-square matrices; all are counted as non-trivial'),
    Group('cutoff', cutoffs(), check_cutoff, 3000, 60000,
          'pseudo-inverses of (permuted) diagonal matrices with singular values '
          'over 24 orders of magnitude and any cutoff; non-trivial: more than '
          'one singular value, over 4 orders of magnitude'),
]
