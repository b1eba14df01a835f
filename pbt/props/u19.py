"""U19: arrays keep values, uncertainties and correlations."""
import io
import pickle
import warnings
from fractions import Fraction
from hypothesis import strategies as st
import uncertainties
from uncertainties import UFloat, unumpy
from uncertainties.core import Variable, NegativeStdDev

from .. import large
from ..core import Group, fail, require, lib, star_import
from ..gen import *
from ..gen import tagged as ufloat

star_import('uncertainties.unumpy', ['uarray', 'umatrix', 'matrix',
                                    'nominal_values', 'std_devs'])
from .u18 import same_value, size

ASSUMPTIONS = [
    'scalar operations are the reference (they are decided by U01 and others)',
    'arguments of uarray() and umatrix() of identical shapes, as documented',
    'no claim on the class of mixed operations with numpy.matrix objects on the '
    'left, nor on what NumPy itself refuses (0-d arrays, powers of matrices '
    'other than integers)']


def quiet(call):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        return call(), [w for w in caught if 'uncertainties' in str(w.message) or
                        'should' in str(w.message) or
                        'obsolete' in str(w.message).lower()]


# Group 1: creation and components

SHAPES = [(1,), (3,), (5,), (2, 3), (3, 1), (1, 1), (2, 2), (2, 1, 2), (0,),
          (2, 0), (1, 2, 3)]
values = st.one_of(nominals(-300, 300), nominals(-6, 6), pick(NAN, INF, -0.0))
devs = st.one_of(sigmas(-300, 300), sigmas(-6, 6), pick(NAN, INF))
INPUTS = ('list', 'tuple', 'array', 'int', 'float32', 'object', 'F')


@cached
def columns(n):
    return st.tuples(st.lists(values, min_size=n, max_size=n),
                     st.lists(devs, min_size=n, max_size=n))


@st.composite
def creations(draw):
    shape = draw(st.sampled_from(SHAPES))
    n = size(shape)
    v, s = draw(columns(n))
    return {'shape': list(shape), 'v': v, 's': s,
            'inputs': [draw(pick(*INPUTS)), draw(pick(*INPUTS))],
            'matrix': draw(bools), 'legacy': draw(pick(False, False, True)),
            'negative': draw(pick(*[None] * 12 + [-0.5, -1e-300, -INF])),
            'mix': draw(st.lists(pick('keep', 'plain', 'int'), min_size=n,
                                 max_size=n))}


def as_input(numbers, shape, kind):
    """The array-like, and the floats it contains."""
    if kind == 'int':
        numbers = [int(min(max(x, -1e15), 1e15)) if x == x else 7
                   for x in numbers]
        arr = np.array(numbers, dtype=int).reshape(shape)
    elif kind == 'float32':
        numbers = [x if x == x and abs(x) < 1e30 and (abs(x) > 1e-30 or x == 0)
                   else 2.5 for x in numbers]
        arr = np.array(numbers, dtype=np.float32).reshape(shape)
    elif kind == 'object':
        arr = np.array(numbers, dtype=object).reshape(shape)
    else:
        arr = np.array(numbers, dtype=float).reshape(shape)
    floats = [float(x) for x in arr.ravel().tolist()]
    if kind == 'F':
        arr = np.asfortranarray(arr)
    if kind in ('list', 'tuple') and len(numbers):
        def nest(a):
            return tuple(map(nest, a)) if isinstance(a, list) else a
        arr = arr.tolist()
        if kind == 'tuple':
            arr = nest(arr)
    return arr, floats


def components(what, obj, n, s, shape, cls):
    for name, want in (('nominal_values', n), ('std_devs', s)):
        with lib('%s(%s)' % (name, what)):
            got = getattr(unumpy, name)(obj)
        require(type(got) is cls, '%s(%s) is a %s', name, what, type(got))
        require(got.dtype == float and got.shape == shape,
                '%s(%s) has the type %s and shape %s', name, what, got.dtype,
                got.shape)
        flat = np.asarray(got).ravel().tolist()
        for k, (a, b) in enumerate(zip(flat, want)):
            require(same_float(a, b) or a == b == 0, '%s(%s)[%d] is %r, '
                    'expected %r', name, what, k, a, b)


def check_create(case, rec):
    shape = tuple(case['shape'])
    v, n = as_input(case['v'], shape, case['inputs'][0])
    devs = list(case['s'])
    if case['negative'] is not None and devs:
        devs[len(devs) // 2] = case['negative']
        s, fs = np.array(devs).reshape(shape), devs
    else:
        s, fs = as_input(devs, shape, case['inputs'][1])
    is_matrix = case['matrix'] and len(shape) <= 2
    name = 'umatrix' if is_matrix else 'uarray'
    what = 'unumpy.%s(%r, %r)' % (name, v, s)
    make = getattr(unumpy, name)
    try:
        if case['legacy']:
            arr, caught = quiet(lambda: make((v, s)))
        else:
            arr, caught = quiet(lambda: make(v, s))
    except NegativeStdDev:
        require(any(x < 0 for x in fs), '%s raised NegativeStdDev', what)
        rec.label('negative')
        rec.nontrivial()
        return
    except Exception as exc:
        fail('%s raised %s: %s', what, type(exc).__name__, exc)
    require(not any(x < 0 for x in fs), '%s accepted a negative standard '
            'deviation', what)
    require((len(caught) > 0) == case['legacy'], '%s issued %d warnings', what,
            len(caught))
    full = shape
    if is_matrix and len(shape) == 1:
        full = (1,) + shape
    require(type(arr) is (unumpy.matrix if is_matrix else np.ndarray),
            '%s is a %s', what, type(arr))
    require(arr.shape == full and arr.dtype == object,
            '%s has the shape %s and type %s', what, arr.shape, arr.dtype)
    items = np.asarray(arr).ravel().tolist()
    for k, x in enumerate(items):
        require(type(x) is Variable, '%s has an element of type %s', what,
                type(x))
        require(type(x.nominal_value) is float and
                same_float(x.nominal_value, n[k]), '%s has the value %r, '
                'expected %r', what, x.nominal_value, n[k])
        require(same_float(x.std_dev, fs[k]) or x.std_dev == fs[k] == 0,
                '%s has the standard deviation %r, expected %r', what,
                x.std_dev, fs[k])
        require(x.tag is None, '%s has the tag %r', what, x.tag)
        require(list(x.derivatives.items()) == [(x, 1)], '%s has dependent '
                'elements', what)
    require(len(set(map(id, items))) == len(items), '%s repeats an element', what)
    cls = np.matrix if is_matrix else np.ndarray
    components(what, arr, n, fs, full, cls)
    if is_matrix:
        got = arr.nominal_values
        require(type(got) is np.matrix and got.shape == full and all(
            same_float(a, b) for a, b in zip(np.asarray(got).ravel(), n)),
            'the nominal_values attribute of %s is %r', what, got)
        got, caught = quiet(lambda: arr.std_devs)
        require(not caught and isinstance(got, np.matrix) and got.shape == full,
                'the std_devs attribute of %s is %r', what, got)
        again, caught = quiet(lambda: arr.std_devs())
        require(len(caught) > 0, 'std_devs() issued no warning')
        for g in (got, again):
            require(g.shape == full and all(
                same_float(a, b) or a == b == 0
                for a, b in zip(np.asarray(g).ravel(), fs)),
                'the std_devs attribute of %s is %r', what, g)
        rec.label('matrix')
    # Arrays that mix numbers with uncertainties and plain numbers
    mixed, mn, ms = [], [], []
    for k, x in enumerate(items):
        how = case['mix'][k]
        if how == 'keep':
            mixed.append(x)
            mn.append(n[k])
            ms.append(fs[k])
        else:
            p = n[k]
            if how == 'int' and math.isfinite(p) and abs(p) < 1e15:
                p = int(p)
            mixed.append(p)
            mn.append(float(p))
            ms.append(0.0)
    obj = np.empty(len(mixed), dtype=object)
    obj[:] = mixed
    obj = obj.reshape(full)
    if is_matrix:
        obj = obj.view(unumpy.matrix)
    components('mixed array', obj, mn, ms, full, cls)
    if items:
        components('nested list', np.asarray(obj).tolist(), mn, ms, full,
                   np.ndarray)
    rec.label(name, 'legacy' if case['legacy'] else 'current',
              *('from ' + i for i in case['inputs']))
    rec.nontrivial(len(items) > 1)


# Group 2: operations element by element

def snapshot(objs):
    """The contents of the operands (by identity, for numbers with
    uncertainties)."""
    return [(list(map(id, np.asarray(x).ravel().tolist())), x.copy())
            if isinstance(x, np.ndarray) and x.dtype == object else
            (None, x.copy()) if isinstance(x, np.ndarray) else None
            for x in objs]


def untouched(what, objs, before, got=None):
    """An operation gives a new array and does not change its operands."""
    for x, snap in zip(objs, before):
        if snap is None:
            continue
        ids, copy = snap
        require(x.shape == copy.shape and (
            ids == list(map(id, np.asarray(x).ravel().tolist()))
            if ids is not None else np.array_equal(x, copy, equal_nan=True)),
            '%s changed an operand: %r, was %r', what, x, copy)
        require(not isinstance(got, np.ndarray) or
                not np.shares_memory(got, x),
                '%s gives an array that shares its elements with an operand',
                what)


OPS = dict(BINARY)
COMPARISONS = {'<': operator.lt, '<=': operator.le, '>': operator.gt,
               '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
KINDS = ('u', 'u', 'mixed', 'float', 'int', 'list', 'ulist', 'scalar u',
         'scalar float', 'scalar np.float64', 'scalar int', 'scalar np.int64')
PAIRS = [((3,), (3,)), ((2, 3), (3,)), ((2, 3), (2, 1)), ((2, 1), (1, 3)),
         ((2, 2), (2, 2)), ((1,), (4,)), ((2, 1, 2), (3, 1)), ((0,), (1,))]
element = st.one_of(nominals(-6, 6), small_ints, small_ints)


@cached
def operands(n):
    # value, standard deviation, correlated, plain
    return st.lists(st.tuples(element, sigmas(-6, 6), bools, bools).map(list),
                    min_size=n, max_size=n)


@st.composite
def elementwise(draw):
    shapes = draw(st.sampled_from(PAIRS))
    if draw(bools):
        shapes = shapes[::-1]
    kinds = [draw(pick(*KINDS)), draw(pick(*KINDS))]
    if not any(k in ('u', 'mixed') for k in kinds):
        kinds[draw(ints(0, 1))] = 'u'
    op = draw(st.sampled_from(sorted(OPS) + sorted(COMPARISONS) +
                              ['+', '-', '*', '/']))
    return {'op': op, 'kinds': kinds, 'shapes': [list(s) for s in shapes],
            'items': [draw(operands(size(s))) for s in shapes],
            'matrix': draw(pick(None, None, None, 0, 1)),
            'inplace': draw(pick(False, False, False, True)),
            'w': draw(sigmas(-6, 6, zero=False)),
            'same': draw(pick(False, False, False, True)),
            'unary': draw(pick(None, None, None, 'neg', 'pos', 'abs'))}


def operand(kind, shape, items, w, positive):
    """(object, list of its elements, shape)"""
    def number(x, s, corr, plain):
        if positive:
            x = abs(x)
        if corr:
            return ufloat(x, s) + 2 * w
        return ufloat(x, s)
    if kind.startswith('scalar'):
        x = list(items[0]) if items else [1.5, 0.5, False, False]
        if positive:
            x[0] = abs(x[0])
        if kind == 'scalar u':
            e = number(*x)
        elif 'int' in kind:
            e = int(min(max(x[0], -50), 50))
        else:
            e = x[0]
        obj = np.float64(e) if kind == 'scalar np.float64' else \
            np.int64(e) if kind == 'scalar np.int64' else e
        return obj, [e], ()
    if kind == 'int':
        plain = [int(min(max(x[0], -50), 50)) for x in items]
        plain = [abs(p) for p in plain] if positive else plain
        return np.array(plain, dtype=int).reshape(shape), plain, shape
    if kind in ('float', 'list'):
        plain = [abs(x[0]) if positive else x[0] for x in items]
        arr = np.array(plain, dtype=float).reshape(shape)
        return (arr.tolist() if kind == 'list' and plain else arr), plain, shape
    es = []
    for x in items:
        if kind == 'mixed' and x[3]:
            es.append(abs(x[0]) if positive else x[0])
        else:
            es.append(number(*x))
    arr = np.empty(len(es), dtype=object)
    arr[:] = es
    arr = arr.reshape(shape)
    return (arr.tolist() if kind == 'ulist' and es else arr), es, shape


def check_elementwise(case, rec):
    w = ufloat(0, case['w'])
    op = case['op']
    f = OPS.get(op) or COMPARISONS[op]
    objs, lists, shapes = [], [], []
    for k, kind in enumerate(case['kinds']):
        obj, es, shape = operand(kind, tuple(case['shapes'][k]),
                                 case['items'][k], w, op == '**' and k == 0)
        objs.append(obj)
        lists.append(es)
        shapes.append(shape)
    if case['same'] and isinstance(objs[0], np.ndarray) and \
            objs[0].dtype == object:
        objs[1], lists[1], shapes[1] = objs[0], lists[0], shapes[0]
    matrix = case['matrix']
    if matrix is not None and op != '**' and op != '*' and \
            isinstance(objs[matrix], np.ndarray) and \
            objs[matrix].dtype == object and \
            all(len(s) in (0, 2) for s in shapes):
        objs[matrix] = objs[matrix].view(unumpy.matrix)
        rec.label('matrix')
    else:
        matrix = None
    shape = np.broadcast_shapes(*shapes)
    grids = [[es[i] for i in np.broadcast_to(
        np.arange(len(es)).reshape(own), shape).flat]
        for es, own in zip(lists, shapes)]
    want, error = [], None
    for a, b in zip(*grids):
        try:
            want.append(f(a, b))
            if isinstance(want[-1], complex):
                rec.label('complex')
                return
        except Exception as exc:
            error = exc
            break
    what = '%s %s %s' % (case['kinds'][0], op, case['kinds'][1])
    target = None
    before = snapshot(objs)
    try:
        if case['inplace'] and op in OPS and isinstance(objs[0], np.ndarray) \
                and objs[0].dtype == object and shapes[0] == shape:
            target = objs[0].copy()
            got = getattr(operator, {'+': 'iadd', '-': 'isub', '*': 'imul',
                                     '/': 'itruediv', '**': 'ipow',
                                     '//': 'ifloordiv', '%': 'imod'}[op])(
                target, objs[1])
            rec.label('in place')
        else:
            got = f(*objs)
    except Exception as exc:
        require(error is not None and type(exc) is type(error),
                '%s raised %s: %s; scalars give %r', what, type(exc).__name__,
                exc, error)
        rec.label('exception')
        return
    require(error is None, '%s gives %r, scalars raise %r', what, got, error)
    untouched(what, objs, before, got)
    require(isinstance(got, np.ndarray) and got.shape == shape,
            '%s gives %r', what, got)
    require(got.dtype == (bool if op in COMPARISONS else object),
            '%s has the type %s', what, got.dtype)
    if matrix is not None and target is None:
        require(type(got) is unumpy.matrix, '%s is a %s', what, type(got))
    if target is not None:
        require(got is target, '%s is not done in place', what)
    for k, (g, r) in enumerate(zip(np.asarray(got).ravel().tolist(), want)):
        same_value(g, r, 'element %d of %s' % (k, what))
    u = case['unary']
    if u and op not in COMPARISONS:
        with lib('%s(array)' % u):
            r = UNARY[u](got)
        for a, b in zip(np.asarray(r).ravel().tolist(),
                        np.asarray(got).ravel().tolist()):
            same_value(a, UNARY[u](b), u)
        rec.label(u)
    rec.label(op, *case['kinds'])
    rec.nontrivial(len(want) > 1)


# Group 3: sums, means, products of matrices, with exact results

dyadic = st.tuples(ints(-24, 24), ints(0, 2)).map(lambda t: t[0] / 2. ** t[1])
POOL = 6


@cached
def exact_items(n):
    # constant, coefficients of the variables of the pool, plain
    return st.lists(st.tuples(
        dyadic, st.dictionaries(ints(0, POOL - 1).map(str),
                                pick(1, 1, -1, 2, -0.5), max_size=2),
        pick(False, False, True)).map(list), min_size=n, max_size=n)


PRODUCTS = [((2, 3), (3, 2)), ((2, 2), (2, 2)), ((1, 3), (3, 1)),
            ((3, 1), (1, 2)), ((2, 3), (3,)), ((3,), (3, 2)), ((3,), (3,)),
            ((3, 3), (3, 1)), ((1, 1), (1, 2)), ((2, 4), (4, 1))]
REDUCTIONS = ('sum', 'mean', 'cumsum', 'prod', 'dot', '@', '*', 'trace', 'T',
              'scalar', 'outer', 'power', 'max', 'sort', 'pickle', 'masked',
              'concatenate', 'dot', '@', '*', 'sum', 'mean', 'index',
              'vector', 'vector', 'column')


@st.composite
def exacts(draw):
    what = draw(pick(*REDUCTIONS))
    shapes = draw(st.sampled_from(PRODUCTS))
    if what == 'power':
        shapes = ((2, 2), (2, 2))
    kinds = [draw(pick('u', 'u', 'plain', 'matrix', 'list')) for _ in range(2)]
    if 'u' not in kinds and 'matrix' not in kinds:
        kinds[draw(ints(0, 1))] = 'matrix'
    return {'what': what, 'shapes': [list(s) for s in shapes], 'kinds': kinds,
            'items': [draw(exact_items(size(s))) for s in shapes],
            'pool': draw(st.lists(st.tuples(dyadic, sigmas(-3, 3)).map(list),
                                  min_size=POOL, max_size=POOL)),
            'axis': draw(pick(None, 0, 1, -1)), 'scalar': draw(dyadic),
            'k': draw(ints(0, POOL - 1))}


def exact_array(items, shape, pool, plain):
    es = []
    for c, coefs, is_plain in items:
        if plain or is_plain:
            es.append(c)
        else:
            e = c
            for k, v in coefs.items():
                e = e + v * pool[int(k)]
            es.append(e)
    arr = np.empty(len(es), dtype=object)
    arr[:] = es
    return arr.reshape(shape)


def rows(arr):
    return [list(r) for r in arr]


def scalar_product(a, b):
    """Matrix product by scalar operations (of 1-d or 2-d object arrays)."""
    ra = [list(a)] if a.ndim == 1 else rows(a)
    cb = [list(b)] if b.ndim == 1 else rows(b.T)
    out = [[sum_of([x * y for x, y in zip(r, c)]) for c in cb] for r in ra]
    if a.ndim == 1 and b.ndim == 1:
        return out[0][0]
    if a.ndim == 1:
        return to_array(out[0])
    if b.ndim == 1:
        return to_array([r[0] for r in out])
    return to_array(out)


def sum_of(terms):
    total = terms[0]
    for t in terms[1:]:
        total = total + t
    return total


def to_array(nested):
    if not isinstance(nested[0], list):
        arr = np.empty(len(nested), dtype=object)
        arr[:] = nested
        return arr
    arr = np.empty((len(nested), len(nested[0])), dtype=object)
    for i, r in enumerate(nested):
        for j, x in enumerate(r):
            arr[i, j] = x
    return arr


def linear(x):
    """Value and non-zero derivatives."""
    if isinstance(x, UFloat):
        return x.nominal_value, {v: float(d) for v, d in x.derivatives.items()
                                 if d != 0}
    return float(x), {}


def compare(got, want, what, tol=0):
    n, d = linear(got)
    m, e = linear(want)
    require(n == m or abs(n - m) <= tol * max(abs(n), abs(m), 1),
            '%s: value %r, scalars give %r', what, n, m)
    for v in set(d) | set(e):
        a, b = d.get(v, 0.0), e.get(v, 0.0)
        require(a == b or abs(a - b) <= tol * max(abs(a), abs(b), 1),
                '%s: derivative %r, scalars give %r', what, a, b)


def compare_all(got, want, what, tol=0):
    g = np.asarray(got)
    w = want if isinstance(want, np.ndarray) else None
    if w is None:
        if g.ndim:
            require(g.size == 1, '%s: shape %s', what, g.shape)
            g = g.ravel()[0]
        else:
            g = got if not isinstance(got, np.ndarray) else g.item()
        compare(g, want, what, tol)
        return
    require(g.shape == w.shape, '%s: shape %s, expected %s', what, g.shape,
            w.shape)
    for a, b in zip(g.ravel().tolist(), w.ravel().tolist()):
        compare(a, b, what, tol)


def lanes(arr, axis, f):
    """f applied to the list of elements along an axis (None: all)."""
    if axis is None:
        return f(arr.ravel().tolist())
    moved = np.moveaxis(arr, axis, -1)
    flat = [f(list(r)) for r in moved.reshape(-1, moved.shape[-1])]
    out = np.empty(len(flat), dtype=object)
    out[:] = flat
    return out.reshape(moved.shape[:-1])


def check_exact(case, rec):
    pool = [ufloat(*p) for p in case['pool']]
    plain, objs = [], []
    for k, kind in enumerate(case['kinds']):
        shape = tuple(case['shapes'][k])
        arr = exact_array(case['items'][k], shape, pool, kind in ('plain',))
        plain.append(arr)
        if kind == 'matrix' and len(shape) == 2:
            objs.append(arr.copy().view(unumpy.matrix))
        elif kind == 'list':
            objs.append(arr.tolist())
        elif kind == 'plain':
            objs.append(arr.astype(float))
        else:
            objs.append(arr.copy())
    what = case['what']
    a, b = plain
    x, y = objs
    kx, ky = case['kinds']
    axis = case['axis']
    name = '%s of %s, %s' % (what, kx, ky)
    is_matrix = isinstance(x, unumpy.matrix)
    before = snapshot(objs)
    if what in ('vector', 'column'):
        # A sequence, then a matrix, or a one-column matrix, then a sequence
        if b.ndim == 1:
            b = b.reshape(-1, 1)
        flat = a.ravel()
        if what == 'vector':
            flat = np.resize(flat, b.shape[0])
        else:
            b = b.reshape(-1, 1)
        form = 'list' if kx == 'list' else 'tuple' if kx == 'matrix' else 'array'
        seq = flat.tolist() if form == 'list' else tuple(flat.tolist()) \
            if form == 'tuple' else flat.astype(float) if kx == 'plain' else \
            flat.copy()
        mat = b.copy().view(unumpy.matrix)
        name = '%s (%s) of %s' % (what, form, kx)
        with lib(name):
            got = seq * mat if what == 'vector' else mat * seq
        require(type(got) is unumpy.matrix, '%s is a %s', name, type(got))
        compare_all(got, scalar_product(flat, b).reshape(1, -1)
                    if what == 'vector' else
                    scalar_product(b, flat.reshape(1, -1)), name)
        return_early(rec, what, kx)
        return
    if what in ('dot', '@', '*', 'outer', 'concatenate'):
        if what == '*' and not (is_matrix or isinstance(y, unumpy.matrix)):
            what = 'dot'
        if what == '*' and (a.ndim == 1 or b.ndim == 1):
            what = 'dot'
        if what == '@' and kx == ky == 'list':
            what = 'dot'
        with lib(name):
            if what == 'dot':
                got = np.dot(x, y)
            elif what == '@':
                if isinstance(x, list):
                    got = operator.matmul(x, y) if isinstance(y, np.ndarray) \
                        else np.dot(x, y)
                else:
                    got = operator.matmul(x, y)
            elif what == '*':
                got = x * y
                require(type(got) is unumpy.matrix, '%s is a %s', name, type(got))
            elif what == 'outer':
                got = np.outer(x, y)
            else:
                got = np.concatenate([np.ravel(x), np.ravel(y)], axis=None)
        if what == 'outer':
            want = to_array([[p * q for q in b.ravel().tolist()]
                             for p in a.ravel().tolist()])
        elif what == 'concatenate':
            want = to_array(a.ravel().tolist() + b.ravel().tolist())
        else:
            want = scalar_product(a, b)
            if isinstance(got, np.matrix) and isinstance(want, np.ndarray):
                want = want.reshape(got.shape) if want.size == got.size else want
        compare_all(got, want, name)
    else:
        if isinstance(x, list):
            x = a.copy()
        if axis is not None and axis >= a.ndim:
            axis = 0
        tol = 0
        with lib(name):
            if what == 'sum':
                got = x.sum(axis=axis)
                want = lanes(a, axis, sum_of)
            elif what == 'mean':
                got = x.mean(axis=axis)
                want = lanes(a, axis, lambda t: sum_of(t) / len(t))
                tol = 1e-14
            elif what == 'cumsum':
                got = np.asarray(x).cumsum(axis=axis)
                if axis is None:
                    r = a.ravel().tolist()
                    want = to_array([sum_of(r[:k + 1]) for k in range(len(r))])
                else:
                    want = np.add.accumulate(a, axis=axis)
            elif what == 'prod':
                got = x.prod(axis=axis)

                def prod_of(t):
                    p = t[0]
                    for q in t[1:]:
                        p = p * q
                    return p
                want = lanes(a, axis, prod_of)
                tol = 1e-13
            elif what == 'trace':
                if a.ndim < 2:
                    return
                got = x.trace()
                want = sum_of([a[k, k] for k in range(min(a.shape))])
            elif what == 'T':
                got = x.T
                require(type(got) is type(x), 'x.T is a %s', type(got))
                want = a.T
            elif what == 'index':
                got = x[::-1][:1]
                require(type(got) is type(x), 'x[...] is a %s', type(got))
                want = a[::-1][:1]
            elif what == 'scalar':
                u = pool[case['k']]
                for s in (case['scalar'], u, np.float64(case['scalar']), 3,
                          np.int64(2), 1, 1.0, 0, True):
                    untouched(name, [x], before, x * s)
                    untouched(name, [x], before, s * x)
                    compare_all(x * s, to_array_like(a, lambda e: e * s), name)
                    compare_all(s * x, to_array_like(a, lambda e: e * s), name)
                    if is_matrix:
                        require(type(x * s) is type(s * x) is unumpy.matrix,
                                'matrix*scalar is a %s', type(x * s))
                    copy = x.copy()
                    if copy.dtype == object:
                        copy *= s
                        compare_all(copy, to_array_like(a, lambda e: e * s), name)
                return_early(rec, what, kx)
                return
            elif what == 'power':
                if not is_matrix:
                    return
                got = x ** 2
                require(type(got) is unumpy.matrix, 'x**2 is a %s', type(got))
                want = scalar_product(a, a)
                compare_all(x ** 3, scalar_product(want, a), 'x**3')
                compare_all(x ** 1, a, 'x**1')
            elif what in ('max', 'sort'):
                if what == 'max':
                    got = x.max(axis=axis)
                    want = lanes(a, axis, max_of)
                else:
                    flat = np.asarray(x).ravel()
                    got = np.sort(flat, kind='stable')
                    want = to_array(sorted(a.ravel().tolist(),
                                           key=uncertainties.nominal_value))
                # which of equal values is returned is not specified
                got = unumpy.nominal_values(got)
                want = unumpy.nominal_values(want)
                require((np.asarray(got).ravel() == want.ravel()).all(),
                        '%s is %r, expected %r', name, got, want)
                return_early(rec, what, kx)
                return
            elif what == 'pickle':
                copy, others = pickle.loads(pickle.dumps((x, pool)))
                require(type(copy) is type(x), 'unpickled: %s', type(copy))
                back = dict(zip(others, pool))
                for p, q in zip(np.asarray(copy).ravel().tolist(),
                                a.ravel().tolist()):
                    n, d = linear(p)
                    require(set(d) <= set(back), 'unpickled array: other '
                            'variables')
                    m, e = linear(q)
                    require(n == m and {back[v]: c for v, c in d.items()} == e,
                            'unpickled array: %r, expected %r', d, e)
                return_early(rec, what, kx)
                return
            elif what == 'masked':
                flat = np.asarray(x, dtype=object).ravel()
                extra = np.empty(len(flat) + 2, dtype=object)
                extra[:2] = [ufloat(NAN, 1), NAN]
                extra[2:] = flat
                kept = extra[~unumpy.isnan(extra)]
                got = kept.mean()
                want = sum_of(a.ravel().tolist()) / a.size
                masked = np.ma.array(extra, mask=unumpy.isnan(extra))
                compare(masked.mean(), want, 'masked mean', 1e-14)
                tol = 1e-14
            else:
                fail('?')
        if isinstance(got, np.matrix) and isinstance(want, np.ndarray) and \
                what in ('sum', 'mean', 'prod'):
            require(got.size == want.size, '%s: shape %s', name, got.shape)
            want = want.reshape(got.shape)
        compare_all(got, want, name, tol)
    untouched(name, objs, before,
              None if what in ('T', 'index', 'trace', 'sum') else got)
    return_early(rec, what, kx)


def return_early(rec, what, kind):
    rec.label(what, kind)
    rec.nontrivial()


def to_array_like(a, f):
    out = np.empty(a.shape, dtype=object)
    out.ravel()[:] = [f(e) for e in a.ravel().tolist()]
    return out


def max_of(terms):
    best = terms[0]
    for t in terms[1:]:
        if t > best:
            best = t
    return best


# Group 4: text files, as documented

text_cases = st.fixed_dictionaries({
    'rows': ints(1, 4), 'cols': ints(1, 3),
    'items': st.lists(st.tuples(st.one_of(nominals(-30, 30), nominals(-6, 6)),
                                sigmas(-30, 30)).map(list),
                      min_size=12, max_size=12)})


def check_text(case, rec):
    r, c = case['rows'], case['cols']
    items = case['items'][:r * c]
    arr = unumpy.uarray(np.array([i[0] for i in items]).reshape(r, c),
                        np.array([i[1] for i in items]).reshape(r, c))
    out = io.BytesIO()
    np.savetxt(out, arr, fmt='%r')
    out.seek(0)
    converters = dict.fromkeys(
        range(c), lambda b: uncertainties.ufloat_fromstr(
            b.decode('latin1') if isinstance(b, bytes) else b))
    with lib('numpy.loadtxt'):
        back = np.loadtxt(out, converters=converters, dtype=object, ndmin=2)
    require(back.shape == (r, c), 'shape %s', back.shape)
    for x, (n, s) in zip(back.ravel().tolist(), items):
        require(same_float(x.nominal_value, n) or x.nominal_value == n == 0,
                'nominal value %r read back as %r', n, x.nominal_value)
        require(same_float(x.std_dev, s), 'standard deviation %r read back as %r',
                s, x.std_dev)
    rec.nontrivial(len(items) > 1)


GROUPS = [
    Group('create', creations(), check_create, 5000, 150000,
          'uarray() or umatrix() of nominal values and standard deviations of '
          'one shape, in any kind of array-like, by the current or the obsolete '
          'form; arrays mixed with plain numbers; non-trivial: more than one '
          'element, or a rejected standard deviation'),
    Group('elementwise', elementwise(), check_elementwise, 8000, 250000,
          'an operator or comparison on two operands that can be broadcast '
          '(arrays of numbers with uncertainties, mixed, floats, integers, '
          'lists, scalars, matrices); non-trivial: more than one result'),
    Group('exact', exacts(), check_exact, 8000, 250000,
          'sums, means, products of matrices and other NumPy functions on arrays '
          'of linear forms with exactly representable results; all are counted '
          'as non-trivial'),
    Group('text', text_cases, check_text, 1000, 20000,
          'arrays saved by numpy.savetxt() and read back by numpy.loadtxt(); '
          'non-trivial: more than one element'),
    Group('large', large.sized(6, 60, 1500, ('vector', 'table', 'column', 'cube', 'matrix')),
          large.check_array, 200, 6000,
          'arrays of 6 to 1500 elements; non-trivial: more than 12'),
]
