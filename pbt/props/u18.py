"""U18: array functions are the scalar functions, element by element."""
import math
from hypothesis import strategies as st
import uncertainties
from uncertainties import ufloat, umath, UFloat, unumpy

from ..core import Group, fail, require, lib
from ..gen import *
from .u02 import F1, F2, real

ASSUMPTIONS = [
    'the umath functions are the reference (they are decided by U02 to U04)',
    'no claim on unumpy.modf (whose scalar version returns a pair), nor on the '
    'integer results of ceil, floor and trunc for empty arrays or numbers '
    'beyond 2**53 (known finding)']

# Names in the math module that NumPy spells differently
NUMPY = {'acos': 'arccos', 'acosh': 'arccosh', 'asin': 'arcsin',
         'asinh': 'arcsinh', 'atan': 'arctan', 'atan2': 'arctan2',
         'atanh': 'arctanh'}
INTEGER = ('ceil', 'floor', 'trunc')
BOOLEAN = ('isnan', 'isinf')

small = st.one_of(small_ints, decimals, dyadics, signed(magnitudes(-9, 14)))
any_value = st.one_of(real, real, pick(NAN, INF, -INF))
ONE = {name: F1[name][0] for name in F1}
for _name in INTEGER:
    ONE[_name] = small
for _name in BOOLEAN:
    ONE[_name] = any_value
TWO = {name: F2[name][:2] for name in F2}
TWO['ldexp'] = (st.one_of(nominals(-9, 9), signed(magnitudes(-200, 200))),
                ints(-60, 60))

# Points out of the domain: the scalar function raises
BAD = {'acos': [2.0, -1.5], 'asin': [1.25, -9.0], 'atanh': [1.0, -1.0, 3.0],
       'acosh': [0.5, -2.0], 'log': [0.0, -1.0], 'log10': [0.0, -2.0],
       'log1p': [-1.0, -2.0], 'sqrt': [-1.0, -1e-9], 'gamma': [0.0, -1.0, 200.],
       'lgamma': [0.0, -2.0], 'exp': [1000.0], 'cosh': [1000.0, -800.0],
       'sinh': [1e6], 'expm1': [900.0], 'sin': [INF], 'cos': [-INF],
       'ceil': [INF], 'floor': [-INF], 'trunc': [NAN]}

SHAPES = [(), (1,), (3,), (4,), (2, 3), (3, 1), (1, 2), (1, 2, 2), (2, 1, 3),
          (0,), (2, 0)]
PAIRS = [((), ()), ((3,), ()), ((), (3,)), ((3,), (3,)), ((2, 3), (3,)),
         ((2, 3), (2, 1)), ((2, 1), (1, 3)), ((2, 3), ()), ((1,), (4,)),
         ((2, 2), (2, 2)), ((2, 1, 2), (3, 1)), ((0,), (1,)), ((0,), ()),
         ((2, 0), (2, 1))]
FORMS = ('array', 'array', 'array', 'list', 'tuple', 'F', 'strided', 'readonly',
         'matrix', 'numpy.matrix')


@cached
def element(strategy, plain):
    """[value, kind, standard deviation, coefficient of the common variable]"""
    kinds = ('plain',) if plain else ('var', 'var', 'corr', 'corr', 'same',
                                      'plain')
    return st.tuples(strategy, pick(*kinds), sigmas(-6, 6),
                     pick(1.0, -2.0, 0.25)).map(list)


def size(shape):
    n = 1
    for k in shape:
        n *= k
    return n


@cached
def contents(strategy, n, plain):
    return st.lists(element(strategy, plain), min_size=n, max_size=n)


@st.composite
def cases(draw):
    two = draw(pick(False, False, True))
    name = draw(st.sampled_from(sorted(TWO if two else ONE)))
    shapes = draw(st.sampled_from(PAIRS)) if two else \
        (draw(st.sampled_from(SHAPES)),)
    args = []
    plain_case = draw(pick(True, False, False, False, False))
    for k, shape in enumerate(shapes):
        strategy = TWO[name][k] if two else ONE[name]
        plain = plain_case or (name == 'ldexp' and k == 1)
        args.append({'shape': list(shape), 'form': draw(st.sampled_from(FORMS)),
                     'items': draw(contents(strategy, size(shape), plain))})
    if name == 'pow':
        fix_powers(args)
    bad = None
    if draw(pick(True, False, False, False, False, False)) and name in BAD \
            and args[0]['items'] and not two:
        bad = draw(st.sampled_from(BAD[name]))
        args[0]['items'][draw(ints(0, len(args[0]['items']) - 1))][0] = bad
    return {'f': name, 'args': args, 'bad': bad is not None,
            'w': draw(sigmas(-6, 6, zero=False)), 'alias': draw(bools)}


@st.composite
def large_cases(draw):
    # The elements are repeated (each time with new variables)
    case = draw(cases())
    n = draw(st.one_of(ints(2, 12), ints(12, 120)))
    deep = draw(pick(False, False, True))
    shapes = [tuple(arg['shape']) for arg in case['args']]
    for arg, shape in zip(case['args'], shapes):
        if shape == () and len(shapes) > 1:
            continue
        arg['shape'] = [n] + list(shape) if not deep else [n, 1, 1] + list(shape)
        if len(shapes) > 1 and len(set(map(len, shapes))) > 1 and \
                len(shape) < max(map(len, shapes)):
            arg['shape'] = list(shape)      # Broadcast
        else:
            arg['times'] = n
    return case


def check_large(case, rec):
    case = dict(case, args=[dict(arg, items=arg['items'] * arg.get('times', 1))
                            for arg in case['args']])
    check(case, rec)


def fix_powers(args):
    """Powers that are defined whatever the pairing of the elements."""
    for item in args[0]['items']:
        item[0] = abs(item[0])
    for item in args[1]['items']:
        item[0] = math.fmod(item[0], 30)


def make(arg, w, first, matrices):
    """Elements as a list, and the array-like of these elements."""
    elements = []
    for x, kind, s, c in arg['items']:
        if kind == 'plain' or isinstance(x, int):
            e = x
        elif kind == 'var':
            e = ufloat(x, s)
        elif kind == 'corr':
            e = ufloat(x, s) + c * w
        else:               # the same number again
            e = first[0] if first and first[0].nominal_value == x \
                else ufloat(x, s)
        if isinstance(e, UFloat):
            first.append(e)
        elements.append(e)
    shape = tuple(arg['shape'])
    if shape == ():
        return elements, elements[0]
    plain = elements and all(isinstance(e, float) for e in elements)
    arr = np.empty(len(elements), dtype=object)
    for k, e in enumerate(elements):
        arr[k] = e
    if plain and arg['form'] != 'readonly':
        arr = np.array(elements)
    elif elements and all(type(e) is int for e in elements):
        arr = np.array(elements)
    arr = arr.reshape(shape)
    form = arg['form']
    if form == 'list':
        return elements, arr.tolist()
    if form == 'tuple':
        def nest(a):
            return tuple(map(nest, a)) if isinstance(a, list) else a
        return elements, nest(arr.tolist())
    if form == 'F':
        return elements, np.asfortranarray(arr)
    if form == 'strided':
        big = np.zeros(shape[:-1] + (2 * shape[-1],), dtype=arr.dtype)
        big[..., ::2] = arr
        return elements, big[..., ::2]
    if form == 'readonly':
        arr.flags.writeable = False
    if not matrices or len(shape) != 2:
        return elements, arr
    if form == 'matrix':
        return elements, arr.view(unumpy.matrix)
    if form == 'numpy.matrix':
        return elements, arr.view(np.matrix)
    return elements, arr


def same_value(got, want, what):
    """Same scalar, with the same derivatives."""
    if not isinstance(want, UFloat):
        require(not isinstance(got, UFloat), '%s is %r, expected %r', what, got,
                want)
        require(same_float(got, want) if isinstance(want, float) else got == want,
                '%s is %r, expected %r', what, got, want)
        return
    require(isinstance(got, UFloat), '%s is a %s', what, type(got))
    require(same_float(got.nominal_value, want.nominal_value),
            '%s has the value %r, expected %r', what, got.nominal_value,
            want.nominal_value)
    dg, dw = got.derivatives, want.derivatives
    require(set(map(id, dg)) == set(map(id, dw)),
            '%s does not depend on the same variables as the scalar result', what)
    for v in dw:
        require(same_float(dg[v], dw[v]), '%s has the derivative %r, expected %r',
                what, dg[v], dw[v])
    require(same_float(got.std_dev, want.std_dev),
            '%s has the standard deviation %r, expected %r', what, got.std_dev,
            want.std_dev)


def state(elements):
    return [(e, e.nominal_value, float(e.std_dev)) if isinstance(e, UFloat)
            else e for e in elements]


def check(case, rec):
    name = case['f']
    w = ufloat(0, case['w'])
    first = []
    shapes = [tuple(arg['shape']) for arg in case['args']]
    shape = np.broadcast_shapes(*shapes)
    made = [make(arg, w, first, len(shape) == 2) for arg in case['args']]
    scalar = getattr(umath, name)
    public = NUMPY.get(name, name)
    if name == 'asinh' and case['alias']:
        public = name           # this one was only known by this name
    what = 'unumpy.%s' % public
    func = getattr(unumpy, public, None)
    require(func is not None and public in unumpy.__all__, 'there is no %s', what)
    # The scalar results, with broadcasting
    grids = []
    for (elements, _), own in zip(made, shapes):
        index = np.arange(len(elements)).reshape(own)
        grids.append([elements[i] for i in np.broadcast_to(index, shape).flat])
    want, error = [], None
    for point in zip(*grids):
        try:
            want.append(scalar(*point))
        except Exception as exc:
            error = exc
            break
    if name in INTEGER and not error and not want:
        rec.label('empty integer result')
        return
    before = [state(elements) for elements, _ in made]
    args = [container for _, container in made]
    try:
        got = func(*args)
    except Exception as exc:
        require(error is not None and type(exc) is type(error),
                '%s raised %s: %s; the scalar function gives %r', what,
                type(exc).__name__, exc, error)
        rec.label('exception')
        rec.nontrivial()
        return
    require(error is None, '%s gives %r, the scalar function raises %r', what,
            got, error)
    require(isinstance(got, np.ndarray), '%s gives a %s', what, type(got))
    require(got.shape == shape, '%s gives the shape %r, expected %r', what,
            got.shape, shape)
    if name in BOOLEAN:
        require(got.dtype == bool, '%s has the type %s', what, got.dtype)
    elif name in INTEGER:
        require(got.dtype.kind in 'iO', '%s has the type %s', what, got.dtype)
    else:
        require(got.dtype == object, '%s has the type %s', what, got.dtype)
    results = np.asarray(got).ravel().tolist()
    for k, (g, s) in enumerate(zip(results, want)):
        same_value(g, s, 'element %d of %s' % (k, what))
    for old, (elements, _) in zip(before, made):
        for o, e in zip(old, elements):
            if isinstance(o, tuple):
                require(o[0] is e and same_float(o[1], e.nominal_value) and
                        same_float(o[2], float(e.std_dev)), '%s changed its '
                        'argument', what)
    for (elements, _), arg in zip(made, args):
        if isinstance(arg, np.ndarray):
            flat = np.asarray(arg).ravel().tolist()
            require(all(a is b if isinstance(b, UFloat) else same_float(a, b)
                        for a, b in zip(flat, elements)),
                    '%s changed its argument', what)
    # As a mask
    if name in BOOLEAN and len(shape) == 1 and isinstance(args[0], np.ndarray):
        chosen = args[0][~got]
        keep = [e for e, r in zip(made[0][0], want) if not r]
        require(len(chosen) == len(keep) and all(
            a is b or same_float(a, b) for a, b in zip(chosen, keep)),
            'wrong selection by the mask %s', what)
        rec.label('mask')
    # Correlations between the elements: an algebraic sum of results
    if len(want) > 1 and all(isinstance(s, UFloat) for s in want):
        total = got.sum() if case['alias'] else np.asarray(got).ravel()[::-1].sum()
        ref = sum(want)
        a, b = float(total.std_dev), float(ref.std_dev)
        big = max(float(s.std_dev) for s in want)
        if math.isfinite(b) and math.isfinite(big) and big < 1e150:
            require(abs(a - b) <= 1e-10 * big * len(want), 'sum of %s: standard '
                    'deviation %r, %r for the scalar results', what, a, b)
    # The NumPy function of this name does the same on plain numbers
    plain_ref = getattr(np, public, None)
    if plain_ref is not None and len(made) == 1 and want:
        nominal = [uncertainties.nominal_value(e) for e in made[0][0]]
        ref = np.atleast_1d(plain_ref(np.array(nominal))).tolist()
        for g, r, x in zip(results, ref, nominal):
            g = uncertainties.nominal_value(g)
            require(same_float(g, r) or g == r or abs(g - r) <= 1e-9 * abs(r) or
                    name in ('tan', 'cos', 'sin') and abs(x) > 1e8,
                    '%s(%r) is %r, NumPy gives %r', what, x, g, r)
    rec.label(name, 'shape %s' % (shape,),
              *('form ' + arg['form'] for arg in case['args'] if arg['shape']))
    uncertain = sum(isinstance(e, UFloat) for es, _ in made for e in es)
    if uncertain == 0:
        rec.label('all plain')
    rec.nontrivial(len(want) > 1 and uncertain > 0)


def check_integer(case, rec):
    """Known finding: the integer results of ceil(), floor() and trunc()."""
    what = 'unumpy.%s(%r)' % (case['f'], case['values'])
    with lib(what):
        got = getattr(unumpy, case['f'])(np.array(case['values'], dtype=float))
    want = [getattr(math, case['f'])(x) for x in case['values']]
    require(got.tolist() == want, '%s is %r', what, got)


FINDING_CHECKS = {'integer': check_integer}

GROUPS = [
    Group('functions', cases(), check, 14000, 400000,
          'a function, one or two array-likes (nested lists, tuples, arrays of '
          'any layout, matrices) that can be broadcast, of variables, sums with '
          'a common variable, repeated numbers and plain numbers; sometimes an '
          'element out of the domain; non-trivial: several results and an '
          'uncertain element, or an exception'),
    Group('large', large_cases(), check_large, 300, 8000,
          'the same with the elements repeated 2 to 120 times (with other '
          'variables), in up to 6 dimensions')]
