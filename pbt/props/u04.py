"""U04: plain numbers behave as in the math module; failures as for floats."""
import copy
import fractions
import math
import operator
import pickle
from hypothesis import strategies as st
import uncertainties
from uncertainties import ufloat, umath, unumpy

from ..core import Group, fail, require, lib
from ..gen import *

ASSUMPTIONS = [
    'the reference for an exception is its type, not its message',
    'arguments that overflow inside a numerical derivative (gamma and lgamma '
    'within 1e-6 of the largest arguments) are left out',
    'points where the derivative of frexp or ldexp (a power of 2) is out of '
    'the range of floats are left out',
    'plain arguments: int, bool, float, NumPy scalars, fractions']

NAMES = [
    'acos', 'acosh', 'asin', 'asinh', 'atan', 'atan2', 'atanh', 'ceil',
    'copysign', 'cos', 'cosh', 'degrees', 'erf', 'erfc', 'exp', 'expm1', 'fabs',
    'factorial', 'floor', 'fmod', 'frexp', 'fsum', 'gamma', 'hypot', 'isinf',
    'isnan', 'ldexp', 'lgamma', 'log', 'log10', 'log1p', 'modf', 'pow',
    'radians', 'sin', 'sinh', 'sqrt', 'tan', 'tanh', 'trunc']

# What "from uncertainties.umath import *" brings (the documented use):
STAR = {}
try:
    exec('from uncertainties.umath import *', STAR)
except AttributeError as exc:
    raise ImportError('from uncertainties.umath import *: %s' % exc)


def function(name):
    require(name in STAR, 'from uncertainties.umath import * brings no %s',
            name)
    require(getattr(umath, name, None) is STAR[name], 'umath.%s is not what '
            'from umath import * brings', name)
    return STAR[name]


SPECIAL = [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 1e308, -1e308, 1e-308,
           5e-324, 709.0, 710.0, 711.0, 1000.0, -1000.0, 171.0, 172.0, -3.0,
           INF, -INF, NAN, 1.5, 1e16, 1e22, 2 ** 0.5, 3.0, -1.5]

values = st.one_of(st.sampled_from(SPECIAL), st.sampled_from(SPECIAL),
                   nominals(-9, 9), signed(magnitudes(-300, 300)))
plain = st.one_of(
    values.map(lambda x: ['float', x]),
    st.integers(-30, 200).map(lambda x: ['int', x]),
    st.sampled_from([['int', 10 ** 30], ['int', -10 ** 400], ['int', 0],
                     ['bool', 0], ['bool', 1]]),
    values.map(lambda x: ['np.float64', x]),
    st.integers(-30, 200).map(lambda x: ['np.int64', x]),
    st.tuples(st.integers(-50, 50), st.integers(1, 9)).map(
        lambda t: ['fraction'] + list(t)))


def make(c):
    if c[0] == 'fraction':
        return fractions.Fraction(c[1], c[2])
    return make_const(c)


def outcome(f, *args, **kwargs):
    """('value', v) or ('raises', exception type)."""
    try:
        return ('value', f(*args, **kwargs))
    except Exception as exc:
        return ('raises', type(exc))


def identical(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return same_float(a, b)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(map(identical, a, b))
    return a == b


def agree(got, want, what):
    require(got[0] == want[0] and (got[1] is want[1] if got[0] == 'raises'
                                   else identical(got[1], want[1])),
            '%s: %s %r, expected %s %r', what, got[0], got[1], want[0], want[1])


# Group: functions of umath, plain arguments

@st.composite
def plain_calls(draw):
    name = draw(st.sampled_from(NAMES))
    if name == 'fsum':
        big = st.sampled_from([1e308, -1e308, 1e308, -1e308, 1.7e308, 1e292,
                               1.0, -1.0, 1e-300, 1e16, -1e16, 0.1])
        return {'f': name, 'args': draw(st.one_of(
            st.lists(plain, max_size=6),
            st.lists(big.map(lambda x: ['float', x]), max_size=8))),
            'container': draw(pick('list', 'list', 'tuple', 'generator',
                                   'array', 'dict'))}
    n = 2 if name in ('atan2', 'hypot', 'fmod', 'copysign', 'pow', 'ldexp') \
        else draw(pick(1, 1, 1, 2)) if name == 'log' \
        else draw(pick(1, 1, 1, 1, 1, 1, 1, 0, 2))
    return {'f': name, 'args': [draw(plain) for _ in range(n)]}


CONTAINERS = {'list': list, 'tuple': tuple, 'generator': iter,
              'array': lambda a: np.array(a, dtype=object),
              'dict': dict.fromkeys}


def check_plain(case, rec):
    name = case['f']
    args = [make(a) for a in case['args']]
    copies = [args, args]
    if name == 'fsum':
        copies = [[CONTAINERS[case['container']](args)] for _ in range(2)]
        args = [args]
    want = outcome(getattr(math, name), *copies[0])
    got = outcome(function(name), *copies[1])
    agree(got, want, 'umath.%s%r' % (name, tuple(args)))
    rec.label(name, want[0])
    rec.nontrivial(len(args) > 0)


# Group: functions with numbers with uncertainties, at failing points or not

MULTI = {'atan2': 2, 'hypot': 2, 'fmod': 2, 'copysign': 2, 'pow': 2}
UNC_NAMES = [n for n in NAMES if n not in ('fsum', 'factorial')]

# Arguments for which each function fails:
FAILING = {
    'acos': [1.5, -2.0, INF, 1.0000000000000002],
    'asin': [1.5, -2.0, INF, -1.0000000000000002],
    'acosh': [0.5, -2.0, 0.9999999999999999, -INF],
    'atanh': [1.0, -1.0, 2.0, INF], 'cos': [INF, -INF], 'sin': [INF, -INF],
    'tan': [INF], 'cosh': [711.0, -1000.0, 1e308], 'sinh': [711.0, -1e308],
    'exp': [710.0, 1e308], 'expm1': [710.0, 1e300], 'log': [0.0, -0.0, -1.0],
    'log10': [0.0, -1.5], 'log1p': [-1.0, -2.0], 'sqrt': [-1.0, -5e-324, -INF],
    'gamma': [0.0, -1.0, -3.0, 172.0, -INF], 'lgamma': [0.0, -2.0, 1e308],
    'ceil': [INF, -INF, NAN], 'floor': [INF, NAN], 'trunc': [-INF, NAN],
}
FAILING2 = {
    'log': [(2.0, 1.0), (2.0, 0.0), (-1.0, 2.0), (2.0, -3.0)],
    'fmod': [(1.0, 0.0), (INF, 2.0)],
    'pow': [(0.0, -1.0), (-0.0, -3.0), (-2.0, 0.5), (1e200, 2.0), (0.0, -0.5),
            (-1.5, 1e-9), (2.0, 2000.0)],
    'hypot': [(1.7e308, 1.7e308)], 'ldexp': [(1.0, 2000), (1e308, 10)],
}


@st.composite
def uncertain_calls(draw):
    name = draw(st.sampled_from(UNC_NAMES))
    n = MULTI.get(name, 1)
    if name == 'log':
        n = draw(pick(1, 2))
    table = FAILING2 if n == 2 or name == 'ldexp' else FAILING
    if name in table and draw(pick(True, True, False)):
        args = draw(st.sampled_from(table[name]))
        args = list(args) if isinstance(args, tuple) else [args]
    else:
        args = [draw(values) for _ in range(n)]
        if name == 'ldexp':
            args.append(draw(st.one_of(st.integers(-2000, 2000), st.integers(-9, 9))))
    forms = [draw(pick('u', 'u', 'c', 'e')) for _ in range(n)]
    if all(f == 'c' for f in forms):
        forms[draw(ints(0, n - 1))] = 'u'
    return {'f': name, 'args': args, 'forms': forms,
            'int': draw(pick('int', 'int', 'np.int64', 'np.int32', 'np.int8',
                             'bool')),
            'sig': draw(pick(0.0, 0.1, 1.0, 1e-9))}


def check_uncertain(case, rec):
    name, args = case['f'], list(case['args'])
    if name == 'ldexp':     # the exponent can be any kind of integer
        kind = case['int']
        if kind == 'np.int8' and abs(args[1]) > 127 or \
                kind == 'bool' and args[1] not in (0, 1):
            kind = 'np.int64'
        args[1] = {'int': int, 'bool': bool, 'np.int64': np.int64,
                   'np.int32': np.int32, 'np.int8': np.int8}[kind](args[1])
    if name in ('gamma', 'lgamma') and args[0] != int_part(args[0]) and \
            not abs(args[0]) < 171.6:
        return
    uargs = list(args)
    for i, form in enumerate(case['forms']):
        if form == 'u':
            uargs[i] = ufloat(args[i], case['sig'])
        elif form == 'e':
            uargs[i] = ufloat(args[i], case['sig']) + 0
            if not same_float(uargs[i].nominal_value, args[i]):
                uargs[i] = ufloat(args[i], case['sig'])
    if name == 'frexp' and 0 < abs(args[0]) < 1e-300 or \
            name == 'ldexp' and abs(args[1]) > 1000 and outcome(
                math.ldexp, *args)[0] == 'value':
        return      # derivative out of the range of floats
    want = outcome(getattr(math, name), *args)
    got = outcome(function(name), *uargs)
    what = 'umath.%s%r with uncertainties' % (name, tuple(args))
    rec.label(name, want[0])
    rec.nontrivial()
    if want[0] == 'raises':
        agree(got, want, what)
        return
    require(got[0] == 'value', '%s raises %r, and not for floats', what, got[1])
    want, got = want[1], got[1]
    if not isinstance(want, tuple):
        want, got = (want,), (got,)
    require(len(want) == len(got), '%s is %r', what, got)
    for g, w in zip(got, want):
        require(same_value(getattr(g, 'nominal_value', g), w),
                '%s has value %r, expected %r', what, g, w)
    with lib('reading the result of ' + what):
        for g in got:
            if hasattr(g, 'std_dev'):
                s = float(g.std_dev)
                require(s != s or s >= 0, '%s: std_dev is %r', what, s)


def int_part(x):
    return int(x) if math.isfinite(x) else None


def same_value(a, b):
    return same_float(a, b) or a == b


# Group: operators

OPS = dict(BINARY)


def op_outcome(op, x, y):
    """Outcome for floats; complex results count as a ValueError."""
    r = outcome(OPS[op], x, y)
    if r[0] == 'value' and isinstance(r[1], complex):
        return ('raises', ValueError)
    return r


OP_FAILING = [('/', 1.0, 0.0), ('/', 0.0, -0.0), ('//', 2.0, 0.0), ('%', 2.0, 0.0),
              ('**', 0.0, -1.0), ('**', -0.0, -2.0), ('**', 0.0, -0.5),
              ('**', -2.0, 0.5), ('**', -8.0, 1 / 3.), ('**', -1.0, 1e-9),
              ('**', 1e200, 2.0), ('**', 10.0, 400.0), ('**', 1e-200, -2.0),
              ('//', -0.0, 0.0), ('%', INF, 0.0), ('**', -0.5, -2.5)]


@st.composite
def operations(draw):
    case = draw(pick(0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 2, 2))
    if case == 0:
        op, x, y = draw(st.sampled_from(OP_FAILING))
    elif case == 2:
        # The value or the derivatives are close to the range of floats:
        op, x = '**', draw(magnitudes(-250, 250))
        y = draw(st.integers(2900, 3300)) / 10. / (math.log10(x) or 1)
        if draw(bools):
            y = -y
        if draw(bools):
            y = float(round(y))
            x = -x if draw(bools) else x
    else:
        op = draw(st.sampled_from(sorted(OPS)))
        x, y = draw(values), draw(values)
    form = draw(pick('uu', 'uc', 'cu', 'ee', 'ec', 'ce', 'same'))
    if form == 'same':
        y = x
    kind = draw(pick('float', 'float', 'int', 'np.float64', 'bool'))
    return {'op': op, 'x': x, 'y': y, 'form': form, 'kind': kind,
            'sig': [draw(pick(0.0, 0.1, 2.0)), draw(pick(0.0, 0.1, 2.0))]}


def convert(kind, v):
    """A constant of the given type, if it can represent the value exactly."""
    try:
        c = CONST_KINDS[kind](v)
        return c if same_float(c, v) or c == v and v != 0 else v
    except (ValueError, OverflowError):
        return v


def check_operation(case, rec):
    op, x, y, form = case['op'], case['x'], case['y'], case['form']
    want = op_outcome(op, x, y)
    xs, ys = x, y
    if form == 'same':
        xs = ys = ufloat(x, case['sig'][0])
    else:
        if form[0] in 'ue':
            xs = ufloat(x, case['sig'][0])
        else:
            xs = convert(case['kind'], x)
        if form[1] in 'ue':
            ys = ufloat(y, case['sig'][1])
        else:
            ys = convert(case['kind'], y)
        if form[0] == 'e' and x != 0:
            xs = xs + 0
        if form[1] == 'e' and y != 0:
            ys = ys + 0
    what = '%r %s %r' % (xs, op, ys)
    if 'c' in form and isinstance(xs if form[0] == 'c' else ys, np.generic):
        # NumPy scalars try their own operator first, with the same outcome:
        rec.label('NumPy scalar')
    got = outcome(OPS[op], xs, ys)
    rec.label(op, want[0], form)
    rec.nontrivial()
    if want[0] == 'raises':
        agree(got, want, what)
        return
    require(got[0] == 'value', '%s raises %s, and not for floats', what, got[1])
    r = got[1]
    require(isinstance(r, uncertainties.UFloat), '%s is a %s', what, type(r))
    require(same_value(r.nominal_value, want[1]),
            '%s has value %r, expected %r', what, r.nominal_value, want[1])
    with lib('reading the result of ' + what):
        s = float(r.std_dev)
        repr(r)
    require(s != s or s >= 0, '%s: std_dev is %r', what, s)


# Group: wrapped functions with plain arguments

class Result(object):
    pass


RESULTS = {'float': lambda a: 1.5, 'int': lambda a: 3, 'none': lambda a: None,
           'text': lambda a: 'abc', 'list': lambda a: [1, a],
           'tuple': lambda a: (a,), 'self': lambda a: a, 'bool': lambda a: True,
           'complex': lambda a: 2j, 'array': lambda a: np.arange(3.)}
RAISES = {'ValueError': ValueError, 'ZeroDivisionError': ZeroDivisionError,
          'OverflowError': OverflowError, 'TypeError': TypeError,
          'KeyError': KeyError, 'StopIteration': StopIteration,
          'AttributeError': AttributeError, 'IndexError': IndexError,
          'Exception': Exception}
wrapped_cases = st.fixed_dictionaries({
    'result': st.sampled_from(sorted(RESULTS) + sorted(RAISES)),
    'arg': plain, 'kw': pick(None, 'a', 'b', 'extra'),
    'derivs': pick('none', 'list', 'nones', 'dict', 'iter'),
    'uncertain': pick(False, False, True)})


def check_wrapped(case, rec):
    name = case['result']
    seen = []

    def func(a, b=2, *more, **kw):
        seen.append((a, b, more, sorted(kw)))
        if name in RAISES:
            raise RAISES[name]('x')
        return state[0]

    d = case['derivs']
    args = {'none': ([], {}), 'list': ([lambda *a, **k: 1.0], {}),
            'nones': ([None, None], {'extra': None}),
            'dict': ([], {'extra': lambda *a, **k: 2.0}),
            'iter': (iter([None]), {})}[d]
    with lib('wrap()'):
        w = uncertainties.wrap(func, *args)
    a = make(case['arg'])
    state = [RESULTS[name](a)] if name in RESULTS else [None]
    call, kw = [a], {}
    if case['kw'] == 'a':
        call, kw = [], {'a': a}
    elif case['kw']:
        kw = {case['kw']: 5.0}
    rec.label(name)
    rec.nontrivial()
    if case['uncertain']:
        # An exception of the function is not caught:
        if name not in RAISES:
            return
        bad = ufloat(1, 0.1)
        got = outcome(w, *([bad] if 'a' not in kw else []),
                      **{k: (bad if k == 'a' else v) for k, v in kw.items()})
        require(got == ('raises', RAISES[name]), 'wrapped function called with '
                'an uncertain argument: %s %r instead of raising %s', got[0],
                got[1], name)
        require(len(seen) == 1, 'the function was called %d times before its '
                'exception was raised', len(seen))
        return
    got = outcome(w, *call, **kw)
    require(len(seen) == 1, 'a function wrapped and called with plain numbers '
            'was called %d times', len(seen))
    want = (a, kw.get('b', 2), (), [k for k in sorted(kw) if k == 'extra'])
    require(identical(seen[0][1:], want[1:]) and seen[0][0] is a,
            'the wrapped function received %r instead of %r', seen[0], want)
    if name in RAISES:
        require(got == ('raises', RAISES[name]),
                'wrapped function: %s %r instead of raising %s', got[0], got[1],
                name)
    else:
        require(got[0] == 'value' and got[1] is state[0],
                'wrapped function: %s %r instead of returning %r', got[0],
                got[1], state[0])


# Group: conversions

CONVERSIONS = {
    'float': float, 'int': int, 'complex': complex, 'math.sqrt': math.sqrt,
    '%f': lambda x: '%f' % x, '%d': lambda x: '%d' % x,
    'math.sin': math.sin, 'float()': lambda x: x.__float__(),
    'int()': lambda x: x.__int__(), 'complex()': lambda x: x.__complex__(),
    'array': lambda x: np.array([x], dtype=float),
    'item': lambda x: operator.setitem(np.zeros(2), 0, x)}
conversion_cases = st.fixed_dictionaries({
    'how': st.sampled_from(sorted(CONVERSIONS)), 'n': nominals(-3, 3),
    's': pick(0.0, 0.1, NAN),
    'form': pick('var', 'sum', 'const', 'sub', 'diff', 'tagged', 'umath',
                 'no variable', 'correlated', 'array', 'copy', 'pickled')})


class SubVariable(uncertainties.core.Variable):
    pass


def check_conversion(case, rec):
    n, s, form = case['n'], case['s'], case['form']
    x = ufloat(n, s)
    if form == 'sum':
        x = x + 1
    elif form == 'diff':
        x = x - x       # no uncertainty left: still not a pure number
    elif form == 'const':
        x = 0 * x + n
    elif form == 'sub':
        x = SubVariable(n, s)
    elif form == 'tagged':
        x = ufloat(n, s, 'x')
    elif form == 'umath':
        x = umath.atan(x)
    elif form == 'no variable':
        # (As in the documentation of AffineScalarFunc: a constant.)
        try:
            x = uncertainties.core.AffineScalarFunc(
                n, uncertainties.core.LinearCombination({}))
        except (AttributeError, TypeError):  # Other internal representation
            x = x - x
    elif form == 'correlated':
        x, _ = uncertainties.correlated_values([n, 1], [[0, 0], [0, 1]])
    elif form == 'array':
        x = unumpy.uarray([n, 2], [s, 0.1]).sum()
    elif form == 'copy':
        x = copy.copy(x + 1)
    elif form == 'pickled':
        x = pickle.loads(pickle.dumps(x))
    got = outcome(CONVERSIONS[case['how']], x)
    ok = (TypeError,) if case['how'] not in ('array', 'item') else (
        TypeError, ValueError)
    require(got[0] == 'raises' and got[1] in ok,
            'conversion %s of %r: %s %r instead of raising TypeError',
            case['how'], x, got[0], got[1])
    rec.label(case['how'])
    rec.nontrivial()


GROUPS = [
    Group('plain', plain_calls(), check_plain, 20000, 500000,
          'every umath function on plain arguments (also out of its domain, '
          'with wrong counts of arguments), compared with math'),
    Group('uncertain', uncertain_calls(), check_uncertain, 16000, 400000,
          'umath functions on numbers with uncertainties, about half at points '
          'where the function fails'),
    Group('operators', operations(), check_operation, 20000, 500000,
          'binary operators on float values including special ones, about half '
          'at failing points, all placements of constants'),
    Group('wrapped', wrapped_cases, check_wrapped, 5000, 100000,
          'wrapped functions that return any object or raise'),
    Group('conversions', conversion_cases, check_conversion, 2000, 20000,
          'conversions to pure numbers'),
]
