"""U12: wrapped functions propagate uncertainties for any call form."""
import fractions
import itertools
import math
import pickle
from hypothesis import strategies as st
import uncertainties
from uncertainties import ufloat, wrap

from .. import large
from ..core import Group, fail, require, lib
from ..gen import *

ASSUMPTIONS = [
    'functions are smooth; numerical derivatives are compared to 1e-6 of the '
    'scale of the function divided by the argument',
    'wrapped objects have a __name__ (functions, methods, builtins, lambdas), '
    'as wrap() requires',
    'derivatives of positional(-or-keyword) and variable positional parameters '
    'are given by derivatives_args, of the others by derivatives_kwargs, as '
    'documented']


def h(k, v):
    """Smooth functions of one parameter."""
    return (v * v / 4 + v, math.sin(v) + 2 * v, math.exp(v / 40), 3 * v - 1,
            math.atan(v))[k % 5]


def dh(k, v):
    return (v / 2 + 1, math.cos(v) + 2, math.exp(v / 40) / 40, 3.0,
            1 / (1 + v * v))[k % 5]


def code(name):
    return sum(map(ord, name)) % 7


def body(pos, kw=()):
    """Value for positional values and keyword items (strings are flags)."""
    total = 0.0
    for k, v in enumerate(pos):
        total += h(k, v) if not isinstance(v, str) else len(v)
    for name, v in sorted(dict(kw).items()):
        total += h(code(name), v) * 2
    nums = [v for v in pos if not isinstance(v, str)] + [
        v for n, v in sorted(dict(kw).items())]
    return total + nums[0] * nums[-1]


def f_one(a):
    return body([a])


def f_two(a, b):
    return body([a, b])


def f_default(a, b=1.5, c=-2.0):
    return body([a, b, c])


def f_flag(a, mode='xy', b=0.75):
    return body([a, mode, b])


def f_var(*args):
    return body(args)


def f_mixed(a, b=0.5, *args, **kw):
    return body((a, b) + args, kw)


def f_kwonly(a, *, k, m=2.0):
    return body([a], {'k': k, 'm': m})


def f_kwvar(a, *rest, k=0.25, **kw):
    return body((a,) + rest, dict(kw, k=k))


def f_posonly(a, b, /, c=1.0):
    return body([a, b, c])


def f_posonly_kw(a, /, **kw):
    return body([a], kw)


f_lambda = lambda x, y=3.0: body([x, y])


class Thing(object):
    def __init__(self, z):
        self.z = z

    def method(self, a, b=2.0):
        return body([a, b]) + self.z

    def method_kw(self, a, *, k=1.0, **kw):
        return body([a], dict(kw, k=k)) + self.z

    @classmethod
    def cmethod(cls, a, b=2.0):
        return body([a, b]) + 1

    @staticmethod
    def smethod(a, b=2.0):
        return body([a, b]) + 2


def f_npfloat(a, b):
    return np.float64(body([a, b]))


THING = Thing(0.5)
# name: (function, positional parameters, number of them with no default,
# positional-only count, variable positional?, keyword-only required,
# keyword-only optional, variable keyword?)
FUNCS = {
    'f_one': (f_one, ['a'], 1, 0, False, [], [], False),
    'f_two': (f_two, ['a', 'b'], 2, 0, False, [], [], False),
    'f_default': (f_default, ['a', 'b', 'c'], 1, 0, False, [], [], False),
    'f_flag': (f_flag, ['a', 'mode', 'b'], 1, 0, False, [], [], False),
    'f_var': (f_var, [], 0, 0, True, [], [], False),
    'f_mixed': (f_mixed, ['a', 'b'], 1, 0, True, [], [], True),
    'f_kwonly': (f_kwonly, ['a'], 1, 0, False, ['k'], ['m'], False),
    'f_kwvar': (f_kwvar, ['a'], 1, 0, True, [], ['k'], True),
    'f_posonly': (f_posonly, ['a', 'b', 'c'], 2, 2, False, [], [], False),
    'f_posonly_kw': (f_posonly_kw, ['a'], 1, 1, False, [], [], True),
    'f_lambda': (f_lambda, ['x', 'y'], 1, 0, False, [], [], False),
    'method': (THING.method, ['a', 'b'], 1, 0, False, [], [], False),
    'method_kw': (THING.method_kw, ['a'], 1, 0, False, [], ['k'], True),
    'cmethod': (Thing.cmethod, ['a', 'b'], 1, 0, False, [], [], False),
    'smethod': (Thing.smethod, ['a', 'b'], 1, 0, False, [], [], False),
    'f_npfloat': (f_npfloat, ['a', 'b'], 2, 0, False, [], [], False),
    'math.hypot': (math.hypot, ['1', '2'], 2, 2, False, [], [], False),
    'math.atan2': (math.atan2, ['1', '2'], 2, 2, False, [], [], False),
    'math.exp': (math.exp, ['1'], 1, 1, False, [], [], False),
}
KW_NAMES = ['p', 'q', 'zz', 'self', 'f']
vals = st.one_of(st.integers(-40, 40).map(lambda k: k / 8.0),
                 st.just(0.0), magnitudes(-3, 0))


@st.composite
def argument(draw, name, can_be_uncertain=True):
    if name == 'mode':
        return ['s', draw(pick('', 'x', 'long'))]
    kind = draw(pick('v', 'v', 'c', 'i', 'd'))
    if kind == 'v':
        return ['v', draw(ints(0, 3))]
    if kind == 'd':
        return ['d', draw(ints(0, 3)), draw(ints(0, 3))]
    if kind == 'i':
        return ['i', draw(ints(-4, 4))]
    return ['c', draw(vals)]


ARG = {False: argument('a'), True: argument('mode')}


@st.composite
def calls(draw, fname):
    f, params, required, posonly, varargs, kwreq, kwopt, varkw = FUNCS[fname]
    args, kwargs = [], {}
    npos = draw(ints(posonly if posonly else 0, len(params)))
    npos = min(npos, len(params))
    for name in params[:npos]:
        args.append(draw(ARG[name == 'mode']))
    for k, name in enumerate(params[npos:], npos):
        if k < posonly:
            continue
        if k < required or draw(bools):
            kwargs[name] = draw(ARG[name == 'mode'])
    if varargs and npos == len(params):
        n = draw(pick(1, 2, 3, 4, 6)) if not params else draw(pick(0, 1, 2, 4))
        args += [draw(ARG[False]) for _ in range(n)]
    for name in kwreq:
        kwargs[name] = draw(ARG[False])
    for name in kwopt:
        if draw(bools):
            kwargs[name] = draw(ARG[False])
    if varkw:
        for name in KW_NAMES:
            if draw(pick(0, 0, 1)) and not (name == 'self' and
                                            'method' in fname):
                kwargs[name] = draw(ARG[False])
    return [args, [[k, kwargs[k]] for k in draw(
        st.permutations(sorted(kwargs)))]]


CALLS = {name: st.lists(calls(name), min_size=1, max_size=4) for name in FUNCS}


@st.composite
def cases(draw):
    name = draw(st.sampled_from(sorted(FUNCS)))
    f, params, required, posonly, varargs, kwreq, kwopt, varkw = FUNCS[name]
    nder = draw(ints(0, len(params) + (3 if varargs else 0)))
    ders = [draw(pick(None, 1, 1)) for _ in range(nder)]
    form = draw(pick('list', 'tuple', 'iter', 'generator', 'omitted', 'cycle',
                     'repeat', 'endless'))
    kwd = {}
    for k in kwreq + kwopt + (KW_NAMES if varkw else []):
        if draw(bools):
            kwd[k] = draw(pick(None, 1))
    return {'f': name, 'vars': [[draw(vals), draw(pick(0.0, 0.1, 1.0, 2.5))]
                                for _ in range(4)],
            'ders': ders, 'form': form, 'kwders': kwd,
            'omit_kw': draw(bools) and not any(kwd.values()),
            'calls': draw(CALLS[name])}


def der_args(case, make):
    """derivatives_args, and the function index -> derivative or None."""
    ders = [make(i) if d else None for i, d in enumerate(case['ders'])]
    n, form = len(ders), case['form']
    finite = lambda i: ders[i] if i < n else None
    if form == 'list':
        return ders, finite
    if form == 'tuple':
        return tuple(ders), finite
    if form == 'iter':
        return iter(ders), finite
    if form == 'generator':
        return (d for d in ders), finite
    if form == 'omitted':
        return [], lambda i: None
    if form == 'cycle' and n:
        return itertools.cycle(ders), lambda i: ders[i % n]
    if form == 'repeat':
        d = make(0)
        return itertools.repeat(d), lambda i: d
    if form == 'endless':
        made = {}

        def get(i):
            if i not in made:
                made[i] = make(i) if i % 3 != 1 else None
            return made[i]
        return map(get, itertools.count()), get
    return ders, finite


def check(case, rec):
    f, params, required, posonly, varargs, kwreq, kwopt, varkw = \
        FUNCS[case['f']]

    def make(tag):
        """A recognisable 'derivative', which also depends on the arguments."""
        const = 10.0 + (tag if isinstance(tag, int) else 20 + code(tag)
                        + len(tag) / 8.)

        def derivative(*args, **kwargs):
            return const + 0.25 * f(*args, **kwargs)
        derivative.const = const
        return derivative

    dargs, lookup = der_args(case, make)
    kwd = {k: (make(k) if d else None) for k, d in case['kwders'].items()}
    kwd_before = dict(kwd)
    with lib('wrap(%s)' % case['f']):
        if case['form'] == 'omitted':
            w = wrap(f, derivatives_kwargs=kwd)
        elif case['omit_kw']:
            w = wrap(f, dargs)
        else:
            w = wrap(f, dargs, kwd)
    vs = [ufloat(n, s) for n, s in case['vars']]
    used_numeric = used_given = False
    for args, kwargs in case['calls']:
        def real(a):
            if a[0] == 'v':
                return vs[a[1]]
            if a[0] == 'd':
                return vs[a[1]] - 0.5 * vs[a[2]]
            return a[1]

        def nominal(x):
            return x.nominal_value if isinstance(x, uncertainties.UFloat) else x
        rargs = [real(a) for a in args]
        rkw = {k: real(a) for k, a in kwargs}
        nargs = [nominal(x) for x in rargs]
        nkw = {k: nominal(x) for k, x in rkw.items()}
        what = '%s(%s) with derivatives %s %r, %r' % (
            case['f'], ', '.join([repr(x) for x in rargs] + [
                '%s=%r' % kv for kv in rkw.items()]), case['form'],
            case['ders'], case['kwders'])
        if case['f'] in ('math.hypot', 'math.atan2') and not (
                abs(nargs[0]) > 0.05 and abs(nargs[1]) > 0.05):
            continue        # close to points with no derivative
        try:
            value = f(*nargs, **nkw)
        except (ValueError, OverflowError, ZeroDivisionError):
            continue
        with lib(what):
            r = w(*rargs, **rkw)
        specs = list(zip(range(len(args)), [a for a in args], rargs)) + [
            (k, a, rkw[k]) for k, a in kwargs]
        if not any(a[0] in 'vd' for _, a, _ in specs):
            require(type(r) is type(value) and same_float(r, value),
                    '%s is %r, expected %r', what, r, value)
            continue
        require(isinstance(r, uncertainties.UFloat), '%s is a %s', what, type(r))
        require(same_float(r.nominal_value, value),
                '%s: value %r, expected %r', what, r.nominal_value, value)
        exact, tol = {}, {}
        scale = abs(value) + sum(abs(x) ** 2 + abs(x) + 1 for x in list(nargs) +
                                 list(nkw.values()) if not isinstance(x, str))
        for key, a, x in specs:
            if a[0] not in 'vd':
                continue
            if isinstance(key, int):
                given = lookup(key)
            elif key in params:
                given = lookup(params.index(key))
            else:
                given = kwd.get(key)
            v = nominal(x)
            if given:
                used_given = True
                d = given.const + 0.25 * value
                t = 1e-12 * abs(d)
            else:
                used_numeric = True
                d = true_derivative(case['f'], f, key, nargs, nkw, params)
                t = 1e-6 * (scale / abs(v) if v else scale) + 1e-6 * abs(d)
                rec.label('by keyword' if not isinstance(key, int)
                          else 'by position')
            parts = [(a[1], 1.0)] if a[0] == 'v' else [(a[1], 1.0),
                                                       (a[2], -0.5)]
            for i, c in parts:
                exact[i] = exact.get(i, 0.0) + c * d
                tol[i] = tol.get(i, 0.0) + abs(c) * t
        for i, d in exact.items():
            got = r.derivatives.get(vs[i], 0.0)
            require(abs(got - d) <= tol[i] + 1e-12 * abs(d),
                    '%s: derivative with respect to variable %d is %r, expected '
                    '%r (tolerance %.2g)', what, i, got, d, tol[i])
        for i, v in enumerate(vs):
            require(i in exact or v not in r.derivatives or
                    r.derivatives[v] == 0, '%s depends on variable %d', what, i)
        s = math.sqrt(sum((d * case['vars'][i][1]) ** 2
                          for i, d in exact.items()))
        ts = math.sqrt(sum((t * case['vars'][i][1]) ** 2
                           for i, t in tol.items()))
        require(abs(r.std_dev - s) <= ts + 1e-11 * s,
                '%s: standard deviation %r, expected %r', what, r.std_dev, s)
    require(kwd == kwd_before, 'wrap() changed its derivatives_kwargs')
    rec.label(case['f'])
    if used_given:
        rec.label('derivative given')
    if used_numeric:
        rec.label('numerical derivative')
    rec.nontrivial(used_given or used_numeric)


def true_derivative(name, f, key, nargs, nkw, params):
    """Derivative of the functions above with respect to an argument."""
    if name == 'math.hypot':
        return nargs[key] / math.hypot(*nargs)
    if name == 'math.atan2':
        y, x = nargs
        return (x, -y)[key] / (x * x + y * y)
    if name == 'math.exp':
        return math.exp(nargs[0])
    # Reconstruct what body() receives:
    pos, kw = bound(name, nargs, nkw)
    order = [('p', k) for k, v in enumerate(pos) if not isinstance(v, str)] + [
        ('k', n) for n in sorted(kw)]
    where = ('p', key) if isinstance(key, int) else \
        ('p', params.index(key)) if key in params else ('k', key)
    if where[0] == 'p':
        v = pos[where[1]]
        d = dh(where[1], v)
    else:
        v = kw[where[1]]
        d = 2 * dh(code(where[1]), v)

    def get(w):
        return pos[w[1]] if w[0] == 'p' else kw[w[1]]
    first, last = order[0], order[-1]
    if where == first:
        d += get(last)
    if where == last:
        d += get(first)
    return d


DEFAULTS = {'f_default': {'b': 1.5, 'c': -2.0}, 'f_flag': {'mode': 'xy',
            'b': 0.75}, 'f_mixed': {'b': 0.5}, 'f_posonly': {'c': 1.0},
            'f_lambda': {'y': 3.0}, 'method': {'b': 2.0}, 'cmethod': {'b': 2.0},
            'smethod': {'b': 2.0}}
KWDEFAULTS = {'f_kwonly': {'m': 2.0}, 'f_kwvar': {'k': 0.25},
              'method_kw': {'k': 1.0}}


def bound(name, nargs, nkw):
    params = FUNCS[name][1]
    pos = list(nargs)
    kw = dict(nkw)
    for k, p in enumerate(params):
        if k >= len(nargs):
            pos.append(kw.pop(p) if p in kw else DEFAULTS[name][p])
    for k, v in KWDEFAULTS.get(name, {}).items():
        kw.setdefault(k, v)
    return pos, kw


# Group: functions whose scale is that of their argument

POWERS = {'square': (lambda x: x * x, lambda x: 2 * x),
          'cube': (lambda x: x ** 3, lambda x: 3 * x * x),
          'inverse': (lambda x: 1 / x, lambda x: -1 / x / x),
          'line': (lambda x: 3 * x, lambda x: 3.0),
          'root': (lambda x: abs(x) ** 0.5,
                   lambda x: math.copysign(0.5 / abs(x) ** 0.5, x)),
          'log': (lambda x: math.log(abs(x)), lambda x: 1 / x),
          'ratio': (lambda x: (x * x + x * x) / x, lambda x: 2.0),
          'steep': None}


def steep(x0):
    """A function with a large curvature around x0: the difference on one side
    only is far from the derivative."""
    c = math.ldexp(1, math.frexp(x0)[1])    # x0/c is between 0.5 and 1
    g = 1.4 if abs(x0 / c) < 0.7 else 1.0
    return (lambda x: abs(x / c * g) ** 300.0,
            lambda x: 300 * abs(x / c * g) ** 299.0 * math.copysign(g / c, x))


@st.composite
def power_cases(draw):
    return {'f': draw(st.sampled_from(sorted(POWERS))),
            'x': draw(signed(magnitudes(-95, 95))), 'sig': draw(pick(0.1, 1.0)),
            'kw': draw(bools), 'other': draw(pick(None, 2.0, -1.0)),
            'int': draw(bools)}


def check_power(case, rec):
    x = case['x']
    if case['int'] and abs(x) < 1e15:
        x = float(round(x)) or 7.0
    f, df = POWERS[case['f']] or steep(x)
    k = case['other']

    def func(a, b=1.0):
        return f(a) * b
    with lib('wrap()'):
        w = wrap(func if case['kw'] or k else f)
        sig = case['sig'] * abs(x)
        u = ufloat(x, sig)
        args = () if case['kw'] else (u,)
        kwargs = {'a': u} if case['kw'] else {}
        if k:
            kwargs['b'] = k
        r = w(*args, **kwargs)
    what = 'wrapped %s of %r' % (case['f'], u)
    value, d = f(x) * (k or 1.0), df(x) * (k or 1.0)
    require(same_float(r.nominal_value, value), '%s: value %r, expected %r',
            what, r.nominal_value, value)
    got = r.derivatives[u]
    tol = 1e-6 * abs(d) if case['f'] != 'log' else \
        1e-6 * abs(d) * (1 + abs(value))
    require(abs(got - d) <= tol, '%s: derivative %r, expected %r', what, got, d)
    require(abs(r.std_dev - abs(d) * sig) <= tol * sig * 1.01,
            '%s: standard deviation %r, expected %r', what, r.std_dev,
            abs(d) * sig)
    rec.label(case['f'])
    rec.nontrivial(not 1e-3 < abs(x) < 1e3)


# Group: all kinds of real results

REAL_RESULTS = {
    'int': (lambda x: int(math.floor(x)) * 3, False),
    'big int': (lambda x: int(math.floor(x)) + 10 ** 30, False),
    'bool': (lambda x: x > -1e9, False),
    'np.bool_': (lambda x: np.bool_(x > -1e9), False),
    'np.int64': (lambda x: np.int64(math.floor(x)), False),
    'np.int8': (lambda x: np.int8(5), False),
    'np.float32': (lambda x: np.float32(x), True),
    'np.float64': (lambda x: np.float64(2 * x), True),
    'np.longdouble': (lambda x: np.longdouble(x) * 2, True),
    'fraction': (lambda x: fractions.Fraction(x) * 2 + 1, True),
    'float': (lambda x: 2 * x, True),
    'float subclass': (lambda x: FloatSubclass(2 * x), True),
    'int subclass': (lambda x: IntSubclass(7), False),
}


class FloatSubclass(float):
    pass


class IntSubclass(int):
    pass


result_cases = st.fixed_dictionaries({
    'result': st.sampled_from(sorted(REAL_RESULTS)),
    # Not close to an integer: a function is constant there
    'x': st.tuples(st.integers(-50, 50), pick(0.25, 0.5, 0.375)).map(sum),
    'sig': pick(0.0, 0.1, 2.0), 'given': pick(None, None, 2.5, 0, 3),
    'kw': bools, 'second': pick('none', 'plain', 'uncertain')})


def check_result(case, rec):
    name = case['result']
    f, smooth = REAL_RESULTS[name]
    x = case['x']

    def func(a, b=0.0):
        return f(a)
    given = case['given']
    if given is None and name == 'np.float32':
        given = 1.0     # too few digits for a numerical derivative
    if given is None and name == 'np.bool_':
        given = 0       # NumPy booleans cannot be subtracted
    ders = [None if given is None else lambda a, b=0.0: given,
            lambda a, b=0.0: 0]
    u = ufloat(x, case['sig'])
    other = {'none': None, 'plain': 4.0, 'uncertain': ufloat(1, 0.5)}[
        case['second']]
    kwargs = {} if other is None else {'b': other}
    args = () if case['kw'] else (u,)
    if case['kw']:
        kwargs['a'] = u
    what = 'wrapped function returning a %s, at %r' % (name, u)
    with lib(what):
        r = wrap(func, ders)(*args, **kwargs)
    want = float(f(x))
    require(isinstance(r, uncertainties.UFloat), '%s gives a %s', what, type(r))
    require(type(r.nominal_value) is float and same_float(
        r.nominal_value, want), '%s: value %r, expected %r', what,
        r.nominal_value, want)
    d = given if given is not None else 0.0 if not smooth else 2.0
    got = r.derivatives[u]
    require(abs(got - d) <= 1e-5 * (1 + abs(x)), '%s: derivative %r, expected %r',
            what, got, d)
    require(abs(float(r.std_dev) - abs(d) * case['sig']) <=
            1e-5 * (1 + abs(x)) * case['sig'],
            '%s: standard deviation %r, expected %r', what, r.std_dev,
            abs(d) * case['sig'])
    with lib('using the result'):
        text = str(r) + repr(r)
        again = 2 * r - r - r
        other = pickle.loads(pickle.dumps(r))
    require(again.nominal_value == 0 or abs(want) > 1e15, 'arithmetic on the '
            'result gives %r', again)
    require(other.nominal_value == want, '%s is unpickled as %r', what, other)
    rec.label(name)
    rec.nontrivial()


# Group: numerical derivatives obtained directly

@st.composite
def numeric_calls(draw):
    name = draw(st.sampled_from(sorted(FUNCS)))
    return {'f': name, 'calls': draw(CALLS[name]), 'pick': draw(ints(0, 9)),
            'given': draw(bools),
            'vars': draw(st.lists(vals, min_size=4, max_size=4))}


def check_numeric(case, rec):
    """partial_derivative() and NumericalDerivatives give derivative functions,
    which can be called several times, and be given to wrap()."""
    name = case['f']
    f, params = FUNCS[name][:2]
    made = {}

    def value_of(a):
        v = case['vars']
        return v[a[1]] if a[0] == 'v' else \
            v[a[1]] - 0.5 * v[a[2]] if a[0] == 'd' else a[1]
    for args, kwargs in case['calls']:
        nargs = [value_of(a) for a in args]
        nkw = {k: value_of(a) for k, a in kwargs}
        if name in ('math.hypot', 'math.atan2') and not (
                abs(nargs[0]) > 0.05 and abs(nargs[1]) > 0.05):
            continue
        keys = [k for k, v in list(enumerate(nargs)) + list(nkw.items())
                if not isinstance(v, str)]
        if not keys:
            continue
        key = keys[case['pick'] % len(keys)]
        v = nargs[key] if isinstance(key, int) else nkw[key]
        try:
            value = f(*nargs, **nkw)
        except (ValueError, OverflowError, ZeroDivisionError):
            continue
        what = 'derivative of %s(*%r, **%r) with respect to argument %r' % (
            name, nargs, nkw, key)
        with lib(what):
            if key not in made:
                made[key] = [uncertainties.core.partial_derivative(f, key),
                             uncertainties.core.NumericalDerivatives(f)[key]]
            got = [d(*nargs, **nkw) for d in made[key]]
        scale = abs(value) + sum(abs(x) ** 2 + abs(x) + 1 for x in nargs + list(
            nkw.values()) if not isinstance(x, str))
        want = true_derivative(name, f, key, nargs, nkw, params)
        tol = 1e-6 * (scale / abs(v) if v else scale) + 1e-6 * abs(want)
        for g in got:
            require(abs(g - want) <= tol, '%s: %r, expected %r (tolerance %.2g)',
                    what, g, want, tol)
        if case['given'] and isinstance(key, int) and (
                name != 'f_flag' or key != 1):
            u = ufloat(v, 0.1)
            uargs = list(nargs)
            uargs[key] = u
            with lib('wrap() with a numerical derivative'):
                r = wrap(f, [None] * key + made[key][:1])(*uargs, **nkw)
            require(abs(r.derivatives[u] - want) <= tol, '%s, given to wrap(): '
                    '%r, expected %r', what, r.derivatives[u], want)
            rec.label('given to wrap()')
        rec.nontrivial()
        rec.label('by keyword' if not isinstance(key, int) else 'by position')
    rec.label(name)


GROUPS = [
    Group('numeric', numeric_calls(), check_numeric, 3000, 60000,
          'derivative functions obtained with core.partial_derivative() and '
          'core.NumericalDerivatives, called directly, several times, or given '
          'to wrap(); non-trivial: a derivative is compared'),
    Group('calls', cases(), check, 10000, 300000,
          'functions of all kinds of signatures, derivatives given as lists, '
          'iterators or endless iterators with gaps, 1 to 4 calls of the same '
          'wrapped function in different forms; non-trivial: a derivative is '
          'used'),
    Group('scales', power_cases(), check_power, 5000, 100000,
          'numerical derivatives of powers and logarithms at arguments from '
          '1e-40 to 1e40; non-trivial: not between 1e-3 and 1e3'),
    Group('results', result_cases, check_result, 4000, 60000,
          'functions returning integers, booleans, fractions, NumPy scalars, '
          'subclasses of numbers'),
    Group('large', large.sized(4, 14, 60, ('args', 'kwargs', 'split', 'named')),
          large.check_parameters, 400, 10000,
          'functions of 4 to 60 parameters; non-trivial: more than 6'),
]
