"""U26: numbers that are no longer used are released."""
import copy
import gc
import pickle
import sys
import warnings
from hypothesis import strategies as st
import uncertainties
from uncertainties import (
    ufloat, ufloat_fromstr, umath, unumpy, UFloat, wrap, covariance_matrix,
    correlation_matrix, correlated_values, correlated_values_norm)
from uncertainties.unumpy import ulinalg

from ..core import Group, fail, require, lib
from ..gen import *

WARM, ROUNDS, MORE, LONG = 40, 160, 3000, 800

ASSUMPTIONS = [
    'memory is measured by the number of blocks of the Python allocator, after '
    'a garbage collection; a growth must persist over %d repetitions (caches of '
    'a limited size are accepted)' % (3 * (MORE + LONG)),
    'obsolete forms are not used (the warnings module keeps their messages)']


def area(a, b=2.0):
    return a * b + 1


def failing(a):
    raise KeyError(a)


wrapped = wrap(area)
wrapped_exact = wrap(area, [lambda a, b=2.0: b, lambda a, b=2.0: a])
wrapped_failing = wrap(failing)
wrapped_sum = unumpy.core.wrap_array_func(np.cumsum)

UNARY = ['sin', 'exp', 'atan', 'erf', 'gamma', 'fabs', 'cosh', 'sqrt']
BINARY = ['hypot', 'atan2', 'pow', 'fmod', 'copysign']
SPECS = ['', '.2f', '.3e', 'S', 'P', 'L', '.1uSP', '%', '12.3f', 'g']


class State(object):
    """What is kept between repetitions."""

    def __init__(self, case):
        self.kept = [ufloat(1.25 + k, 0.125 * (k + 1)) for k in range(3)]
        self.total = self.kept[0] + 0
        self.array = unumpy.uarray([1.0, 2.0], [0.1, 0.2])


def raises(f, *args, **kwargs):
    try:
        f(*args, **kwargs)
    except Exception:
        pass


def one_round(steps, state, k):
    """Some calculations with values that depend on k."""
    v = 1.0 + k / 1024.0
    pool = [ufloat(v, v / 8)] + state.kept
    for i, (kind, a, b) in enumerate(steps):
        w = v + i
        x = pool[a % len(pool)]
        y = pool[b % len(pool)]
        if kind == 'new':
            pool.append(ufloat(w, w / 16, 'tag %r' % w))
        elif kind == 'exact':
            pool.append(ufloat(w, 0))
        elif kind == 'string':
            pool.append(ufloat_fromstr('%r+/-%r' % (w, w / 32)))
        elif kind == 'short string':
            pool.append(ufloat_fromstr('%.6f(%d)' % (w, k % 1000 + 1)))
        elif kind == 'add':
            pool.append(x + y)
        elif kind == 'sub':
            pool.append(x - w)
        elif kind == 'mul':
            pool.append(w * x)
        elif kind == 'div':
            pool.append(x / (y * y + w))
        elif kind == 'pow':
            pool.append((x * x + 1) ** 0.5)
        elif kind == 'mod':
            pool.append(x % w)
        elif kind == 'unary':
            y = umath.atan(x) + 1.75    # (bounded arguments)
            pool.append(getattr(umath, UNARY[b % len(UNARY)])(y))
        elif kind == 'binary':
            z = umath.atan(x) + 1.75
            pool.append(getattr(umath, BINARY[b % len(BINARY)])(
                z, umath.atan(y) + w))
        elif kind == 'fsum':
            pool.append(umath.fsum([x, y, w]))
        elif kind == 'pair':
            umath.modf(x), umath.frexp(x)
        elif kind == 'wrapped':
            pool.append(wrapped(x, w))
            pool.append(wrapped_exact(x, b=y))
        elif kind == 'keyword':
            pool.append(wrapped(x, b=y))
        elif kind == 'new wrapped':
            pool.append(wrap(lambda t, u=w: t * u)(x))
        elif kind == 'std_dev':
            x.std_dev, x.s, y.std_dev
        elif kind == 'derivatives':
            x.derivatives, y.derivatives
        elif kind == 'components':
            x.error_components()
        elif kind == 'score':
            raises(x.std_score, w)
        elif kind == 'str':
            str(x), repr(y)
        elif kind == 'format':
            format(x, SPECS[b % len(SPECS)])
            raises(format, x, '.%dq' % (k % 30))
        elif kind == 'compare':
            x == y, x < w, x != y, bool(x), x >= y, x == 'text', x == w
        elif kind == 'copy':
            pool.append(copy.copy(x))
        elif kind == 'deepcopy':
            pool.append(copy.deepcopy(x))
        elif kind == 'pickle':
            pool.append(pickle.loads(pickle.dumps(x)))
        elif kind == 'covariance':
            covariance_matrix([x, y, pool[-1]])
        elif kind == 'correlation':
            correlation_matrix([state.kept[0] + x, state.kept[1] + y])
        elif kind == 'correlated':
            pool.extend(correlated_values([w, w + 1], [[w, 0.5], [0.5, w]],
                                          tags=['a%r' % w, 'b%r' % w]))
        elif kind == 'correlated norm':
            pool.extend(correlated_values_norm([(w, 0.5), (w + 1, 0.25)],
                                               [[1, 0.5], [0.5, 1]]))
        elif kind == 'set':
            state.kept[b % 3].std_dev = w
        elif kind == 'array':
            arr = unumpy.uarray([w, w + 1], [0.1, w])
            pool.append((arr * x + y).sum())
            unumpy.nominal_values(arr), unumpy.std_devs(arr)
        elif kind == 'array function':
            arr = unumpy.uarray([w, w + 1], [0.1, w])
            pool.append((unumpy.sin(arr) + state.array)[1])
        elif kind == 'matrix':
            m = unumpy.matrix([[w, x], [0.5, w + 1]])
            pool.append((m * m)[0, 0])
            m.nominal_values, m.std_devs
        elif kind == 'inverse':
            m = unumpy.matrix([[w + 9, 0.25 * umath.atan(x)], [0.5, w + 1]])
            pool.append(m.I[0, 1])
        elif kind == 'pinv':
            pool.append(ulinalg.pinv([[w, umath.atan(x)], [0.5, y]])[0, 1]
                        if y.nominal_value else y)
        elif kind == 'wrapped array':
            pool.append(wrapped_sum(np.array([x, w, y]))[1])
            unumpy.core.wrap_array_func(np.cumsum)(np.array([x, w]))
        elif kind == 'array tests':
            arr = unumpy.uarray([w, k % 2 * math.nan], [0.1, w])
            arr[~unumpy.isnan(arr)], arr > w, arr == arr, np.sort(arr[:1])
            copy.deepcopy(arr), repr(arr), str(arr)
        elif kind == 'array pickle':
            pickle.loads(pickle.dumps(unumpy.uarray([w], [0.5])))
        elif kind == 'errors':
            raises(ufloat, w, -w)
            raises(ufloat, 'abc %r' % w, w)
            raises(ufloat_fromstr, '1.%d(' % k)
            raises(umath.log, x - x - w)
            raises(lambda: x / 0)
            raises(float, x)
            raises(lambda: x + 'abc')
            raises(wrapped_failing, x)
        elif kind == 'negative':
            raises(setattr, state.kept[b % 3], 'std_dev', -w)
        elif kind == 'total':
            state.total = state.total + (1 if k % 2 else -1) * state.kept[b % 3]
            state.total.std_dev
        elif kind == 'total in array':
            state.array = state.array * 0.5 + state.array[::-1] * 0.5
            unumpy.std_devs(state.array)
        elif kind == 'total covariance':
            state.total = 0.5 * state.total + state.kept[b % 3]
            covariance_matrix([state.total, x])
        else:
            raise AssertionError(kind)


KINDS = ['new', 'exact', 'string', 'short string', 'add', 'sub', 'mul', 'div',
         'pow', 'mod', 'unary', 'unary', 'binary', 'fsum', 'pair', 'wrapped',
         'keyword', 'new wrapped', 'std_dev', 'derivatives', 'components',
         'score', 'str', 'format', 'format', 'compare', 'copy', 'deepcopy',
         'pickle', 'covariance', 'correlation', 'correlated', 'correlated norm',
         'set', 'array', 'array function', 'matrix', 'inverse', 'array pickle',
         'pinv', 'wrapped array', 'array tests',
         'errors', 'negative', 'total', 'total in array', 'total covariance']
cases = st.fixed_dictionaries({
    'steps': st.lists(st.tuples(st.sampled_from(KINDS), ints(0, 9),
                                ints(0, 9)).map(list), min_size=1, max_size=10)})


def measure():
    gc.collect()
    return sys.getallocatedblocks()


def repeat(case, state, start, n):
    for k in range(start, start + n):
        with lib('repetition %d' % k):
            one_round(case['steps'], state, k)
    return start + n


def check(case, rec):
    steps = case['steps']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        state = State(case)
        k = repeat(case, state, 0, WARM)
        before = measure()
        k = repeat(case, state, k, ROUNDS)
        growth, n = measure() - before, ROUNDS
        for _ in range(3):
            if growth <= n / 2:
                break
            # Is it more than a cache that is being filled (or memory kept by
            # something else)?
            rec.label('longer')
            k = repeat(case, state, k, MORE)
            n = LONG
            before = measure()
            k = repeat(case, state, k, n)
            growth = measure() - before
        require(growth <= n / 2, '%d repetitions of these calculations use %d '
                'more blocks of memory', n, growth)
    rec.label(*('step ' + s[0] for s in steps))
    rec.nontrivial(len(steps) >= 3)


GROUPS = [
    Group('repeated', cases, check, 480, 6000,
          '1 to 10 kinds of calculations repeated %d times with other values, on '
          'new numbers and on numbers that are kept; non-trivial: at least 3 '
          'calculations' % (WARM + ROUNDS)),
]
