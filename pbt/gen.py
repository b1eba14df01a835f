"""Generators and helpers shared by the property modules. Cases are plain data."""
import functools
import math
import operator
import zlib

import numpy as np
import mpmath
from hypothesis import strategies as st

mpmath.mp.dps = 60
mpf = mpmath.mpf
INF = float('inf')
NAN = float('nan')


cached = functools.lru_cache(maxsize=None)


@cached
def pick(*options):
    return st.sampled_from(options)


@cached
def ints(lo, hi):
    return st.integers(lo, hi)


bools = st.booleans()


@cached
def magnitudes(lo, hi):
    """Positive floats m*10**e, with the exponent spread uniformly."""
    def build(t):
        (a, b), e = t
        # b: how many digits are kept
        m = a / 1e8 if b > 4 else round(a / 1e8, b)
        return float('%.15ge%d' % (m, e))
    return st.tuples(st.tuples(st.integers(100000000, 999999999),
                               st.integers(0, 7)),
                     st.integers(lo, hi)).map(build)


@cached
def signed(strategy):
    return st.tuples(strategy, st.booleans()).map(
        lambda t: -t[0] if t[1] else t[0])


dyadics = st.tuples(st.integers(-4096, 4096), st.integers(0, 6)).map(
    lambda t: t[0] / 2.0 ** t[1])
decimals = st.tuples(st.integers(-99999, 99999), st.integers(0, 5)).map(
    lambda t: float('%de-%d' % t))
small_ints = st.integers(-12, 12).map(float)


@cached
def nominals(lo=-9, hi=9):
    return st.one_of(small_ints, decimals, dyadics, signed(magnitudes(lo, hi)))


@cached
def nonzero(strategy):
    return strategy.filter(lambda x: x != 0)


@cached
def sigmas(lo=-9, hi=9, zero=True):
    parts = [st.sampled_from([0.1, 0.25, 1.0, 0.5, 2.0, 3.0]),
             decimals.map(abs), magnitudes(lo, hi)]
    if zero:
        parts.append(st.just(0.0))
        return st.one_of(*parts)
    return st.one_of(*parts).filter(lambda x: x != 0)


# Constants that are mixed with numbers with uncertainties
CONST_KINDS = {
    'float': float, 'int': int, 'bool': bool,
    'np.float64': np.float64, 'np.int64': np.int64,
}


@cached
def constants(lo=-9, hi=9):
    ints = st.integers(-20, 20)
    return st.one_of(
        st.tuples(st.just('float'), nominals(lo, hi)),
        st.tuples(st.just('int'), ints),
        st.tuples(st.just('int'), ints),
        st.tuples(st.just('bool'), st.booleans().map(int)),
        st.tuples(st.just('np.float64'), nominals(lo, hi)),
        st.tuples(st.just('np.int64'), ints)).map(list)


def make_const(c):
    return CONST_KINDS[c[0]](c[1])


BINARY = {'+': operator.add, '-': operator.sub, '*': operator.mul,
          '/': operator.truediv, '**': operator.pow,
          '//': operator.floordiv, '%': operator.mod}
UNARY = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs}


def mp_partials(op, x, y):
    """Exact partial derivatives of x op y at float operands."""
    a, b = mpf(x), mpf(y)
    if op == '+':
        return mpf(1), mpf(1)
    if op == '-':
        return mpf(1), mpf(-1)
    if op == '*':
        return b, a
    if op == '/':
        return 1 / b, -a / b ** 2
    if op == '//':
        return mpf(0), mpf(0)
    if op == '%':
        # x % y == x - y*floor(x/y), exactly
        return mpf(1), -mpmath.floor(a / b)
    if op == '**':
        d0 = mpf(0) if y == 0 else b * mpmath.power(a, b - 1)
        if x > 0:
            d1 = mpmath.log(a) * mpmath.power(a, b)
        else:
            d1 = None       # undefined: only if y is a constant
        return d0, d1
    raise KeyError(op)


# Functions whose derivative is well conditioned everywhere on their domain:
MP_FUNCS = {
    'sin': (mpmath.sin, mpmath.cos),
    'cos': (mpmath.cos, lambda x: -mpmath.sin(x)),
    'exp': (mpmath.exp, mpmath.exp),
    'log': (mpmath.log, lambda x: 1 / x),
    'log10': (mpmath.log10, lambda x: 1 / (x * mpmath.log(10))),
    'sqrt': (mpmath.sqrt, lambda x: 1 / (2 * mpmath.sqrt(x))),
    'atan': (mpmath.atan, lambda x: 1 / (1 + x * x)),
    'asinh': (mpmath.asinh, lambda x: 1 / mpmath.sqrt(1 + x * x)),
    'sinh': (mpmath.sinh, mpmath.cosh),
    'cosh': (mpmath.cosh, mpmath.sinh),
    'fabs': (abs, lambda x: mpf(1) if x > 0 else mpf(-1)),
    'expm1': (mpmath.expm1, mpmath.exp),
    'degrees': (mpmath.degrees, lambda x: 180 / mpmath.pi),
    'radians': (mpmath.radians, lambda x: mpmath.pi / 180),
}


def same_float(a, b):
    """Bit-identical, with all NaN equal."""
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    return a == b and math.copysign(1, a) == math.copysign(1, b)


def mp_quad(terms):
    return mpmath.sqrt(mpmath.fsum([t * t for t in terms]))


def ulps_apart(a, b):
    """Distance in units of eps*max(|a|,|b|)."""
    if a == b:
        return 0.0
    return abs(a - b) / (2.220446049250313e-16 * max(abs(a), abs(b)))


# Different variables can have the same tag
TAGS_BY_VALUE = (None, 'a', None, 'a', 'b')


def tagged(n, s):
    """A variable, with a tag (or not) that depends on its parameters."""
    import uncertainties
    tag = TAGS_BY_VALUE[zlib.crc32(repr((n, s)).encode()) % 5]
    return uncertainties.ufloat(n, s, tag)
