"""U08: comparisons and truth value are consistent."""
import decimal
import fractions
import math
import operator
from hypothesis import strategies as st
import uncertainties
from uncertainties import ufloat, umath

from .. import large
from ..core import Group, fail, require, lib
from ..gen import *
from . import u05

ASSUMPTIONS = [
    'finite nominal values; standard deviations may be infinite or NaN',
    'plain numbers: int, bool, float, NumPy scalars, fractions, decimals, '
    'within the range of floats',
    'whether two results are the same function is decided exactly, with dyadic '
    'coefficients']

OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt,
       '<=': operator.le, '>': operator.gt, '>=': operator.ge}
small = st.integers(-3, 3).map(float)


def expected(op, a, b, same):
    """a, b: nominal values; same: whether the difference is exactly zero."""
    return {'==': same, '!=': not same, '<': a < b, '>': a > b,
            '<=': a < b or same, '>=': a > b or same}[op]


# Group 1: numbers with uncertainties against each other

@st.composite
def programs(draw):
    nv = draw(ints(1, 4))
    vs = [[draw(small), draw(pick(0.0, 0.0, 0.1, 1.0, NAN, INF, 1e-200, 1e200))]
          for _ in range(nv)]
    prog, n = [], nv
    for _ in range(draw(ints(0, 8))):
        op = draw(pick('add', 'sub', 'neg', 'pos', 'mul', 'addc', 'sum'))
        i = draw(ints(0, n - 1))
        if op in ('add', 'sub'):
            prog.append([op, i, draw(ints(0, n - 1))])
        elif op == 'mul':
            prog.append([op, i, draw(pick(1.0, -1.0, 2.0, 0.5, 0.0))])
        elif op == 'addc':
            prog.append([op, i, draw(pick(0.0, 1.0, -1.0))])
        elif op == 'sum':
            prog.append([op, draw(st.lists(ints(0, n - 1), min_size=1,
                                           max_size=4))])
        else:
            prog.append([op, i])
        n += 1
    return {'vars': vs, 'prog': prog,
            'later': draw(st.lists(pick(0.0, 0.1, NAN), min_size=nv,
                                   max_size=nv)),
            'read': draw(bools)}


def same_function(ma, mb, sigmas):
    if ma.val != mb.val:
        return False
    for i in set(ma.coefs) | set(mb.coefs):
        if ma.coefs.get(i, 0) != mb.coefs.get(i, 0) and sigmas[i] != 0:
            return False
    # 0 times infinity or NaN: the standard deviation is not zero
    return not any(not math.isfinite(sigmas[i])
                   for i in set(ma.coefs) | set(mb.coefs))


def check_program(case, rec):
    vs = [ufloat(n, s) for n, s in case['vars']]
    sigmas = [s for n, s in case['vars']]
    with lib('a calculation'):
        res, model = u05.run_program(case, vs)
    if case['read']:
        [r.std_dev for r in res]
    for turn in range(2):
        for i in range(len(res)):
            for j in range(max(0, i - 5), len(res)):
                a, b = model[i].val, model[j].val
                same = same_function(model[i], model[j], sigmas)
                for op, f in OPS.items():
                    with lib('comparison'):
                        got = f(res[i], res[j])
                    want = expected(op, a, b, same)
                    require(type(got) is bool and got is want,
                            '%r %s %r is %r, expected %r (numbers %d and %d)',
                            res[i], op, res[j], got, want, i, j)
                if same and i != j:
                    rec.label('equal')
                elif a == b and i != j:
                    rec.label('same value, not equal')
            zero = model[i].val == 0 and same_function(
                model[i], u05.Lin(0, {}, 0, 0), sigmas)
            with lib('bool()'):
                got = bool(res[i])
            require(got is (not zero), 'bool(%r) is %r', res[i], got)
            if zero:
                rec.label('false')
        with lib('sorting'):
            order = sorted(res)
        require([float(x.nominal_value) for x in order] ==
                sorted(float(m.val) for m in model), 'sorted() gives %r', order)
        sigmas = case['later']
        for v, s in zip(vs, sigmas):
            v.std_dev = s
    rec.nontrivial(len(res) > 1)


# Group 2: plain numbers on either side, arbitrary floats

plain_kinds = pick('float', 'int', 'bool', 'np.float64', 'np.int64',
                   'np.float32', 'fraction', 'decimal')


@st.composite
def plain_cases(draw):
    kind = draw(plain_kinds)
    y = draw(st.one_of(small, nominals(-9, 9), signed(magnitudes(-300, 300))))
    if kind in ('int', 'np.int64'):
        y = float(int(math.fmod(y, 2.0 ** 53)))
    elif kind == 'bool':
        y = float(draw(bools))
    elif kind == 'np.float32':
        y = float(np.float32(math.fmod(y, 1e30)))
    near = draw(pick('same', 'same', 'next', 'prev', 'other', 'neg'))
    if near == 'same':
        x = y
    elif near == 'next':
        x = math.nextafter(y, INF)
    elif near == 'prev':
        x = math.nextafter(y, -INF)
    elif near == 'neg':
        x = -y
    else:
        x = draw(nominals(-9, 9))
    return {'x': x, 'y': y, 'kind': kind,
            's': draw(pick(0.0, 0.0, 0.1, 1e-300, 5e-324, NAN, INF, 1e3)),
            'form': draw(pick('var', 'neg', 'sum', 'tag'))}


def make_plain(kind, y):
    if kind == 'fraction':
        return fractions.Fraction(y)
    if kind == 'decimal':
        return decimal.Decimal(y)
    if kind == 'np.float32':
        return np.float32(y)
    return make_const([kind, y])


def check_plain(case, rec):
    x, y, s = case['x'], case['y'], case['s']
    form = case['form']
    if form == 'neg':
        num = -ufloat(-x, s)
    elif form == 'sum':
        num = ufloat(x, s) + 0
    else:
        num = ufloat(x, s, 'tag' if form == 'tag' else None)
    c = make_plain(case['kind'], y)
    same = x == y and s == 0
    for op, f in OPS.items():
        with lib('comparison'):
            got, swapped = f(num, c), f(c, num)
        want = expected(op, x, y, same)
        require(isinstance(got, (bool, np.bool_)) and bool(got) is want,
                '%r %s %r is %r, expected %r', num, op, c, got, want)
        want = expected(op, y, x, same)
        require(isinstance(swapped, (bool, np.bool_)) and
                bool(swapped) is want,
                '%r %s %r is %r, expected %r', c, op, num, swapped, want)
    with lib('bool()'):
        got = bool(num)
    require(got is not (x == 0 and s == 0), 'bool(%r) is %r', num, got)
    with lib('membership'):
        require((num in [c]) is same and (c in [num]) is same,
                '%r in [%r] is not %r', num, c, same)
    rec.label(case['kind'])
    rec.nontrivial(x == y or s != 0)


# Group 3: other types

OTHERS = {'None': lambda: None, 'str': lambda: '1', 'list': lambda: [1],
          'tuple': lambda: (1.0, 0.1), 'dict': lambda: {}, 'empty': lambda: (),
          'object': object, 'type': lambda: float, 'function': lambda: len,
          'bytes': lambda: b'1', 'set': lambda: set(),
          'Ellipsis': lambda: Ellipsis, 'exception': lambda: ValueError(1)}
other_cases = st.tuples(st.sampled_from(sorted(OTHERS)), nominals(-3, 3),
                        pick(0.0, 0.1, NAN), bools).map(list)


class Asks(object):
    """An object that knows how to compare itself with anything."""
    __hash__ = None

    def __eq__(self, other):
        return 'eq'

    def __ne__(self, other):
        return 'ne'

    def __lt__(self, other):
        return 'lt'

    def __gt__(self, other):
        return 'gt'

    def __le__(self, other):
        return 'le'

    def __ge__(self, other):
        return 'ge'


def check_other(case, rec):
    name, n, s, derived = case
    x = ufloat(n, s) + 1 if derived else ufloat(n, s)
    y = OTHERS[name]()
    with lib('comparison of %r with %r' % (x, y)):
        results = [x == y, y == x, x != y, y != x, x in [y], x not in [y]]
    require([bool(r) for r in results] ==
            [False, False, True, True, False, True],
            'comparison of %r with %r: ==, ==, !=, !=, in, not in give %r', x,
            y, results)
    for op in ('<', '>', '<=', '>='):
        for a, b in ((x, y), (y, x)):
            try:
                r = OPS[op](a, b)
            except TypeError:
                pass
            else:
                fail('%r %s %r is %r: TypeError expected', a, op, b, r)
    z = Asks()
    with lib('comparison'):
        got = [x == z, x != z, x < z, x > z, x <= z, x >= z]
    require(got == ['eq', 'ne', 'gt', 'lt', 'ge', 'le'],
            'the reflected comparisons of the other object are not used: %r',
            got)
    rec.label(name)
    rec.nontrivial()


GROUPS = [
    Group('pairs', programs(), check_program, 5000, 150000,
          'all pairs of results of a small linear program on few values, before '
          'and after a change of standard deviations'),
    Group('plain', plain_cases(), check_plain, 10000, 300000,
          'plain numbers equal to, next to or different from the nominal '
          'value, on either side; non-trivial: same value, or an uncertainty'),
    Group('others', other_cases, check_other, 2000, 20000,
          'objects that are not numbers'),
    Group('large', large.sized(5, 40, 300),
          large.check_equal, 250, 8000,
          'comparisons of sums of 5 to 300 variables; non-trivial: more '
          'than 10'),
]
