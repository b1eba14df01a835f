"""U17: numbers with uncertainties are created as asked, or rejected."""
import copy
import math
import pickle
import warnings
from decimal import Decimal
from fractions import Fraction
from hypothesis import strategies as st
import uncertainties
from uncertainties import (ufloat, ufloat_fromstr, UFloat, covariance_matrix,
                           unumpy)
from uncertainties.core import Variable, NegativeStdDev

from ..core import Group, fail, require, lib, star_import
from ..gen import *

star_import('uncertainties', [
    'ufloat', 'ufloat_fromstr', 'nominal_value', 'std_dev', 'UFloat', 'wrap',
    'covariance_matrix', 'correlation_matrix', 'correlated_values',
    'correlated_values_norm'])

ASSUMPTIONS = [
    'values and standard deviations convertible to float() without overflow',
    'no claim on Decimal("NaN") (which cannot be compared to 0) nor on the '
    'type of the exception for objects that are not numbers']

KINDS = {
    'float': float, 'int': int, 'bool': bool, 'np.float64': np.float64,
    'np.float32': np.float32, 'np.int64': np.int64, 'np.int8': np.int8,
    'Fraction': lambda t: Fraction(t[0], t[1]), 'Decimal': Decimal,
    'array0': lambda v: np.array(v), 'bigint': int, 'np.uint16': np.uint16,
    'np.longdouble': np.longdouble, 'np.bool_': np.bool_,
}


class FloatLike(object):
    """Converts to float and compares, like some number classes."""
    def __init__(self, v):
        self.v = v

    def __float__(self):
        return self.v

    def __lt__(self, other):
        return self.v < other


class MyFloat(float):
    pass


KINDS['like'] = FloatLike
KINDS['MyFloat'] = MyFloat


@cached
def reals(negative):
    f = nominals(-300, 300) if negative else sigmas(-300, 300)
    lo = -100 if negative else 0
    specials = pick(0.0, -0.0, NAN, INF, 5e-324, 1.7e308)
    return st.one_of(
        st.tuples(st.just('float'), f),
        st.tuples(st.just('float'), specials),
        st.tuples(st.just('int'), ints(lo, 1000)),
        st.tuples(st.just('bigint'), ints(0, 10 ** 30)),
        st.tuples(st.just('bool'), ints(0, 1)),
        st.tuples(st.just('np.float64'), st.one_of(f, specials)),
        st.tuples(st.just('np.float32'), f.filter(
            lambda x: x == 0 or 1e-30 < abs(x) < 1e30)),
        st.tuples(st.just('np.longdouble'), f),
        st.tuples(st.just('np.int64'), ints(lo, 10 ** 6)),
        st.tuples(st.just('np.int8'), ints(lo, 100)),
        st.tuples(st.just('np.uint16'), ints(0, 1000)),
        st.tuples(st.just('np.bool_'), ints(0, 1)),
        st.tuples(st.just('Fraction'), st.tuples(ints(lo, 1000), ints(1, 99))),
        st.tuples(st.just('Decimal'), st.one_of(f, pick(INF)).map(repr)),
        st.tuples(st.just('like'), f), st.tuples(st.just('MyFloat'), f),
        st.tuples(st.just('array0'), f)).map(list)


@cached
def negatives():
    f = magnitudes(-300, 300).map(lambda x: -x)
    i = ints(-100, -1)
    return st.one_of(
        st.tuples(st.just('float'), f),
        st.tuples(st.just('float'), pick(-INF, -5e-324, -1e308)),
        st.tuples(st.just('int'), i), st.tuples(st.just('np.float64'), f),
        st.tuples(st.just('np.int8'), i), st.tuples(st.just('np.int64'), i),
        st.tuples(st.just('bigint'), ints(-10 ** 30, -10 ** 20)),
        st.tuples(st.just('Fraction'), st.tuples(i, ints(1, 99))),
        st.tuples(st.just('Decimal'), f.map(repr)),
        st.tuples(st.just('like'), f)).map(list)


def build(c):
    kind, v = c
    return KINDS[kind](v)


TAGS = [None, 'x', '', 'a tag', u'\xb5', 0, ('a', 1), 3.5, '1.2',
        ' padded\n', 'long ' * 60]


def quiet(call):
    """Result of a call, and the warnings."""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        try:
            return call(), caught, None
        except Exception as exc:
            return None, caught, exc


def same(got, want):
    """Same float (a -0.0 standard deviation may become 0.0)."""
    return same_float(got, want) or (got == 0 and want == 0)


def check_number(x, n, s, tag, what):
    require(type(x) is Variable, '%s is a %s', what, type(x))
    require(type(x.nominal_value) is float and same_float(x.nominal_value, n),
            '%s has the nominal value %r, expected %r', what, x.nominal_value, n)
    require(isinstance(x.std_dev, float) and same(float(x.std_dev), s),
            '%s has the standard deviation %r, expected %r', what, x.std_dev, s)
    require(x.tag is tag or x.tag == tag, '%s has the tag %r, expected %r', what,
            x.tag, tag)
    d = x.derivatives
    require(len(d) == 1 and list(d)[0] is x and d[x] == 1,
            '%s has the derivatives %r', what, d)


# Group 1: creation

create_cases = st.fixed_dictionaries({
    'n': reals(True), 's': st.one_of(reals(False), reals(False), negatives()),
    'tag': st.sampled_from(range(len(TAGS))),
    'form': pick('positional', 'keywords', 'tag keyword', 'Variable',
                 'no tag')})


def check_create(case, rec):
    n, s = build(case['n']), build(case['s'])
    tag = TAGS[case['tag']]
    form = case['form']
    if form == 'no tag':
        tag = None
    call = {'positional': lambda: ufloat(n, s, tag),
            'keywords': lambda: ufloat(nominal_value=n, std_dev=s, tag=tag),
            'tag keyword': lambda: ufloat(n, s, tag=tag),
            'Variable': lambda: Variable(n, s, tag=tag),
            'no tag': lambda: ufloat(n, s)}[form]
    what = 'ufloat(%r, %r)' % (n, s)
    x, caught, exc = quiet(call)
    fs = float(s)
    rec.label(form, 's ' + case['s'][0], 'n ' + case['n'][0])
    if fs < 0:
        require(isinstance(exc, NegativeStdDev), '%s gives %r: NegativeStdDev '
                'expected', what, exc or x)
        rec.label('negative')
        rec.nontrivial()
        return
    if exc is not None:
        fail('%s raised %s: %s', what, type(exc).__name__, exc)
    require(not caught, '%s warns: %s', what, [str(w.message) for w in caught])
    fn = float(n)
    check_number(x, fn, fs, tag, what)
    # Another number is another variable
    y = call()
    require(y is not x, '%s gives the same object twice', what)
    if 0 < fs < 1e150:
        cov = covariance_matrix([x, y])
        require(cov[0][1] == 0, 'two calls of %s give a covariance of %r', what,
                cov[0][1])
        if math.isfinite(fn):
            require(x != y and x == x, 'two calls of %s give equal numbers', what)
    y.std_dev = 5
    check_number(x, fn, fs, tag, what)
    rec.nontrivial()


# Group 2: assignments

@st.composite
def histories(draw):
    return {'n': draw(reals(True)), 's': draw(reals(False)),
            'steps': draw(st.lists(st.tuples(
                pick('set', 'set', 'legacy', 'bad', 'bad legacy', 'type',
                     'tag'), reals(False), negatives()).map(list),
                min_size=1, max_size=6))}


BAD = ['text', None, 1j, [1.0], object()]


def check_history(case, rec):
    n = float(build(case['n']))
    s = float(build(case['s']))
    x = Variable(n, s, 'first')
    tag = 'first'
    y = 2 * x if math.isfinite(n) and abs(n) < 1e300 else None
    rejected = 0
    for k, (op, good, bad) in enumerate(case['steps']):
        good, bad = build(good), build(bad)
        if op == 'set':
            with lib('std_dev = %r' % (good,)):
                x.std_dev = good
            s = float(good)
        elif op == 'legacy':
            _, caught, exc = quiet(lambda: x.set_std_dev(good))
            require(exc is None, 'set_std_dev(%r) raised %r', good, exc)
            require(len(caught) == 1, 'set_std_dev() issued %d warnings',
                    len(caught))
            s = float(good)
        elif op in ('bad', 'bad legacy'):
            try:
                if op == 'bad':
                    x.std_dev = bad
                else:
                    x.set_std_dev(bad)
            except NegativeStdDev:
                rejected += 1
            else:
                fail('std_dev = %r was accepted', bad)
        elif op == 'type':
            wrong = BAD[k % len(BAD)]
            try:
                x.std_dev = wrong
            except Exception:
                rejected += 1
            else:
                fail('std_dev = %r was accepted', wrong)
        else:
            tag = TAGS[k % len(TAGS)]
            x.tag = tag
        check_number(x, n, s, tag, 'after step %d, the number' % k)
        require(same(float(x.s), s) and same_float(x.n, n), 's is %r, n is %r',
                x.s, x.n)
        if y is not None and s < 1e300:
            want = 2 * s
            require(same(float(y.std_dev), want) or abs(y.std_dev - want) <=
                    1e-14 * want, 'standard deviation of 2*x: %r, with %r for x',
                    float(y.std_dev), s)
    rec.label(*[op for op, _, _ in case['steps']])
    rec.nontrivial(rejected > 0 and len(case['steps']) > 1)


# Group 3: obsolete forms

legacy_cases = st.fixed_dictionaries({
    'n': reals(True), 's': st.one_of(reals(False), reals(False), reals(False),
                                     negatives()),
    'tag': st.sampled_from(range(len(TAGS))),
    'form': pick('tuple', 'tuple tag', 'tuple keyword', 'call var',
                 'call result', 'call result twice', 'string', 'string tag',
                 'string keyword')})


def check_legacy(case, rec):
    form, tag = case['form'], TAGS[case['tag']]
    n, s = build(case['n']), build(case['s'])
    fn, fs = float(n), float(s)
    rec.label(form)
    if form.startswith('call'):
        if fs < 0:
            return
        x = ufloat(n, s)
        if form == 'call var':
            obj, want = x, fs
        else:
            if not (math.isfinite(fn) and abs(fn) < 1e300 and fs < 1e300):
                return
            obj, want = 4 * x, 4 * fs
            if form.endswith('twice'):
                obj.std_dev
        got, caught, exc = quiet(lambda: obj.std_dev())
        require(exc is None, 'std_dev() raised %r', exc)
        require(isinstance(got, float) and (same(float(got), want) or
                abs(got - want) <= 1e-14 * want),
                'std_dev() is %r, expected %r', got, want)
        require(len(caught) == 1, 'std_dev() issued %d warnings', len(caught))
        rec.nontrivial()
        return
    if form.startswith('string'):
        text = '%r+/-%r' % (fn, fs)
        args, want_n, want_s = (text,), fn, fs
    else:
        args, want_n, want_s = ((n, s),), fn, fs
    kwargs = {}
    if form.endswith(' tag'):
        args += (tag,)
    elif form.endswith('keyword'):
        kwargs = {'tag': tag}
    else:
        tag = None
    x, caught, exc = quiet(lambda: ufloat(*args, **kwargs))
    what = 'ufloat(*%r, **%r)' % (args, kwargs)
    if want_s < 0:
        require(isinstance(exc, NegativeStdDev), '%s gives %r: NegativeStdDev '
                'expected', what, exc or x)
        rec.nontrivial()
        return
    require(exc is None, '%s raised %r', what, exc)
    check_number(x, want_n, want_s, tag, what)
    require(len(caught) == 1, '%s issued %d warnings', what, len(caught))
    require('ufloat' in str(caught[0].message) and 'bsolete' in str(
        caught[0].message), 'warning: %s', caught[0].message)
    require(caught[0].filename == __file__, 'the warning of %s is for %s', what,
            caught[0].filename)
    rec.nontrivial()


# Group 4: rejected arguments

WRONG = [1j, 'not a number', '', [1.0, 2.0], {}, object(), b'1+/-2', (), (1,),
         ('a', 'b'), '1+/-', '(1', (1, 1j)]


def check_wrong(case, rec):
    wrong = WRONG[case['wrong']]
    form = case['form']
    call = {'value': lambda: ufloat(wrong, 0.1),
            'value tag': lambda: ufloat(wrong, 0.1, 'tag'),
            'only': lambda: ufloat(wrong),
            'std': lambda: ufloat(1.5, wrong),
            'both': lambda: ufloat(wrong, wrong),
            'keyword': lambda: ufloat(wrong, tag='t'),
            'Variable': lambda: Variable(wrong, 0.1),
            'Variable std': lambda: Variable(0.1, wrong)}[form]
    x, caught, exc = quiet(call)
    require(exc is not None, 'ufloat, %s: %r is accepted and gives %r', form,
            wrong, x)
    rec.label(form, type(exc).__name__)
    rec.nontrivial()


wrong_cases = st.fixed_dictionaries({
    'wrong': ints(0, len(WRONG) - 1),
    'form': pick('value', 'value tag', 'only', 'std', 'both', 'keyword',
                 'Variable', 'Variable std')})

# Group 5: several numbers, by all means of creation

WAYS = ['ufloat', 'ufloat', 'Variable', 'string', 'string', 'string', 'tuple',
        'legacy string', 'uarray', 'umatrix', 'copy', 'deepcopy', 'pickle',
        'modify']
POOL = [(1.5, 0.25), (-2.0, 0.5), (0.0, 1.0)]
TEXTS = ['1.5+/-0.25', '1.50(25)', '-2.0(5)', ' -2.0+/-0.5', '(0+/-1)e0', '0.']
TEXT_VALUES = [0, 0, 1, 1, 2, 2]
POOL_TAGS = [None, 'x', 'x', 'y']

several_cases = st.lists(st.tuples(
    pick(*WAYS), ints(0, 5), ints(0, 3), ints(0, 9)).map(list),
    min_size=2, max_size=9)


def check_several(case, rec):
    """Every creation, or copy, gives new variables, independent of all the
    others; changing one does not change the others, nor those created later."""
    made = []       # [number, nominal value, standard deviation, tag]
    for way, k, t, i in case:
        tag = POOL_TAGS[t]
        n, s = POOL[k % 3]
        if way in ('copy', 'deepcopy', 'pickle', 'modify') and not made:
            continue
        src = made[i % len(made)] if made else None
        new = []
        with lib(way):
            if way == 'ufloat':
                new = [[ufloat(n, s, tag), n, s, tag]]
            elif way == 'Variable':
                new = [[Variable(n, s, tag), n, s, tag]]
            elif way in ('string', 'legacy string'):
                f = ufloat_fromstr if way == 'string' else ufloat
                n, s = POOL[TEXT_VALUES[k]]
                x, _, exc = quiet(lambda: f(TEXTS[k], tag))
                require(exc is None, '%s: %r', TEXTS[k], exc)
                new = [[x, n, s, tag]]
            elif way == 'tuple':
                x, _, exc = quiet(lambda: ufloat((n, s), tag))
                require(exc is None, 'tuple: %r', exc)
                new = [[x, n, s, tag]]
            elif way in ('uarray', 'umatrix'):
                f = getattr(unumpy, way)
                size = 1 + i % 3
                arr = f([n] * size, [s] * size)
                new = [[x, n, s, None] for x in np.asarray(arr).flat]
                require(len(new) == size, '%s gives %r', way, arr)
            elif way == 'modify':
                src[2] = 0.75 + i
                src[0].std_dev = src[2]
                src[3] = src[0].tag = 'changed'
            else:
                f = {'copy': copy.copy, 'deepcopy': copy.deepcopy,
                     'pickle': lambda x: pickle.loads(pickle.dumps(x))}[way]
                new = [[f(src[0])] + src[1:]]
        made += new
        rec.label(way)
    for k, (x, n, s, tag) in enumerate(made):
        check_number(x, n, s, tag, 'number %d of %r' % (k, case))
        for j in range(k):
            y = made[j][0]
            require(x is not y, 'numbers %d and %d of %r are the same', j, k,
                    case)
            with lib('difference'):
                d = (x - y).std_dev
                cov = covariance_matrix([x, y])[0][1]
                equal = x == y
            want = math.hypot(s, made[j][2])
            require(abs(d - want) <= 1e-12 * want and cov == 0 and not equal,
                    'numbers %d and %d of %r are not independent: difference '
                    '%r, covariance %r, equal: %r', j, k, case, d, cov, equal)
    rec.nontrivial(len(made) > 1)


GROUPS = [
    Group('several', several_cases, check_several, 3000, 60000,
          'several numbers created, from few values, strings and tags, by all '
          'means (functions, strings, arrays, copies, pickles), some of them '
          'modified in between: all are independent; non-trivial: at least two'),
    Group('create', create_cases, check_create, 8000, 200000,
          'all real types of values and standard deviations, valid or negative'),
    Group('history', histories(), check_history, 4000, 100000,
          'sequences of assignments; non-trivial: some are rejected'),
    Group('legacy', legacy_cases, check_legacy, 4000, 80000,
          'obsolete call forms'),
    Group('wrong', wrong_cases, check_wrong, 300, 2000,
          'arguments that are not numbers'),
]
