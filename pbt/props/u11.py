"""U11: analysis helpers agree with the numbers they describe."""
import copy
import math
import pickle
from fractions import Fraction
from hypothesis import strategies as st
import uncertainties
from uncertainties import ufloat, umath, nominal_value, std_dev, UFloat
from uncertainties.core import Variable

from .. import large
from ..core import Group, fail, require, lib
from ..gen import *
from . import u05

ASSUMPTIONS = [
    'error components and standard deviations are within the range of floats',
    'std_score is compared to 1e-14']


class OtherVariable(Variable):
    pass


# Group 1: error_components of linear programs with exact coefficients

def check_components(case, rec):
    sig = case['sigmas']
    vs = [(OtherVariable if k % 3 == 2 else ufloat)(n, s) for k, ((n, _), s)
          in enumerate(zip(case['vars'], sig))]
    with lib('a linear calculation'):
        res, model = u05.run_program(case, vs)
    # Results evaluated later are not expanded when those that depend on them
    # are evaluated:
    numbers = list(zip(res, model))
    if case['last_first']:
        numbers.reverse()
    unrelated = ufloat(1, 0.1)
    for r, m in numbers:
        before = case['before']
        with lib('error_components()'):
            if before == 'pickle':
                pickle.dumps(r)
            elif before == 'deepcopy':
                copy.deepcopy(r)
            elif before:
                str(r) if before == 'str' else r.std_dev
            comps = r.error_components()
            der = r.derivatives
            again = r.error_components()
        require(isinstance(comps, dict), 'error_components() is a %s',
                type(comps))
        require(comps is not again and set(comps) == set(again) and all(
            same_float(comps[v], again[v]) for v in comps),
                'error_components() differs when called again: %r, %r', comps,
                again)
        for mapping, what in ((der, 'derivatives'), (comps, 'error components')):
            try:
                got = mapping[unrelated]
            except KeyError:
                pass
            else:
                fail('the %s for an unrelated variable are %r', what, got)
        index = {id(v): i for i, v in enumerate(vs)}
        for v in comps:
            require(isinstance(v, Variable) and id(v) in index,
                    'error_components() has a key %r', v)
        require(set(map(id, comps)) == set(map(id, der)),
                'error_components() and derivatives have different variables')
        for i in m.coefs:
            require(vs[i] in comps, 'variable %d has no error component', i)
        for v, e in comps.items():
            i = index[id(v)]
            c = float(abs(m.coefs.get(i, 0)))
            expect = 0.0 if sig[i] == 0 else c * sig[i]
            require(isinstance(e, (int, float)) and (same_float(e, expect) or
                    e == expect), 'error component of variable %d is %r, '
                    'expected %r', i, e, expect)
        s = float(r.std_dev)
        if all(math.isfinite(e) for e in comps.values()):
            q = mp_quad([mpf(float(e)) for e in comps.values()])
            require(abs(s - q) <= 1e-14 * q and (s == 0) == (q == 0),
                    'standard deviation %r, quadratic sum of the components '
                    '%s', s, mpmath.nstr(q, 17))
        else:
            require(not math.isfinite(s), 'standard deviation %r with '
                    'components %r', s, list(comps.values()))
        # Helpers on this number:
        require(same_float(r.n, r.nominal_value) and same_float(
            nominal_value(r), r.nominal_value),
            'n is %r, nominal_value %r', r.n, r.nominal_value)
        require(same_float(r.s, s) and same_float(std_dev(r), s),
                's is %r, std_dev %r, std_dev() %r', r.s, s, std_dev(r))
        require(isinstance(r.s, float) and isinstance(r.n, float),
                'attributes are not floats')
        for v in case['values']:
            score(r, r.nominal_value, s, v)
        score(r, r.nominal_value, s, r.nominal_value)
    # Grouping of components by tag, as documented:
    rec.label('%d variables' % len(vs))
    rec.nontrivial(len(res) > len(vs) and any(sig))


def score(x, n, s, v):
    if s == 0:
        try:
            got = x.std_score(v)
        except ValueError:
            return
        fail('%r.std_score(%r) is %r: ValueError expected', x, v, got)
    with lib('std_score()'):
        got = float(x.std_score(v))
    expect = (v - n) / s
    require(same_float(got, expect) or
            abs(got - expect) <= 1e-14 * abs(expect),
            '%r.std_score(%r) is %r, expected %r', x, v, got, expect)


@st.composite
def component_cases(draw):
    case = draw(u05.programs())
    case['sigmas'] = [draw(pick(0.0, 0.1, 1.0, 3.0, 1e-200, 1e200, 1e-9, INF,
                                NAN)) for _ in case['vars']]
    case['last_first'] = draw(bools)
    case['before'] = draw(pick('', '', 'pickle', 'deepcopy', 'str', 'std_dev'))
    case['values'] = [draw(nominals(-3, 3)) for _ in range(2)]
    return case


# Group 2: nominal_value() and std_dev() of other objects; scores

OBJECTS = [None, 'text', '1.2+/-0.1', (1, 2), [1.5], {}, 1j, b'x', True, 0, -3,
           10 ** 30, 2.5, -0.0, INF, NAN]
others = st.one_of(
    st.tuples(st.just('object'), ints(0, len(OBJECTS) - 1)).map(list),
    st.tuples(st.just('np'), nominals(-9, 9)).map(list),
    st.tuples(st.just('np.int'), st.integers(-99, 99)).map(list),
    st.tuples(st.just('array'), st.lists(nominals(-3, 3), max_size=4)).map(list),
    st.tuples(st.just('uarray'), st.lists(nominals(-3, 3), max_size=4)).map(list),
    st.tuples(st.just('duck'), nominals(-3, 3)).map(list))


class Duck(object):
    def __init__(self, x):
        self.nominal_value = x + 1
        self.std_dev = 5.0
        self.n, self.s = 4.0, 3.0


def check_other(case, rec):
    kind, arg = case
    obj = {'object': lambda: OBJECTS[arg], 'np': lambda: np.float64(arg),
           'np.int': lambda: np.int64(arg), 'array': lambda: np.array(arg),
           'uarray': lambda: np.array([ufloat(x, 0.1) for x in arg],
                                      dtype=object),
           'duck': lambda: Duck(arg)}[kind]()
    with lib('nominal_value() and std_dev() of %r' % (obj,)):
        a, b = nominal_value(obj), std_dev(obj)
    require(a is obj, 'nominal_value(%r) is %r', obj, a)
    require(type(b) is float and b == 0, 'std_dev(%r) is %r', obj, b)
    require(not isinstance(obj, UFloat), '%r is a UFloat', obj)
    rec.label(kind)
    rec.nontrivial()


@st.composite
def scores(draw):
    return {'n': draw(nominals(-9, 9)), 's': draw(st.one_of(
        sigmas(-200, 200), pick(0.0, NAN, INF, 5e-324))),
        'kind': draw(pick('float', 'int', 'np.float64', 'np.int64', 'fraction',
                          'uncertain')),
        'v': draw(st.one_of(nominals(-9, 9), signed(magnitudes(-100, 100)))),
        'form': draw(pick('var', 'neg', 'double', 'sum'))}


def check_score(case, rec):
    n, s, v = case['n'], case['s'], case['v']
    x = {'var': lambda: ufloat(n, s), 'neg': lambda: -ufloat(-n, s),
         'double': lambda: 2 * ufloat(n / 2, s / 2) if s > 1e-300 else
         ufloat(n, s), 'sum': lambda: ufloat(n, s) + ufloat(0, 0)}[case['form']]()
    rec.label(case['kind'], case['form'])
    rec.nontrivial(v != n)
    if case['kind'] == 'uncertain':
        # The score of another number with uncertainty has an uncertainty
        y = ufloat(v, 0.25)
        if s == 0:
            score(x, n, s, y)
        if not 1e-100 < s < 1e100:
            return
        with lib('std_score()'):
            r = x.std_score(y)
        require(isinstance(r, UFloat) and abs(r.n - (v - n) / s) <=
                1e-14 * abs(r.n) and abs(r.s - 0.25 / s) <= 1e-12 * r.s,
                '%r.std_score(%r) is %r', x, y, r)
        return
    if case['kind'] == 'int':
        v = int(math.fmod(v, 1e15))
    elif case['kind'] == 'np.float64':
        v = np.float64(v)
    elif case['kind'] == 'np.int64':
        v = np.int64(math.fmod(v, 1e15))
    elif case['kind'] == 'fraction':
        v = Fraction(v)
    with np.errstate(all='ignore'):
        score(x, x.nominal_value, s, v)


GROUPS = [
    Group('components', component_cases(), check_components, 5000, 150000,
          'all the results of linear programs with any standard deviations; '
          'non-trivial: a calculated result, and an uncertainty'),
    Group('others', others, check_other, 2000, 20000,
          'objects that are not numbers with uncertainties'),
    Group('scores', scores(), check_score, 6000, 150000,
          'std_score of numbers of any magnitude; non-trivial: not the nominal '
          'value'),
    Group('large', large.sized(5, 40, 300),
          large.check_components, 250, 8000,
          'sums of 5 to 300 variables; non-trivial: more than 10'),
]
