"""U22: long calculations stay exact and do not overflow the stack."""
import copy
import functools
import gc
import pickle
import signal
import time
from hypothesis import strategies as st
import uncertainties
from uncertainties import umath, UFloat, covariance_matrix, wrap

from ..core import Group, fail, require, lib
from ..gen import *
from ..gen import tagged as ufloat

ASSUMPTIONS = [
    'up to 40000 operations, default recursion limit of Python',
    'calculations that reuse intermediate results (up to 1500 steps) must be '
    'evaluated in less than 8 s of processor time']


def triple(x):
    return 3 * x - 2 * x


wrapped = wrap(triple, [lambda x: 1.0])

FUNCS = {'sin': (umath.sin, math.sin, math.cos),
         'cos': (umath.cos, math.cos, lambda x: -math.sin(x)),
         'atan': (umath.atan, math.atan, lambda x: 1 / (1 + x * x)),
         'asinh': (umath.asinh, math.asinh, lambda x: 1 / math.sqrt(1 + x * x)),
         'wrapped': (wrapped, triple, lambda x: 1.0)}


class Model(object):
    """Value, derivatives, and sums over the paths of absolute values."""
    __slots__ = ('n', 'd', 'a')

    def __init__(self, n, d, a):
        self.n, self.d, self.a = n, d, a

    def scaled(self, k):
        self.d = {i: k * x for i, x in self.d.items()}
        self.a = {i: abs(k) * x for i, x in self.a.items()}

    def plus(self, k, x, m=1.0):
        self.d[k] = self.d.get(k, 0.0) + x
        self.a[k] = self.a.get(k, 0.0) + abs(x)

    def copy(self):
        return Model(self.n, dict(self.d), dict(self.a))


coefs = pick(1.0, -1.0, 0.5, 2.0, 3.0, -0.25)
linear_step = st.one_of(
    st.tuples(st.just('add'), ints(0, 4), coefs), st.tuples(
        st.just('radd'), ints(0, 4), coefs),
    st.tuples(pick('sub', 'rsub', 'iadd', 'isub'), ints(0, 4)),
    st.tuples(pick('neg', 'pos', 'halfdbl', 'one')),
    st.tuples(st.just('const'), coefs)).map(list)
any_step = st.one_of(
    linear_step, linear_step,
    st.tuples(pick('mul', 'rmul', 'div'), ints(5, 6)).map(list),
    st.tuples(pick('sin', 'cos', 'atan', 'asinh', 'wrapped')).map(list),
    st.tuples(pick('abs')).map(list))
read = pick('std_dev', 'std_dev', 'derivatives', 'str', 'compare', 'pickle',
            'deepcopy', 'format', 'components')
sizes = pick(3, 40, 700, 1500, 1500, 2500, 4000, 6000, 12000)
values = st.tuples(ints(-64, 64), ints(0, 3)).map(lambda t: t[0] / 2.0 ** t[1])
devs = pick(0.5, 1.0, 0.25, 2.0, 0.0, 0.125)


@st.composite
def chains(draw):
    linear = draw(bools)
    n = draw(sizes)
    return {'n': n, 'linear': linear,
            'steps': draw(st.lists(linear_step if linear else any_step,
                                   min_size=1, max_size=6)),
            'vars': draw(st.lists(st.tuples(values, devs).map(list), min_size=7,
                                  max_size=7)),
            'reads': draw(st.lists(st.tuples(ints(0, 1000), read).map(list),
                                   max_size=3)),
            'keep': draw(st.lists(ints(0, 1000), max_size=2)),
            'final': draw(st.lists(read, min_size=1, max_size=3)),
            'change': draw(devs)}


def advance(t, m, step, vs, xs):
    """One operation, on the number and on its model."""
    k = step[0]
    if k in ('add', 'radd'):
        v, c = vs[step[1]], step[2]
        t = t + c * v if k == 'add' else c * v + t
        m.n = m.n + c * xs[step[1]] if k == 'add' else c * xs[step[1]] + m.n
        m.plus(step[1], c)
    elif k in ('sub', 'rsub', 'iadd', 'isub'):
        i = step[1]
        v, x = vs[i], xs[i]
        if k == 'sub':
            t, m.n = t - v, m.n - x
            m.plus(i, -1.0)
        elif k == 'rsub':
            t, m.n = v - t, x - m.n
            m.scaled(-1)
            m.plus(i, 1.0)
        elif k == 'iadd':
            t += v
            m.n += x
            m.plus(i, 1.0)
        else:
            t -= v
            m.n -= x
            m.plus(i, -1.0)
    elif k == 'neg':
        t, m.n = -t, -m.n
        m.scaled(-1)
    elif k == 'pos':
        t = +t
    elif k == 'one':
        t, m.n = 1 * t, 1 * m.n
    elif k == 'halfdbl':
        t, m.n = (t / 2) * 2, (m.n / 2) * 2
    elif k == 'const':
        t, m.n = t + step[1], m.n + step[1]
    elif k in ('mul', 'rmul', 'div'):
        i = step[1]
        v, x = vs[i], xs[i]
        old = m.n
        if k == 'div':
            t, m.n = t / v, old / x
            m.scaled(1 / x)
            m.plus(i, -old / x ** 2)
        else:
            t = t * v if k == 'mul' else v * t
            m.n = old * x
            m.scaled(x)
            m.plus(i, old)
    elif k == 'abs':
        t = abs(t)
        m.scaled(1.0 if m.n >= 0 else -1.0)
        m.n = abs(m.n)
    else:
        f, g, d = FUNCS[k]
        t = f(t)
        slope = d(m.n)
        m.n = g(m.n)
        m.scaled(slope)
    return t


def perform(action, t, what):
    with lib('%s of %s' % (action, what)):
        if action == 'std_dev':
            t.std_dev
        elif action == 'derivatives':
            t.derivatives
        elif action == 'str':
            str(t), repr(t)
        elif action == 'format':
            '{:.2eL} {:.3uSP}'.format(t, t)
        elif action == 'compare':
            t == t, t < 1, t != 3, bool(t)
        elif action == 'components':
            t.error_components()
        elif action == 'pickle':
            return pickle.loads(pickle.dumps(t))
        elif action == 'deepcopy':
            return copy.deepcopy(t)
    return None


def verify(t, m, vs, ss, exact, ops, what):
    require(isinstance(t, UFloat), '%s is a %s', what, type(t))
    require(t.nominal_value == m.n, '%s: value %r, floats give %r', what,
            t.nominal_value, m.n)
    with lib('derivatives of %s' % what):
        got = t.derivatives
        s = float(t.std_dev)
    index = {id(v): k for k, v in enumerate(vs)}
    for v in got:
        require(id(v) in index, '%s depends on another variable', what)
    terms, slack = [], []
    for k, v in enumerate(vs):
        g, d = got.get(v, 0.0), m.d.get(k, 0.0)
        tol = 0 if exact else 1e-11 * m.a.get(k, 0.0) + 4e-16 * ops * \
            m.a.get(k, 0.0) + 1e-300
        require(g == d or abs(g - d) <= tol, '%s: derivative %r, expected %r',
                what, g, d)
        terms.append(mpf(d) * mpf(ss[k]))
        slack.append(mpf(tol) * mpf(ss[k]))
    q = mp_quad(terms)
    require(abs(mpf(s) - q) <= mp_quad(slack) + 1e-12 * q, '%s: standard '
            'deviation %r, expected %s', what, s, mpmath.nstr(q, 17))


def check_chain(case, rec):
    # 5 and 6: factors of absolute value 1
    xs = [v for v, _ in case['vars']]
    xs[5], xs[6] = 1.0, -1.0
    ss = [s for _, s in case['vars']]
    vs = [ufloat(x, s) for x, s in zip(xs, ss)]
    exact = case['linear']
    n, steps = case['n'], case['steps']
    reads = {}
    for at, action in case['reads']:
        reads.setdefault(at * n // 1001, []).append(action)
    keep = {at * n // 1001 for at in case['keep']}
    t = vs[0] + 0
    m = Model(xs[0] + 0, {0: 1.0}, {0: 1.0})
    kept, ops = [], 0
    for k in range(n):
        try:
            t = advance(t, m, steps[k % len(steps)], vs, xs)
        except Exception as exc:
            fail('step %d (%s) raised %s: %s', k, steps[k % len(steps)],
                 type(exc).__name__, exc)
        if not abs(m.n) < 1e15 or max(m.a.values()) > 1e15:
            rec.label('out of range')
            return
        for action in reads.get(k, ()):
            perform(action, t, 'intermediate result')
        if k in keep:
            if k % 2:
                perform('std_dev', t, 'intermediate result')
            kept.append((t, m.copy(), k))
    what = 'the result of %d steps' % n
    for action in case['final']:
        out = perform(action, t, what)
        if out is not None:
            require(out.nominal_value == m.n and same_float(
                float(out.std_dev), float(t.std_dev)),
                '%s of %s is %r instead of %r', action, what, out, t)
    ops = 2 * n
    verify(t, m, vs, ss, exact, ops, what)
    vs[1].std_dev = case['change']
    ss[1] = case['change']
    verify(t, m, vs, ss, exact, ops, what + ' after a change')
    for old, model, k in kept:
        verify(old, model, vs, ss, exact, ops, 'the result of step %d' % k)
    # The rest of the calculation
    r, m2 = 2 * t + vs[2], m.copy()
    m2.n = 2 * m.n + xs[2]
    m2.scaled(2)
    m2.plus(2, 1.0)
    verify(r, m2, vs, ss, exact, ops, 'twice the result, plus a variable')
    rec.label('%d steps' % n, 'linear' if exact else 'nonlinear',
              *('step ' + s[0] for s in steps))
    rec.label(*('final ' + f for f in case['final']))
    rec.nontrivial(n >= 1500)


# Group 2: sums and trees of many terms

@st.composite
def sums(draw):
    return {'n': draw(pick(2, 33, 500, 1100, 2000, 3000, 5000)),
            'how': draw(pick('left', 'right', 'tree', 'builtin', 'numpy', 'mean',
                             'cumsum', 'blocks', 'fsum', 'reduce', 'dot',
                             'product', 'accumulate', 'matrix')),
            'vars': draw(st.lists(st.tuples(values, devs).map(list), min_size=2,
                                  max_size=5)),
            'coefs': draw(st.lists(coefs, min_size=1, max_size=5)),
            'own': draw(pick('none', 'some', 'all')),
            'shared': draw(pick(0.0, 0.0, 0.5)),
            'final': draw(st.lists(read, min_size=1, max_size=3)),
            'pre': draw(bools), 'alternate': draw(bools)}


def tree_sum(terms, sign):
    while len(terms) > 1:
        nxt = [terms[i] + terms[i + 1] if not sign else
               terms[i] - (-terms[i + 1]) for i in range(0, len(terms) - 1, 2)]
        if len(terms) % 2:
            nxt.append(terms[-1])
        terms = nxt
    return terms[0]


def check_sum(case, rec):
    n, how = case['n'], case['how']
    xs = [v for v, _ in case['vars']]
    ss = [s for _, s in case['vars']]
    vs = [ufloat(x, s) for x, s in zip(xs, ss)]
    if how == 'product':
        return check_product(case, rec)
    if case['own'] == 'all' and how == 'cumsum':
        n = min(n, 500)
    w = vs[0]
    terms, models = [], []
    cs = case['coefs']
    for k in range(n):
        c = cs[k % len(cs)]
        if case['alternate'] and k % 2:
            c = -c
        if case['own'] == 'all' or case['own'] == 'some' and k % 7 == 0:
            vs.append(ufloat(k % 5 - 2.0, 0.5))
            xs.append(k % 5 - 2.0)
            ss.append(0.5)
            i = len(vs) - 1
        else:
            i = (k * k + k // 3) % len(case['vars'])
        term = c * vs[i]
        coef = {i: c}
        if case['shared']:
            term = term + case['shared'] * w
            coef[0] = coef.get(0, 0.0) + case['shared']
        terms.append(term)
        models.append((coef, c * xs[i] + case['shared'] * xs[0]))
    if case['pre']:
        terms[len(terms) // 2].std_dev
    total = {}
    for coef, _ in models:
        for i, c in coef.items():
            total[i] = total.get(i, 0.0) + c
    value = sum(x for _, x in models)   # exact
    what = '%s of %d terms' % (how, n)
    partial = None
    with lib(what):
        if how == 'left':
            r = terms[0]
            for t in terms[1:]:
                r = r + t
        elif how == 'right':
            r = terms[-1]
            for t in terms[-2::-1]:
                r = t + r
        elif how == 'tree':
            r = tree_sum(terms, case['alternate'])
        elif how == 'builtin':
            r = sum(terms)
        elif how == 'numpy':
            r = np.sum(np.array(terms, dtype=object))
        elif how == 'mean':
            r = np.mean(np.array(terms, dtype=object)) * n
        elif how == 'matrix':
            r = np.ones(n) @ np.array(terms, dtype=object)
        elif how == 'dot':
            r = np.dot(np.array(terms, dtype=object), np.ones(n))
        elif how in ('cumsum', 'accumulate'):
            c = np.cumsum(np.array(terms, dtype=object))
            r, partial = c[-1], c[n // 2]
        elif how == 'blocks':
            size = max(1, int(n ** 0.5))
            parts = [sum(terms[k:k + size]) for k in range(0, n, size)]
            if case['pre']:
                parts[0].std_dev
            r = sum(parts)
        elif how == 'fsum':
            r = umath.fsum(terms)
        elif how == 'reduce':
            r = functools.reduce(operator.add, terms)
    for action in case['final']:
        perform(action, r, what)
    m = Model(value, total, {i: abs(c) for i, c in total.items()})
    if how == 'mean':
        # the division has rounding errors
        require(abs(r.nominal_value - value) <= 1e-12 * (n + abs(value)),
                '%s: value %r, expected %r', what, r.nominal_value, value)
        m.n = r.nominal_value
        m.a = {i: n * 4.0 for i in total}
    verify(r, m, vs, ss, how != 'mean', n, what)
    if partial is not None:
        half = {}
        for coef, _ in models[:n // 2 + 1]:
            for i, c in coef.items():
                half[i] = half.get(i, 0.0) + c
        verify(partial, Model(sum(x for _, x in models[:n // 2 + 1]), half,
                              {i: 0.0 for i in half}), vs, ss, True, n,
               'partial sum')
    with lib('pickle of ' + what):
        y, vars_copy = pickle.loads(pickle.dumps((r, vs)))
    verify(y, m, vars_copy, ss, how != 'mean', n, 'pickled ' + what)
    # Difference of two orders
    if how in ('left', 'tree', 'builtin', 'right') and case['pre']:
        for t in terms:
            t.std_dev
        other = sum(reversed(terms))
        diff = r - other
        require(diff.nominal_value == 0 and diff.std_dev == 0, 'difference of '
                'two sums: %r', diff)
    rec.label(how, '%d terms' % n, 'own variables: ' + case['own'])
    rec.nontrivial(n >= 1100)


def check_product(case, rec):
    """A product of factors of absolute value 1, 2 or 1/2."""
    n = case['n']
    factors = [1.0, -1.0, 2.0, 0.5]
    vs = [ufloat(f, 0.25) for f in factors]
    order = [0, 1, 2, 3, 1]
    r, value = vs[0] + 0, 1.0
    counts = [1, 0, 0, 0]
    for k in range(n):
        i = order[k % 5]
        if case['alternate'] and k % 3 == 0:
            r, value = vs[i] * r, factors[i] * value
        else:
            r, value = r * vs[i], value * factors[i]
        counts[i] += 1
    for action in case['final']:
        perform(action, r, 'product of %d factors' % n)
    d = {i: counts[i] * value / factors[i] for i in range(4)}
    verify(r, Model(value, d, {i: abs(x) for i, x in d.items()}), vs,
           [0.25] * 4, False, n, 'product of %d factors' % n)
    rec.label('product', '%d terms' % n)
    rec.nontrivial(n >= 1100)


# Group 3: very long ones

@st.composite
def longest(draw):
    case = draw(chains())
    case['n'] = draw(pick(20000, 30000, 40000))
    return case


# Group 4: intermediate results that are used several times

class Dual(object):
    """Value and derivatives, calculated forwards (reference)."""
    def __init__(self, n, d):
        self.n, self.d = n, d

    def __add__(self, other):
        if not isinstance(other, Dual):
            return Dual(self.n + other, self.d)
        return Dual(self.n + other.n, [a + b for a, b in zip(self.d, other.d)])

    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.n, [-a for a in self.d])

    def __sub__(self, other):
        return self + -other

    def __rsub__(self, other):
        return other + -self

    def __mul__(self, other):
        if not isinstance(other, Dual):
            return Dual(self.n * other, [a * other for a in self.d])
        return Dual(self.n * other.n, [a * other.n + b * self.n
                                       for a, b in zip(self.d, other.d)])

    __rmul__ = __mul__

    def __truediv__(self, other):
        if not isinstance(other, Dual):
            return Dual(self.n / other, [a / other for a in self.d])
        return Dual(self.n / other.n, [
            a / other.n - b * self.n / other.n ** 2
            for a, b in zip(self.d, other.d)])

    def sqrt(self):
        root = math.sqrt(self.n)
        return Dual(root, [a / 2 / root for a in self.d])


def square_root(x):
    return x.sqrt() if isinstance(x, Dual) else umath.sqrt(x)


def matrix_product(a, b):
    return [[a[i][0] * b[0][j] + a[i][1] * b[1][j] for j in range(2)]
            for i in range(2)]


# kind -> one step on (x, y, z) (x, y and z are between 1 and 3 at the start),
# and whether all the derivatives are integers or powers of 2
SHARED = {
    'doubling': (lambda x, y, z: (x + x, y, z), True),
    'rotation': (lambda x, y, z: (x - y, x, z), True),
    'cycle': (lambda x, y, z: (y + z - x, x, y), True),
    'Fibonacci': (lambda x, y, z: (x + y, x, z), False),
    'means': (lambda x, y, z: ((x + y) / 2, (y + z) / 2, (x + z) / 2), False),
    'Newton': (lambda x, y, z: ((x + y / x) / 2, y, z), False),
    'AGM': (lambda x, y, z: ((x + y) / 2, square_root(x * y), z), False),
    'fraction': (lambda x, y, z: (1 / (x + y) if not isinstance(x, Dual) else
                                  Dual(1.0, [0.0] * 3) / (x + y), y, z), False),
    'product': (lambda x, y, z: (x * (x + y) / (x + x), y, z), False),
    'three': (lambda x, y, z: ((x * y + z) / (x + y + z), x, y), False),
}
OVER_TIME = {}


class TooLong(BaseException):    # (not reported as an error of the library)
    pass


@st.composite
def shared_cases(draw):
    return {'how': draw(st.sampled_from(sorted(SHARED))),
            'n': draw(pick(1, 3, 10, 40, 100, 300, 900, 1500)),
            'vars': [[1 + draw(ints(0, 8)) / 4., draw(devs)] for _ in range(3)],
            'which': draw(ints(0, 2)), 'read': draw(read),
            'early': draw(st.lists(ints(0, 100), max_size=2)),
            'final': draw(pick('xyz', 'xyz', 'matrix', 'wrapped'))}


def too_long(signum, frame):
    raise TooLong()


def check_shared(case, rec):
    how, n = case['how'], case['n']
    step, exact = SHARED[how]
    n = min(n, {'doubling': 900, 'Fibonacci': 600}.get(how, n))
    what = '%d steps of %s' % (n, how)
    if OVER_TIME.get(how, INF) <= n:
        fail('%s: more than 8 s of processor time', what)
    xs = [x for x, _ in case['vars']]
    ss = [s for _, s in case['vars']]
    vs = [ufloat(x, s) for x, s in zip(xs, ss)]
    nums = list(vs)
    model = [Dual(x, [float(i == j) for j in range(3)])
             for i, x in enumerate(xs)]
    early = {k * n // 101 for k in case['early']}
    previous = signal.signal(signal.SIGVTALRM, too_long)
    signal.setitimer(signal.ITIMER_VIRTUAL, 8)
    try:
        for k in range(n):
            nums = step(*nums)
            model = step(*model)
            if k in early:
                perform('std_dev', nums[k % 3], 'intermediate result')
        r, m = nums[case['which']], model[case['which']]
        if case['final'] == 'matrix':
            r = matrix_product([[nums[0], nums[1]], [nums[1], nums[2]]],
                               [[r, r], [vs[0], 1]])[1][0]
            m = matrix_product([[model[0], model[1]], [model[1], model[2]]],
                               [[m, m], [Dual(xs[0], [1.0, 0.0, 0.0]), 1]])[1][0]
            exact = False
        elif case['final'] == 'wrapped':
            r = wrapped(r)
            m = Dual(triple(m.n), m.d)
        out = perform(case['read'], r, what)
        with lib('standard deviation of ' + what):
            r.std_dev
    except TooLong:
        OVER_TIME[how] = min(n, OVER_TIME.get(how, INF))
        fail('%s: more than 8 s of processor time', what)
    except ArithmeticError as exc:
        fail('%s raised %r', what, exc)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, previous)
    require(r.nominal_value == m.n, '%s: value %r, floats give %r', what,
            r.nominal_value, m.n)
    got = r.derivatives
    require(set(got) <= set(vs), '%s depends on other variables', what)
    for v, d in zip(vs, m.d):
        g = got.get(v, 0.0)
        # (A common scale: some of the derivatives tend to zero)
        tol = 0 if exact else 1e-9 * max(map(abs, m.d)) + 1e-300
        require(g == d or abs(g - d) <= tol, '%s: derivative %r, expected %r',
                what, g, d)
    if out is not None:
        require(same_float(float(out.std_dev), float(r.std_dev)), '%s of %s: '
                'standard deviation %r instead of %r', case['read'], what,
                out.std_dev, r.std_dev)
    rec.label(how, '%d steps' % n)
    rec.nontrivial(n >= 40)


# Group 5: linear time

TIMED = {
    'running total': lambda xs: functools.reduce(lambda a, b: a + b, xs),
    'in place': lambda xs: in_place(xs),
    'sum()': sum,
    'reversed': lambda xs: functools.reduce(lambda a, b: b - a, xs),
    'numpy sum': lambda xs: np.array(xs, dtype=object).sum(),
    'numpy mean': lambda xs: np.array(xs, dtype=object).mean(),
    'dot': lambda xs: np.dot(np.array(xs, dtype=object), np.ones(len(xs))),
    'weighted': lambda xs: sum(2 * x for x in xs) / len(xs),
}


def in_place(xs):
    total = 0
    for x in xs:
        total += x
    return total


READ = {'std_dev': lambda r: r.std_dev, 'repr': repr, 'str': str,
        'derivatives': lambda r: r.derivatives,
        'components': lambda r: r.error_components(),
        'covariance': lambda r: covariance_matrix([r, r]),
        'pickle': pickle.dumps, 'score': lambda r: r.std_score(0),
        'equal': lambda r: r == 0}
SMALL, FACTOR, MAX_RATIO = 1000, 16, 90.
timed_cases = st.fixed_dictionaries({
    'how': st.sampled_from(sorted(TIMED)), 'read': st.sampled_from(sorted(READ)),
    'few': pick(False, False, True)})


def duration(case, n):
    if case['few']:
        vs = [ufloat(1, 0.1) for _ in range(5)]
        xs = [vs[i % 5] for i in range(n)]
    else:
        xs = [ufloat(1, 0.1) for _ in range(n)]
    gc.collect()
    gc.disable()
    try:
        start = time.process_time()
        r = TIMED[case['how']](xs)
        READ[case['read']](r)
        return time.process_time() - start, r
    finally:
        gc.enable()


def check_time(case, rec):
    what = '%s of %s variables, then %s' % (
        case['how'], 'a few' if case['few'] else 'many', case['read'])
    n = SMALL * FACTOR
    for attempt in range(5):
        with lib(what):
            small = min(duration(case, SMALL)[0] for _ in range(4))
            large, r = duration(case, n)
        # 16 if the time is linear, 256 if it is quadratic
        ratio = large / max(small, 1e-4)
        if ratio < MAX_RATIO:
            break
    else:
        fail('%s: %.3f s for %d terms, %.4f s for %d terms', what, large, n,
             small, SMALL)
    s = {'numpy mean': 0.1 / math.sqrt(n), 'weighted': 0.2 / math.sqrt(n)}.get(
        case['how'], 0.1 * math.sqrt(n))
    if case['few']:
        s *= math.sqrt(n / 5.)
        if case['how'] == 'reversed':
            return
    require(abs(r.std_dev - s) <= 1e-9 * s, '%s: standard deviation %r, '
            'expected %r', what, r.std_dev, s)
    rec.label(case['how'], case['read'], 'ratio %d' % (16 * round(ratio / 16)))
    rec.nontrivial()


GROUPS = [
    Group('chains', chains(), check_chain, 1500, 30000,
          'a cycle of 1 to 6 operations repeated up to 12000 times, evaluated at '
          'generated places; non-trivial: at least 1500 operations in sequence'),
    Group('sums', sums(), check_sum, 1200, 24000,
          'sums and products of up to 5000 terms, of a few or of as many '
          'variables, in different association orders; non-trivial: at least '
          '1100 terms'),
    Group('longest', longest(), check_chain, 60, 1500,
          'chains of 20000 to 40000 operations'),
    Group('shared', shared_cases(), check_shared, 800, 16000,
          'up to 1500 steps of calculations that use their intermediate results '
          'several times (recurrences, iterations, means), with a limit of '
          'processor time; non-trivial: at least 40 steps'),
    Group('time', timed_cases, check_time, 40, 400,
          'processor time of sums of 1000 and 16000 terms: the ratio is 16 for a '
          'linear time (up to 90 is accepted, in one of five measurements)'),
]
