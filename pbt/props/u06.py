"""U06: results follow later changes of standard deviations."""
import copy
import math
import pickle
from hypothesis import strategies as st
import uncertainties
from uncertainties import ufloat, umath, unumpy, covariance_matrix
from uncertainties.core import NegativeStdDev

from .. import large
from ..core import Group, fail, require, lib
from ..gen import *

ASSUMPTIONS = [
    'the model propagates derivatives in floats: results are compared to 1e-9 '
    'of the sum over the paths',
    'assignments happen between operations (no threads)']

SIG = pick(0.0, 0.0, 0.1, 0.25, 1.0, 3.0, 1e-6, 1e6, 12.5, NAN, INF)
vals = st.integers(-40, 40).map(lambda k: k / 8.0)


class Num(object):
    """Model of a number: value, {variable index: derivative}, and the sum of
    the absolute values of the derivatives over the paths."""
    def __init__(self, val, der, mag):
        self.val, self.der, self.mag = val, der, mag


def lin(val, *terms):
    der, mag = {}, {}
    for d, num in terms:
        for i, c in num.der.items():
            der[i] = der.get(i, 0.0) + d * c
        for i, c in num.mag.items():
            mag[i] = mag.get(i, 0.0) + abs(d) * c
    return Num(val, der, mag)


def step():
    idx = ints(0, 30)
    binary = st.tuples(pick('add', 'sub', 'mul', 'div', 'hypot', 'wrap'), idx,
                       idx).map(list)
    unary = st.tuples(pick('neg', 'sin', 'exp', 'square', 'addc', 'mulc',
                           'rdivc', 'abs', 'pow'), idx).map(list)
    multi = st.tuples(pick('sum', 'mean', 'dot'),
                      st.lists(idx, min_size=1, max_size=5)).map(list)
    setsd = st.tuples(pick('set', 'set', 'set', 'set', 'call', 'same', 'bad'),
                      idx, SIG).map(list)
    read = st.tuples(pick('read'), idx, pick(
        'std_dev', 's', 'derivatives', 'error_components', 'str', 'repr',
        'format', 'eq', 'lt', 'bool', 'std_score', 'copy', 'deepcopy',
        'pickle', 'cov', 'unumpy', 'n')).map(list)
    clone = st.tuples(pick('copy', 'deepcopy', 'pickle'), idx).map(list)
    new = st.tuples(pick('new'), vals, SIG).map(list)
    kinds = {'b': binary, 'u': unary, 'm': multi, 's': setsd, 'r': read,
             'c': clone, 'n': new}
    return st.sampled_from('bbbuumssssrrcn').flatmap(kinds.get)


STEP = step()
STEPS = {n: st.lists(STEP, min_size=n, max_size=n)
         for n in (3, 6, 10, 15, 20)}

cases = st.fixed_dictionaries({
    'vars': st.lists(st.tuples(vals, SIG).map(list), min_size=1, max_size=4),
    'steps': pick(3, 6, 10, 15, 20).flatmap(lambda n: STEPS[n])})


wrapped = uncertainties.wrap(lambda a, b: a * a + 3 * b,
                             [lambda a, b: 2 * a, lambda a, b: 3.0])


class Machine(object):
    def __init__(self, case):
        self.vars, self.sig = [], []       # library variables, model sigmas
        self.nums, self.model = [], []
        self.deepest = 0
        for n, s in case['vars']:
            self.new(n, s)

    def register(self, var, s):
        self.vars.append(var)
        self.sig.append(s)
        return len(self.vars) - 1

    def new(self, n, s):
        v = ufloat(n, s, tag='t%d' % len(self.vars))
        i = self.register(v, s)
        self.add(v, Num(n, {i: 1.0}, {i: 1.0}))

    def add(self, num, model):
        # Numbers that are too large or too small are not kept.
        ok = abs(model.val) < 1e6 and all(m < 1e9 for m in model.mag.values())
        if ok:
            self.nums.append(num)
            self.model.append(model)

    def pick(self, i):
        i %= len(self.nums)
        return self.nums[i], self.model[i]

    def expected(self, m):
        """Error components and their uncertainty."""
        comps = {i: (0.0 if self.sig[i] == 0 else abs(d * self.sig[i]))
                 for i, d in m.der.items()}
        tols = {i: (0.0 if self.sig[i] == 0 else 1e-9 * m.mag[i] * self.sig[i])
                for i in m.der}
        return comps, tols

    def unsure(self, m, i):
        """A null derivative (to rounding) times an infinity is not
        determined."""
        return self.sig[i] == INF and abs(m.der[i]) <= 1e-9 * m.mag[i]

    def verify(self, k, what):
        num, m = self.nums[k], self.model[k]
        comps, tols = self.expected(m)
        what = 'number %d %s' % (k, what)
        got = num.error_components()
        require(same_float(num.nominal_value, m.val) or
                num.nominal_value == m.val,
                '%s: nominal value %r, expected %r', what, num.nominal_value,
                m.val)
        ids = {id(self.vars[i]): i for i in m.der}
        for var, g in got.items():
            require(id(var) in ids, '%s depends on an unrelated variable', what)
        for i, e in comps.items():
            require(self.vars[i] in got, '%s: no component for a variable', what)
            g = float(got[self.vars[i]])
            require(near(g, e, tols[i]) or self.unsure(m, i) and
                    (g != g or g == INF),
                    '%s: error component %r, expected %r', what, g, e)
            d = num.derivatives[self.vars[i]]
            require(near(d, m.der[i], 1e-9 * m.mag[i]),
                    '%s: derivative %r, expected %r', what, d, m.der[i])
        s = float(num.std_dev)
        if any(self.unsure(m, i) for i in comps):
            require(s != s or s == INF, '%s: standard deviation %r', what, s)
        else:
            expect = math.sqrt(sum(c * c for c in comps.values()))
            tol = math.sqrt(sum(t * t for t in tols.values()))
            require(near(s, expect, tol),
                    '%s: standard deviation %r, expected %r', what, s, expect)
        require(same_float(num.s, s), '%s: s is %r, std_dev %r', what, num.s, s)
        return s

    def verify_all(self, what):
        for k in range(len(self.nums)):
            s = self.verify(k, what)
            num = self.nums[k]
            ref = ufloat(num.nominal_value, s)
            require(str(num) == str(ref), '%s: number %d is printed %s instead '
                    'of %s', what, k, num, ref)
            require(repr(num) in (repr(ref), '< %s = %r >' % (
                getattr(num, 'tag', None), ref)), '%s: number %d has repr %r '
                    'instead of %r', what, k, num, ref)
            arr = np.array([num, 1.0], dtype=object)
            require(same_float(unumpy.std_devs(arr)[0], s),
                    '%s: unumpy.std_devs gives %r instead of %r', what,
                    unumpy.std_devs(arr)[0], s)
        self.verify_cov(what)

    def verify_cov(self, what):
        n = len(self.nums)
        if any(not math.isfinite(s) for s in self.sig):
            return
        chosen = sorted(set([0, n // 2, n - 1]))
        cov = covariance_matrix([self.nums[k] for k in chosen])
        for a, ka in enumerate(chosen):
            for b, kb in enumerate(chosen):
                ma, mb = self.model[ka], self.model[kb]
                common = set(ma.der) & set(mb.der)
                e = sum(ma.der[i] * mb.der[i] * self.sig[i] ** 2 for i in common)
                t = 1e-9 * sum(ma.mag[i] * mb.mag[i] * self.sig[i] ** 2
                               for i in common)
                require(near(cov[a][b], e, t), '%s: covariance of numbers %d '
                        'and %d is %r, expected %r', what, ka, kb, cov[a][b], e)


def near(a, b, tol):
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return abs(a - b) <= tol + 1e-300


def clone_model(mach, m, new_vars, sig):
    """Model of a number whose variables are new ones."""
    index = {i: mach.register(v, sig[i]) for i, v in new_vars.items()}
    return Num(m.val, {index[i]: d for i, d in m.der.items()},
               {index[i]: d for i, d in m.mag.items()})


def apply(mach, step, rec):
    op = step[0]
    if op == 'new':
        mach.new(step[1], step[2])
        return
    if op in ('set', 'call', 'same', 'bad'):
        i = step[1] % len(mach.vars)
        v, s = mach.vars[i], step[2]
        if op == 'bad':
            for bad in (-1.0, -INF, -1e-300):
                try:
                    v.std_dev = bad
                except NegativeStdDev:
                    pass
                else:
                    fail('std_dev = %r accepted', bad)
        elif op == 'same':
            v.std_dev = v.std_dev
        else:
            if op == 'set':
                v.std_dev = s
            else:
                v.set_std_dev(s)
            mach.sig[i] = s
            rec.label('assignment')
        mach.verify_all('after %s of variable %d to %r' % (op, i, s))
        return
    if op in ('sum', 'mean', 'dot'):
        chosen = [mach.pick(i) for i in step[1]]
        xs, ms = [c[0] for c in chosen], [c[1] for c in chosen]
        if op == 'sum':
            val = 0
            for m in ms:
                val = val + m.val
            mach.add(sum(xs), lin(val, *[(1.0, m) for m in ms]))
        elif op == 'mean':
            arr = np.array(xs)
            r = arr.mean()
            n = float(len(xs))
            mach.add(r, lin(np.array([m.val for m in ms], dtype=object).mean(),
                            *[(1 / n, m) for m in ms]))
        else:
            coef = [1.0, -2.0, 0.5, 3.0, -1.0][:len(xs)]
            r = np.dot(np.array(coef, dtype=object), np.array(xs))
            val = np.dot(np.array(coef, dtype=object),
                         np.array([m.val for m in ms], dtype=object))
            mach.add(r, lin(val, *[(c, m) for c, m in zip(coef, ms)]))
        return
    x, m = mach.pick(step[1])
    if op == 'read':
        how = step[2]
        y = mach.nums[0]
        rec.label('read')
        if how in ('std_dev', 's', 'derivatives', 'n'):
            getattr(x, how)
        elif how == 'error_components':
            x.error_components().clear()    # a result of its own
        elif how == 'std_score':
            try:
                x.std_score(1.0)
            except ValueError:
                pass
        else:
            {'str': str, 'repr': repr, 'bool': bool, 'copy': copy.copy,
             'deepcopy': copy.deepcopy,
             'format': lambda x: '{:.2uS}'.format(x),
             'eq': lambda x: x == y, 'lt': lambda x: x < y,
             'pickle': lambda x: pickle.dumps(x),
             'cov': lambda x: covariance_matrix([x, y]),
             'unumpy': lambda x: unumpy.std_devs(np.array([x, y]))}[how](x)
        return
    if op in ('copy', 'deepcopy', 'pickle'):
        is_var = any(x is v for v in mach.vars)
        new = {'copy': copy.copy, 'deepcopy': copy.deepcopy,
               'pickle': lambda o: pickle.loads(pickle.dumps(o, 2))}[op](x)
        rec.label(op)
        if op == 'copy' and not is_var:
            mach.add(new, Num(m.val, dict(m.der), dict(m.mag)))
            return
        # Variables are recognised by their tags, which are copied too: tags
        # can be shared only by variables that are copies of each other.
        by_tag = {}
        for v in new.derivatives:
            by_tag.setdefault(v.tag, []).append(v)
        tags = [mach.vars[i].tag for i in m.der]
        require(sorted(tags) == sorted(v.tag for v in new.derivatives),
                'the variables of a %s have other tags', op)
        if len(set(tags)) < len(tags):
            return
        pairs = {i: by_tag[mach.vars[i].tag][0] for i in m.der}
        for i, v in pairs.items():
            require(not any(v is w for w in mach.vars),
                    'a %s depends on an original variable', op)
            require(same_float(v.std_dev, mach.sig[i]),
                    'the variable of a %s has standard deviation %r instead of '
                    '%r', op, v.std_dev, mach.sig[i])
        mach.add(new, clone_model(mach, m, pairs, mach.sig))
        return
    v = m.val
    if op in ('add', 'sub', 'mul', 'div', 'hypot', 'wrap'):
        y, my = mach.pick(step[2])
        w = my.val
        if op == 'add':
            mach.add(x + y, lin(v + w, (1.0, m), (1.0, my)))
        elif op == 'sub':
            mach.add(x - y, lin(v - w, (1.0, m), (-1.0, my)))
        elif op == 'mul':
            mach.add(x * y, lin(v * w, (w, m), (v, my)))
        elif op == 'div' and abs(w) > 0.01:
            mach.add(x / y, lin(v / w, (1 / w, m), (-v / w / w, my)))
        elif op == 'hypot' and math.hypot(v, w) > 0.01:
            h = math.hypot(v, w)
            mach.add(umath.hypot(x, y), lin(h, (v / h, m), (w / h, my)))
        elif op == 'wrap':
            mach.add(wrapped(x, b=y), lin(v * v + 3 * w, (2 * v, m), (3., my)))
    elif op == 'neg':
        mach.add(-x, lin(-v, (-1.0, m)))
    elif op == 'sin':
        mach.add(umath.sin(x), lin(math.sin(v), (math.cos(v), m)))
    elif op == 'exp' and abs(v) < 10:
        mach.add(umath.exp(x), lin(math.exp(v), (math.exp(v), m)))
    elif op == 'square':
        mach.add(x * x, lin(v * v, (v, m), (v, m)))
    elif op == 'pow' and abs(v) > 0.01:
        mach.add(x ** 3, lin(v ** 3.0, (3 * v * v, m)))
    elif op == 'addc':
        mach.add(x + 2.5, lin(v + 2.5, (1.0, m)))
    elif op == 'mulc':
        mach.add(-3 * x, lin(-3 * v, (-3.0, m)))
    elif op == 'rdivc' and abs(v) > 0.01:
        mach.add(2 / x, lin(2 / v, (-2 / v / v, m)))
    elif op == 'abs' and v != 0:
        mach.add(abs(x), lin(abs(v), (math.copysign(1, v), m)))


def check(case, rec):
    mach = Machine(case)
    changed = 0
    for k, step in enumerate(case['steps']):
        with lib('step %d (%s)' % (k, step[0])):
            apply(mach, step, rec)
        changed += step[0] in ('set', 'call') and len(mach.nums) > len(
            case['vars'])
    with lib('the final verification'):
        mach.verify_all('at the end')
    rec.label('%d results' % (len(mach.nums) // 5 * 5))
    rec.nontrivial(changed > 0)


GROUPS = [
    Group('history', cases, check, 8000, 250000,
          '3 to 20 steps: creations, operations, readings, copies, '
          'assignments of standard deviations; every number is compared to a '
          'model after each assignment. Non-trivial: an assignment takes place '
          'while results exist'),
    Group('large', large.sized(5, 40, 200),
          large.check_changes, 250, 8000,
          'changes of the standard deviations of a few of the 5 to 200 '
          'variables of a sum; non-trivial: more than 10'),
]
