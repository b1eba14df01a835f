"""Runs generated calculations in another environment (U24). This program only
imports the library: python worker.py REPO [no-numpy]; a line of JSON per
calculation on its standard input and output."""
import sys
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache-prefix'
import base64
import copy
import json
from decimal import Decimal
from fractions import Fraction
import math
import operator
import pickle
import warnings


class Absent(object):
    """Makes a package look as if it were not installed."""
    def __init__(self, *names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.names:
            raise ImportError('No module named %r' % name)


BINARY = {'+': operator.add, '-': operator.sub, '*': operator.mul,
          '/': operator.truediv, '**': operator.pow,
          '//': operator.floordiv, '%': operator.mod}
COMPARE = {'==': operator.eq, '!=': operator.ne, '<': operator.lt,
           '<=': operator.le, '>': operator.gt, '>=': operator.ge}
UNARY = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs}
ONE = ['acos', 'asin', 'acosh', 'asinh', 'atan', 'atanh', 'ceil', 'cos', 'cosh',
       'degrees', 'erf', 'erfc', 'exp', 'expm1', 'fabs', 'floor', 'gamma',
       'isinf', 'isnan', 'lgamma', 'log', 'log10', 'log1p', 'radians', 'sin',
       'sinh', 'sqrt', 'tan', 'tanh', 'trunc', 'modf', 'frexp']
TWO = ['atan2', 'copysign', 'fmod', 'hypot', 'log', 'pow']


def number(text):
    """'nan', 'inf', '1/3' (Fraction), 'D0.1' (Decimal), 'True', '1j'."""
    if not isinstance(text, str):
        return text
    if '/' in text:
        return Fraction(text)
    if text[0] == 'D':
        return Decimal(text[1:])
    if text in ('True', 'False'):
        return text == 'True'
    if text[-1] == 'j':
        return complex(text)
    return float(text)


class Run(object):
    def __init__(self):
        import uncertainties
        from uncertainties import umath
        self.u, self.umath = uncertainties, umath
        self.nums, self.vars = [], []
        self.wrapped = {
            'numerical': uncertainties.wrap(lambda a, b=2.5: a*a + 3*b*a),
            'analytical': uncertainties.wrap(
                lambda a, b=2.5: a*a + 3*b*a, [lambda a, b=2.5: 2*a + 3*b, None]),
            'method': uncertainties.wrap(self.method),
            'args': uncertainties.wrap(lambda *a: sum(a)/len(a)),
            'constant': uncertainties.wrap(lambda a, b=1: 3),
            'fraction': uncertainties.wrap(lambda a, b=1: Fraction(
                int(a) % 7 if a - a == 0 else 1, 4)),
            'decimal': uncertainties.wrap(lambda a, b=1: Decimal('0.25'),
                                          [lambda a, b=1: 0.0]*2),
            'bool': uncertainties.wrap(lambda a, b=1: a > b),
            'text': uncertainties.wrap(lambda a, b=1: 'text')}

    def method(self, a, b=1.0):
        return a*b + 1

    def show(self, x):
        if isinstance(x, self.u.UFloat):
            derivatives = ['%r: %r' % (v.tag, d)
                           for v, d in x.derivatives.items()]
            return '%s %r %r %s' % ('Variable' if type(x) is self.u.core.Variable
                                    else 'UFloat', float(x.nominal_value),
                                    float(x.std_dev), sorted(derivatives))
        if isinstance(x, (list, tuple)):
            return '[%s]' % ', '.join(map(self.show, x))
        return '%s %r' % (type(x).__name__, x)

    def get(self, i):
        return self.nums[i % len(self.nums)]

    def keep(self, x):
        for y in x if isinstance(x, (list, tuple)) else [x]:
            if isinstance(y, self.u.UFloat) and len(y.derivatives) < 40:
                self.nums.append(y)
        return x

    def step(self, s):
        op, u = s[0], self.u
        if op == 'new':
            v = u.ufloat(number(s[1]), number(s[2]), 'v%d' % len(self.vars))
            self.vars.append(v)
            self.nums.append(v)
            return v
        if op == 'string':
            return self.keep(u.ufloat_fromstr(s[1]))
        if op == 'bin':
            return self.keep(BINARY[s[1]](self.get(s[2]), self.get(s[3])))
        if op == 'right':
            return self.keep(BINARY[s[1]](self.get(s[2]), number(s[3])))
        if op == 'left':
            return self.keep(BINARY[s[1]](number(s[3]), self.get(s[2])))
        if op == 'unary':
            return self.keep(UNARY[s[1]](self.get(s[2])))
        if op == 'one':
            return self.keep(getattr(self.umath, s[1])(self.get(s[2])))
        if op == 'plain':
            return getattr(self.umath, s[1])(number(s[2]))
        if op == 'two':
            return self.keep(getattr(self.umath, s[1])(self.get(s[2]),
                                                       self.get(s[3])))
        if op == 'ldexp':
            return self.keep(self.umath.ldexp(self.get(s[1]), s[2]))
        if op == 'fsum':
            return self.keep(self.umath.fsum([self.get(i) for i in s[1]]))
        if op == 'sum':
            return self.keep(sum(self.get(i) for i in s[1]))
        if op == 'wrap':
            return self.keep(self.wrapped[s[1]](self.get(s[2]), self.get(s[3])))
        if op == 'compare':
            return COMPARE[s[1]](self.get(s[2]), self.get(s[3]))
        if op == 'compare to':
            return COMPARE[s[1]](self.get(s[2]), number(s[3]))
        if op == 'bool':
            return bool(self.get(s[1]))
        if op == 'sort':
            return sorted(self.get(i) for i in s[1])
        if op == 'cov':
            xs = [self.get(i) for i in s[1]]
            return ['COV', [[float(c) for c in row]
                            for row in u.covariance_matrix(xs)],
                    [float(x.std_dev) for x in xs]]
        if op == 'format':
            return format(self.get(s[1]), s[2])
        if op == 'str':
            x = self.get(s[1])
            return [str(x), repr(x)]
        if op == 'components':
            return sorted((v.tag, float(c)) for v, c in
                          self.get(s[1]).error_components().items())
        if op == 'score':
            return self.get(s[1]).std_score(number(s[2]))
        if op == 'set':
            v = self.vars[s[1] % len(self.vars)]
            v.std_dev = number(s[2])
            return v
        if op == 'clone':
            x = self.get(s[1])
            return self.keep({'copy': copy.copy, 'deepcopy': copy.deepcopy}.get(
                s[2], lambda x: pickle.loads(pickle.dumps(x, s[2])))(x))
        if op == 'float':
            return float(self.get(s[1]))
        raise KeyError(op)


class Arrays(Run):
    """Calculations with arrays (with NumPy only). Results are kept in a list of
    arrays; each is shown as a text and a list of floats."""
    def __init__(self):
        super(Arrays, self).__init__()
        import numpy
        from uncertainties import unumpy
        from uncertainties.unumpy import ulinalg
        self.np, self.un, self.la = numpy, unumpy, ulinalg

    def show(self, x):
        if isinstance(x, (self.np.ndarray, list, tuple)) and not (
                isinstance(x, list) and x[:1] == ['ARR']):
            flat = list(self.np.asarray(x, dtype=object).flat)
            text, floats = '%s %s' % (type(x).__name__, self.np.shape(x)), []
            for y in flat:
                if isinstance(y, self.u.UFloat):
                    d = sorted((repr(v.tag), repr(v.std_dev), g)
                               for v, g in y.derivatives.items())
                    text += ' U%s' % [t[:2] for t in d]
                    floats += [float(y.nominal_value), float(y.std_dev)]
                    # Equal variables: in no particular order
                    floats += [t[2] for t in d]
                else:
                    text += ' %s' % type(y).__name__
                    floats.append(float(y))
            return ['ARR', text, floats]
        return super(Arrays, self).show(x)

    def make(self, how, noms, sigs, shape):
        n = self.np.reshape([float(x) for x in noms], shape)
        s = self.np.reshape([float(x) for x in sigs], shape)
        a = getattr(self.un, how)(n, s)
        for k, v in enumerate(self.np.asarray(a).flat):
            v.tag = 'a%d.%d' % (len(self.nums), k)
        return a

    def step(self, s):
        # (NumPy only warns of some problems once.)
        with self.np.errstate(all='ignore'):
            return self.array_step(s)

    def array_step(self, s):
        op, np, un, u = s[0], self.np, self.un, self.u
        if op == 'make':
            r = self.make(*s[1:])
        elif op == 'function':
            r = getattr(un, s[1])(self.get(s[2]))
        elif op == 'binary':
            r = BINARY[s[1]](self.get(s[2]), self.get(s[3]))
        elif op == 'number':
            r = BINARY[s[1]](self.get(s[2]), s[3])
        elif op == 'parts':
            return [un.nominal_values, un.std_devs][s[1]](self.get(s[2]))
        elif op == 'sum':
            return [np.sum(self.get(s[1])), np.mean(self.get(s[1]))]
        elif op == 'inverse':
            a = self.get(s[2])
            n = un.nominal_values(a)
            if n.ndim != 2 or not np.isfinite(n).all() or (
                    not np.linalg.cond(n) < 1e6):
                return 'not decided'    # rounding errors are amplified
            r = a.I if s[1] == 'I' else getattr(self.la, s[1])(a)
        elif op == 'transposed':
            r = self.get(s[1]).T
        elif op == 'correlated':
            cov = np.dot(np.reshape(s[2], (2, 2)), np.reshape(s[2], (2, 2)).T)
            if s[1] == 'norm':
                sd = np.sqrt(np.diag(cov))
                r = u.correlated_values_norm(
                    list(zip([1.0, 2.0], sd)), cov/sd/sd[:, None], ['x', 'y'])
            else:
                r = u.correlated_values([1.0, 2.0], cov, tags=['x', 'y'])
            return [float(x.nominal_value) for x in r] + [
                c for row in u.covariance_matrix(r) for c in row]
        elif op == 'correlation':
            return u.correlation_matrix(list(np.asarray(self.get(s[1])).flat))
        elif op == 'wrapped':
            r = un.core.wrap_array_func(lambda a: a*a + 1.5*a)(
                np.asarray(self.get(s[1])))
        elif op == 'copied':
            r = copy.deepcopy(self.get(s[1])) if s[2] else copy.copy(
                self.get(s[1]))
        elif op == 'text':
            return str(self.get(s[1])) + repr(self.get(s[1]))
        else:
            raise KeyError(op)
        if isinstance(r, np.ndarray) and r.size and r.dtype == object:
            self.nums.append(r)
        return r


def run(case, stop=()):
    """The list of the texts of the results (or exceptions), and the numbers."""
    r = Arrays() if case.get('arrays') else Run()
    out = []
    for s in case['steps']:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            try:
                x = r.step(s)
                if isinstance(x, list) and x[:1] == ['COV']:
                    out.append(x)
                else:
                    out.append(r.show(x))
            except Exception as exc:
                out.append('raises ' + type(exc).__name__)
        if caught:
            out.append('warning: %s' % caught[0].message)
    return out, r.nums


def summary(nums, show):
    return [show(x) for x in nums]


def main():
    repo, modes = sys.argv[1], sys.argv[2:]
    sys.path.insert(0, repo)
    if 'no-numpy' in modes:
        sys.meta_path.insert(0, Absent('numpy'))
    warnings.simplefilter('ignore')
    import uncertainties
    from uncertainties import core
    uncertainties.core = core
    try:
        from uncertainties import unumpy
        array_names = sorted(unumpy.__all__)
    except ImportError:
        array_names = None
    print(json.dumps({
        'file': uncertainties.__file__, 'numpy': 'numpy' in sys.modules,
        'names': sorted(core.__all__), 'array_names': array_names,
        'optimize': sys.flags.optimize}), flush=True)
    for line in sys.stdin:
        task = json.loads(line)
        if 'pickle' in task:
            # Numbers from another process:
            r = Arrays() if task.get('arrays') else Run()
            loaded = pickle.loads(base64.b64decode(task['pickle']))
            out = {'show': [r.show(x) for x in loaded]}
        else:
            try:
                out, nums = run(task)
                out = {'out': out, 'pickle': base64.b64encode(pickle.dumps(
                    nums, task['protocol'])).decode('ascii')}
            except Exception as exc:
                out = {'error': repr(exc)}
        print(json.dumps(out), flush=True)


if __name__ == '__main__':
    main()
