"""U09: covariance and correlation matrices are exact."""
import math
from fractions import Fraction
from hypothesis import strategies as st
import uncertainties
from uncertainties import umath, covariance_matrix, correlation_matrix
from uncertainties import correlated_values

from .. import large
from ..core import Group, fail, require, lib
from ..gen import *
from ..gen import tagged as ufloat
from . import u05

ASSUMPTIONS = [
    'the variances of the numbers (not of their variables) are within the range '
    'of floats (1e-280 to 1e280)',
    'elements are compared to 1e-12 of the sum of the absolute values of their '
    'terms',
    'rows of the correlation matrix for null variances are not specified']


@st.composite
def cases(draw):
    nv = draw(ints(1, 6))
    wide = draw(bools)
    sig = sigmas(-120, 120) if wide else sigmas(-3, 3)
    vs = [[draw(small_ints if wide else nominals(-3, 3)), draw(sig)]
          for _ in range(nv)]
    rows = []
    for _ in range(draw(pick(3, 2, 4, 5, 6, 1, 0))):
        kind = draw(pick('lin', 'lin', 'lin', 'var', 'const', 'null', 'func',
                         'chain', 'same'))
        if kind == 'lin':
            rows.append([kind, [[i, draw(pick(1.0, -1.0, 2.0, 0.3, -7.5, 0.0,
                                              1e3))]
                                for i in range(nv) if draw(pick(1, 1, 0))]])
        elif kind in ('var', 'func', 'null'):
            rows.append([kind, draw(ints(0, nv - 1)), draw(pick(
                'sin', 'atan', 'sinh', 'square'))])
        elif kind == 'chain':
            rows.append([kind, [draw(ints(0, nv - 1)) for _ in range(5)]])
        elif kind == 'same':
            rows.append([kind, draw(ints(0, 5))])
        else:
            rows.append([kind, draw(ints(0, nv - 1))])
    return {'vars': vs, 'rows': rows,
            'later': draw(st.lists(sig, min_size=nv, max_size=nv)),
            'seq': draw(pick('list', 'tuple', 'array', 'list'))}


def build(case):
    """Numbers, and their exact or reference derivatives."""
    vs = [ufloat(n, s) for n, s in case['vars']]
    nums, ders = [], []
    for row in case['rows']:
        kind = row[0]
        if kind == 'lin':
            r, d = ufloat(0, 0) + 0, {}
            for i, c in row[1]:
                r = r + c * vs[i]
                d[i] = c
        elif kind == 'var':
            r, d = vs[row[1]], {row[1]: 1.0}
        elif kind == 'null':
            r, d = vs[row[1]] - vs[row[1]], {}
        elif kind == 'const':
            r, d = 0 * vs[row[1]] + 3, {}
        elif kind == 'func':
            i = row[1]
            n = case['vars'][i][0]
            n = math.fmod(n, 50)
            x = vs[i] + (n - case['vars'][i][0])
            n = x.nominal_value
            if row[2] == 'square':
                r, d = x * x, {i: 2 * n}
            else:
                r = getattr(umath, row[2])(x)
                d = {i: {'sin': math.cos, 'sinh': math.cosh, 'atan':
                         lambda t: 1 / (1 + t * t)}[row[2]](n)}
        elif kind == 'chain':
            r, d = vs[row[1][0]], {row[1][0]: 1.0}
            for k, i in enumerate(row[1][1:]):
                r = r / 2 + vs[i] if k % 2 else vs[i] - r
                d = {j: (c / 2 if k % 2 else -c) for j, c in d.items()}
                d[i] = d.get(i, 0.0) + 1.0
        else:
            if not nums:
                continue
            r, d = nums[row[1] % len(nums)], ders[row[1] % len(nums)]
        nums.append(r)
        ders.append(d)
    return vs, nums, ders


def as_seq(nums, kind):
    if kind == 'tuple':
        return tuple(nums)
    if kind == 'array':
        a = np.empty(len(nums), dtype=object)
        a[:] = nums
        return a
    return nums


def check(case, rec):
    with lib('calculation'):
        vs, nums, ders = build(case)
    n = len(nums)
    for sig in ([s for _, s in case['vars']], case['later']):
        for v, s in zip(vs, sig):
            v.std_dev = s
        seq = as_seq(nums, case['seq'])
        with lib('covariance_matrix()'):
            cov = covariance_matrix(seq)
        require(type(cov) is list and len(cov) == n,
                'covariance_matrix() is %r', cov)
        f = [Fraction(s) for s in sig]
        expect = []
        for i in range(n):
            require(type(cov[i]) is list and len(cov[i]) == n,
                    'row %d of the covariance matrix is %r', i, cov[i])
            row = []
            for j in range(n):
                c = cov[i][j]
                require(type(c) is float, 'covariance (%d, %d) is %r, a %s', i,
                        j, c, type(c))
                terms = [Fraction(ders[i][k]) * Fraction(ders[j][k]) * f[k] ** 2
                         for k in set(ders[i]) & set(ders[j])]
                e = sum(terms, Fraction(0))
                scale = sum(map(abs, terms), Fraction(0))
                require(abs(Fraction(c) - e) <= scale / 10 ** 12 +
                        Fraction(1e-300),
                        'covariance (%d, %d) is %r, expected %r', i, j, c,
                        float(e))
                require(cov[j][i] == c, 'the covariance matrix is not '
                        'symmetric: (%d, %d) is %r and (%d, %d) is %r', i, j, c,
                        j, i, cov[j][i])
                row.append((e, scale))
            s = nums[i].std_dev
            require(abs(cov[i][i] - s * s) <= 1e-12 * cov[i][i] + 1e-300,
                    'variance %d is %r, the standard deviation %r', i,
                    cov[i][i], s)
            expect.append(row)
        with lib('correlation_matrix()'), np.errstate(all='ignore'):
            corr = correlation_matrix(seq) if n else None
        if n:
            require(isinstance(corr, np.ndarray) and corr.shape == (n, n) and
                    corr.dtype == float, 'correlation_matrix() is %r', corr)
        for i in range(n):
            vi = expect[i][i][0]
            for j in range(n):
                vj = expect[j][j][0]
                if vi < Fraction(1e-280) or vj < Fraction(1e-280):
                    continue
                den = mpmath.sqrt(mpf(vi.numerator) / vi.denominator) * \
                    mpmath.sqrt(mpf(vj.numerator) / vj.denominator)
                e, scale = [mpf(q.numerator) / q.denominator / den
                            for q in expect[i][j]]
                require(abs(corr[i, j] - e) <= 1e-11 * scale + 1e-15,
                        'correlation (%d, %d) is %r, expected %s', i, j,
                        corr[i, j], mpmath.nstr(e, 17))
                if i == j:
                    require(abs(corr[i, i] - 1) <= 1e-14, 'correlation of '
                            'number %d with itself is %r', i, corr[i, i])
                elif 0 < abs(e) < 0.999:
                    rec.label('partial correlation')
    if any(s == 0 for _, s in case['vars']):
        rec.label('exact variable')
    rec.label('%d numbers' % n)
    rec.nontrivial(n > 1)


# Null covariances for numbers that share no variable, and undefined ones

@st.composite
def block_cases(draw):
    return {'a': draw(st.lists(st.tuples(nominals(-3, 3), sigmas(-3, 3))
                               .map(list), min_size=1, max_size=3)),
            'b': draw(st.lists(st.tuples(nominals(-3, 3), sigmas(-3, 3))
                               .map(list), min_size=1, max_size=3)),
            'equal': draw(bools), 'nan': draw(pick(None, 'sqrt', 'std', 'inf')),
            'order': draw(bools)}


def check_blocks(case, rec):
    specs = case['a'], (case['a'] if case['equal'] else case['b'])
    with lib('calculation'):
        blocks = [[ufloat(n, s) for n, s in spec] for spec in specs]
        sums = [sum(b) * 2 - b[0] for b in blocks]
        bad = {'sqrt': lambda: umath.sqrt(ufloat(0, 0.1)),
               'std': lambda: ufloat(1, NAN), 'inf': lambda: ufloat(1, INF),
               None: lambda: ufloat(1, 0.5)}[case['nan']]()
        nums = blocks[0] + [sums[0]] + blocks[1] + [sums[1], bad]
        if case['order']:
            nums.reverse()
        cov = covariance_matrix(nums)
    group = {}
    alone = {id(x) for b in blocks for x in b}
    for k, b in enumerate(blocks):
        for x in b + [sums[k]]:
            group[id(x)] = k
    for i, x in enumerate(nums):
        for j, y in enumerate(nums):
            if x is bad and y is bad:
                e = float(bad.std_dev) ** 2
                require(same_float(cov[i][j], e) or abs(cov[i][j] - e) < 1e-12,
                        'variance is %r, expected %r', cov[i][j], e)
            elif group.get(id(x)) != group.get(id(y)):
                require(cov[i][j] == 0, 'covariance of numbers that share no '
                        'variable is %r', cov[i][j])
            elif id(x) in alone and id(y) in alone and x is not y:
                require(cov[i][j] == 0, 'covariance of independent variables '
                        'is %r', cov[i][j])
    rec.label('undefined' if case['nan'] else 'defined')
    rec.nontrivial()


# Covariances of ordinary sizes, of variables with very large or very small
# standard deviations (whose variance is out of the range of floats)

@st.composite
def extreme_cases(draw):
    nv = draw(ints(1, 4))
    return {'vars': [[draw(small_ints), draw(magnitudes(0, 0)),
                      draw(ints(-300, 300))] for _ in range(nv)],
            'rows': [[[i, draw(pick(1.0, -1.0, 2.0, 0.3, -7.5))]
                      for i in range(nv) if draw(pick(1, 1, 0))]
                     for _ in range(draw(ints(1, 4)))]}


def check_extreme(case, rec):
    sig = [float('%re%d' % (m, e)) for _, m, e in case['vars']]
    coefs = [[(i, c * 10.0 ** -case['vars'][i][2]) for i, c in row]
             for row in case['rows']]
    with lib('covariance_matrix()'), np.errstate(all='ignore'):
        vs = [ufloat(v[0], s) for v, s in zip(case['vars'], sig)]
        nums = [sum((c * vs[i] for i, c in row), ufloat(0, 0) + 0)
                for row in coefs]
        cov = covariance_matrix(nums)
        corr = correlation_matrix(nums)
    f = [Fraction(s) for s in sig]
    n = len(nums)
    expect = [[[Fraction(a) * Fraction(b) * f[i] ** 2 for i, a in coefs[p]
                for j, b in coefs[q] if i == j] for q in range(n)]
              for p in range(n)]
    for i in range(n):
        for j in range(n):
            e = sum(expect[i][j], Fraction(0))
            scale = float(sum(map(abs, expect[i][j]), Fraction(0)))
            require(type(cov[i][j]) is float and
                    abs(cov[i][j] - float(e)) <= 1e-12 * scale,
                    'covariance (%d, %d) is %r, expected %r', i, j, cov[i][j],
                    float(e))
            den = math.sqrt(float(sum(expect[i][i]))) * math.sqrt(
                float(sum(expect[j][j])))
            if den:
                require(abs(corr[i, j] - float(e) / den) <= 1e-11,
                        'correlation (%d, %d) is %r, expected %r', i, j,
                        corr[i, j], float(e) / den)
    rec.label('huge' if max(sig) > 1e155 else
              'tiny' if min(sig) < 1e-160 else 'ordinary')
    rec.nontrivial(n > 1)


GROUPS = [
    Group('matrices', cases(), check, 8000, 250000,
          'up to 6 numbers (linear, nonlinear, constant, the same number '
          'twice) of 1 to 6 variables, before and after a change of standard '
          'deviations; non-trivial: at least two numbers'),
    Group('independent', block_cases(), check_blocks, 2000, 40000,
          'two blocks of numbers that share no variable, with a number of '
          'undefined uncertainty'),
    Group('extreme', extreme_cases(), check_extreme, 1500, 30000,
          'linear combinations of ordinary size of variables with standard '
          'deviations from 1e-300 to 1e300; non-trivial: at least two numbers'),
    Group('large', large.sized(5, 24, 120),
          large.check_covariances, 250, 8000,
          '2 to 26 linear forms of 5 to 120 variables; non-trivial: more '
          'than 10 variables or 6 numbers'),
]
