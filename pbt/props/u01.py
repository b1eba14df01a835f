"""U01: expressions made with operators and functions propagate uncertainties
by linear error propagation."""
import math
from hypothesis import strategies as st
import uncertainties
from uncertainties import umath

from .. import large
from ..core import Group, fail, require, lib
from ..gen import *
from ..gen import tagged as ufloat

ASSUMPTIONS = [
    'Python float arithmetic is the reference for nominal values; mpmath (60 '
    'digits) is the reference for partial derivatives']

REL = 1e-10     # allowed derivative error, relative to the sum over all paths


def float_apply(op, args):
    """The operation on plain floats, or None if it has no ordinary value."""
    try:
        if op in BINARY:
            v = BINARY[op](*args)
        elif op in UNARY:
            v = UNARY[op](*args)
        else:
            v = getattr(math, op)(*args)
    except (ValueError, ZeroDivisionError, OverflowError):
        return None
    if isinstance(v, complex) or v != v or abs(v) == INF:
        return None
    return v


def ordinary(op, vals, uncertain, wide=False):
    """Is the operation differentiable here?"""
    if op in ('abs', 'fabs') and vals[0] == 0:
        return False
    if op == '**':
        x, y = vals
        if x == 0 or (x < 0 and (uncertain[1] or y != int(y))):
            return False
        if x > 0 and not wide and abs(y * math.log(x)) > 300:
            return False
    if op == 'sqrt' and vals[0] == 0:
        return False
    if op in ('%', '//') and vals[1] != 0:
        # The quotient is not too close to an integer (floats round there):
        if abs(vals[0] / vals[1]) > 1e12:
            return False
    return True


LIMIT = 1e12
OPS = st.sampled_from(['+', '-', '*', '/', '**'] * 4 + ['%', '//'] + list(UNARY)
                     + list(MP_FUNCS))
BIN = st.sampled_from(list(BINARY))


@st.composite
def dags(draw, max_ops):
    nv = draw(ints(1, 4))
    vs = [[draw(nominals(-6, 6)), draw(sigmas(-6, 6))] for _ in range(nv)]
    val = [v[0] for v in vs]
    unc = [True] * nv
    ops = []
    for _ in range(draw(ints(2, max_ops))):
        op = draw(OPS)

        def node():
            # Recent nodes are preferred: deeper expressions
            k = draw(ints(0, min(len(val) - 1, 5)))
            return len(val) - 1 - k
        if op in BINARY:
            form = draw(pick('nn', 'nn', 'nc', 'cn'))
            ops_args = []
            for ch in form:
                if ch == 'n':
                    ops_args.append(['n', node()])
                else:
                    ops_args.append(['c', draw(constants(-6, 6))])
        else:
            ops_args = [['n', node()]]

        def values(args):
            return [val[a[1]] if a[0] == 'n' else float(make_const(a[1]))
                    for a in args]

        def valid(op, args):
            vals = values(args)
            un = [a[0] == 'n' for a in args]
            if not ordinary(op, vals, un):
                return None
            v = float_apply(op, vals)
            if v is None or abs(v) > LIMIT or (v != 0 and abs(v) < 1 / LIMIT):
                return None
            return v
        v = valid(op, ops_args)
        if v is None:
            # A fallback that is always fine:
            op = draw(pick('neg', '+'))
            first = draw(ints(0, nv - 1))
            ops_args = [['n', first]] + ([['c', ['int', 3]]] if op == '+' else [])
            v = float_apply(op, values(ops_args))
        ops.append([op, ops_args])
        val.append(v)
    return {'vars': vs, 'ops': ops}


def evaluate(case):
    """The library objects and the oracle, node by node."""
    objs = []
    vs = []
    for n, s in case['vars']:
        with lib('ufloat(%r, %r)' % (n, s)):
            v = ufloat(n, s)
        vs.append(v)
        objs.append(v)
    # node -> (float value, {var index: (derivative, sum of |paths|)})
    model = [(n, {i: (mpf(1), mpf(1))}) for i, (n, s) in enumerate(case['vars'])]
    for op, args in case['ops']:
        real = [objs[a[1]] if a[0] == 'n' else make_const(a[1]) for a in args]
        plain = [model[a[1]][0] if a[0] == 'n' else make_const(a[1])
                 for a in args]
        plain_f = [float(p) for p in plain]
        with lib('%s%r' % (op, tuple(plain))):
            if op in BINARY:
                r = BINARY[op](*real)
            elif op in UNARY:
                r = UNARY[op](*real)
            else:
                r = getattr(umath, op)(*real)
        expect = float_apply(op, plain_f)
        objs.append(r)
        # Exact partial derivatives, at the float operands
        if op in BINARY:
            parts = mp_partials(op, *plain_f)
        elif op in UNARY:
            parts = [{'neg': mpf(-1), 'pos': mpf(1),
                      'abs': mpf(1) if plain_f[0] > 0 else mpf(-1)}[op]]
        else:
            parts = [MP_FUNCS[op][1](mpf(plain_f[0]))]
        der = {}
        for a, p in zip(args, parts):
            if a[0] != 'n':
                continue
            for i, (d, s) in model[a[1]][1].items():
                d0, s0 = der.get(i, (mpf(0), mpf(0)))
                der[i] = (d0 + p * d, s0 + abs(p) * s)
        model.append((expect, der))
    return vs, objs, model


def check_node(r, expect, der, vs, sig, what):
    require(isinstance(r, uncertainties.UFloat),
            '%s: result is a %s, not a number with uncertainty', what, type(r))
    require(same_float(r.nominal_value, expect),
            '%s: nominal value %r, float arithmetic gives %r', what,
            r.nominal_value, expect)
    with lib('derivatives of ' + what):
        got = dict(r.derivatives)
    index = {id(v): i for i, v in enumerate(vs)}
    for v in got:
        require(id(v) in index and index[id(v)] in der,
                '%s: depends on a variable that it was not made from', what)
    tol_terms = []
    terms = []
    for i, (d, s) in der.items():
        if s > mpf('1e280'):
            return False
        tol = REL * s + mpf('1e-290')
        g = got.get(vs[i])
        if g is None:
            require(abs(d) <= tol, '%s: variable %d missing from the '
                    'derivatives (%s expected)', what, i, mpmath.nstr(d, 17))
            g = 0.0
        require(abs(mpf(g) - d) <= tol,
                '%s: derivative with respect to variable %d is %r, exact '
                'value %s', what, i, g, mpmath.nstr(d, 17))
        tol_terms.append(tol * mpf(sig[i]))
        terms.append(d * mpf(sig[i]))
    with lib('std_dev of ' + what):
        s = float(r.std_dev)
        comps = r.error_components()
    expect_s = mp_quad(terms)
    require(s >= 0 and abs(mpf(s) - expect_s) <=
            mp_quad(tol_terms) + REL * expect_s,
            '%s: standard deviation %r, linear propagation gives %s',
            what, s, mpmath.nstr(expect_s, 17))
    for v, c in comps.items():
        i = index[id(v)]
        require(abs(mpf(float(c)) - abs(der[i][0]) * mpf(sig[i]))
                <= REL * der[i][1] * mpf(sig[i]) + mpf('1e-290'),
                '%s: error component %r', what, float(c))
    return True


def check_dag(case, rec):
    vs, objs, model = evaluate(case)
    sig = [v[1] for v in case['vars']]
    used = set()
    n = len(case['vars'])
    # The last node first (it is expanded from unexpanded parts), then a few
    # inner ones.
    order = [len(objs) - 1] + list(range(n, len(objs) - 1))
    full = True
    for k in order:
        op, args = case['ops'][k - n]
        full &= bool(check_node(
            objs[k], model[k][0], model[k][1], vs, sig,
            'node %d (%s %s)' % (k, op, args)))
    ops = [o for o, a in case['ops']]
    for o in ops:
        rec.label('op ' + o)
    der = model[-1][1]
    if any(a[0] == 'c' for o, args in case['ops'] for a in args[:1]):
        rec.label('constant on the left')
    if len(der) > 1:
        rec.label('several variables')
    if any(d != s and d != -s for d, s in der.values()):
        rec.label('paths combine')
    if not full:
        rec.label('derivatives out of range')
    rec.nontrivial(full and len(ops) >= 2
                   and any(d != 0 and sig[i] for i, (d, s) in der.items()))


@st.composite
def single_ops(draw):
    op = draw(BIN)
    wide = draw(bools)
    lim = 140 if wide else 9
    form = draw(pick('nn', 'same', 'nc', 'cn'))

    def number():
        if op == '**' and not wide:
            return draw(nominals(-3, 3))
        return draw(nominals(-lim, lim))
    x, y = number(), number()
    if op == '**' and wide:
        # Results may be very small
        x = draw(signed(magnitudes(-300, 250)))
        y = draw(pick(2.0, 3.0, -1.0, 1.0, 0.5, -2.0, 1.5, 2.5, -0.5, 4.0, 1.01,
                      0.0, 10.0))
    if form in ('nc', 'cn') and op != '**' and draw(bools):
        const = ['float', x if form == 'cn' else y]
    else:
        const = draw(constants(-3, 3))
    if op == '**' and form in ('nc',) and draw(bools):
        const = ['int', draw(ints(-9, 9))]
    vs = [[x, draw(sigmas(-9, 9))], [y, draw(sigmas(-9, 9))]]
    args = {'nn': [['n', 0], ['n', 1]], 'same': [['n', 0], ['n', 0]],
            'nc': [['n', 0], ['c', const]],
            'cn': [['c', const], ['n', 0]]}[form]
    vals = [vs[a[1]][0] if a[0] == 'n' else float(make_const(a[1]))
            for a in args]
    # Repair by construction what has no ordinary value:
    un = [a[0] == 'n' for a in args]

    def ok():
        v = float_apply(op, vals)
        if not ordinary(op, vals, un, wide) or v is None:
            return False
        if op == '**' and wide:
            return abs(v) < 1e280
        if v != 0 and not 1e-280 < abs(v) < 1e280:
            return False
        if op == '/' and vals[0] != 0 and not (
                1e-280 < abs(v / vals[1]) < 1e280):
            return False
        return True
    if not ok():
        op = draw(pick('+', '-'))
    return {'vars': vs, 'ops': [[op, args]]}


# Group: nominal values for any float, including infinities and NaN

EDGES = st.sampled_from([INF, -INF, NAN, INF, -INF, 0.0, -0.0, 1e308, -1e308,
                         5e-324, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, 1e16, 1e-308])
HUGE = signed(magnitudes(-307, 307))
ORDINARY = nominals(-9, 9)
ANY = pick(0, 0, 0, 0, 1, 1, 2).flatmap(
    lambda k: (EDGES, HUGE, ORDINARY)[k])
SPECIAL_OPS = st.sampled_from(['+', '-', '*', '/'] * 4 + ['**', '%', '//']
                              + list(UNARY) + list(MP_FUNCS))


def float_value(op, args):
    """The float result (any float), or None."""
    try:
        v = BINARY[op](*args) if op in BINARY else UNARY[op](*args) \
            if op in UNARY else getattr(math, op)(*args)
    except (ValueError, ZeroDivisionError, OverflowError):
        return None
    return None if isinstance(v, complex) else float(v)


@st.composite
def special_dags(draw):
    nv = draw(ints(1, 3))
    vs = [[draw(ANY), draw(sigmas(-6, 6))] for _ in range(nv)]
    val = [v[0] for v in vs]
    ops = []
    for _ in range(draw(ints(1, 5))):
        op = draw(SPECIAL_OPS)
        form = 'n' if op not in BINARY else draw(
            pick('nn', 'same', 'same', 'nc', 'cn'))
        last = ['n', draw(ints(0, len(val) - 1))]
        if form == 'same':
            args = [last, last]
        else:
            args = [['c', ['float', draw(ANY)] if draw(bools) else
                     draw(constants(-6, 6))] if ch == 'c' else
                    ['n', draw(ints(0, len(val) - 1))] for ch in form]
        v = float_value(op, [val[a[1]] if a[0] == 'n' else
                             float(make_const(a[1])) for a in args])
        if v is None:
            op, args = 'neg', [last]
            v = -val[last[1]]
        ops.append([op, args])
        val.append(v)
    return {'vars': vs, 'ops': ops}


def check_special(case, rec):
    objs, vals = [], []
    for n, s in case['vars']:
        with lib('ufloat(%r, %r)' % (n, s)):
            objs.append(ufloat(n, s))
        vals.append(n)
    for op, args in case['ops']:
        real = [objs[a[1]] if a[0] == 'n' else make_const(a[1]) for a in args]
        plain = [vals[a[1]] if a[0] == 'n' else float(make_const(a[1]))
                 for a in args]
        what = '%s%r' % (op, tuple(real))
        with lib(what):
            r = BINARY[op](*real) if op in BINARY else UNARY[op](*real) \
                if op in UNARY else getattr(umath, op)(*real)
        require(isinstance(r, uncertainties.UFloat), '%s is a %s', what, type(r))
        want = float_value(op, plain)
        require(same_float(r.nominal_value, want), '%s: nominal value %r, '
                'float arithmetic gives %r', what, r.nominal_value, want)
        objs.append(r)
        vals.append(want)
        rec.label(op, 'finite' if math.isfinite(want) else 'not finite')
        if len(args) == 2 and args[0] == args[1]:
            rec.label('same operand')
        rec.nontrivial(not all(map(math.isfinite, plain + [want]))
                       or abs(want) > 1e280 or 0 < abs(want) < 1e-280)


GROUPS = [
    Group('operators', single_ops(), check_dag, 24000, 600000,
          'one operator on numbers with uncertainties and constants on either '
          'side, values from 1e-140 to 1e140 (for powers: to 1e-300 and 1e250)'),
    Group('expressions', dags(12), check_dag, 24000, 600000,
          'an expression graph of 2 to 12 operators and functions over 1 to 4 '
          'variables, shared subexpressions and constants of several types; '
          'non-trivial: at least 2 operations, a non-zero derivative on a '
          'variable with an uncertainty'),
    Group('special', special_dags(), check_special, 12000, 300000,
          'nominal values of 1 to 5 operators and functions on any floats '
          '(infinite, NaN, null, huge, tiny), the same number twice or not; '
          'non-trivial: an operand or result not finite or out of '
          '1e-280..1e280'),
    Group('large', large.sized(5, 40, 300, ('sum', 'outer')),
          large.check_expression, 400, 10000,
          'an expression of 5 to 300 variables; non-trivial: more than 10'),
]
# A single operator is non-trivial when the result depends on an uncertainty.
def _check_single(case, rec):
    check_dag(case, rec)
    op, args = case['ops'][0]
    rec.label('form ' + ''.join(a[0] for a in args))
    rec.nontrivial(any(a[0] == 'n' and case['vars'][a[1]][1] for a in args)
                   and op != '//')


GROUPS[0].check = _check_single
