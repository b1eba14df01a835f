"""U13: formatted numbers are correctly rounded with the right precision."""
import math
from decimal import Decimal
from hypothesis import strategies as st
from uncertainties import ufloat, UFloat

from ..core import Group, fail, require, lib
from ..gen import pick, ints, bools
from ..fmt import *

ASSUMPTIONS = [
    'values between 1e-270 and 1e290 (between 5e-324 and 1e-295, values are '
    'only checked to the distance between floats); precisions up to 320',
    'a value rounded with an exponent may be off by 4 ulps of the value',
    'log10() may see a number less than |exponent| ulps below a power of 10 as '
    'this power, and the PDG thresholds are exact to 8 ulps']

TYPES = ['', '', '', 'e', 'E', 'f', 'f', 'F', 'g', 'g', 'G', '%']


def numbers_of(case):
    n, s = case['n'], case['s']
    form = case['form']
    if form == 'var':
        return ufloat(n, s)
    if form == 'neg':
        return -ufloat(-n, s)
    if form == 'sum':
        return ufloat(n, s) + ufloat(0, 0)
    return ufloat(n, s) * 1.0


def text_of(case):
    x = numbers_of(case)
    n, s = x.nominal_value, float(x.std_dev)
    spec = case['spec']
    text = None
    try:
        if case['way'] == 'format':
            text = format(x, spec)
        elif case['way'] == 'method':
            text = x.format(spec)
        elif case['way'] == 'string':
            text = ('{0:%s}' % spec).format(x)
        elif case['way'] == 'str':
            text = str(x) if spec == '' else x.__format__(spec)
    except ValueError as exc:
        if 'significant digits' in str(exc):
            return n, s, None
        raise
    require(isinstance(text, str), 'format(%r, %r) is %r', x, spec, text)
    return n, s, text


def shown(text, exp, percent):
    v = Decimal(text)
    if exp is not None:
        v = v.scaleb(exp, CTX)
    if percent:
        v = v.scaleb(-2, CTX)
    return v


def close(displayed, value, unit, exact):
    """What is wrong with value displayed as a multiple of 10**unit (rounded
    exactly, if there was no scaling)."""
    if exact:
        expect = rounded(value, unit)
        if displayed != expect:
            return '%s displayed as %s, expected %s' % (value, displayed, expect)
    elif abs(CTX.subtract(displayed, value)) > (
            ten(unit) / 2 + 4 * EPS * abs(value)):
        return '%s displayed as %s' % (value, displayed)


def check_finite(case, rec):
    n, s, text = text_of(case)
    p = parse_spec(case['spec'])
    try:
        possible = expectations(n, s, p['prec'], p['u'], p['type'])
    except ValueError:
        require(text is None, 'format(%r+/-%r, %r) is %r: ValueError expected',
                n, s, case['spec'], text)
        rec.label('zero digits')
        return
    require(text is not None, 'format(%r+/-%r, %r) raised ValueError', n, s,
            case['spec'])
    parts = (read_short if 'S' in p['options'] else read_plain)(text)
    require(parts, 'format(%r+/-%r, %r) is %r', n, s, case['spec'], text)
    nom, err, exp, percent = parts
    require(percent == (p['type'] == '%'), 'percent sign: %r', text)
    require((nom.startswith('-')) == (math.copysign(1, n) < 0),
            'sign of %r in %r', n, text)
    # Same last decimal place
    require(decimals(nom) == decimals(err), 'different numbers of decimals: %r '
            'for %r+/-%r and %r', text, n, s, case['spec'])
    last = -decimals(nom)
    matching = [c for c in possible if c[1] == exp
                and last == min(0, c[0] - (exp or 0))]
    if not matching:
        fail('format(%r+/-%r, %r) is %r, expected (last digit, exponent) %s', n,
             s, case['spec'], text, sorted(
                 set((c[0] - (c[1] or 0), c[1]) for c in possible), key=str))
    exact = exp is None and not percent
    unit = last + (exp or 0) - (2 if percent else 0)
    problem = close(shown(nom, exp, percent), Decimal(n), unit, exact)
    require(not problem, 'nominal value: %s in %r', problem, text)
    # From 0.950 on, the PDG rules make the uncertainty a power of 10
    for value in sorted({c[2] for c in matching}):
        if percent:
            value = value.scaleb(-2, CTX)
        problem = close(shown(err, exp, percent), value, unit, exact and (
            value == Decimal(s)) and ('S' not in p['options'] or len(err) < 15))
        if not problem:
            break
    require(not problem, 'uncertainty %r: %s in %r', s, problem, text)
    rec.label('type %r' % p['type'], 'exponent' if exp is not None else 'none',
              'u' if p['u'] else '', '2 possibilities' if len(possible) > 1
              else '', 'short' if 'S' in p['options'] else 'plain',
              'precision' if p['prec'] is not None else 'no precision')
    rec.nontrivial(shown(nom, exp, percent) != Decimal(n) or
                   shown(err, exp, percent) != Decimal(s))


@st.composite
def finite_cases(draw, mode):
    n, s = draw(finite_pairs(270))
    typ = draw(st.sampled_from(TYPES))
    opts = draw(pick('', '', '', 'S'))
    if mode == 'uncertainty':
        how = draw(pick('default', 'default', 'u', 'n', 'n', 'n'))
        prec = (None if how != 'n' else
                draw(pick(0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 9, 12, 17, 25)))
        u = 'u' if how != 'default' else ''
    else:
        prec = draw(pick(0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 12, 17, 25, 40,
                         320))
        u = ''
    if abs(n) + s > 1e200 and typ == '%':
        typ = 'f'
    spec = '%s%s%s%s' % ('' if prec is None else '.%d' % prec, u, typ, opts)
    return {'n': n, 's': s, 'spec': spec,
            'way': draw(pick('format', 'method', 'string', 'str')),
            'form': draw(pick('var', 'var', 'neg', 'sum', 'mul'))}


# Special values: zero, NaN or infinite parts

def got_tie(value, lim):
    v = Decimal(abs(value)).scaleb(1 - lim, CTX)
    return abs(v - int(v) - Decimal('0.5')) <= 4 * EPS * v


def check_special(case, rec):
    n, s, text = text_of(case)
    p = parse_spec(case['spec'])
    try:
        possible = expectations(n, s, p['prec'], p['u'], p['type'])
    except ValueError:
        require(text is None, 'format(%r+/-%r, %r) is %r: ValueError expected',
                n, s, case['spec'], text)
        return
    require(text is not None, 'format(%r+/-%r, %r) raised ValueError', n, s,
            case['spec'])
    parts = (read_short if 'S' in p['options'] else read_plain)(text)
    if not parts and p['type'] in ('', 'g', 'G'):
        # Corner cases that are left alone: values which may or may not be
        # rounded to a power of 10 may have an exponent of their own
        v = Decimal(abs(n) if math.isfinite(n) else s)
        if any(got_tie(v, lim + d) for lim, _, _ in possible
               if lim is not None for d in (0, 1)) or (
                Decimal('0.0000999999999999') < v < Decimal('0.0001')):
            rec.label('nested exponent')
            return
    require(parts, 'format(%r+/-%r, %r) is %r', n, s, case['spec'], text)
    nom, err, exp, percent = parts
    upper = p['type'] in ('E', 'F', 'G') and p['type'] != ''
    where = '%r for %r+/-%r and %r' % (text, n, s, case['spec'])

    def name(v):
        t = ('-' if v < 0 else '') + ('inf' if math.isinf(v) else 'nan')
        return t.upper() if upper else t
    require(percent == (p['type'] == '%'), 'percent sign: %s', where)
    if not math.isfinite(n):
        require(nom == name(n), 'nominal value: %s', where)
    if not math.isfinite(s):
        require(err == name(s), 'uncertainty: %s', where)
    elif s == 0:
        require(err == '0', 'null uncertainty: %s', where)
    # The finite part, if any
    if math.isfinite(n):
        shown_text, value, what = nom, n, 'nominal value'
    elif math.isfinite(s) and s:
        shown_text, value, what = err, s, 'uncertainty'
    else:
        if not math.isfinite(s):
            require(exp is None, 'exponent: %s', where)
        rec.label('no digits')
        return
    rec.label('type %r' % p['type'], what, 'short' if 'S' in p['options'] else
              'plain', 'exponent' if exp is not None else 'none')
    d = decimals(shown_text)
    base = p['type'].lower()
    ok = False
    for lim, e, c2 in possible:
        if e != exp:
            continue
        place = lim - (e or 0)
        if base in ('e', 'f', '%') or (
                'S' in p['options'] and what == 'uncertainty'):
            # (the shorthand notation always has the digits of the precision)
            unit_ok = d == max(0, -place)
        elif base == 'g' and p['u'] and p['prec'] is None and (
                what == 'uncertainty'):
            # No claim on which of the PDG and default precisions is used
            unit_ok, place = True, adjusted(Decimal(value)) - 5 - (e or 0)
            place = max(place, lim - (e or 0))
        elif base == 'g' or p['prec'] is not None:
            # No trailing zeros; a tie just below a power of 10 may be shown
            # with the digits of this power or of the number (95: 1e2 or 0.9e2)
            if d == 1 - place and got_tie(value, lim):
                place -= 1
            unit_ok = d <= max(0, -place) and (
                not shown_text.endswith('0') or d == 0)
            place = min(place, 0)
        else:
            unit_ok = d >= 1 and (d == 1 or not shown_text.endswith('0'))
            place = None
        if not unit_ok:
            continue
        got = shown(shown_text, exp, percent)
        if place is not None:
            unit = ten((place if base == 'g' or p['prec'] is not None and
                        base not in ('e', 'f', '%') else min(place, 0))
                       + (e or 0) - (2 if percent else 0))
        values = [Decimal(value)]
        if what == 'uncertainty':
            # The PDG rules may make it a power of 10
            values.append(c2.scaleb(-2, CTX) if percent else c2)
        for v in values:
            tol = (0 if place is None else unit / 2) + 4 * EPS * abs(v)
            if abs(CTX.subtract(got, v)) <= tol:
                ok = True
    require(ok, '%s: %s (expected (last digit, exponent): %s)', what, where,
            sorted(set((c[0], c[1]) for c in possible), key=str))
    rec.nontrivial(shown(shown_text, exp, percent) != Decimal(value) or
                   exp is not None)


@st.composite
def special_cases(draw):
    n, s = draw(special_pairs(270))
    typ = draw(st.sampled_from(TYPES))
    if typ == '%' and any(math.isfinite(v) and v > 1e200 for v in (abs(n), s)):
        typ = 'f'
    prec = draw(pick(None, None, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 9, 12, 17))
    if not math.isfinite(n) and s == 0 and typ in ('e', 'E'):
        typ = 'g'
    spec = '%s%s%s%s' % ('' if prec is None else '.%d' % prec,
                         draw(pick('', '', 'u')), typ, draw(pick('', '', 'S')))
    return {'n': n, 's': s, 'spec': spec,
            'way': draw(pick('format', 'method', 'string', 'str')),
            'form': draw(pick('var', 'var', 'neg'))}


# The limits of floats

@st.composite
def tiny_cases(draw):
    top = draw(ints(-324, -296))

    def number(exp):
        m = draw(ints(100, 9999999))
        return float('%de%d' % (m, exp - len(str(m)) + 1))
    n = number(top + draw(pick(0, 0, 1, -3)))
    s = draw(pick(0.0, 1.0, 1.0, 1.0)) * number(top + draw(pick(0, -1, -3, 2)))
    return {'n': n * draw(pick(1, -1)), 's': s,
            'spec': '%s%s%s' % (draw(pick('', '.1u', '.2u', '.3u', '.2', '.5')),
                                draw(pick('', 'e', 'g', 'E', 'f')),
                                draw(pick('', 'S'))),
            'way': 'format', 'form': 'var'}


def check_tiny(case, rec):
    """Numbers around and below the smallest normal float (5e-324 is the
    distance between floats)."""
    n, s, text = text_of(case)
    where = '%r for %r+/-%r and %r' % (text, n, s, case['spec'])
    require(text is not None, 'ValueError: %s', where)
    parts = (read_short if 'S' in case['spec'] else read_plain)(text)
    if not parts and s == 0:
        rec.label('nested exponent')    # just below a power of 10
        return
    require(parts, 'unexpected form: %s', where)
    nom, err, exp, percent = parts
    for t, v in ((nom, n), (err, s)):
        got = shown(t, exp, percent)
        unit = ten(-decimals(t) + (exp or 0))
        value = Decimal(v)
        slack = unit / 2 + Decimal('1e-323') + 4 * EPS * abs(value)
        if t is err:
            # A power of 10, from 0.950 on
            slack += abs(value) / 18
        require(abs(CTX.subtract(got, value)) <= slack,
                '%s is displayed as %s: %s', v, t, where)
    require((nom.startswith('-')) == (math.copysign(1, n) < 0), 'sign: %s', where)
    require(exp is not None or n == s == 0 or abs(exp or 0) < 5,
            'no exponent: %s', where)
    rec.nontrivial(n != 0 and abs(n) < 2.3e-308)


def check_largest(case, rec):
    """The rounded value is out of the range of floats."""
    with lib('format(%r+/-%r, %r)' % (case['n'], case['s'], case['spec'])):
        format(ufloat(case['n'], case['s']), case['spec'])


FINDING_CHECKS = {'largest': check_largest}

GROUPS = [
    Group('uncertainty', finite_cases('uncertainty'), check_finite, 12000,
          400000, 'finite values, precision by the digits of the uncertainty '
          '(PDG rules or .Nu); non-trivial: something was rounded'),
    Group('precision', finite_cases('precision'), check_finite, 8000, 250000,
          'finite values, precision as for floats; non-trivial: something was '
          'rounded'),
    Group('special', special_cases(), check_special, 6000, 150000,
          'zero, NaN or infinite parts; non-trivial: rounded, or with an '
          'exponent'),
    Group('tiny', tiny_cases(), check_tiny, 3000, 60000,
          'numbers between 5e-324 and 1e-295, to within the distance between '
          'floats; non-trivial: below the smallest normal float'),
]
