"""U15: text representations read back as the same number."""
import math
from decimal import Decimal
from hypothesis import strategies as st
from uncertainties import ufloat, ufloat_fromstr
from uncertainties.core import Variable

from ..core import Group, fail, require, lib
from ..gen import pick, ints, bools, same_float, nominals, sigmas
from ..fmt import (parse_spec, make_spec, read_plain, read_short, decimals, special,
                   finite_pairs, special_pairs, ten, CTX, EPS)

ASSUMPTIONS = [
    'values below 1e307 in absolute value, that are read to 5e-322 at least (all '
    'floats exactly, for repr())',
    'no zero padding of NaN and infinity, no "=" alignment (a float such as '
    '"-  1.5" cannot be read either)']


# Precision of the powers of 10 below 1e-308, times a number of 2 digits
TINY = Decimal(5e-322)


def displayed(text, exp):
    if special(text):
        return float(text)
    return Decimal(text).scaleb(exp or 0, CTX)


def agree(got, want):
    if isinstance(want, float):
        return same_float(got, want)
    if not math.isfinite(got):
        return False
    return abs(CTX.subtract(Decimal(got), want)) <= 3 * EPS * abs(want) + TINY


def check_round_trip(case, rec):
    n, s, spec = case['n'], case['s'], case['spec']
    x = ufloat(n, s)
    p = parse_spec(spec)
    plain = dict(p, fill='', align='', sign='', zero='', width='', options='')
    text = str(x) if spec == '' else format(x, spec)
    text = case['before'] + text + case['after']
    if 'S' in p['options'] and not math.isfinite(n):
        parts = read_short(format(x, make_spec(dict(plain, options='S'))))
    else:
        parts = read_plain(format(x, make_spec(plain)))
    if parts is None:
        rec.label('nested exponent')
        return
    nom, err, exp, _ = parts
    try:
        y = ufloat_fromstr(text, **({'tag': 't'} if case['tag'] else {}))
    except Exception as exc:
        fail('%r (%r+/-%r in format %r) is not read back: %s: %s', text, n, s,
             spec, type(exc).__name__, exc)
    require(type(y) is Variable and y.tag == ('t' if case['tag'] else None),
            '%r is read back as %r', text, y)
    gn, gs = y.nominal_value, float(y.std_dev)
    require(agree(gn, displayed(nom, exp)) and agree(gs, displayed(err, exp)),
            '%r is read back as %r+/-%r', text, gn, gs)
    # Half a unit of the last digit:
    for got, want, shown in ((gn, n, nom), (gs, s, err)):
        if not math.isfinite(want):
            require(same_float(got, want), '%r read back from %r (%r)', got,
                    text, want)
        elif want == 0:
            require(got == 0, '%r read back from %r', got, text)
        else:
            unit = ten(-decimals(shown) + (exp or 0))
            if p['type'] in ('', 'g', 'G') and (s == 0 or not math.isfinite(s)
                                                or not math.isfinite(n)) and (
                    math.isfinite(n) or 'S' not in p['options']):
                # No trailing zeros: at least 6 digits are given, or what is
                # asked for
                v = Decimal(abs(want))
                unit = ten(v.adjusted() - (p['prec'] if p['prec'] is not None
                                           else 6) + 1)
            # The PDG rules display a power of 10 for 0.950 to 0.999
            tol = max(unit * Decimal('0.5'),
                      Decimal('0.055') * Decimal(abs(want))
                      if p['prec'] is None and shown is err else 0)
            tol += 6 * EPS * Decimal(abs(want)) + TINY
            require(abs(CTX.subtract(Decimal(got), Decimal(want))) <= tol,
                    '%r read back from %r (%r)', got, text, want)
    # The same text again, when the precision does not depend on the digits
    # that were lost
    if (p['prec'] is not None and math.isfinite(n) and math.isfinite(s) and gs
            and err.replace('.', '').strip('0') != '1' and
            abs(gs) > 1e-290 and (n == 0 or abs(n) > 1e-290)
            and len(nom) < 15 and len(err) < 15 and gn and (
                exp is None or 1 <= max(abs(float(nom)), float(err)) < 10)):
        # (95 in one digit can be shown as 0.9e2)
        # (An uncertainty rounded up to a power of 10 has a digit more)
        again = case['before'] + format(y, spec) + case['after']
        require(again == text, '%r, read back and formatted with %r, is %r',
                text, spec, again)
        rec.label('formatted again')
    rec.label('type %r' % p['type'], 'style ' + p['options'],
              'exponent' if exp is not None else 'none')
    for k in ('sign', 'width', 'zero', 'align', 'u'):
        if p[k]:
            rec.label(k)
    rec.nontrivial(exp is not None or bool(p['options']))


def cases(values):
    @st.composite
    def build(draw):
        n, s = draw(values)
        p = {'fill': '', 'align': '', 'sign': '', 'zero': '', 'width': '',
             'comma': '', 'prec': None, 'u': '', 'type': '', 'options': ''}
        if draw(pick(0, 0, 0, 1)) == 0 or not draw(bools):
            p['sign'] = draw(pick('', '', '+', '-', ' '))
            p['width'] = draw(pick('', '', '', '1', '8', '12', '20', '31'))
            p['align'] = draw(pick('', '', '<', '>', '^'))
            if math.isfinite(n) and math.isfinite(s):
                p['zero'] = draw(pick('', '', '0'))
            p['u'] = draw(pick('', 'u'))
            p['prec'] = draw(pick(None, None, 0, 1, 2, 3, 4, 6, 9, 12, 16))
            if p['u'] and p['prec'] == 0:
                p['prec'] = 1
            p['type'] = draw(pick('', '', 'e', 'E', 'f', 'F', 'g', 'G'))
        p['options'] = draw(pick('', '', 'P', 'S', 'p', 'SP', 'pP', 'pS', 'PSp',
                                 'S', 'P'))
        return {'n': n, 's': s, 'spec': make_spec(p), 'tag': draw(pick(0, 0, 1)),
                'before': draw(pick('', '', ' ', '\t', '  ')),
                'after': draw(pick('', '', ' ', '\n', '   '))}
    return build()


@st.composite
def extreme_pairs(draw):
    n, s = draw(finite_pairs(8))
    if draw(pick(0, 0, 0, 1)):
        s = 0.0
    k = draw(st.one_of(ints(-316, -280), ints(270, 297)))

    def moved(x):
        y = float(Decimal(x).scaleb(k, CTX))
        return y if abs(y) < 1e307 else math.copysign(1e307, x)
    return moved(n), moved(s)


def any_floats(negative):
    return st.one_of(
        st.floats(allow_nan=True) if negative else
        st.one_of(st.floats(min_value=0), pick(math.nan)),
        nominals(-300, 300) if negative else sigmas(-300, 300),
        pick(0.0, 1e22, 1e23, 5e-324, 1.7976931348623157e308, 0.1, 1e16, 1e-5))


repr_cases = st.fixed_dictionaries({
    'n': any_floats(True), 's': any_floats(False),
    'np': st.booleans(), 'form': pick('var', 'var', 'result')})


def check_repr(case, rec):
    import numpy as np
    n, s = case['n'], case['s']
    if case['np']:
        n, s = np.float64(n), np.float64(s)
    x = ufloat(n, s)
    if case['form'] == 'result' and math.isfinite(n):
        x = x + ufloat(0, 0)
    text = repr(x)
    with lib('ufloat_fromstr(%r)' % text):
        y = ufloat_fromstr(text)
        again = repr(y)
    require(same_float(y.nominal_value, x.nominal_value) and same_float(
        y.std_dev, x.std_dev), 'repr() of %r+/-%r is %r, read back as %r+/-%r',
        x.nominal_value, float(x.std_dev), text, y.nominal_value,
        float(y.std_dev))
    require(again == text, 'repr() is %r, then %r', text, again)
    # With a tag, the number follows the tag:
    t = ufloat(n, s, tag='a tag')
    want = '< a tag = %s >' % repr(ufloat(n, s))
    require(repr(t) == want, 'repr() is %r, expected %r', repr(t), want)
    rec.label(case['form'], 'exponent' if 'e' in text else 'plain')
    rec.nontrivial(math.isfinite(n) and n != 0)


GROUPS = [
    Group('finite', cases(finite_pairs(265)), check_round_trip, 12000, 300000,
          'finite values in all readable styles; non-trivial: an exponent or an '
          'option'),
    Group('special', cases(special_pairs(265)), check_round_trip, 6000, 150000,
          'zero, NaN or infinite parts; non-trivial: the same'),
    Group('extreme', cases(extreme_pairs()), check_round_trip, 6000, 150000,
          'values below 1e-270 (denormal ones too) or above 1e270; non-trivial: '
          'the same'),
    Group('repr', repr_cases, check_repr, 6000, 150000,
          'repr() of any floats; non-trivial: finite and not null'),
]
