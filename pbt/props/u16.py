"""U16: strings are parsed by the documented grammar, or rejected."""
import math
import re
from decimal import Decimal
from hypothesis import strategies as st
import uncertainties
from uncertainties import ufloat, ufloat_fromstr
from uncertainties.core import Variable, NegativeStdDev, str_to_number_with_uncert

from ..core import Group, fail, require, lib
from ..gen import pick, ints, bools, same_float
from ..fmt import CTX, EPS, SUPER, finite_pairs, special_pairs, ten

ASSUMPTIONS = [
    'values compared to 4 ulps, exponents within the range of floats (outside: '
    'ValueError, or a value)',
    'no claim on the underscores and non-ASCII digits that float() accepts, nor '
    'on line ends inside of the string']


# Reference parser, in decimal arithmetic: ('ok', n, s), ('negative',) or None.
# Values are Decimals, or floats when they are not finite.

UNSUPER = {v: k for k, v in SUPER.items()}
FLOAT = re.compile(r'\s*([+-]?)(\d+\.?\d*|\.\d+)(?:[eE]([+-]?\d+))?\s*\Z', re.A)
SPECIAL = re.compile(r'\s*([+-]?)(nan|inf|infinity)\s*\Z', re.A | re.I)


class OutOfRange(Exception):
    pass


def scaled(v, e):
    if isinstance(v, float):
        return v
    return v.scaleb(e, CTX)


def read_exponent(text):
    """Value of an exponent in normal or superscript digits."""
    text = ''.join(UNSUPER.get(c, c) for c in text).strip(' \t')
    if not re.match(r'[+-]?\d+\Z', text, re.A):
        return None
    e = int(text)
    if abs(e) > 280:
        raise OutOfRange
    return e


def read_float(text):
    m = SPECIAL.match(text)
    if m:
        return float(text)
    m = FLOAT.match(text)
    if m:
        e = int(m.group(3) or 0)
        if abs(e) > 280 or len(m.group(2)) > 300:
            raise OutOfRange
        v = CTX.create_decimal(m.group(2)).scaleb(e, CTX)
        return v.copy_negate() if m.group(1) == '-' else v
    if u'\xd7' in text:
        mantissa, exp = text.split(u'\xd7', 1)
        exp = exp.lstrip(' \t')
        if not exp.startswith('10'):
            return None
        e = read_exponent(exp[2:])
        v = read_float(mantissa) if u'\xd7' not in mantissa else None
        if e is None or v is None:
            return None
        return scaled(v, e)
    return None


def read_short(text):
    m = re.match(u'([+-]?)(\\d+\\.?\\d*|\\.\\d+|nan|NAN|inf|INF)'
                 u'(?:\\((\\d+\\.?\\d*|\\.\\d+|nan|NAN|inf|INF)\\))?'
                 u'(?:(?:[eE]|\\s*\xd7\\s*10)(.*))?\\Z', text, re.A)
    if not m:
        return None
    sign, main, unc, exp = m.groups()
    e = 0
    if exp is not None:
        e = read_exponent(exp)
        if e is None:
            return None
    if len(main) > 250 or len(unc or '') > 250:
        raise OutOfRange
    d = len(main.split('.')[1]) if '.' in main else 0
    n = (float(main) if main[0] in 'niNI' else CTX.create_decimal(main))
    if sign == '-':
        n = -n if isinstance(n, float) else n.copy_negate()
    if unc is None:
        s = ten(-d)
    elif unc[0] in 'niNI':
        s = float(unc)
    elif '.' in unc:
        s = CTX.create_decimal(unc)
    else:
        s = CTX.create_decimal(unc).scaleb(-d, CTX)
    return scaled(n, e), scaled(s, e)


def read_simple(text):
    parts = re.split(u'\\+/-|\xb1', text)
    if len(parts) == 2:
        n, s = read_float(parts[0]), read_float(parts[1])
        return None if n is None or s is None else (n, s)
    if len(parts) > 2:
        return None
    return read_short(text)


def read_number(text):
    text = text.strip()
    if text[:1] == '(' and text[-1:] == ')':
        text = text[1:-1]
    m = re.match(u'\\((.*)\\)(?:[eE]|\\s*\xd7\\s*10)([^()]*)\\Z', text)
    if m:
        e = read_exponent(m.group(2))
        if e is None:
            return None
        r = read_simple(m.group(1))
        return r and (scaled(r[0], e), scaled(r[1], e))
    return read_simple(text)


def near(got, want):
    if isinstance(want, float):
        return same_float(abs(got) if want != want else got,
                          abs(want) if want != want else want)
    if not math.isfinite(got):
        return False
    if want == 0:
        return got == 0
    return abs(CTX.subtract(Decimal(got), want)) <= 4 * EPS * abs(want)


def compare(text, rec, call=ufloat_fromstr):
    """Check the outcome for a string of any form; return the expected value."""
    try:
        want = read_number(text)
        ranged = True
    except OutOfRange:
        want, ranged = None, False
    if want and any(not isinstance(v, float) and v and not
                    -290 < v.adjusted() < 290 for v in want):
        ranged = False
    odd = '_' in text or '\n' in text.strip() or '\r' in text or any(
        c.isdecimal() and not c.isascii() for c in text)
    try:
        x = call(text)
    except NegativeStdDev as exc:
        if ranged and not odd:
            require(want and want[1] < 0, '%r: NegativeStdDev', text)
        rec.label('negative')
        return None
    except ValueError as exc:
        if ranged and not odd and want:
            fail('%r is rejected: %s', text, exc)
        rec.label('rejected')
        return None
    except Exception as exc:
        fail('%r raises %s: %s', text, type(exc).__name__, exc)
    if not ranged or odd:
        rec.label('no claim')
        return None
    got = x.nominal_value, float(x.std_dev)
    require(type(x) is Variable, '%r gives %r', text, type(x))
    require(want, '%r is read as %r+/-%r: ValueError expected', text, *got)
    require(isinstance(want[1], float) or want[1] >= 0,
            '%r is read as %r+/-%r: negative uncertainty', text, *got)
    require(near(got[0], want[0]) and near(got[1], want[1]),
            '%r is read as %r+/-%r, expected %s+/-%s', text, got[0], got[1],
            *want)
    rec.label('accepted')
    return want


# Group 1: valid strings, built from the numbers that they denote

def sup(e):
    return ''.join(SUPER[c] for c in str(e))


@st.composite
def exps(draw, style=None):
    """(text, value) of an exponent."""
    e = draw(st.one_of(ints(-12, 12), ints(-200, 200), ints(0, 9)))
    style = style or draw(pick('e', 'E', 'x', 'x', 'ee'))
    if style == 'x':
        plus = u'\u207a' if e >= 0 and draw(pick(0, 0, 1)) else ''
        return '%s\xd7%s10%s%s' % (draw(pick('', ' ')), draw(pick('', ' ')),
                                   plus, sup(e)), e
    if style == 'ee':
        return 'e%+03d' % e, e
    return style + str(e), e


digits = st.one_of(ints(0, 9), ints(0, 99), ints(0, 99999),
                   ints(0, 10 ** 12), ints(0, 10 ** 25)).map(str)


@st.composite
def decimals_text(draw, signed=True):
    """(text, exact Decimal, decimals)."""
    form = draw(pick('int', 'point', 'point', 'point', 'dot', 'frac', 'zeros'))
    a, b = draw(digits), draw(digits)
    if form == 'int':
        t = a
    elif form == 'zeros':
        t = '0' * draw(ints(1, 3)) + a + '.' + b + '0'
    elif form == 'dot':
        t = a + '.'
    elif form == 'frac':
        t = '.' + b
    else:
        t = a + '.' + '0' * draw(pick(0, 0, 1, 3)) + b
    sign = draw(pick('', '', '-', '+')) if signed else draw(pick('', '', '', '+'))
    return sign + t


SPECIALS = ['nan', 'NAN', 'inf', 'INF']


@st.composite
def valid_cases(draw):
    form = draw(pick('pm', 'pm', 'paren', 'paren', 'plain', 'factored',
                     'factored', 'factored paren'))
    n = draw(decimals_text())
    s = draw(decimals_text(False))
    special = draw(pick(0, 0, 0, 0, 1, 2))
    if special == 1:
        s = draw(st.sampled_from(SPECIALS))
    elif special == 2:
        n = draw(pick('', '-')) + draw(st.sampled_from(SPECIALS))
    pm = draw(pick('+/-', u'\xb1', ' +/- ', u' \xb1 ', u'\xb1 ', ' +/-'))
    if form in ('pm', 'factored'):
        e1 = draw(st.one_of(st.just(('', 0)), exps())) if 'n' not in n.lower() \
            else ('', 0)
        e2 = draw(st.one_of(st.just(('', 0)), exps())) if 'n' not in s.lower() \
            else ('', 0)
        if form == 'factored' and draw(pick(0, 0, 1)) == 0:
            e1 = e2 = ('', 0)
        text = n + e1[0] + pm + s + e2[0]
    else:
        s = s.lstrip('+')
        if form != 'plain':
            if draw(bools) and 'n' not in s.lower():
                s = draw(digits)
            text = '%s(%s)' % (n, s)
        else:
            text = n
        if form != 'factored paren':
            text += draw(st.one_of(st.just(('', 0)), exps()))[0]
    if form.startswith('factored'):
        text = '(%s)%s' % (text, draw(exps())[0])
    if draw(pick(0, 0, 1)):
        text = '(%s)' % text
    return {'text': draw(pick('', '', ' ', '\t')) + text +
            draw(pick('', '', ' ', '  \n')),
            'call': draw(pick('plain', 'tag', 'keyword', 'legacy', 'legacy tag',
                              'internal')), 'form': form}


def check_valid(case, rec):
    text = case['text']
    call = {'plain': ufloat_fromstr,
            'tag': lambda t: ufloat_fromstr(t, 'tag'),
            'keyword': lambda t: ufloat_fromstr(representation=t, tag='tag'),
            'legacy': lambda t: ufloat(t),
            'legacy tag': lambda t: ufloat(t, 'tag'),
            'internal': lambda t: Variable(*str_to_number_with_uncert(t.strip()))
            }[case['call']]
    last = []

    def tagged(t):
        last.append(call(t))
        return last[-1]
    try:
        legal = read_number(text) is not None
    except OutOfRange:
        legal = True
    require(legal, 'harness: %r is not valid', text)
    want = compare(text, rec, tagged)
    rec.label(case['form'], case['call'])
    if last:
        tag = 'tag' if case['call'] in ('tag', 'keyword', 'legacy tag') else None
        require(last[0].tag == tag, '%r gives the tag %r', text, last[0].tag)
    rec.nontrivial(want is not None and any(
        isinstance(v, float) or v != 0 for v in want))


# Group 2: any strings

TOKENS = ['0', '1', '2', '12', '3.4', '.', '.5', '+', '-', '+/-', u'\xb1', '(',
          ')', 'e', 'E', 'e5', 'E-3', u'\xd710', u'\xd7', '10', u'\u207b\xb2',
          u'\xb3', ' ', 'nan', 'inf', 'NAN', 'NaN', '/', ',', 'x', '*', '%',
          u'\xd710\u207b\xb3', '(3)', '(0.2)', '(nan)', ')e5', '\t', '"', '1e',
          '--', '()', '(.)', '_', u'\u0663', '\n', '+-', '1e400', ')e999']


@st.composite
def any_strings(draw):
    how = draw(pick('tokens', 'tokens', 'mutation', 'mutation', 'mutation',
                    'text'))
    if how == 'text':
        return {'text': draw(st.text(max_size=12)), 'how': how}
    if how == 'tokens':
        return {'text': ''.join(draw(st.lists(st.sampled_from(TOKENS),
                                              max_size=8))), 'how': how}
    text = draw(valid_cases())['text']
    for _ in range(draw(pick(1, 1, 2, 3))):
        i = draw(ints(0, len(text)))
        what = draw(pick('insert', 'insert', 'delete', 'replace', 'double'))
        if what == 'insert':
            text = text[:i] + draw(st.sampled_from(TOKENS)) + text[i:]
        elif what == 'delete':
            text = text[:i] + text[i + 1:]
        elif what == 'double':
            text = text[:i] + text[i:i + 2] + text[i:]
        else:
            text = text[:i] + draw(st.sampled_from(TOKENS)) + text[i + 1:]
    return {'text': text, 'how': how}


def check_any(case, rec):
    want = compare(case['text'], rec)
    rec.label(case['how'])
    rec.nontrivial('rejected' in rec.labels or 'accepted' in rec.labels)


GROUPS = [
    Group('valid', valid_cases(), check_valid, 15000, 400000,
          'strings of all the documented forms; non-trivial: read, and not 0'),
    Group('any', any_strings(), check_any, 20000, 600000,
          'sequences of tokens, mutations of valid strings, text; non-trivial: '
          'accepted or rejected as expected'),
]
