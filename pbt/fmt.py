"""Reference for text representations: precision in decimal arithmetic, and an
independent layout of the parts of a number with uncertainty."""
import math
import re
from decimal import Decimal, Context, ROUND_HALF_EVEN

from hypothesis import strategies as st
from .gen import pick, ints, bools, signed, cached

CTX = Context(prec=1200, rounding=ROUND_HALF_EVEN, Emin=-99999, Emax=99999)
EPS = Decimal(2) ** -52


def ten(k):
    return Decimal(1).scaleb(k)


def rounded(v, limit):
    """v rounded at the digit 10**limit, exactly (half to even)."""
    return CTX.quantize(v.scaleb(-limit, CTX), Decimal(1)).scaleb(limit, CTX)


def adjusted(v):
    return v.adjusted() if v else 0


def exponents(v):
    """Possible decimal exponents of v > 0: log10() can round up the exponent of
    a number just below a power of 10."""
    e = adjusted(v)
    result = {e}
    if v:
        gap = EPS * 4 * max(1, abs(e))
        if v * (1 + gap) >= ten(e + 1):
            result.add(e + 1)
    return result


def limits(v, digits):
    """Possible positions of the last digit when v has that many significant
    digits."""
    result = set()
    for e in exponents(v):
        lim = e - digits + 1
        r = rounded(v, lim)
        result.add(lim + 1 if adjusted(r) > e else lim)
    return result


def pdg(s):
    """Possible (limit, displayed value) for Particle Data Group rules."""
    result = set()
    for e in exponents(s):
        m = s.scaleb(2 - e, CTX)       # 3 digits
        for t in {int(m), int(m * (1 + 8 * EPS)), int(m * (1 - 8 * EPS))}:
            # For a number that may be seen as the power of 10 just above:
            t = max(t, 100)
            if t < 355:
                result |= {(lim, s) for lim in limits(s, 2)}
            elif t < 950:
                result |= {(lim, s) for lim in limits(s, 1)}
            else:
                result.add((e, ten(e + 1)))
    return result


def expectations(n, s, prec, u, typ):
    """The possible {(limit, exponent or None, displayed s)} for finite or not
    values; limit is None when no digit is defined. ValueError for a precision
    of 0 in the uncertainty."""
    base = typ.lower() if typ else ''
    if base == '%':
        n, s, base = n * 100, s * 100, 'f'
    real = [Decimal(abs(v)) for v in (n, s) if math.isfinite(v)]
    dn = Decimal(abs(n)) if math.isfinite(n) else None
    ds = Decimal(s) if math.isfinite(s) else None
    ref = max(real) if real else None
    if ((prec is None and len(real) == 2) or u) and ds:
        if prec is not None:
            if prec == 0:
                raise ValueError
            lims = {(lim, ds) for lim in limits(ds, prec)}
        else:
            lims = pdg(ds)
    else:
        p = prec if prec is not None else 6 if base else 12
        if base == 'f':
            lims = {(-p, ds)}
        elif ref is None:
            lims = {(None, ds)}
        else:
            digits = p + 1 if base == 'e' else p or 1
            lims = {(lim, ds) for lim in limits(ref, digits)}
    result = set()
    for lim, shown in lims:
        if base == 'f' or ref is None:
            result.add((lim, None, shown))
            continue
        exps = set()
        for e in exponents(ref) if ref else {0}:
            r = rounded(ref, lim)
            exps.add(max(e, adjusted(r)) if r else 0)
        for e in exps:
            if base == 'e' or e < -4 or lim > 0:
                result.add((lim, e, shown))
            else:
                result.add((lim, None, shown))
    return result


NUMBER = r'(?:\d+(?:\.\d+)?|nan|NAN|inf|INF)'
PLAIN = re.compile(
    r'(?P<open>\()?(?P<nom>-?%s)\+/-(?P<err>%s)'
    r'(?(open)\)(?:[eE](?P<exp>[+-]\d\d+))?(?P<percent>%%)?)\Z' % (NUMBER, NUMBER))
SHORT = re.compile(
    r'(?P<nom>-?%s)\((?P<err>%s|0\.)\)(?:[eE](?P<exp>[+-]\d\d+))?'
    r'(?P<percent>%%)?\Z' % (NUMBER, NUMBER))


def read_plain(text):
    """(nominal text, uncertainty text, exponent or None, percent) of text in the
    default style without width, or None."""
    m = PLAIN.match(text)
    if not m or (m.group('open') and m.group('exp') is None
                 and not m.group('percent')):
        return None
    e = m.group('exp')
    return (m.group('nom'), m.group('err'), None if e is None else int(e),
            bool(m.group('percent')))


def decimals(text):
    return len(text.split('.')[1]) if '.' in text else 0


def read_short(text):
    """Same for the shorthand style (where the uncertainty is returned as in the
    default style)."""
    m = SHORT.match(text)
    if not m:
        return None
    nom, err = m.group('nom'), m.group('err')
    d = decimals(nom)
    if err[0].isdigit() and err != '0' and '.' not in err:
        # int(), not a scaled Decimal: no rounding to the default context
        err = format(CTX.create_decimal(err).scaleb(-d, CTX), 'f')
        if decimals(err) != d:
            return None
    elif err == '0.':
        if d:
            return None
        err = '0'
    e = m.group('exp')
    return nom, err, None if e is None else int(e), bool(m.group('percent'))


######################################################################
# Format specifications

def parse_spec(spec):
    """Parts of a documented format specification, or None if it is invalid."""
    p = {'fill': '', 'align': '', 'sign': '', 'zero': '', 'width': '',
         'comma': '', 'prec': None, 'u': '', 'type': '', 'options': ''}
    i = 0
    if len(spec) >= 2 and spec[1] in '<>=^' and spec[0] not in '{}':
        p['fill'], p['align'], i = spec[0], spec[1], 2
    elif spec[:1] and spec[0] in '<>=^':
        p['align'], i = spec[0], 1
    if spec[i:i + 1] and spec[i] in '-+ ':
        p['sign'] = spec[i]
        i += 1
    if spec[i:i + 1] == '0':
        p['zero'] = '0'
        i += 1
    j = i
    while spec[j:j + 1].isdecimal():
        j += 1
    p['width'] = spec[i:j]
    i = j
    if spec[i:i + 1] == ',':
        p['comma'] = ','
        i += 1
    if spec[i:i + 1] == '.':
        j = i + 1
        while spec[j:j + 1].isdecimal():
            j += 1
        if j == i + 1:
            return None
        p['prec'] = int(spec[i + 1:j])
        i = j
    if spec[i:i + 1] == 'u':
        p['u'] = 'u'
        i += 1
    if spec[i:i + 1] and spec[i] in 'eEfFgG%':
        p['type'] = spec[i]
        i += 1
    p['options'] = spec[i:]
    if any(c not in 'PSLp' for c in p['options']):
        return None
    return p


def make_spec(p):
    return '%s%s%s%s%s%s%s%s%s%s' % (
        p['fill'], p['align'], p['sign'], p['zero'], p['width'], p['comma'],
        '' if p['prec'] is None else '.%d' % p['prec'], p['u'], p['type'],
        p['options'])


SUPER = dict(zip('+-0123456789', u'\u207a\u207b\u2070\xb9\xb2\xb3\u2074\u2075'
                 u'\u2076\u2077\u2078\u2079'))
EXP_PRINT = {'pretty-print': lambda e: u'\xd710' + ''.join(
                 SUPER[c] for c in str(e)),
             'latex': lambda e: r' \times 10^{%d}' % e}
GROUPS = {'pretty-print': ('(', ')'), 'latex': (r'\left(', r'\right)'),
          'default': ('(', ')')}


def special(text):
    return text.lstrip('+- ').lower() in ('nan', 'inf')


def commas(digits):
    out = ''
    while len(digits) > 3:
        digits, out = digits[:-3], ',' + digits[-3:] + out
    return digits + out


def number(text, sign, comma, zero_width):
    """Lay out a displayed number (-1234.50) with sign, thousands separators and
    zeros up to the given width (None: no zeros)."""
    neg = text.startswith('-')
    body = text.lstrip('-')
    prefix = '-' if neg else '' if sign in ('', '-') else sign
    if special(body):
        if zero_width is not None:
            body = body.rjust(zero_width - len(prefix), '0')
        return prefix + body
    whole, point, frac = body.partition('.')
    out = (commas(whole) if comma else whole) + point + frac
    if zero_width is not None:
        while len(prefix) + len(out) < zero_width:
            whole = '0' + whole
            out = (commas(whole) if comma else whole) + point + frac
    return prefix + out


def align(text, p):
    width = int(p['width'])
    fill, how = p['fill'] or ' ', p['align'] or '>'
    missing = width - len(text)
    if missing <= 0:
        return text
    if how == '<':
        return text + fill * missing
    if how == '>':
        return fill * missing + text
    if how == '^':
        left = missing // 2
        return fill * left + text + fill * (missing - left)
    k = 1 if text[:1] in '+- ' and text[:1] else 0
    return text[:k] + fill * missing + text[k:]


def latex_special(text, latex):
    """The way a NaN or infinity is displayed in LaTeX."""
    if not latex or not special(text):
        return text
    if 'nan' in text.lower():
        return r'\mathrm{%s}' % text
    return (r'-\infty' if text.startswith('-') else r'\infty')


def short_digits(nom, err, exact_zero):
    """The uncertainty of the shorthand notation."""
    if special(err) or exact_zero:
        return err
    d = decimals(err)
    if d == 0:
        return '0.' if int(err) == 0 else err
    whole, frac = err.split('.')
    if int(whole):
        return err
    if special(nom) or not int(frac):
        return err
    return str(int(frac))


def layout(nom, err, exp, p, exact_zero, exp_print=EXP_PRINT, groups=GROUPS):
    """The full text for displayed parts. exact_zero: the uncertainty is null."""
    opts = p['options']
    style = ('pretty-print' if 'P' in opts else 'latex' if 'L' in opts
             else 'default')
    latex = 'L' in opts
    if exp is None:
        exp_str = ''
    elif style == 'default':
        exp_str = '%s%+03d' % ('E' if p['type'] in ('E', 'G', 'F') and p['type']
                               else 'e', exp)
    else:
        exp_str = exp_print[style](exp)
    percent = '' if p['type'] != '%' else r' \%' if latex else '%'
    err_special = exact_zero or special(err)
    width = int(p['width']) if p['width'] else None
    if 'S' in opts:
        unc = latex_special(short_digits(nom, err, exact_zero), latex)
        end = '(%s)%s%s' % (unc, exp_str, percent)
        zw = (max(width - len(end), 0) if width is not None and p['zero']
              else None)
        text = latex_special(number(nom, p['sign'], p['comma'], zw), latex) + end
        return text if width is None else align(text, p)
    if width is not None:
        pads = bool(p['zero'])
        e_n = '' if special(nom) else exp_str
        e_s = '' if err_special else exp_str
        a = latex_special(number(nom, p['sign'], p['comma'], max(
            width - len(e_n), 0) if pads else None), latex) + e_n
        b = latex_special(number(err, '', p['comma'], max(
            width - len(e_s), 0) if pads else None), latex) + e_s
        a, b, exp_str = align(a, p), align(b, p), ''
    else:
        a = latex_special(number(nom, p['sign'], p['comma'], None), latex)
        b = latex_special(number(err, '', p['comma'], None), latex)
    pm = u'\xb1' if 'P' in opts else r' \pm ' if latex else '+/-'
    text = a + pm + b
    if exp_str or percent or 'p' in opts:
        text = groups[style][0] + text + groups[style][1]
    return text + exp_str + percent


######################################################################
# Generated values: pairs (nominal value, standard deviation) as floats

MANTISSAS = ['1', '3.54', '3.55', '3.549', '3.5499999', '9.49', '9.5', '9.499',
             '9.501', '9.99', '9.95', '9.949', '9.4', '9.6', '2.5', '3.5', '1.5',
             '4.5', '9.995', '9.9949999', '1.05', '1.45', '5', '9', '1.000001',
             '9.9999999', '3', '7', '1.25', '3.45', '3.56', '9.51', '1.5',
             '9.47', '3.53']


@cached
def mantissas():
    digits = st.tuples(st.integers(100000000, 999999999), pick(
        0, 1, 1, 2, 2, 3, 4, 6, 8)).map(
            lambda t: ('%d' % t[0])[0] + '.' + ('%d0' % t[0])[1:1 + t[1] or 2])
    long = st.integers(10 ** 16, 10 ** 17 - 1).map(
        lambda i: '%d.%s' % (int(str(i)[0]), str(i)[1:]))
    return st.one_of(st.sampled_from(MANTISSAS), digits, digits, long)


@cached
def scales(wide=285):
    return st.one_of(ints(-6, 6), ints(-6, 6), ints(-12, 14), ints(-wide, wide))


@cached
def finite_pairs(wide=285):
    @st.composite
    def build(draw):
        k = draw(scales(wide))
        s = float('%se%d' % (draw(mantissas()), k))
        mode = draw(pick('ratio', 'ratio', 'ratio', 'close', 'zero', 'same',
                         'nines', 'integer', 'half'))
        if mode == 'ratio':
            j = max(-wide, min(wide, k + draw(ints(-3, 15))))
            n = float('%se%d' % (draw(mantissas()), j))
        elif mode == 'close':
            n = float('%se%d' % (draw(mantissas()), k))
        elif mode == 'zero':
            n = draw(pick(0.0, 0.0, -0.0))
        elif mode == 'same':
            n = s
        elif mode == 'nines':
            j = max(-wide, min(wide, k + draw(ints(0, 9))))
            n = float('9.%s%se%d' % ('9' * draw(ints(0, 12)),
                                     draw(ints(1, 99)), j))
        elif mode == 'integer':
            n = float(draw(ints(0, 10 ** draw(ints(1, 15)))))
        else:
            # A tie at some decimal place
            n = (draw(ints(0, 9999)) + 0.5) / 2 ** draw(ints(0, 8))
        if draw(bools):
            n = -n
        return n, s
    return build()


@cached
def special_pairs(wide=285):
    @st.composite
    def build(draw):
        n, s = draw(finite_pairs(wide))
        nan, inf = float('nan'), float('inf')
        kind = draw(pick('s0', 's0', 's0', 'snan', 'sinf', 'nnan', 'ninf',
                         'both'))
        if kind == 's0':
            s = 0.0
        elif kind == 'snan':
            s = nan
        elif kind == 'sinf':
            s = inf
        elif kind == 'nnan':
            n = nan
        elif kind == 'ninf':
            n = draw(pick(inf, -inf))
        else:
            n, s = draw(pick(nan, inf, -inf)), draw(pick(nan, inf, 0.0))
        return n, s
    return build()
