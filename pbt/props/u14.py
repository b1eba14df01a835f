"""U14: format options only change the layout they control."""
import math
from hypothesis import strategies as st
import uncertainties
from uncertainties import ufloat
from uncertainties import core as ucore

from ..core import Group, fail, require, lib
from ..gen import pick, ints, bools
from .. import fmt
from ..fmt import (parse_spec, make_spec, read_plain, read_short, layout, special,
                   decimals, finite_pairs, special_pairs)

ASSUMPTIONS = [
    'the displayed digits are those of the same format without options, width, '
    'sign and comma (U13 decides if they are right)',
    'no claim on the sign and zero padding of NaN and infinity in LaTeX, nor on '
    'the percent sign with both P and L']


def base_parts(x, n, p, s):
    """The displayed parts in the simplest format with the same digits."""
    q = dict(p, fill='', align='', sign='', zero='', width='', comma='',
             options='')
    if 'S' in p['options'] and not math.isfinite(n):
        parts = read_short(format(x, make_spec(dict(q, options='S'))))
    else:
        parts = read_plain(format(x, make_spec(q)))
    if parts and s == 0:
        # The shorthand notation and the exponents need it
        require(parts[1] == '0', 'null uncertainty written %r', parts[1])
    return parts


def expected(x, n, s, p, rec, **custom):
    parts = base_parts(x, n, p, s)
    if parts is None:
        # (see U13: exponent in a number that is just below a power of 10)
        rec.label('nested exponent')
        return None
    nom, err, exp, percent = parts
    opts = p['options']
    if 'L' in opts and special(nom) and (p['sign'] in ('+', ' ') or (
            p['zero'] and p['width'])):
        return None
    if 'L' in opts and special(err) and p['zero'] and p['width']:
        return None
    if 'P' in opts and 'L' in opts and percent:
        return None
    if 'S' in opts and len(err.replace('.', '')) > 15:
        return None
    return layout(nom, err, exp, p, s == 0, **custom)


def make(case):
    n, s = case['n'], case['s']
    return {'var': lambda: ufloat(n, s), 'neg': lambda: -ufloat(-n, s),
            'tag': lambda: ufloat(n, s, 'tag')}[case['form']]()


def labels(p, rec):
    rec.label('type %r' % p['type'], *['option ' + c for c in p['options']])
    for k in ('fill', 'align', 'sign', 'zero', 'width', 'comma', 'u'):
        if p[k]:
            rec.label(k)
    if p['align']:
        rec.label('align ' + p['align'])
    if p['width'] and p['zero']:
        rec.label('zero padding')


def check_layout(case, rec):
    x = make(case)
    n, s = x.nominal_value, float(x.std_dev)
    spec = case['spec']
    p = parse_spec(spec)
    require(p is not None, 'harness: %r', spec) if p is None else None
    labels(p, rec)
    with lib('format(%r+/-%r, %r)' % (n, s, spec)):
        want = expected(x, n, s, p, rec)
        got = format(x, spec)
        others = [x.format(spec), x.__format__(spec)]
        if not any(c in spec for c in '{}:!'):
            others.append(('{0:%s}' % spec).format(x))
        if spec == '':
            others += [str(x), '%s' % x, '{}'.format(x)]
    require(isinstance(got, str), '%r', type(got))
    for o in others:
        require(o == got, 'format(%r+/-%r, %r) gives %r or %r', n, s, spec, got,
                o)
    if want is None:
        rec.label('no claim')
        return
    require(got == want, 'format(%r+/-%r, %r) is %r, expected %r', n, s, spec,
            got, want)
    width = int(p['width'] or 0)
    rec.nontrivial(got != format(x, make_spec(dict(
        p, fill='', align='', sign='', zero='', width='', comma='',
        options=''))))


@st.composite
def specs(draw, n=None):
    p = {'fill': '', 'align': '', 'sign': '', 'zero': '', 'width': '',
         'comma': '', 'prec': None, 'u': '', 'type': '', 'options': ''}
    if draw(pick(0, 0, 1)):
        p['align'] = draw(pick('<', '>', '^', '='))
        if draw(bools):
            p['fill'] = draw(pick('*', '_', ' ', '0', 'x', '=', '<', '^', '.',
                                  u'\xe9', '+', '1', 'e', ',', '\t', '\n',
                                  u'\u2007', '>', '-', 'u', 'S', '%', '(', '$',
                                  '\\'))
    p['sign'] = draw(pick('', '', '', '+', '-', ' '))
    p['width'] = draw(pick('', '', '1', '4', '7', '10', '12', '15', '20', '31'))
    p['zero'] = draw(pick('', '', '0'))
    p['comma'] = draw(pick('', '', ','))
    p['u'] = draw(pick('', '', 'u'))
    p['prec'] = draw(pick(None, None, 0, 1, 2, 3, 4, 6, 9))
    if p['u'] and p['prec'] == 0:
        p['prec'] = 1
    p['type'] = draw(pick('', '', 'e', 'E', 'f', 'F', 'g', 'G', '%'))
    p['options'] = draw(pick('', '', 'P', 'L', 'S', 'p', 'SP', 'SL', 'PL', 'pP',
                             'pL', 'pS', 'LS', 'PS', 'SPL', 'Lp', 'PSLp', 'PP'))
    return make_spec(p)


def cases(values):
    @st.composite
    def build(draw):
        n, s = draw(values)
        return {'n': n, 's': s, 'spec': draw(specs()),
                'form': draw(pick('var', 'var', 'neg', 'tag'))}
    return build()


# Customisation of the exponents and of the grouping symbols, as documented

CUSTOM_EXP = {'pretty-print': lambda e: u' \xb7 10^(%d)' % e,
              'latex': lambda e: r' \cdot 10^{%d}' % e}
CUSTOM_GROUPS = {'pretty-print': ('[', ']'), 'latex': ('(', ')'),
                 'default': ('<', '>')}


def check_custom(case, rec):
    x = make(case)
    n, s = x.nominal_value, float(x.std_dev)
    p = parse_spec(case['spec'])
    labels(p, rec)
    want = expected(x, n, s, p, rec, exp_print=CUSTOM_EXP, groups=CUSTOM_GROUPS)
    saved = dict(ucore.EXP_PRINT), dict(ucore.GROUP_SYMBOLS)
    before = format(x, case['spec'])
    try:
        ucore.EXP_PRINT.update(CUSTOM_EXP)
        ucore.GROUP_SYMBOLS.update(CUSTOM_GROUPS)
        got = format(x, case['spec'])
    finally:
        ucore.EXP_PRINT.update(saved[0])
        ucore.GROUP_SYMBOLS.update(saved[1])
    if want is None:
        return
    require(got == want, 'customised format(%r+/-%r, %r) is %r, expected %r', n,
            s, case['spec'], got, want)
    rec.nontrivial(got != before)
    require(format(x, case['spec']) == before, 'format changed')


# Specifications that may be invalid

ALPHABET = ['<', '\n', '>', '^', '=', '+', '-', ' ', '0', '1', '5', '12', ',', '.',
            '.2', '.0', 'u', 'e', 'E', 'f', 'F', 'g', 'G', '%', 'P', 'S', 'L',
            'p', 'n', 'd', 's', 'x', '*', '{', '}', '_', '#', 'z', u'\xb1', 'U']


@st.composite
def maybe_specs(draw):
    how = draw(pick('tokens', 'mutation', 'mutation', 'swap'))
    if how == 'tokens':
        return ''.join(draw(st.lists(st.sampled_from(ALPHABET), max_size=6)))
    spec = draw(specs())
    if how == 'mutation':
        for _ in range(draw(ints(1, 2))):
            i = draw(ints(0, len(spec)))
            if draw(bools):
                spec = spec[:i] + draw(st.sampled_from(ALPHABET)) + spec[i:]
            else:
                spec = spec[:i] + spec[i + 1:]
    elif spec:
        i = draw(ints(0, len(spec) - 1))
        j = draw(ints(0, len(spec) - 1))
        chars = list(spec)
        chars[i], chars[j] = chars[j], chars[i]
        spec = ''.join(chars)
    return spec


@st.composite
def validity_cases(draw):
    n, s = draw(st.one_of(pick((1.5, 0.25), (12345.678, 0.02), (0.0, 0.0),
                               (1.5, 0.0), (-1e7, 3.2e4), (1.0, math.nan),
                               (math.inf, 1.0), (1e-9, 2e-8))))
    return {'n': n, 's': s, 'spec': draw(maybe_specs()), 'form': 'var'}


def check_validity(case, rec):
    x = make(case)
    n, s, spec = case['n'], case['s'], case['spec']
    p = parse_spec(spec)
    if p is not None and (len(p['width']) > 4 or (p['prec'] or 0) > 60):
        rec.label('too long')
        return
    try:
        got = format(x, spec)
    except ValueError as exc:
        if p is None:
            rec.label('invalid')
            rec.nontrivial()
            return
        if p['u'] and p['prec'] == 0 and s and math.isfinite(s):
            rec.label('no digit')
            return
        fail('format(%r+/-%r, %r) raised ValueError: %s', n, s, spec, exc)
    except Exception as exc:
        fail('format(%r+/-%r, %r) raised %s: %s', n, s, spec,
             type(exc).__name__, exc)
    require(p is not None, 'format(%r+/-%r, %r) is %r: ValueError expected', n,
            s, spec, got)
    require(not (p['u'] and p['prec'] == 0 and s and math.isfinite(s)),
            'format(%r+/-%r, %r) is %r: ValueError expected', n, s, spec, got)
    rec.label('valid')
    want = expected(x, n, s, p, rec)
    if want is not None:
        require(got == want, 'format(%r+/-%r, %r) is %r, expected %r', n, s,
                spec, got, want)


GROUPS = [
    Group('finite', cases(finite_pairs(30)), check_layout, 12000, 300000,
          'finite values and any valid specification; non-trivial: the layout '
          'differs from the simplest one'),
    Group('special', cases(special_pairs(30)), check_layout, 6000, 200000,
          'zero, NaN or infinite parts; non-trivial: the same'),
    Group('custom', cases(st.one_of(finite_pairs(30), special_pairs(30))),
          check_custom, 1500, 30000,
          'customised exponents and grouping symbols; non-trivial: they change '
          'the text'),
    Group('validity', validity_cases(), check_validity, 6000, 150000,
          'valid and invalid specifications; non-trivial: invalid'),
]
