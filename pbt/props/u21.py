"""U21: the 1to2 converter updates old code and nothing else."""
import ast
import io
import os
import shutil
import subprocess
import sys
import tempfile
import tokenize
import warnings
from hypothesis import strategies as st
import uncertainties
from uncertainties import UFloat, covariance_matrix

from .. import boot
from ..core import Group, fail, require, lib
from ..gen import *

ASSUMPTIONS = [
    'old forms written with a name (ufloat, uarray, umatrix) used directly or '
    'after one module name, with an explicit tuple or string without trailing '
    'comma (the others may be left unchanged, as the documentation says)',
    'set_std_dev() as a statement is converted, and left unchanged elsewhere',
    'ufloat_fromstr has been imported when ufloat was (known finding); comments '
    'are outside of the converted calls']

# Expressions are nested lists; a renderer gives the old and the new program.


class Render(object):
    def __init__(self, new, style, unc, un):
        self.new, self.style = new, style
        self.unc, self.un = unc, un

    def call(self, name, args):
        """A call, with some layout inside of the parentheses."""
        text = ', '.join(args)
        if self.style == 1:
            return '%s( %s )' % (name, text)
        if self.style == 2:
            return '%s(\n        %s)' % (name, ',\n        '.join(args))
        return '%s(%s)' % (name, text)

    def pair(self, name, a, b, tag):
        """ufloat((a, b)...) or ufloat(a, b...)"""
        tags = [tag] if tag else []
        if self.new:
            return self.call(name, [a, b] + tags)
        return self.call(name, ['(%s, %s)' % (a, b)] + tags)

    def tag(self, t):
        return {0: '', 1: '"t1"', 2: "tag='t2'", 3: "'a tag'"}[t]

    def num(self, e):
        k = e[0]
        if k == 'num':
            return e[1]
        if k == 'sd':
            return self.atom(e[1]) + ('.std_dev' if self.new else '.std_dev()')
        if k == 'sdcur':
            return self.atom(e[1]) + '.std_dev'
        if k == 'nom':
            return self.atom(e[1]) + '.nominal_value'
        if k == 'bin':
            return '(%s %s %s)' % (self.num(e[2]), e[1], self.num(e[3]))
        if k == 'sdpow':
            return self.num(['sd', e[1]]) + '**2'
        if k == 'neg':
            return '-' + self.num(e[1])
        if k == 'fn':
            return '%sstd_dev(%s)' % ('uncertainties.', self.ufl(e[1]))
        if k == 'idx':
            return self.arr(e[1]) + ('.std_devs' if self.new else
                                     '.std_devs()') + '[0, 0]'
        if k == 'sum':
            return self.arr(e[1]) + ('.std_devs' if self.new else
                                     '.std_devs()') + '.sum()'
        if k == 'sumcur':
            return self.arr(e[1]) + '.std_devs.sum()'
        if k == 'max':
            return 'max(%s, %s)' % (self.num(e[1]), self.num(e[2]))
        raise KeyError(k)

    def atom(self, e):
        """An expression that can be followed by an attribute."""
        text = self.ufl(e)
        return '(%s)' % text if e[0] == 'ubin' else text

    def ufl(self, e):
        k = e[0]
        if k == 'var':
            return e[1]
        if k == 'same':
            return 'same(%s)' % self.ufl(e[1])
        if k == 'mk':
            return self.pair(self.unc + 'ufloat', self.num(e[1]), self.num(e[2]),
                             self.tag(e[3]))
        if k == 'mkcur':
            args = [self.num(e[1]), self.num(e[2])]
            if e[3]:
                args.append(self.tag(e[3]))
            return self.call(self.unc + 'ufloat', args)
        if k == 'str':
            args = [e[1]] + ([self.tag(e[2])] if e[2] else [])
            return self.call(self.unc + ('ufloat_fromstr' if self.new
                                         else 'ufloat'), args)
        if k == 'strcur':
            return self.unc + 'ufloat_fromstr(%s)' % e[1]
        if k == 'ubin':
            return '%s %s %s' % (self.atom(e[2]), e[1], self.atom(e[3]))
        if k == 'item':
            return '%s[0, 1]' % self.arr(e[1])
        raise KeyError(k)

    def arr(self, e):
        k = e[0]
        if k == 'avar':
            return e[1]
        name = self.un + 'umatrix'
        if k == 'amk':
            v, s = ['[%s]' % ', '.join(self.num(x) for x in row) for row in e[1:]]
            return self.pair(name, v, s, '')
        if k == 'acur':
            v, s = ['[%s]' % ', '.join(self.num(x) for x in row) for row in e[1:]]
            return self.call(name, [v, s])
        if k == 'apair':
            return '%s(%s%s)' % (name, '*' if self.new else '', e[1])
        if k == 'astar':
            return '%s(*%s)' % (name, e[1])
        raise KeyError(k)

    def ufl_array(self, e):
        """The same for uarray."""
        return self.arr(e).replace('umatrix', 'uarray', 1)


def is_old(e):
    """Has the expression an old form?"""
    if isinstance(e, list):
        return e and e[0] in ('sd', 'sdpow', 'idx', 'sum', 'mk', 'str', 'amk',
                              'apair') or any(map(is_old, e))
    return False


NUMS = ['1', '2.5', '0.25', '3e-1', '10', '.5']
TEXTS = ['"1.23(4)"', "'3+/-0.5'", '"-1.2+/-0.1"', '"(1.5+/-0.2)e3"',
         "'''12(2)'''", 'r"5.00(1)"', '"10"', 'u"1.5(1)"', 'R"2.5(1)e2"',
         'u\'1.25±0.50\'', 'u"(3.0±0.2)×10²"', 'r\'\'\'7(1)\'\'\'',
         '"  4.5(1) "', '"\\x31.5(2)"']
HELPERS = '''\
def same(x):
    return x


pair_a = ([1., 2.], [0.1, 0.2])
pair_b = [[3., 4.5], [0.25, 0.5]]
'''


@cached
def numbers(depth, nv, na):
    base = [st.sampled_from(NUMS).map(lambda t: ['num', t])]
    if depth <= 0:
        return base[0]
    u = ufloats(depth - 1, nv, na)
    n = numbers(depth - 1, nv, na)
    out = base + [st.tuples(pick('sd', 'sd', 'sd', 'sdpow', 'sdcur', 'nom', 'fn'),
                            u).map(list)] * 3
    out.append(st.tuples(st.just('bin'), pick('+', '*', '-'), n, n).map(list))
    out.append(st.tuples(st.just('neg'), n).map(list))
    out.append(st.tuples(st.just('max'), n, n).map(list))
    out.append(st.tuples(pick('idx', 'sum', 'sumcur'),
                         matrices(depth - 1, nv, na)).map(list))
    return st.one_of(*out)


@cached
def ufloats(depth, nv, na):
    out = [ints(0, nv - 1).map(lambda k: ['var', 'x%d' % k])] * 3
    if depth > 0:
        n = numbers(depth - 1, nv, na)
        plain = n.map(lambda e: ['num', '0.5'] if e[0] == 'neg' else e)
        out.append(st.tuples(
            pick('mk', 'mk', 'mkcur'), n, plain.map(positive), ints(0, 3)
            ).map(list))
        out.append(st.tuples(st.just('str'), st.sampled_from(TEXTS),
                             ints(0, 3)).map(list))
        out.append(st.sampled_from(TEXTS).map(lambda t: ['strcur', t]))
        u = ufloats(depth - 1, nv, na)
        out.append(st.tuples(st.just('ubin'), pick('+', '-', '*'), u, u)
                   .map(list))
        out.append(u.map(lambda e: ['same', e]))
        out.append(matrices(depth - 1, nv, na).map(lambda e: ['item', e]))
    return st.one_of(*out)


def positive(e):
    """A non-negative version of a number."""
    return e if e[0] in ('num', 'sd', 'sdpow', 'sdcur', 'fn', 'idx', 'sum',
                         'sumcur') else ['num', '0.75']


@cached
def matrices(depth, nv, na):
    out = [ints(0, na - 1).map(lambda k: ['avar', 'm%d' % k])] * 3
    if depth > 0:
        row = st.tuples(numbers(depth - 1, nv, na),
                        numbers(depth - 1, nv, na)).map(list)
        srow = st.tuples(*[numbers(depth - 1, nv, na).map(positive)] * 2
                         ).map(list)
        out.append(st.tuples(pick('amk', 'acur'), row, srow).map(list))
        out.append(st.tuples(pick('apair', 'apair', 'astar'),
                             pick('pair_a', 'pair_b')).map(list))
    return st.one_of(*out)


# Statements that must not change: they look like old code
LOOKALIKES = [
    '# x0.std_dev() and ufloat((1, 2)) in a comment',
    's = "x0.std_dev() and ufloat((1, 2))"',
    's = """\nx0.set_std_dev(3)\nuarray(x)\n"""',
    'setter = x0.set_std_dev',
    'reader = lambda v: x1.set_std_dev(v)',
    'def my_ufloat(pair):\n    "Doc of ufloat((1, 2))."\n    return pair[0]',
    'd = {"ufloat": (1, 2), "std_dev": 3}',
    'std_devs = [1, 2];  std_dev  = 2 # spaces  here',
    'class A(object):\n\n    std_dev = 3\n\n    def set_std_dev2(self, v): pass',
    'z = (1,\n     2, # two\n     3)',
    'uarray2 = [i for i in range(3) if i != 1]',
    'y = x0.std_dev\ny2 = x1 .std_dev',
    'x0.std_dev = 0.5',
    'm = uncertainties.unumpy.std_devs([x0, 3])',
    'k = 1 + \\\n    2',
    'if True: pass\nelse:\n\tk = 3',
    'try:\n    k = 1\nfinally:\n    pass',
    'w = uncertainties.nominal_value(x0)  # ufloat("1")',
    '@same\ndef f(ufloat2, umatrix2=3, *args, **kwargs): return args',
    'del_ = [[1, 2], [3, 4]][0][1]',
    'x1 = uncertainties.ufloat(*(1, 2))',
    'x2 = uncertainties.ufloat(nominal_value=1, std_dev=2)',
    'x1 = uncertainties.ufloat( 3 , 0.25,tag = "z" )',
    "x2 = uncertainties.ufloat_fromstr(  u'1(2)','s')",
    'ufl, arr = uncertainties.ufloat, uncertainties.unumpy.uarray\n'
    'v = ufl(1, 2)',
    't = f"{x0.std_dev} ufloat((1, 2)) {x1!r:>10}" u"std_dev()"\nk = rb"" b"std_dev()"',
    'class B(object):\n    def std_dev(self, a=1): return 1\n'
    '    def ufloat(self, a):\n        return a\nk = B().std_dev',
    'k = [(1, 2), (3, 4), ("std_dev()",)]',
    'def umatrix3(pair): return pair\nk = umatrix3((1, 2))',
    'std_devs2 = lambda: x1.std_dev\nk = std_devs2 ()',
    'global_ = 0xFF + 1_000 + 0o17 + 1e5 + 1.E+3 + 2j .real',
    'async def coro(x): return await x\nk = {**{}, "a": [*range(3)]}',
    'k = x0.format("S") ; k2=x0.error_components ( )',
]
COMMENTS = ['', '', '', '  # comment', '   #x.std_dev()', ' # ufloat((1, 2))']


@st.composite
def programs(draw):
    nv, na = 3, 2
    depth = 3
    n = numbers(depth, nv, na)
    u = ufloats(depth, nv, na)
    m = matrices(2, nv, na)
    sts = []
    for _ in range(draw(ints(1, 7))):
        kind = draw(pick('U', 'U', 'N', 'N', 'N', 'M', 'set', 'set', 'setcur',
                         'look', 'look', 'if', 'for', 'def', 'lambda', 'comp',
                         'semi', 'arr'))
        s = {'kind': kind, 'comment': draw(st.sampled_from(COMMENTS)),
             'style': draw(pick(0, 0, 0, 1, 2)), 'k': draw(ints(0, 2))}
        if kind == 'set':
            s['lines'] = draw(pick(0, 0, 0, 1, 2, 3))
        if kind in ('U', 'for', 'semi'):
            s['e'] = draw(u)
        elif kind in ('N', 'if', 'def', 'comp', 'lambda'):
            s['e'] = draw(n)
        elif kind in ('set', 'setcur'):
            s['e'] = positive(draw(n))
        elif kind in ('M', 'arr'):
            s['e'] = draw(m)
        else:
            s['e'] = draw(ints(0, len(LOOKALIKES) - 1))
        sts.append(s)
    return {'imports': draw(ints(0, 3)), 'statements': sts}


IMPORTS = [
    ('from uncertainties import ufloat, ufloat_fromstr\n'
     'from uncertainties.unumpy import uarray, umatrix\n'
     'import uncertainties, uncertainties.unumpy\n', '', ''),
    ('import uncertainties, uncertainties.unumpy\nimport uncertainties as unc\n'
     'from uncertainties import unumpy as un\n', 'unc.', 'un.'),
    ('from uncertainties import *\nimport uncertainties\n'
     'from uncertainties import unumpy\n', '', 'unumpy.'),
    ('import uncertainties\nfrom uncertainties.unumpy import *\n'
     'import uncertainties.unumpy\n', 'uncertainties.', ''),
]


def statement(s, new, unc, un):
    """The text of a statement (without the final newline)."""
    r = Render(new, s['style'], unc, un)
    kind, k, e = s['kind'], s['k'], s['e']
    x = 'x%d' % k
    if kind == 'look':
        return LOOKALIKES[e]
    if kind == 'U':
        text = '%s = %s' % (x, r.ufl(e))
    elif kind == 'M':
        text = 'm%d = %s' % (k % 2, r.arr(e))
    elif kind == 'arr':
        if e[0] == 'avar':
            text = 'result.append(%s)' % e[1]
        else:
            text = 'result.append(%s)' % r.ufl_array(e)
    elif kind == 'N':
        text = 'result.append(%s)' % r.num(e)
    elif kind == 'set':
        v = r.num(e)
        if s.get('lines'):      # an expression on several lines
            v += ('\n', ' +\n  0', '\n  or 3', '\n     if x1 else\n 2')[s['lines']]
            v = v.rstrip('\n')
        if new:
            text = '%s.std_dev = %s' % (x, '(%s)' % v if '\n' in v else v)
        else:
            text = r.call(x + '.set_std_dev', [v])
    elif kind == 'setcur':
        text = '%s.std_dev = (%s)' % (x, r.num(e))
    elif kind == 'if':
        text = 'if %s > 0.4:  # if\n    result.append((%s)*2)' % (
            r.num(e), r.num(e))
        text += '\n    for q in [x0, x1]:\n        ' + (
            'q.std_dev = 0.125' if new else 'q.set_std_dev(0.125)')
    elif kind == 'for':
        text = 'for q in [x1, %s]:\n    result.append(q.std_dev%s)' % (
            r.ufl(e), '' if new else '()')
    elif kind == 'def':
        text = 'def f(x0, t=3):\n    "doc"\n    return (t,\n            %s)\n' \
            '\nresult.append(f(x1)[1])' % r.num(e)
    elif kind == 'lambda':
        text = 'f = lambda x1: (%s)\nresult.append(f(x2))' % r.num(e)
    elif kind == 'comp':
        text = 'result.extend([(%s) for x0 in [x1, x2] if x0.std_dev%s >= 0])' % (
            r.num(e), '' if new else '()')
    elif kind == 'semi':
        text = 'result.append(%s); x0.std_dev%s;  k = 2' % (
            r.ufl(e), '' if new else '()')
    return text + s['comment']


def has_old(s):
    return s['kind'] in ('set', 'if', 'for', 'comp', 'semi') or (
        s['kind'] not in ('look',) and is_old(s['e']))


def program(case, new):
    header, unc, un = IMPORTS[case['imports']]
    chunks = [header, HELPERS,
              'result = []\nx0 = %sufloat(1, 0.5)\nx1 = %sufloat(2, 0.25, "v")\n'
              'x2 = x0 + 3*x1\nm0 = %sumatrix([1, 2], [0.5, 0.25])\n'
              'm1 = %sumatrix(*pair_a)\n' % (unc, unc, un, un)]
    for s in case['statements']:
        # only variables have a settable standard deviation
        if s['kind'] in ('set', 'setcur', 'if', 'look'):
            chunks.append('x%d = %sufloat(4, 0.5)\nx0 = %sufloat(5, 1)\n'
                          'x1 = %sufloat(6, 2)\n' % (s['k'], unc, unc, unc))
        chunks.append(statement(s, new, unc, un) + '\n')
    return chunks


_tool = []


def converter():
    if not _tool:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            from lib2to3 import refactor
            fixers = refactor.get_fixers_from_package(
                'uncertainties.lib1to2.fixes')
            require(len(fixers) >= 4, 'fixers found: %s', fixers)
            _tool.append(refactor.RefactoringTool(fixers))
    return _tool[0]


def convert(text):
    with lib('conversion of %r' % text):
        return str(converter().refactor_string(text, '<generated>'))


def comments(text):
    return [t.string for t in tokenize.generate_tokens(io.StringIO(text).readline)
            if t.type == tokenize.COMMENT]


def words(text):
    """Strings, numbers and names, to the last character."""
    return [t.string for t in tokenize.generate_tokens(io.StringIO(text).readline)
            if t.type in (tokenize.STRING, tokenize.NUMBER, tokenize.NAME)]


def execute(text):
    """Namespace after the program, and the obsolescence warnings."""
    space = {'__name__': 'generated'}
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        exec(compile(text, '<program>', 'exec'), space)
    return space, [str(w.message) for w in caught
                   if not issubclass(w.category, DeprecationWarning) or
                   'uncertainties' in str(w.message).lower()]


def collect(space):
    values, names = [], []
    items = [('result[%d]' % k, v) for k, v in enumerate(space['result'])]
    items += [(n, space[n]) for n in ('x0', 'x1', 'x2', 'm0', 'm1')]
    for name, v in items:
        if isinstance(v, np.ndarray):
            v = np.asarray(v).ravel().tolist()
        for x in v if isinstance(v, list) else [v]:
            names.append(name)
            values.append(x)
    return names, values


def compare(old, new):
    names, a = collect(old)
    _, b = collect(new)
    require(len(a) == len(b), 'the converted program gives %r, the program %r',
            b, a)
    us, vs = [], []
    for name, x, y in zip(names, a, b):
        if isinstance(x, UFloat):
            require(isinstance(y, UFloat) and same_float(
                x.nominal_value, y.nominal_value) and
                same_float(float(x.std_dev), float(y.std_dev)) and
                getattr(x, 'tag', None) == getattr(y, 'tag', None),
                '%s is %r in the program and %r in the converted program', name,
                x, y)
            us.append(x)
            vs.append(y)
        else:
            require(not isinstance(y, UFloat) and same_float(x, y),
                    '%s is %r in the program and %r in the converted program',
                    name, x, y)
    if us:
        ca, cb = np.array(covariance_matrix(us)), np.array(covariance_matrix(vs))
        require((ca == cb).all(), 'covariances: %r and %r', ca, cb)


def check(case, rec):
    chunks = program(case, False)
    old = ''.join(chunks)
    want = ''.join(program(case, True))
    got = convert(old)
    try:
        tree = ast.parse(got)
    except SyntaxError as exc:
        fail('the conversion of %r is not valid: %s: %r', old, exc, got)
    if ast.dump(tree) != ast.dump(ast.parse(want)):
        diff = [(g, w) for g, w in zip(got.splitlines(), want.splitlines())
                if g != w]
        fail('the conversion of\n%s\ngives\n%s\n(first difference: %r)', old,
             got, diff[:1])
    require(convert(got) == got, 'second conversion of %r: %r', got,
            convert(got))
    require(comments(got) == comments(old), 'comments changed: %r, were %r',
            comments(got), comments(old))
    got_words, want_words = words(got), words(want)
    require(got_words == want_words, 'the conversion of\n%s\nhas other strings, '
            'numbers or names: %r', old, [
                p for p in zip(got_words, want_words) if p[0] != p[1]][:1])
    # Statements without old forms are the same, to the last character
    position = 0
    kept = [(c, None) for c in chunks[:3]]
    body = [c for c in chunks[3:]]
    fixed = {statement(s, False, *IMPORTS[case['imports']][1:]) + '\n'
             for s in case['statements'] if not has_old(s)}
    for c in [c for c, _ in kept] + [c for c in body if c in fixed]:
        at = got.find(c, position)
        require(at >= 0, 'the conversion changed %r in\n%s', c, got)
        position = at + len(c)
    n_old = sum(map(has_old, case['statements']))
    if n_old == 0:
        require(got == old, 'conversion of current code: %r', got)
    before, warned = execute(old)
    after, warned_after = execute(got)
    require(not warned_after, 'the converted program warns: %s\n%s', warned_after,
            got)
    compare(before, after)
    rec.label(*('statement ' + s['kind'] for s in case['statements']))
    rec.label('imports %d' % case['imports'])
    if warned:
        rec.label('old program warns')
    rec.nontrivial(n_old > 0)


# The command-line program

@st.composite
def cli_cases(draw):
    return {'programs': draw(st.lists(programs(), min_size=1, max_size=4)),
            'write': draw(pick(True, True, False)),
            'backup': draw(bools), 'tree': draw(bools)}


def check_cli(case, rec):
    scratch = tempfile.mkdtemp(prefix='u21-')
    try:
        files = {}
        for k, p in enumerate(case['programs']):
            folder = os.path.join(scratch, 'code', 'sub%d' % (k % 2))
            os.makedirs(folder, exist_ok=True)
            name = os.path.join(folder, 'prog%d.py' % k)
            text = ''.join(program(p, False))
            with open(name, 'w') as f:
                f.write(text)
            files[name] = text
        other = os.path.join(scratch, 'code', 'notes.txt')
        with open(other, 'w') as f:
            f.write('ufloat((1, 2))\n')
        cmd = [sys.executable, '-B', '-W', 'ignore', '-m', 'uncertainties.1to2']
        if case['write']:
            cmd.append('-w')
            if not case['backup']:
                cmd.append('-n')
        cmd += [os.path.join(scratch, 'code')] if case['tree'] else sorted(files)
        env = dict(os.environ, PYTHONPATH=boot.REPO, PYTHONDONTWRITEBYTECODE='1')
        run = subprocess.run(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, timeout=120, text=True)
        require(run.returncode == 0, 'python -m uncertainties.1to2 exits with %d: '
                '%s', run.returncode, run.stderr[-500:])
        changed = 0
        for name, text in files.items():
            want = convert(text)
            changed += want != text
            with open(name) as f:
                got = f.read()
            require(got == (want if case['write'] else text),
                    'the program wrote %r, the conversion is %r', got, want)
            backup = os.path.exists(name + '.bak')
            expect = case['write'] and case['backup'] and want != text
            require(backup == expect, 'backup: %s, expected %s', backup, expect)
            if backup:
                with open(name + '.bak') as f:
                    require(f.read() == text, 'the backup has changed')
            if want != text and not case['write']:
                require(os.path.basename(name) in run.stdout,
                        'no difference is printed: %r', run.stdout)
        with open(other) as f:
            require(f.read() == 'ufloat((1, 2))\n', 'another file was changed')
        rec.label('write' if case['write'] else 'show')
        rec.nontrivial(changed > 0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check_import(case, rec):
    """Known finding: the name ufloat_fromstr is used but not imported."""
    text = 'from uncertainties import ufloat\nx = ufloat(%r)\n' % case['text']
    got = convert(text)
    space = {}
    try:
        exec(got, space)
    except NameError as exc:
        fail('%s', exc)


FINDING_CHECKS = {'import': check_import}
GROUPS = [
    Group('programs', programs(), check, 4000, 100000,
          'programs of 1 to 7 statements that mix old and current forms in '
          'nested expressions, function bodies, loops, comprehensions, with '
          'comments, strings and names that look like old forms, written by two '
          'renderers; both programs are run; non-trivial: an old form is present'),
    Group('command', cli_cases(), check_cli, 48, 1000,
          'folders of such programs given to python -m uncertainties.1to2; '
          'non-trivial: a file changes'),
]
