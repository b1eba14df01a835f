"""mutate.py survivors OUT.json [FILE...]   mutants that pass the stable tests
mutate.py slips OUT.json [FILE...]       the same, with larger slips (names
                                         exchanged, swapped statements, ...)
mutate.py check IN.json OUT.json [ID...]      try the checks on them

Systematic small changes of the code (operators, comparisons, constants,
conditions, deleted statements, exceptions, strings), as a measure of what the
checks detect. Mutants are made in scratch copies of /repo."""
import ast
import concurrent.futures
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from plant import PY, ENV, sh

FILES = ['uncertainties/core.py', 'uncertainties/umath_core.py',
         'uncertainties/umath.py', 'uncertainties/__init__.py',
         'uncertainties/unumpy/core.py', 'uncertainties/unumpy/__init__.py',
         'uncertainties/unumpy/ulinalg.py',
         'uncertainties/lib1to2/fixes/fix_std_dev.py',
         'uncertainties/lib1to2/fixes/fix_std_devs.py',
         'uncertainties/lib1to2/fixes/fix_uarray_umatrix.py',
         'uncertainties/lib1to2/fixes/fix_ufloat.py']
COMPARE = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='],
           ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
           ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
           ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'],
       ast.FloorDiv: ['/'], ast.Mod: ['*'], ast.Pow: ['*'],
       ast.BitOr: ['&']}


class Source(object):
    def __init__(self, text):
        self.text = text
        self.data = text.encode('utf8')
        self.starts = [0]
        for line in self.data.split(b'\n'):
            self.starts.append(self.starts[-1] + len(line) + 1)

    def pos(self, line, col):
        return self.starts[line - 1] + col

    def span(self, node):
        return (self.pos(node.lineno, node.col_offset),
                self.pos(node.end_lineno, node.end_col_offset))

    def get(self, node):
        a, b = self.span(node)
        return self.data[a:b].decode('utf8')

    def put(self, a, b, new):
        return (self.data[:a] + new.encode('utf8') + self.data[b:]).decode(
            'utf8')


def mutants(text):
    """(line, description, new text)"""
    src = Source(text)
    tree = ast.parse(text)
    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.FunctionDef, ast.ClassDef)):
            if node.body and isinstance(node.body[0], ast.Expr):
                docs.add(node.body[0].value)
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            docs.add(node.value)
        if (isinstance(node, ast.Call) and isinstance(node.func, (ast.Attribute,
                                                                   ast.Name))):
            name = getattr(node.func, 'attr', getattr(node.func, 'id', ''))
            if name == 'set_doc':
                docs.update(ast.walk(node))
            if name == 'deprecation':
                docs.update(ast.walk(node))
        if isinstance(node, ast.Raise) and node.exc:
            docs.update(n for n in ast.walk(node)
                        if not isinstance(n, ast.Raise))

    def change(node, new, what):
        a, b = src.span(node)
        return node.lineno, what, src.put(a, b, new)

    for node in ast.walk(tree):
        if node in docs:
            continue
        if isinstance(node, ast.Compare):
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                a, b = src.span(left)[1], src.span(right)[0]
                gap = src.data[a:b].decode('utf8')
                for new in COMPARE[type(op)]:
                    core = gap.strip(' ()')
                    yield (node.lineno, '%s -> %s in %s' % (
                        core, new, src.get(node)[:60]),
                        src.put(a, b, gap.replace(core, new) if core else gap))
                left = right
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            if (isinstance(node.op, ast.Mod) and isinstance(
                    node.left, (ast.Constant, ast.JoinedStr))):
                continue
            a, b = src.span(node.left)[1], src.span(node.right)[0]
            gap = src.data[a:b].decode('utf8')
            core = gap.strip(' ()\\\n')
            for new in BIN[type(node.op)]:
                yield (node.lineno, '%s -> %s in %s' % (
                    core, new, src.get(node)[:60]),
                    src.put(a, b, gap.replace(core, new)))
            for side in (node.left, node.right):
                yield change(node, src.get(side), 'only %s of %s' % (
                    src.get(side)[:40], src.get(node)[:60]))
        elif isinstance(node, ast.BoolOp):
            for k in range(len(node.values)):
                rest = [src.get(v) for i, v in enumerate(node.values) if i != k]
                word = ' and ' if isinstance(node.op, ast.And) else ' or '
                yield change(node, '(' + word.join(
                    '(%s)' % r for r in rest) + ')', 'drop %s of %s' % (
                        src.get(node.values[k])[:40], src.get(node)[:60]))
            word = ' or ' if isinstance(node.op, ast.And) else ' and '
            yield change(node, '(' + word.join(
                '(%s)' % src.get(v) for v in node.values) + ')',
                'and <-> or in ' + src.get(node)[:60])
        elif isinstance(node, ast.UnaryOp):
            if isinstance(node.op, (ast.Not, ast.USub)):
                yield change(node, '(%s)' % src.get(node.operand),
                             'drop %s' % src.get(node)[:60])
        elif isinstance(node, ast.IfExp):
            yield change(node, '(%s)' % src.get(node.body),
                         'always first of ' + src.get(node)[:60])
            yield change(node, '(%s)' % src.get(node.orelse),
                         'always last of ' + src.get(node)[:60])
        elif isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                yield change(node, str(not v), 'not %s' % v)
            elif isinstance(v, int):
                yield change(node, '%d' % (v + 1), '%d + 1' % v)
                yield change(node, '(%d)' % (v - 1), '%d - 1' % v)
            elif isinstance(v, float):
                yield change(node, '(%r)' % (v + 1), '%r + 1' % v)
                yield change(node, '(%r)' % (v * 1.0001), '%r * 1.0001' % v)
            elif isinstance(v, str) and v and not src.get(node).startswith(
                    ('"""', "'''")) and '\n' not in src.get(node):
                yield change(node, "''", '%r -> empty' % v[:60])
                if len(v) > 1 and len(v) < 200:
                    text1 = src.get(node)
                    q = text1.index(text1[-1])
                    body = text1[q + 1:-1]
                    for k in range(len(body)):
                        if body[k] in '\\ ' or k and body[k - 1] == '\\':
                            continue
                        yield change(node, text1[:q + 1] + body[:k]
                                     + body[k + 1:] + text1[-1],
                                     'drop %r (position %d) of %r' % (
                                         body[k], k, v[:60]))
        elif isinstance(node, (ast.If, ast.While)):
            for new in ('True', 'False'):
                if isinstance(node, ast.While) and new == 'True':
                    continue
                yield change(node.test, new, 'condition %s -> %s' % (
                    src.get(node.test)[:60], new))
        elif isinstance(node, ast.comprehension):
            for test in node.ifs:
                yield change(test, 'True', 'filter %s -> True' %
                             src.get(test)[:60])
        elif isinstance(node, ast.ExceptHandler):
            if isinstance(node.type, ast.Tuple):
                for k in range(len(node.type.elts)):
                    rest = [src.get(e) for i, e in enumerate(node.type.elts)
                            if i != k]
                    yield change(node.type, '(%s,)' % ', '.join(rest),
                                 'do not catch %s' % src.get(
                                     node.type.elts[k]))
        elif isinstance(node, ast.Call):
            name = src.get(node.func)
            if len(node.args) == 1 and not node.keywords and name.split(
                    '.')[-1] in ('abs', 'float', 'int', 'list', 'tuple', 'set',
                                 'copy', 'round', 'max', 'min', 'str', 'bool'):
                yield change(node, '(%s)' % src.get(node.args[0]),
                             'drop the call %s' % src.get(node)[:60])
            if name.endswith('.copy') and not node.args:
                yield change(node, src.get(node.func.value),
                             'drop the call %s' % src.get(node)[:60])
            for kw in node.keywords:
                if kw.arg and len(node.keywords) + len(node.args) > 1:
                    a, b = src.span(kw)
                    rest = src.data[b:]
                    tail = rest.lstrip()
                    if tail.startswith(b','):
                        b = len(src.data) - len(tail) + 1
                        yield (node.lineno, 'drop keyword %s' %
                               src.get(kw)[:60], src.put(a, b, ''))
                    else:
                        head = src.data[:a].rstrip()
                        if head.endswith(b','):
                            yield (node.lineno, 'drop keyword %s' %
                                   src.get(kw)[:60], src.put(len(head) - 1, b,
                                                             ''))
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)
                      ) or isinstance(node, ast.Expr):
            if not (isinstance(node, ast.Expr) and node.value in docs):
                yield change(node, 'pass', 'delete %s' % src.get(node)[:60])
        if isinstance(node, ast.AugAssign):
            a, b = src.span(node.target)[1], src.span(node.value)[0]
            yield (node.lineno, 'plain assignment in %s' % src.get(node)[:60],
                   src.put(a, b, ' = '))
        if isinstance(node, (ast.Set, ast.List, ast.Tuple, ast.Dict)) and not (
                isinstance(getattr(node, 'ctx', None), ast.Store)):
            items = (list(zip(node.keys, node.values))
                     if isinstance(node, ast.Dict) else
                     [(e, e) for e in node.elts])
            for k, (first, last) in enumerate(items):
                if first is None or len(items) < 2:
                    continue
                a, b = src.span(first)[0], src.span(last)[1]
                tail = src.data[b:].lstrip()
                if tail.startswith(b','):
                    b = len(src.data) - len(tail) + 1
                    yield (first.lineno, 'drop item %s' %
                           src.data[a:b].decode('utf8')[:60],
                           src.put(a, b, ''))


PAIRS = [('max', 'min'), ('any', 'all'), ('nominal_value', 'std_dev'),
         ('_nominal_value', '_std_dev'), ('math.floor', 'math.ceil'),
         ('isnan', 'isinf'), ('isinfinite', 'isnan'), ('isinfinite', 'isinf'),
         ('nom_val', 'std_dev'), ('nom_val_main', 'error_main'),
         ('derivatives1', 'derivatives2'), ('upper', 'lower'),
         ('lstrip', 'rstrip'), ('rjust', 'ljust'), ('split', 'rsplit'),
         ('lstrip', 'strip'), ('rstrip', 'strip'), ('match', 'search'),
         ('asarray', 'array'), ('__mul__', '__add__'), ('sorted', 'list'),
         ('nominal_values', 'std_devs'), ('search', 'match'),
         ('args', 'args_values'), ('x', 'y'), ('expr1', 'expr2')]


def slips(text):
    """Larger changes, like those made when code is copied or moved."""
    src = Source(text)
    tree = ast.parse(text)

    def change(node, new, what):
        a, b = src.span(node)
        return node.lineno, what, src.put(a, b, new)
    other = {}
    for a, b in PAIRS:
        other.setdefault(a, []).append(b)
        other.setdefault(b, []).append(a)
    simple = (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)
    for node in ast.walk(tree):
        # Names of the same function, exchanged
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            names = [a.arg for a in node.args.args]
            used = [n for n in ast.walk(node) if isinstance(n, ast.Name)]
            stored = [n.id for n in used if isinstance(n.ctx, ast.Store)]
            local = sorted(set(names + stored))
            for n in used:
                if isinstance(n.ctx, ast.Load) and n.id in local:
                    near = sorted((x for x in local if x != n.id), key=lambda x: (
                        -len(os.path.commonprefix([x, n.id])),
                        -len(set(x) & set(n.id))))
                    for x in near[:2]:
                        yield change(n, x, 'name %s -> %s' % (n.id, x))
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            for x in other.get(node.id, []):
                yield change(node, x, 'name %s -> %s' % (node.id, x))
        if isinstance(node, ast.Attribute):
            for x in other.get(node.attr, []):
                yield change(node, src.get(node.value) + '.' + x,
                             'attribute %s -> %s' % (src.get(node), x))
        if isinstance(node, ast.Call):
            args = node.args
            for k in range(len(args) - 1):
                a, b = args[k], args[k + 1]
                new = (src.get(b) + ', ' + src.get(a))
                start, end = src.span(a)[0], src.span(b)[1]
                yield node.lineno, 'swap the arguments %s' % src.get(
                    node)[:60], src.put(start, end, new)
            if src.get(node.func) == 'isinstance' and len(args) == 2:
                yield change(node, '(type(%s) is %s)' % (
                    src.get(args[0]), src.get(args[1])), 'exact type in %s'
                    % src.get(node)[:60])
            elif len(args) == 1 and not node.keywords and src.get(
                    node.func) not in ('super', 'set_doc'):
                yield change(node, src.get(args[0]), 'drop the call %s' %
                             src.get(node)[:60])
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            left, right = src.get(node.left), src.get(node.comparators[0])
            if isinstance(node.ops[0], ast.Is) and right == 'None':
                yield change(node, '(not %s)' % left, 'not %s' % left)
            elif isinstance(node.ops[0], ast.IsNot) and right == 'None':
                yield change(node, '(%s)' % left, 'truth of %s' % left)
        if isinstance(node, (ast.If, ast.IfExp)) and isinstance(
                node.test, (ast.Name, ast.Attribute, ast.Subscript)):
            yield change(node.test, src.get(node.test) + ' is not None',
                         '%s is not None' % src.get(node.test))
        if isinstance(node, ast.ExceptHandler) and node.type is not None:
            yield change(node.type, 'Exception', 'any exception instead of %s' %
                         src.get(node.type))
            if node.body and not isinstance(node.body[-1], ast.Raise):
                a, b = src.span(node.body[0])[0], src.span(node.body[-1])[1]
                yield (node.lineno, 'raise again %s' % src.get(node.type),
                       src.put(a, b, 'raise'))
        if isinstance(node, ast.Return) and node.value is not None:
            yield change(node.value, 'None', 'return None instead of %s' %
                         src.get(node.value)[:60])
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            yield change(node, src.get(node.value), 'no slice in %s' %
                         src.get(node))
        if isinstance(node, ast.For):
            yield change(node.iter, 'list(%s)[:1]' % src.get(node.iter),
                         'only the first in %s' % src.get(node.iter)[:60])
            yield change(node.iter, 'list(%s)[1:]' % src.get(node.iter),
                         'not the first in %s' % src.get(node.iter)[:60])
            yield change(node.iter, 'list(%s)[:-1]' % src.get(node.iter),
                         'not the last in %s' % src.get(node.iter)[:60])
        for field in ('body', 'orelse', 'finalbody'):
            block = getattr(node, field, None)
            if not isinstance(block, list):
                continue
            for a, b in zip(block, block[1:]):
                if isinstance(a, simple) and isinstance(b, simple) and not (
                        isinstance(getattr(a, 'value', None), ast.Constant)):
                    (a0, a1), (b0, b1) = src.span(a), src.span(b)
                    gap = src.data[a1:b0].decode('utf8')
                    yield a.lineno, 'swap the statements %s' % src.get(
                        a)[:60], src.put(a0, b1, src.get(b) + gap + src.get(a))
            if field == 'orelse' and block and isinstance(node, ast.If):
                a, b = src.span(block[0])[0], src.span(block[-1])[1]
                yield block[0].lineno, 'no else', src.put(a, b, 'pass')


def all_mutants(files, mutants=mutants):
    for path in files:
        text = open(os.path.join('/repo', path), encoding='utf8').read()
        seen = set([text])
        for line, what, new in mutants(text):
            if new in seen:
                continue
            seen.add(new)
            try:
                compile(new, path, 'exec')
            except (SyntaxError, ValueError):
                continue
            yield {'file': path, 'line': line, 'what': what, 'text': new}


class Scratch(object):
    """A pool of scratch copies."""
    def __init__(self, n):
        self.base = tempfile.mkdtemp(prefix='mutate_')
        self.free = queue.Queue()
        for k in range(n):
            work = os.path.join(self.base, 'r%d' % k)
            subprocess.run(['cp', '-a', '/repo', work], check=True)
            self.free.put(work)

    def use(self, mutant, function):
        work = self.free.get()
        path = os.path.join(work, mutant['file'])
        original = open(path, encoding='utf8').read()
        try:
            with open(path, 'w', encoding='utf8') as f:
                f.write(mutant['text'])
            return function(work)
        finally:
            with open(path, 'w', encoding='utf8') as f:
                f.write(original)
            self.free.put(work)

    def close(self):
        shutil.rmtree(self.base)


def passes(work):
    try:
        return sh([PY, '-m', 'pytest', '-q', '-x', '-W', 'ignore', '-p',
                   'no:cacheprovider', 'uncertainties'], work,
                  timeout=60).returncode == 0
    except subprocess.TimeoutExpired:
        return False


ORDER = {'uncertainties/core.py': [
    'U01', 'U16', 'U14', 'U13', 'U15', 'U12', 'U06', 'U17', 'U07', 'U08', 'U10',
    'U09', 'U11', 'U05', 'U03', 'U04', 'U23', 'U22', 'U24', 'U02', 'U19', 'U20',
    'U18'],
    'uncertainties/umath_core.py': ['U02', 'U03', 'U04', 'U18', 'U01', 'U05',
                                    'U24', 'U23'],
    'uncertainties/umath.py': ['U02', 'U04', 'U24'],
    'uncertainties/__init__.py': ['U17', 'U24'],
    'uncertainties/unumpy/core.py': ['U18', 'U19', 'U20', 'U25', 'U24'],
    'uncertainties/unumpy/__init__.py': ['U18', 'U19', 'U20'],
    'uncertainties/unumpy/ulinalg.py': ['U20']}


# The checks tried first, by line of core.py (names of definitions):
FIRST = [('correlated_values', 'U10'), ('NotUpcast', 'U08 U01'),
         ('partial_derivative', 'U12'), ('NumericalDerivatives', 'U12'),
         ('IndexableIter', 'U12 U23'), ('wrap', 'U12 U23'),
         ('force_aff_func_args', 'U08 U24'), ('eq_on_aff_funcs', 'U08'),
         ('first_digit', 'U13 U14 U15'), ('PDG_precision', 'U13'),
         ('CallableStdDev', 'U17 U06'), ('robust_align', 'U14'),
         ('to_superscript', 'U15 U14'), ('nrmlze_superscript', 'U16 U15'),
         ('format_num', 'U14 U13 U15'), ('signif_dgt_to_limit', 'U13'),
         ('LinearCombination', 'U05 U07 U22 U23 U11'),
         ('AffineScalarFunc', 'U11 U06 U01'), ('__repr__', 'U15 U14'),
         ('__format__', 'U13 U14 U15'), ('std_score', 'U11'),
         ('__deepcopy__', 'U07'), ('nan_if_exception', 'U03 U01 U08'),
         ('no_complex_result', 'U03 U01 U08'), ('Variable', 'U17 U06 U07'),
         ('nominal_value', 'U11'), ('covariance_matrix', 'U09'),
         ('NotParenUncert', 'U16'), ('ufloat', 'U17')]


def order(mutant):
    everything = ORDER.get(mutant['file'], ['U21'])
    if mutant['file'] != 'uncertainties/core.py':
        return everything
    first = 'U01'
    lines = open('/repo/uncertainties/core.py', encoding='utf8').readlines()
    names = dict(FIRST)
    for line in lines[:mutant['line']]:
        for word in ('def ', 'class '):
            if line.strip().startswith(word):
                name = line.strip()[len(word):].split('(')[0].split(':')[0]
                first = names.pop(name.strip(), first)
    first = first.split()
    return first + [p for p in everything if p not in first
                    and p not in ('U02', 'U18', 'U19', 'U20')]


def caught(mutant, scale):
    def run(work):
        for prop in order(mutant):
            try:
                r = sh([os.path.join(VERIF, 'run.py'), prop, 'quick'], work,
                       timeout=400,
                       env=dict(ENV, VERIF_REPO=work, VERIF_SEED='1',
                                VERIF_JOBS='1', VERIF_SCALE=scale))
            except subprocess.TimeoutExpired:
                return prop + ' timeout'
            if r.returncode:
                ok = ('VIOLATION property=' + prop) in r.stdout
                return prop if ok else prop + ' error ' + r.stdout[-300:]
        return None
    return run


def main():
    mode = sys.argv[1]
    n = int(os.environ.get('MUTATE_PAR', '8'))
    pool = concurrent.futures.ThreadPoolExecutor(n)
    scratch = Scratch(n)
    try:
        if mode in ('survivors', 'slips'):
            todo = list(all_mutants(sys.argv[3:] or FILES,
                                    mutants if mode == 'survivors' else slips))
            print(len(todo), 'mutants', flush=True)
            kept = []
            for m, ok in zip(todo, pool.map(
                    lambda m: scratch.use(m, passes), todo)):
                if ok:
                    kept.append(m)
            for k, m in enumerate(kept):
                m['id'] = k
            json.dump(kept, open(sys.argv[2], 'w'))
            print(len(kept), 'pass the tests')
        else:
            todo = json.load(open(sys.argv[2]))
            ids = set(map(int, sys.argv[4:]))
            todo = [m for m in todo if not ids or m['id'] in ids]
            scale = os.environ.get('VERIF_SCALE', '0.15')
            out = {}
            for m, prop in zip(todo, pool.map(
                    lambda m: scratch.use(m, caught(m, scale)), todo)):
                out[m['id']] = prop
                if not prop or ' ' in prop:
                    print(m['id'], '%s:%d' % (m['file'], m['line']), m['what'],
                          '' if not prop else prop, flush=True)
            json.dump(out, open(sys.argv[3], 'w'))
            print(len(todo), 'mutants', sum(map(bool, out.values())), 'caught')
    finally:
        scratch.close()


if __name__ == '__main__':
    main()
