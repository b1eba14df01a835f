"""U24: the same results with and without NumPy, and in other processes."""
import atexit
import base64
import json
import math
import os
import pickle
import subprocess
import sys
from hypothesis import strategies as st
import uncertainties
from uncertainties import unumpy

from .. import boot, worker
from ..core import Group, fail, require, lib
from ..gen import *
from ..fmt import finite_pairs, special_pairs
from . import u14, u16

ASSUMPTIONS = [
    'the reference is the library in this process, with NumPy (decided by the '
    'other properties)',
    'covariances (whose terms are added in any order) are compared to 1e-12 of '
    'the product of the standard deviations',
    'NumPy is hidden by an import hook; other versions of Python are not '
    'installed']

ENVIRONMENTS = {
    'no NumPy': ([], ['no-numpy'], {}),
    'no NumPy, -OO': (['-OO'], ['no-numpy'], {'PYTHONHASHSEED': '7'}),
    '-O': (['-O'], [], {'PYTHONHASHSEED': '12345'}),
    '-OO, C locale': (['-OO'], [], {'LC_ALL': 'C', 'PYTHONUTF8': '0'}),
}
NEED_NUMPY = ['correlated_values', 'correlated_values_norm',
              'correlation_matrix']


class Process(object):
    def __init__(self, name):
        options, args, env = ENVIRONMENTS[name]
        self.proc = subprocess.Popen(
            [sys.executable, '-B'] + options + [worker.__file__, boot.REPO]
            + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, cwd='/',
            env=dict(os.environ, PYTHONIOENCODING='utf-8', **env))
        atexit.register(self.close)
        line = self.proc.stdout.readline()
        if not line:
            fail('with %s, the library cannot be imported: %s', name,
                 self.proc.stderr.read().decode()[-500:])
        self.info = json.loads(line)

    def ask(self, task):
        self.proc.stdin.write(json.dumps(task).encode() + b'\n')
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            fail('the process died: %s',
                 self.proc.stderr.read().decode()[-500:])
        return json.loads(line)

    def close(self):
        self.proc.stdin.close()
        self.proc.wait()


processes = {}


def process(name):
    # (Processes are not inherited by forked shards.)
    key = os.getpid(), name
    if key not in processes:
        p = processes[key] = Process(name)
        require(os.path.realpath(p.info['file']).startswith(
            os.path.realpath(boot.REPO) + os.sep), 'harness: %s',
            p.info['file'])
        if 'no NumPy' in name:
            require(not p.info['numpy'], 'harness: NumPy is there')
        names = [n for n in uncertainties.core.__all__
                 if not ('no NumPy' in name and n in NEED_NUMPY)]
        require(p.info['names'] == sorted(names), 'with %s, the exported names '
                'are %s', name, p.info['names'])
        array_names = None if 'no NumPy' in name else sorted(unumpy.__all__)
        require(p.info['array_names'] == array_names, 'with %s, unumpy exports '
                '%s, expected %s', name, p.info['array_names'], array_names)
    return processes[key]


idx = ints(0, 30)
values = st.one_of(nominals(-6, 6), nominals(-6, 6), nominals(-300, 300),
                   pick(0.0, -0.0, 1.0, -1.0, 2.0, 0.5)).map(float)
others = pick('1/2', '1/1', '-7/3', '0/1', 'D0.5', 'D1', 'True', 'False', '1j',
              'nan', 'inf')
devs = st.one_of(sigmas(-6, 6), sigmas(-6, 6), sigmas(-300, 300),
                 pick('nan', 'inf', 0.0, 0.1))
several = st.lists(idx, min_size=1, max_size=4)
NAMES = sorted(worker.BINARY)
STEPS = {
    'new': st.tuples(values | ints(-5, 5) | others,
                     devs | pick('1/2', 'D0.5', '-1/2', 1, 'True', '1j')),
    'string': st.tuples(st.one_of(
        u16.valid_cases().map(lambda c: c['text']),
        u16.any_strings().map(lambda c: c['text']), pick('1.2(3)', '1.2+/-0.3', '(1+/-0.1)e5', 'nan', 'inf+/-nan', '1.2(3.4)e-7',
        '3.14', '-0', '1e5', '12±3', '(1.2±0.3)×10⁻³', '1.2(', 'a', '',
        '-1.0(1)', '1+/--1'))),
    'bin': st.tuples(st.sampled_from(NAMES), idx, idx),
    'right': st.tuples(st.sampled_from(NAMES), idx, values | ints(-5, 5)
                       | others),
    'left': st.tuples(st.sampled_from(NAMES), idx, values | ints(-5, 5)
                      | others),
    'unary': st.tuples(st.sampled_from(sorted(worker.UNARY)), idx),
    'one': st.tuples(st.sampled_from(worker.ONE), idx),
    'plain': st.tuples(st.sampled_from(worker.ONE), values | ints(-5, 5)
                       | others),
    'two': st.tuples(st.sampled_from(worker.TWO), idx, idx),
    'ldexp': st.tuples(idx, ints(-20, 20)),
    'fsum': st.tuples(several), 'sum': st.tuples(several),
    'wrap': st.tuples(pick('numerical', 'analytical', 'method', 'args',
                           'constant', 'fraction', 'decimal', 'bool', 'text'),
                      idx, idx),
    'compare': st.tuples(st.sampled_from(sorted(worker.COMPARE)), idx, idx),
    'compare to': st.tuples(st.sampled_from(sorted(worker.COMPARE)), idx,
                            values | others),
    'bool': st.tuples(idx), 'sort': st.tuples(several),
    'cov': st.tuples(several),
    'format': st.tuples(idx, u14.specs()), 'str': st.tuples(idx),
    'components': st.tuples(idx), 'score': st.tuples(idx, values),
    'set': st.tuples(idx, devs),
    'clone': st.tuples(idx, pick('copy', 'deepcopy', 0, 1, 2, 3, 4, 5)),
    'float': st.tuples(idx)}
STEP = st.one_of(*[s.map(lambda t, k=k: [k] + list(t))
                   for k, s in sorted(STEPS.items())])
FIRST = STEPS['new'].map(lambda t: ['new'] + list(t))
cases = st.fixed_dictionaries({
    'env': st.sampled_from(sorted(ENVIRONMENTS)),
    'steps': st.tuples(st.lists(FIRST, min_size=2, max_size=3), st.lists(
        STEP, min_size=4, max_size=14)).map(lambda t: t[0] + t[1]),
    'protocol': ints(0, 5)})


def largest(results):
    return max([1e-9] + [abs(x) for r in results if r[0] == 'ARR'
                         for x in r[2] if math.isfinite(x)])


def same(a, b, scale=1e-9):
    """Results are the same texts, and close numbers in covariances."""
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a[0] == 'ARR' or b[0] == 'ARR':
        return a[:2] == b[:2] and len(a[2]) == len(b[2]) and all(
            # (Terms are added in any order.)
            same_float(x, y) or abs(x - y) <= 1e-9 * max(abs(x), abs(y), scale)
            for x, y in zip(a[2], b[2]))
    (_, ca, sa), (_, cb, sb) = a, b
    if list(map(repr, sa)) != list(map(repr, sb)):
        return False
    for i, (ra, rb) in enumerate(zip(ca, cb)):
        for j, (x, y) in enumerate(zip(ra, rb)):
            if x != x or y != y:
                if not (x != x and y != y):
                    return False
            elif x != y and not abs(x - y) <= 1e-12 * sa[i] * sa[j] + 1e-300:
                return False
    return True


def check(case, rec):
    want, nums = worker.run(case)
    p = process(case['env'])
    got = p.ask(case)
    require('error' not in got, 'with %s: %s', case['env'], got.get('error'))
    for k, (g, w) in enumerate(zip(got['out'], want)):
        require(same(g, w), 'with %s, result %d is %r, and here %r',
                case['env'], k, g, w)
    require(len(got['out']) == len(want), 'with %s there are %d results and '
            'warnings instead of %d', case['env'], len(got['out']), len(want))
    # Numbers go from a process to another one, in both ways:
    r = worker.Run()
    expect = [r.show(x) for x in nums]
    loaded = pickle.loads(base64.b64decode(got['pickle']))
    require([r.show(x) for x in loaded] == expect, 'numbers pickled with %s '
            'are %s here, expected %s', case['env'],
            [r.show(x) for x in loaded], expect)
    data = base64.b64encode(pickle.dumps(nums, case['protocol'])).decode()
    there = p.ask({'pickle': data})['show']
    require(there == expect, 'numbers pickled here are %s with %s, expected %s',
            there, case['env'], expect)
    rec.label(case['env'], *[s[0] for s in case['steps']])
    raised = sum(isinstance(w, str) and w.startswith('raises') for w in want)
    rec.label('%d exceptions' % min(raised, 4))
    rec.nontrivial(len(nums) > 3)


# Group: arrays

small_values = st.one_of(ints(-8, 8).map(lambda k: k / 4.0), nominals(-2, 2))
SHAPES = ((2,), (2, 2), (2, 2), (1, 3), (2, 3))


@st.composite
def makes(draw):
    shape = draw(pick(*SHAPES))
    size = 1
    for k in shape:
        size *= k
    return ['make', draw(pick('uarray', 'umatrix')) if len(shape) == 2 else
            'uarray', draw(st.lists(small_values, min_size=size, max_size=size)),
            draw(st.lists(sigmas(-2, 2), min_size=size, max_size=size)),
            list(shape)]


FOUR = st.lists(ints(-4, 4), min_size=4, max_size=4)
ARRAY_STEPS = st.one_of(
    makes(),
    st.tuples(st.just('function'), pick('sin', 'exp', 'arctan', 'sqrt', 'floor',
                                        'isnan', 'fabs', 'cosh'), idx),
    st.tuples(st.just('binary'), pick('+', '-', '*'), idx, idx),
    st.tuples(st.just('number'), pick('+', '-', '*', '/'), idx,
              ints(1, 9).map(lambda k: k / 2.0)),
    st.tuples(st.just('parts'), ints(0, 1), idx),
    st.tuples(st.just('sum'), idx), st.tuples(st.just('transposed'), idx),
    st.tuples(st.just('inverse'), pick('inv', 'pinv', 'I'), idx),
    st.tuples(st.just('correlated'), pick('norm', 'covariance'), FOUR.map(
        lambda v: [float(v[0]) + 5, float(v[1]), float(v[2]), float(v[3]) + 5])),
    st.tuples(st.just('correlation'), idx), st.tuples(st.just('wrapped'), idx),
    st.tuples(st.just('copied'), idx, bools)).map(list)
array_cases = st.fixed_dictionaries({
    'arrays': st.just(True),
    'env': pick(*[e for e in sorted(ENVIRONMENTS) if 'no NumPy' not in e]),
    'steps': st.tuples(makes(), st.lists(ARRAY_STEPS, min_size=2, max_size=8)
                       ).map(lambda t: [t[0]] + t[1]),
    'protocol': ints(0, 5)})


def check_arrays(case, rec):
    want, nums = worker.run(case)
    p = process(case['env'])
    got = p.ask(case)
    require('error' not in got, 'with %s: %s', case['env'], got.get('error'))
    require(len(got['out']) == len(want), 'with %s there are %d results and '
            'warnings instead of %d', case['env'], len(got['out']), len(want))
    r = worker.Arrays()
    expect = [r.show(x) for x in nums]
    scale = largest(want + expect)
    for k, (g, w) in enumerate(zip(got['out'], want)):
        require(same(g, w, scale), 'with %s, result %d is %r, and here %r',
                case['env'], k, g, w)
    loaded = pickle.loads(base64.b64decode(got['pickle']))
    data = base64.b64encode(pickle.dumps(nums, case['protocol'])).decode()
    there = p.ask({'pickle': data, 'arrays': True})['show']
    for back, what in (([r.show(x) for x in loaded], 'from'), (there, 'to')):
        require(len(back) == len(expect) and all(
            same(b, e, scale) for b, e in zip(back, expect)),
                'arrays pickled %s %s are %s, expected %s', what, case['env'],
                back, expect)
    rec.label(case['env'], *[s[0] for s in case['steps']])
    rec.nontrivial(len(nums) > 1)


GROUPS = [
    Group('environments', cases, check, 6000, 150000,
          'calculations of 6 to 17 steps (all operators, functions, formats, '
          'strings, comparisons, copies) in four environments: without NumPy, '
          'with -O or -OO, other hash seeds, the C locale; numbers are pickled '
          'and exchanged both ways; non-trivial: at least two results are '
          'numbers with uncertainties'),
    Group('arrays', array_cases, check_arrays, 1500, 40000,
          'calculations with arrays and matrices, correlated values, in two '
          'environments (-O, -OO); arrays are pickled and exchanged both ways; '
          'non-trivial: at least two results are arrays of numbers with '
          'uncertainties'),
]
