"""U23: interruptions and concurrent readings leave numbers intact."""
import importlib
import itertools
import math
import operator
import os
import sys
import threading
from hypothesis import strategies as st
import uncertainties

from .. import boot
from ..core import Group, Violation, fail, require, lib
from ..gen import *
from . import u06

ASSUMPTIONS = [
    'interruptions and changes of threads take place between two lines or two '
    'byte code instructions of the library (one thread runs at a time)',
    'standard deviations are not assigned while other threads read numbers '
    'that depend on them',
    'derivatives of wrapped functions are not given by a Python generator '
    '(which Python does not allow to run in two threads)',
    'numbers are compared to the same model as in U06']

ROOT = os.path.realpath(os.path.join(boot.REPO, 'uncertainties')) + os.sep


def in_library(code, known={}):
    name = code.co_filename
    if name not in known:
        known[name] = os.path.realpath(name).startswith(ROOT)
    return known[name]


def tracer(on_event, opcodes):
    """A trace function that calls on_event() before each line (or
    instruction) of the library."""
    wanted = 'opcode' if opcodes else 'line'

    def local(frame, event, arg):
        if event == wanted:
            on_event()
        return local

    def start(frame, event, arg):
        if in_library(frame.f_code):
            frame.f_trace_opcodes = opcodes
            if event == 'call' and not opcodes:
                on_event()
            return local
        return None
    return start


class Stop(KeyboardInterrupt):
    pass


class NoMemory(MemoryError):
    pass


class Fault(object):
    """Raises an exception at the n-th event in the library."""
    def __init__(self, after, opcodes, kind):
        self.left, self.kind, self.raised = after, kind, False
        self.trace = tracer(self.event, opcodes)

    def event(self):
        self.left -= 1
        if self.left == 0:
            self.raised = True
            raise self.kind()

    def __enter__(self):
        self.previous = sys.gettrace()
        sys.settrace(self.trace)

    def __exit__(self, *exc):
        sys.settrace(self.previous)


class Schedule(object):
    """Runs functions in threads, one at a time; the schedule says after how
    many events in the library another one continues."""
    def __init__(self, plan, opcodes):
        self.plan, self.opcodes = itertools.cycle(plan), opcodes
        self.switches = self.events = 0

    def event(self):
        self.events += 1
        if self.free:
            return
        self.left -= 1
        if self.left > 0:
            return
        shift, self.left = next(self.plan)
        me = self.current
        others = [i for i in self.alive if i != me]
        if shift and others:
            target = others[(shift - 1 + me) % len(others)]
            self.switches += 1
            self.current = target
            self.turns[target].release()
            self.turns[me].acquire()

    def body(self, index, function, errors):
        self.turns[index].acquire()
        sys.settrace(tracer(self.event, self.opcodes))
        try:
            function()
        except BaseException as exc:
            errors[index] = exc
        finally:
            sys.settrace(None)
            self.alive.remove(index)
            if self.alive and not self.free:
                self.current = self.alive[0]
                self.turns[self.current].release()

    def run(self, functions):
        n = len(functions)
        self.turns = [threading.Semaphore(0) for _ in functions]
        self.alive = list(range(n))
        self.current, self.free = 0, False
        self.left = next(self.plan)[1]
        errors = {}
        threads = [threading.Thread(target=self.body, args=(i, f, errors),
                                    daemon=True)
                   for i, f in enumerate(functions)]
        for t in threads:
            t.start()
        self.turns[0].release()
        for t in threads:
            while t.is_alive():
                before = self.events
                t.join(5)
                if t.is_alive() and self.events == before and not self.free:
                    # The thread waits for another one (lock): no schedule.
                    self.free = True
                    for turn in self.turns:
                        turn.release(100)
        for i in sorted(errors):
            raise errors[i]


# Group: interruptions

STEP = u06.STEP
LENGTHS = {n: st.lists(st.tuples(STEP, st.lists(st.integers(1, 400) |
                                                st.integers(1, 40),
                                                max_size=2)).map(list),
                       min_size=n, max_size=n) for n in (1, 3, 6, 9)}
VARS = st.lists(st.tuples(u06.vals, u06.SIG).map(list), min_size=1, max_size=4)
interruptions = st.fixed_dictionaries({
    'vars': VARS, 'steps': pick(1, 3, 6, 9).flatmap(LENGTHS.get),
    'opcodes': bools, 'kind': pick('stop', 'memory')})


class View(u06.Machine):
    """A machine with the same numbers, and lists of its own."""
    def __init__(self, mach):
        self.vars, self.sig = list(mach.vars), list(mach.sig)
        self.nums, self.model = list(mach.nums), list(mach.model)


class Quiet(object):
    def label(self, *names):
        pass


def check_interruptions(case, rec):
    mach = u06.Machine(case)
    kind = {'stop': Stop, 'memory': NoMemory}[case['kind']]
    count = 0
    for k, (step, faults) in enumerate(case['steps']):
        for after in faults:
            view = View(mach)
            before = [float(v.std_dev) for v in mach.vars]
            fault = Fault(after, case['opcodes'], kind)
            try:
                with fault:
                    u06.apply(view, step, Quiet())
            except (kind, Violation) as exc:
                # (The library may turn an exception into another one; if not
                # interrupted, the step has to work.)
                if not fault.raised:
                    raise
            except Exception:
                if not fault.raised:
                    raise
            count += fault.raised
            if step[0] in ('set', 'call'):
                i = step[1] % len(mach.vars)
                s = float(mach.vars[i].std_dev)
                require(same_float(s, before[i]) or same_float(s, step[2]),
                        'an interrupted assignment of std_dev changed %r into '
                        '%r instead of %r', before[i], s, step[2])
                mach.sig[i] = s
                if fault.raised:
                    rec.label('assignment')
            if fault.raised:
                rec.label(step[0] if step[0] != 'read' else
                          'read ' + step[2])
        with lib('step %d (%s), after interruptions,' % (k, step[0])):
            u06.apply(mach, step, Quiet())
    with lib('the final verification'):
        mach.verify_all('after interruptions')
    rec.nontrivial(count > 0)


# Group: threads

CALM = st.one_of(STEP.filter(lambda s: s[0] not in ('set', 'call')))
NSTEPS = {n: st.lists(CALM, min_size=n, max_size=n) for n in (1, 2, 3, 4, 7)}
PLAN = st.lists(st.tuples(pick(0, 1, 1, 2, 2), st.integers(1, 12) | st.integers(1, 200)
                          ).map(list), min_size=1, max_size=12)
threads = st.fixed_dictionaries({
    'vars': VARS, 'build': pick(2, 4, 7).flatmap(NSTEPS.get),
    'threads': st.lists(pick(1, 2, 3).flatmap(NSTEPS.get), min_size=2,
                        max_size=3),
    'plan': PLAN, 'opcodes': bools})


def check_threads(case, rec):
    mach = u06.Machine(case)
    for step in case['build']:
        if step[0] in ('same', 'bad', 'read'):
            continue    # most results are not evaluated yet
        with lib('step %s' % step[0]):
            u06.apply(mach, step, Quiet())
    views = [View(mach) for _ in case['threads']]

    def body(view, steps):
        for step in steps:
            u06.apply(view, step, Quiet())
            view.verify(len(view.nums) - 1, 'in a thread')

    sched = Schedule(case['plan'], case['opcodes'])
    with lib('calculations in several threads'):
        sched.run([lambda v=v, s=s: body(v, s)
                   for v, s in zip(views, case['threads'])])
    for view in views:
        with lib('the final verification'):
            view.verify_all('after calculations in several threads')
    rec.label('%d threads' % len(views), 'switches' if sched.switches else
              'no switch')
    if sched.free:
        rec.label('blocked')
    rec.nontrivial(sched.switches > 1)


# Group: first calls of functions

COEFS = [2.0, 3.0, 5.0, 7.0]
functions = st.fixed_dictionaries({
    'what': pick('wrap', 'wrap', 'wrap', 'library'),
    'derivs': st.lists(st.booleans(), max_size=4),
    'form': pick('list', 'tuple', 'chain', 'cycle'),
    'keywords': pick(0, 0, 1, 2, 4), 'var_keywords': bools,
    'calls': st.lists(st.lists(st.tuples(st.lists(
        st.booleans(), min_size=1, max_size=4), ints(0, 7)).map(list),
        min_size=1, max_size=2), min_size=1, max_size=3),
    'faults': st.lists(st.integers(1, 60), max_size=2),
    'plan': PLAN, 'opcodes': bools})


def make_wrapped(case):
    derivs = [(lambda *a, _value=100.0 + i, **k: _value) if d else None
              for i, d in enumerate(case['derivs'])]
    n = len(derivs)
    expected = [100.0 + i if i < n and derivs[i] else COEFS[i]
                for i in range(4)]
    given = {'list': derivs, 'tuple': tuple(derivs), 'chain':
             itertools.chain(derivs), 'cycle': itertools.chain(
                 derivs, itertools.repeat(None))}[case['form']]
    def total(*args):
        return sum(c * a for c, a in zip(COEFS, args))

    if not case['keywords']:
        return uncertainties.wrap(total, given), expected
    first = 4 - case['keywords']
    if case['var_keywords']:
        # Arguments given by keyword are in **kwargs:
        def f(*args, **kw):
            return total(*args, *[kw.get('x%d' % i, 0.0)
                                  for i in range(len(args), 4)])
        w = uncertainties.wrap(f, given, {'x%d' % i: derivs[i]
                                          for i in range(n)})
    else:
        def f(x0=0.0, x1=0.0, x2=0.0, x3=0.0):
            return total(x0, x1, x2, x3)
        w = uncertainties.wrap(f, given)

    def call(*args):
        return w(*args[:first], **{'x%d' % i: args[i]
                                   for i in range(first, len(args))})
    return call, expected


def call_wrapped(w, expected, which):
    args = [uncertainties.ufloat(1.5 + i, 0.25 * (i + 1)) if u else 1.5 + i
            for i, u in enumerate(which)]
    r = w(*args)
    require(set(getattr(r, 'derivatives', ())) == {
        a for a, u in zip(args, which) if u}, 'the result depends on %r, '
        'expected %r of %r', getattr(r, 'derivatives', ()), which, args)
    if not any(which):
        require(isinstance(r, float), 'the result is %r', r)
        return
    for i, u in enumerate(which):
        if u:
            d = r.derivatives[args[i]]
            require(abs(d - expected[i]) < 1e-5, 'the derivative with respect '
                    'to argument %d is %r, expected %r', i, d, expected[i])


LIBRARY = [
    (operator.sub, [6.0, 2.0], [1.0, -1.0]),
    (operator.truediv, [6.0, 2.0], [0.5, -1.5]),
    (operator.mul, [6.0, 2.0], [2.0, 6.0]),
    (operator.pow, [4.0, 2.0], [8.0, 16 * math.log(4.0)]),
    (operator.mod, [7.0, 2.0], [1.0, -3.0]),
    ('atan2', [3.0, 4.0], [4 / 25., -3 / 25.]),
    ('hypot', [3.0, 4.0], [0.6, 0.8]),
    ('log', [4.0, 2.0], [1 / 4. / math.log(2), -math.log(4) / 2
                         / math.log(2) ** 2]),
]


def check_library(core, umath, which, k):
    f, nominal, derivs = LIBRARY[k]
    if isinstance(f, str):
        f = getattr(umath, f)
    which = (which + [True])[:2]
    if not any(which):
        which = [True, False]
    args = [core.Variable(x, 0.5) if u else x
            for x, u in zip(nominal, which)]
    with lib('%r' % LIBRARY[k][0]):
        r = f(*args)
        for a, u, e in zip(args, which, derivs):
            if u:
                d = r.derivatives[a]
                require(abs(d - e) <= 1e-13 * abs(e), '%r: derivative %r, '
                        'expected %r', LIBRARY[k][0], d, e)


class FreshLibrary(object):
    """The library, imported again."""
    def __enter__(self):
        self.saved = {}
        for name in list(sys.modules):
            if name.split('.')[0] == 'uncertainties':
                self.saved[name] = sys.modules.pop(name)
        fresh = importlib.import_module('uncertainties.core')
        return fresh, importlib.import_module('uncertainties.umath')

    def __exit__(self, *exc):
        for name in list(sys.modules):
            if name.split('.')[0] == 'uncertainties':
                del sys.modules[name]
        sys.modules.update(self.saved)


def check_functions(case, rec):
    def run(call):
        for n in case['faults']:
            fault = Fault(n, case['opcodes'], Stop)
            try:
                with fault:
                    call(*case['calls'][0][0])
            except Stop:
                rec.label('interrupted')
        sched = Schedule(case['plan'], case['opcodes'])
        sched.run([lambda c=c: [call(*which) for which in c]
                   for c in case['calls']])
        # And in the end:
        for which in ([True] * 4, [False, True, False, True]):
            for k in range(len(LIBRARY) if case['what'] == 'library' else 1):
                call(which, k)
        rec.label('switches' if sched.switches else 'no switch', case['what'])
        rec.nontrivial(sched.switches > 0 or bool(case['faults']))

    if case['what'] == 'wrap':
        w, expected = make_wrapped(case)
        with lib('a wrapped function'):
            run(lambda which, k: call_wrapped(w, expected, which))
    else:
        with FreshLibrary() as (core, umath):
            run(lambda which, k: check_library(core, umath, which, k))


GROUPS = [
    Group('interrupted', interruptions, check_interruptions, 3000, 100000,
          'histories like those of U06, where steps are first attempted and '
          'interrupted once or twice by an exception at any line or byte code '
          'instruction of the library; non-trivial: an exception was raised'),
    Group('threads', threads, check_threads, 2000, 60000,
          'numbers that are read, compared, copied and used in 2 or 3 threads, '
          'in a generated interleaving (by lines or instructions); '
          'non-trivial: at least two changes of threads inside of the library'),
    Group('functions', functions, check_functions, 2000, 60000,
          'first calls of wrapped functions, or of operators and functions of '
          'a newly imported library, interrupted or in several threads; '
          'non-trivial: a change of threads, or an interruption'),
]
