"""Runner: property modules declare groups (a Hypothesis strategy that makes a
plain-data case, and a check of that case); the runner generates cases in
parallel shards, counts them, shrinks failures and writes evidence."""
import contextlib
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import resource
import signal
import sys
import time
import traceback

from . import boot
from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
from hypothesis.errors import HypothesisException


class Violation(Exception):
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


@contextlib.contextmanager
def lib(what):
    """The code under test is called inside this block, in a situation where it
    has no reason to raise: any exception is a violation."""
    try:
        yield
    except Violation:
        raise
    except Exception as exc:
        raise Violation('%s raised %s: %s' % (what, type(exc).__name__, exc))


class Rec(object):
    """What a check reports about a case: its labels, and whether it was
    non-trivial by the group's rule."""
    __slots__ = ('labels', 'nontriv')

    def __init__(self):
        self.labels = set()
        self.nontriv = False

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.nontriv = True


class Group(object):
    def __init__(self, name, strategy, check, quick, thorough, rule):
        self.name, self.strategy, self.check = name, strategy, check
        self.counts = {'quick': quick, 'thorough': thorough}
        self.rule = rule


def dumps(case):
    return json.dumps(case, sort_keys=True)


def jsonable(case):
    return json.loads(json.dumps(case))


def _in_repo(exc):
    root = os.path.realpath(boot.REPO) + os.sep
    for frame in traceback.extract_tb(exc.__traceback__):
        if os.path.realpath(frame.filename).startswith(root):
            return True
    return False


# Cases take milliseconds (seconds at most): a case still running after this
# time is one that does not end.
CASE_LIMIT = 100
# They use less than 1 GB: a case that goes beyond this fails with MemoryError.
MEMORY_LIMIT = 3 << 30


def _too_long(signum, frame):
    raise Violation('no result after %d s' % CASE_LIMIT)


def run_case(group, case):
    """Run one case. Return (message or None, rec). Errors of the harness are
    raised."""
    rec = Rec()
    signal.signal(signal.SIGALRM, _too_long)
    # Repeated, because the exception is lost in some contexts (callbacks of the
    # garbage collector, finalisers):
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT, 5)
    try:
        group.check(case, rec)
    except Violation as exc:
        return str(exc), rec
    except (HypothesisException, KeyboardInterrupt):
        raise
    except Exception as exc:
        tail = traceback.format_exc().strip().splitlines()
        if _in_repo(exc):
            return 'unexpected exception from the library: %s' % tail[-1], rec
        # The library does not raise, but its results are not of a form that
        # the check can use:
        return 'unexpected exception with the results of the library: %s (%s)' \
            % (tail[-1], tail[-3].strip() if len(tail) > 2 else ''), rec
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None, rec


def load(prop):
    return importlib.import_module('pbt.props.' + prop.lower())


def star_import(module, names):
    """Check that "from module import *" brings these names."""
    space = {}
    try:
        exec('from %s import *' % module, space)
    except AttributeError as exc:
        raise ImportError('from %s import *: %s' % (module, exc))
    for name in names:
        if space.get(name) is not getattr(sys.modules[module], name, space):
            raise ImportError('from %s import * does not bring %s'
                              % (module, name))


def import_problem(prop):
    """Why the library, or the names of its interface that a check imports,
    cannot be used (None if they can)."""
    if boot.IMPORT_ERROR:
        return 'the library cannot be imported: %s' % (
            boot.IMPORT_ERROR.strip().splitlines()[-1])
    try:
        load(prop)
    except (ImportError, AttributeError) as exc:
        if _in_repo(exc) or 'uncertainties' in str(exc):
            return 'a name of the interface cannot be imported: %s' % exc
        raise
    except Exception as exc:
        if _in_repo(exc):
            return 'the library cannot be used: %s: %s' % (
                type(exc).__name__, exc)
        raise
    return None


def report_import(prop, tier, seed, problem):
    path = os.path.join(boot.VERIF, 'evidence', 'replay', '%s-interface.json'
                        % prop)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'group': 'interface', 'case': None,
                   'message': problem, 'seed': seed, 'tier': tier}, f, indent=1,
                  sort_keys=True)
        f.write('\n')
    if boot.REPO == '/repo':
        with open(os.path.join(boot.VERIF, 'evidence', prop + '.json'),
                  'w') as f:
            json.dump({
                'property': prop, 'tier': tier, 'seed': seed,
                'level': 'exploration', 'coverage': {
                    'evaluations': 0, 'distinct_nontrivial': 0, 'rule': problem,
                    'samples': []}, 'assumptions': [], 'wall_s': 0,
                'violations': 1}, f, indent=1, sort_keys=True)
    print('  interface: %s' % problem)
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def shard_seed(seed, prop, group, shard):
    h = hashlib.sha256(('%s/%s/%s/%s' % (seed, prop, group, shard)).encode())
    return int.from_bytes(h.digest()[:6], 'big')


class Stop(BaseException):
    """Ends the search of a shard before its number of cases."""


# The search for smaller failing cases, and that of other failures, end after
# these durations (s); quick checks end at QUICK_LIMIT (only code that is much
# slower than the current code can reach it):
SHRINK_LIMIT, OTHERS_LIMIT, QUICK_LIMIT = 60, 120, 600
FIRST_FAILURE = multiprocessing.Value('d', 0)
END = [None]


def run_shard(task):
    prop, gname, shard, count, seed = task
    mod = load(prop)
    group = {g.name: g for g in mod.GROUPS}[gname]
    out = {'prop': prop, 'group': gname, 'evaluations': 0, 'nontrivial': set(),
           'labels': {}, 'samples': [], 'failure': None, 'error': None}
    state = {'best': None, 'failing': 0}

    def body(case):
        now = time.time()
        if state['best'] is not None:
            if now > state['since'] + SHRINK_LIMIT:
                raise Stop
        elif FIRST_FAILURE.value and now > FIRST_FAILURE.value + OTHERS_LIMIT:
            raise Stop
        elif END[0] and now > END[0]:
            out['stopped'] = True
            raise Stop
        case = jsonable(case)
        msg, rec = run_case(group, case)
        costly = time.time() - now > CASE_LIMIT / 4 or \
            'MemoryError' in (msg or '')
        if state['best'] is None:
            out['evaluations'] += 1
            for name in rec.labels:
                out['labels'][name] = out['labels'].get(name, 0) + 1
            if rec.nontriv:
                text = dumps(case)
                out['nontrivial'].add(
                    hashlib.blake2b(text.encode(), digest_size=8).digest())
                n = out['evaluations']
                if len(out['samples']) < 2 and n > 20 and len(text) < 1500:
                    out['samples'].append(case)
        if msg is not None:
            text = dumps(case)
            if state['best'] is None:
                state['since'] = time.time()
                with FIRST_FAILURE.get_lock():
                    if not FIRST_FAILURE.value:
                        FIRST_FAILURE.value = state['since']
            if state['best'] is None or len(text) <= len(state['best'][0]):
                state['best'] = (text, case, msg)
            if costly:      # It is not shrunk
                state['since'] = 0
            raise Violation(msg)

    test = given(group.strategy)(body)
    test = settings(max_examples=count, database=None, deadline=None,
                    phases=[Phase.generate, Phase.shrink],
                    report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck))(test)
    test = hseed(shard_seed(seed, prop, gname, shard))(test)
    random.seed(0)
    try:
        with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
            test()
    except BaseException as exc:
        if state['best'] is None and not isinstance(exc, Stop):
            out['error'] = traceback.format_exc()
            if isinstance(exc, (KeyboardInterrupt, SystemExit)):
                raise
    if state['best'] is not None:
        out['failure'] = (state['best'][1], state['best'][2])
    return out


def _child(task, conn):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    try:
        result = run_shard(task)
    except BaseException:
        result = dict(prop=task[0], group=task[1], evaluations=0,
                      nontrivial=set(), labels={}, samples=[], failure=None,
                      error=traceback.format_exc())
    conn.send(result)
    conn.close()


def run_tasks(tasks, jobs):
    """Run every shard in a process of its own: all start from the same state,
    and a process that dies is an error, not a hang."""
    ctx = multiprocessing.get_context('fork')
    results, pending, running = {}, list(enumerate(tasks)), {}
    while pending or running:
        while pending and len(running) < jobs:
            index, task = pending.pop(0)
            mine, theirs = ctx.Pipe(False)
            proc = ctx.Process(target=_child, args=(task, theirs))
            proc.start()
            theirs.close()
            running[mine] = (index, task, proc)
        for conn in multiprocessing.connection.wait(list(running)):
            index, task, proc = running.pop(conn)
            try:
                results[index] = conn.recv()
            except EOFError:
                results[index] = dict(
                    prop=task[0], group=task[1], evaluations=0,
                    nontrivial=set(), labels={}, samples=[], failure=None,
                    error='worker process died')
            conn.close()
            proc.join()
    return [results[i] for i in range(len(tasks))]


def shards_for(count, jobs, per_min=25):
    n = max(1, min(jobs, count // per_min))
    base, extra = divmod(count, n)
    return [base + (i < extra) for i in range(n)]


def run_property(prop, tier, seed, jobs=None, scale=1.0, only=None):
    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 1)
    problem = import_problem(prop)
    if problem:
        return report_import(prop, tier, seed, problem)
    mod = load(prop)
    # The number of shards is fixed, so that a run is a function of the seed.
    tasks = []
    for g in mod.GROUPS:
        if only and g.name not in only:
            continue
        total = max(1, int(g.counts[tier] * scale))
        for i, n in enumerate(shards_for(total, 8)):
            tasks.append((prop, g.name, i, n, seed))
    # Interleave the shards of the groups, for balance:
    tasks.sort(key=lambda t: t[2])
    END[0] = t0 + QUICK_LIMIT if tier == 'quick' else None
    results = run_tasks(tasks, jobs)

    errors = [r for r in results if r['error']]
    failures = [r for r in results if r['failure']]
    findings, fixed_notes = known_findings(prop)
    violations = []
    replay_dir = os.path.join(boot.VERIF, 'evidence', 'replay')
    seen = set()
    for r in failures:
        if r['group'] in seen:
            continue
        seen.add(r['group'])
        best = min((f for f in failures if f['group'] == r['group']),
                   key=lambda f: len(dumps(f['failure'][0])))
        case, msg = best['failure']
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, '%s-%s.json' % (prop, r['group']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'group': r['group'], 'case': case,
                       'message': msg, 'seed': seed, 'tier': tier}, f, indent=1,
                      sort_keys=True)
            f.write('\n')
        violations.append((path, r['group'], msg))

    # Known findings: listed inputs on which the code is known to be wrong.
    for f in findings:
        msg = check_finding(mod, f)
        if msg:
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        else:
            print('note: listed finding no longer fails: %s' % f['what'])

    groups_cov, labels, nontriv, total, samples, rules = {}, {}, 0, 0, [], []
    for g in mod.GROUPS:
        rs = [r for r in results if r['group'] == g.name]
        if not rs:
            continue
        ev = sum(r['evaluations'] for r in rs)
        nt = set().union(*[r['nontrivial'] for r in rs])
        lab = {}
        for r in rs:
            for k, v in r['labels'].items():
                lab[k] = lab.get(k, 0) + v
        groups_cov[g.name] = {'evaluations': ev, 'distinct_nontrivial': len(nt),
                              'labels': dict(sorted(lab.items()))}
        if any(r.get('stopped') for r in rs):
            groups_cov[g.name]['stopped'] = (
                'stopped after %d s, before the end' % QUICK_LIMIT)
            print('%s %s: stopped after %d s, before the end'
                  % (prop, g.name, QUICK_LIMIT))
        total += ev
        nontriv += len(nt)
        rules.append('%s: %s' % (g.name, g.rule))
        for r in rs:
            if r['samples']:
                samples += [{'group': g.name, 'case': c}
                            for c in r['samples'][:2]]
                break
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': total, 'distinct_nontrivial': nontriv,
                     'rule': ' | '.join(rules), 'samples': samples,
                     'groups': groups_cov},
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    if boot.REPO == '/repo' or os.environ.get('VERIF_EVIDENCE'):
        path = os.path.join(boot.VERIF, 'evidence', prop + '.json')
        tmp = path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
            f.write('\n')
        os.replace(tmp, path)
    for g, c in groups_cov.items():
        print('%s %s: %d cases, %d distinct non-trivial'
              % (prop, g, c['evaluations'], c['distinct_nontrivial']))
        if os.environ.get('VERIF_LABELS'):
            print('    ' + ', '.join('%s=%d' % kv
                                     for kv in c['labels'].items()))
    for path, g, msg in violations:
        print('  group %s: %s' % (g, msg[:2000]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    print('%s %s seed=%d: %s in %.1f s' % (
        prop, tier, seed, 'VIOLATED' if violations else 'held',
        time.time() - t0))
    sys.stdout.flush()
    for g in sorted(set(r['group'] for r in errors)):
        text = [r['error'] for r in errors if r['group'] == g][0]
        sys.stderr.write('harness error in %s %s:\n%s\n' % (
            prop, g, text[-1500:]))
    return 1 if violations else 2 if errors else 0


# The findings file: one JSON object per line, or a "fixed:" line.
def known_findings(prop):
    path = os.path.join(boot.VERIF, 'known-findings.txt')
    findings, fixed = [], []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('fixed:'):
                fixed.append(line)
            elif line.startswith('{'):
                f = json.loads(line)
                if f['property'] == prop:
                    findings.append(f)
    return findings, fixed


def check_finding(mod, finding):
    """The message of the violation, if the listed input still fails."""
    group = {g.name: g for g in mod.GROUPS}.get(finding['group'])
    check = group.check if group else mod.FINDING_CHECKS[finding['group']]
    holder = Group(finding['group'], None, check, 0, 0, '')
    return run_case(holder, finding['case'])[0]


def replay(path):
    data = json.load(open(path))
    problem = import_problem(data['property'])
    if problem or data['group'] == 'interface':
        print('  interface: %s' % problem)
        if problem:
            print('VIOLATION property=%s replay=%s' % (data['property'], path))
        return 1 if problem else 0
    mod = load(data['property'])
    group = {g.name: g for g in mod.GROUPS}[data['group']]
    msg, _ = run_case(group, data['case'])
    if msg:
        print('  group %s: %s' % (data['group'], msg))
        print('VIOLATION property=%s replay=%s' % (data['property'], path))
        return 1
    print('%s: case holds' % data['property'])
    return 0
