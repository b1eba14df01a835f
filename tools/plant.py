"""plant.py [-n] [-r] [ID ...]   build, confirm and try planted bugs

For each seed of seeds.py: make the change in a scratch copy of /repo, check
that it changes only lines of the original repository and that the stable
tests still pass, that the demonstration passes without it and fails with it,
write it to /verif/seeded/<id>/, and run the check of its property against the
scratch copy (-n: do not run the check; -r: only run the checks, of all the
seeds that were kept)."""
import concurrent.futures, difflib, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seeds
BASE = '46ba0b0'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', OPENBLAS_NUM_THREADS='1')
ENV.pop('PYTHONPATH', None)

PRELUDE = '''\
import math, os, sys, warnings
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
warnings.simplefilter('ignore')
import copy, pickle
import numpy
import uncertainties
from uncertainties import core, ufloat, ufloat_fromstr, umath, unumpy
from uncertainties.unumpy import ulinalg


def close(a, b, rel=1e-9):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b or abs(a-b) <= rel*max(abs(a), abs(b))


'''


def sh(cmd, cwd, timeout=900, env=ENV):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)


def base_lines(path):
    out = subprocess.run(['git', '-C', '/repo', 'show', BASE+':'+path],
                         stdout=subprocess.PIPE).stdout.decode('utf8')
    return set(out.split('\n'))


def one(seed, run_check=True, keep=True):
    sid = seed['id']
    scratch = tempfile.mkdtemp(prefix='plant_')
    work = os.path.join(scratch, 'repo')
    notes = []
    try:
        subprocess.run(['cp', '-a', '/repo', work], check=True)
        diff = []
        for (path, old, new) in seed['changes']:
            full = os.path.join(work, path)
            text = open(full, encoding='utf8').read()
            if text.count(old) != 1:
                return sid, 'BAD', '%d matches in %s of %r' % (
                    text.count(old), path, old[:60])
            open(full, 'w', encoding='utf8').write(text.replace(old, new))
        patch = subprocess.run(['git', 'diff'], cwd=work,
                               stdout=subprocess.PIPE).stdout.decode('utf8')
        path = None
        for line in patch.split('\n'):
            if line.startswith('--- a/'):
                path = line[6:]
                base = base_lines(path)
            elif line.startswith('-') and not line.startswith('---'):
                if line[1:] not in base:
                    notes.append('changes a line that is not original: '
                                 + line[1:].strip())
        build = sh([PY, '-c', 'import uncertainties, uncertainties.umath, '
                    'uncertainties.unumpy; print(uncertainties.__file__)'],
                   work)
        if build.returncode or not build.stdout.startswith(work):
            return sid, 'BAD', 'does not build: ' + build.stdout[-300:]
        tests = sh([PY, '-m', 'pytest', '-q', '-W', 'ignore', '-p',
                    'no:cacheprovider', '--timeout=300', 'uncertainties'],
                   work)
        if tests.returncode:
            notes.append('tests: ' + tests.stdout.strip()[-400:])
        demo_dir = os.path.join(scratch, 'demo')
        os.mkdir(demo_dir)
        open(os.path.join(demo_dir, 'demo.py'), 'w').write(
            PRELUDE + seed['demo'].strip() + '\n')
        open(os.path.join(demo_dir, 'demo.sh'), 'w').write(
            '#!/bin/bash\nexec %s -B "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(demo_dir, 'demo.sh'), 0o755)
        d0 = sh(['bash', os.path.join(demo_dir, 'demo.sh')], '/repo')
        d1 = sh(['bash', os.path.join(demo_dir, 'demo.sh')], work)
        if d0.returncode:
            notes.append('demo fails on the unchanged tree: '
                         + d0.stdout[-400:])
        if not d1.returncode:
            notes.append('demo passes with the change')
        if notes:
            return sid, 'BAD', ' | '.join(notes)
        if keep:
            target = os.path.join(VERIF, 'seeded', sid)
            os.makedirs(target, exist_ok=True)
            for name in ('demo.py', 'demo.sh'):
                shutil.copy(os.path.join(demo_dir, name), target)
            open(os.path.join(target, 'patch.diff'), 'w',
                 encoding='utf8').write(patch)
            json.dump({'property': seed['property'], 'needs': seed['needs'],
                       'what_it_breaks': seed['breaks']},
                      open(os.path.join(target, 'meta.json'), 'w'), indent=1)
        if not run_check:
            return sid, 'KEPT', ''
        check = sh([os.path.join(VERIF, 'run.py'), seed['property'], 'quick'],
                   VERIF, env=dict(ENV, VERIF_REPO=work, VERIF_SEED='1',
                                   VERIF_JOBS=os.environ.get('PLANT_JOBS', '2')))
        want = 'VIOLATION property=' + seed['property']
        if check.returncode == 1 and want in check.stdout:
            lines = [l for l in check.stdout.split('\n') if want in l]
            return sid, 'CAUGHT', '%d; %s' % (len(lines), lines[0][-110:])
        if check.returncode == 0:
            return sid, 'MISSED', ''
        return sid, 'ERROR', check.stdout[-500:]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def record(sid, outcome):
    """Keep the first and last results for DESIGN.md."""
    path = os.path.join(HERE, 'catches.json')
    data = json.load(open(path)) if os.path.exists(path) else {}
    entry = data.setdefault(sid, {'first': outcome})
    entry['now'] = outcome
    with open(path, 'w') as f:
        json.dump(data, f, indent=0, sort_keys=True)
        f.write('\n')


if __name__ == '__main__':
    args = sys.argv[1:]
    run = '-n' not in args
    ids = [a for a in args if not a.startswith('-')]
    todo = [s for s in seeds.SEEDS
            if not ids or s['id'] in ids or s['property'] in ids]
    with concurrent.futures.ThreadPoolExecutor(
            int(os.environ.get('PLANT_PAR', '4'))) as pool:
        for result in pool.map(lambda s: one(s, run), todo):
            print('%-22s %-7s %s' % result, flush=True)
            if run and result[1] in ('CAUGHT', 'MISSED'):
                record(*result[:2])
