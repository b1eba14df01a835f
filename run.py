#!/opt/venv/bin/python -B
"""run.py PROPERTY [quick|thorough]     run a check
   run.py --replay FILE                 run one recorded case again
   run.py --selftest                    does the framework start here?"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main(argv):
    from pbt import core, boot
    if argv[0] == '--replay':
        return core.replay(argv[1])
    if argv[0] == '--selftest':
        import mpmath, lib2to3
        print('ok: hypothesis %s, mpmath %s, numpy %s, code under test %s' % (
            boot.hypothesis.__version__, mpmath.__version__,
            boot.numpy.__version__, boot.uncertainties.__file__))
        return 0
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED') or '1')
    return core.run_property(
        argv[0], tier, seed, jobs=int(os.environ.get('VERIF_JOBS') or 0),
        scale=float(os.environ.get('VERIF_SCALE') or 1),
        only=os.environ.get('VERIF_ONLY', '').split(',')
        if os.environ.get('VERIF_ONLY') else None)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
