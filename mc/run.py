"""Entry point: run.py <PROPERTY> [--tier quick|thorough] [--only PROGRAM] | run.py --replay FILE.pickle"""
import argparse
import os
import sys
import tempfile
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
# never write (or trust) byte code inside /repo: the tree may have been changed a moment ago
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'parsevasp_mc_nocache_%d' % os.getpid())
warnings.simplefilter('ignore')

for var in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[var] = '1'

from mc import core  # noqa: E402

sys.path.insert(0, core.REPO)


def main():
    import importlib
    import pickle
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    args = ap.parse_args()
    if args.replay:
        with open(args.replay, 'rb') as fh:
            rec = pickle.load(fh)
        mod = importlib.import_module('mc.checks.' + rec['property'].lower())
        return core.replay(mod, rec['program'], rec['case'])
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    try:
        mod = importlib.import_module('mc.checks.' + args.property.lower())
    except (ImportError, SyntaxError, AttributeError) as exc:
        # The package does not even import: nothing can be observed.
        import traceback
        traceback.print_exc()
        return 2
    return core.run_check(mod, tier, int(os.environ.get('VERIF_SEED', '0') or 0), only=args.only)


if __name__ == '__main__':
    sys.exit(main())
