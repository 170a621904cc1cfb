#!/opt/venv/bin/python
"""usage: run_check.py <ID> [--thorough] [--only=scenario,...] [--replay FILE]"""
import os
import sys
import tempfile
import shutil

for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('RVMON_REPO', '/repo')
sys.path[:0] = [REPO, HERE]


def run():
    # never read stale byte code: compile the working tree afresh
    cache = tempfile.mkdtemp(prefix='rvmon-pyc-')
    sys.pycache_prefix = cache
    os.environ.setdefault('MPLCONFIGDIR', cache)
    try:
        import importlib
        prop = sys.argv[1]
        mod = importlib.import_module('rvmon.props.' + prop.lower())
        import filterpy
        if not os.path.realpath(filterpy.__file__).startswith(os.path.realpath(REPO) + os.sep):
            print('HARNESS ERROR: filterpy imported from ' + filterpy.__file__)
            return 2
        from rvmon import core
        return core.main(prop, mod.SCENARIOS, mod.RULE, mod.ANCHORS,
                         getattr(mod, 'ASSUMPTIONS', ()))
    finally:
        shutil.rmtree(cache, ignore_errors=True)


if __name__ == '__main__':
    rc = run()
    sys.stdout.flush()
    sys.exit(rc)
