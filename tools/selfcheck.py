#!/opt/venv/bin/python
"""setup: nothing to build; makes sure the interpreter, the libraries and every check module are usable"""
import glob, importlib, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get('RVMON_REPO', '/repo'), HERE]
os.environ['MPLBACKEND'] = 'Agg'
import numpy, scipy                                            # noqa
n = 0
for f in sorted(glob.glob(os.path.join(HERE, 'rvmon', 'props', 'c*.py'))):
    m = importlib.import_module('rvmon.props.' + os.path.basename(f)[:-3])
    assert m.SCENARIOS and m.RULE and m.ANCHORS
    n += 1
print('python %s numpy %s scipy %s, %d check modules' % (sys.version.split()[0], numpy.__version__, scipy.__version__, n))
