#!/opt/venv/bin/python
"""writes /verif/MANIFEST.json from properties.jsonl and the check modules present"""
import json, os, importlib, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    f = os.path.join(HERE, 'rvmon', 'props', i.lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=i, reason='the monitor for this property is not built yet'))
        continue
    m = importlib.import_module('rvmon.props.' + i.lower())
    checks.append(dict(
        property=i, quick_cmd='./run_check.py ' + i, thorough_cmd='./run_check.py %s --thorough' % i,
        technique=getattr(m, 'TECHNIQUE', 'runtime monitoring: online oracle over randomised call histories of the real code'),
        level='exploration',
        level_note=getattr(m, 'NOTE', 'Every observed execution is judged by an independent reference; what was not executed is not covered. ') +
        ' Scenarios: ' + '; '.join('%s (%s)' % (s[0].__name__, ' '.join((s[0].__doc__ or '').split())) for s in m.SCENARIOS)))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/selfcheck.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: all monitors observe public behaviour from outside.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
