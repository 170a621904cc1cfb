#!/opt/venv/bin/python
"""writes /verif/DESIGN.md from tools/design_parts.py, properties.jsonl, the check modules and seeded/"""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True
import design_parts as D
out = [D.HEAD.strip(), '', '## Properties', '']
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    m = importlib.import_module('rvmon.props.' + p['id'].lower())
    o = D.PARTS[p['id']]
    out += ['### %s %s' % (p['id'], p['title']), '',
            '- **Workload.** ' + m.RULE,
            '- **Oracle.** ' + ' '.join(o['oracle'].split()),
            '- **Scenarios (cases quick / thorough).** ' + '; '.join(
                '`%s` %d / %d: %s' % (s[0].__name__, s[1], s[2], ' '.join((s[0].__doc__ or '').split())) for s in m.SCENARIOS),
            '- **Why beyond the tests.** %s.' % p['why_tests_cant'][:1].upper().__add__(p['why_tests_cant'][1:])]
    if o.get('limits'):
        out.append('- **Left out.** ' + ' '.join(o['limits'].split()))
    out.append('')
out += [D.TAIL.strip(), '', '## Planted changes and the checks that catch them', '',
        'Each line: change, property it was written from, what it needs, and the checks that were confirmed to report it.', '']
caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(d))
    q = json.load(open(d))
    out.append('- `%s` (%s): %s. Caught by: %s.' % (i, q['property'], q['needs'].rstrip('.'), caught.get(i, '(not yet run)')))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
