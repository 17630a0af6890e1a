"""Writes DESIGN.md from the fixed text below, properties.jsonl, the registry, known_findings.txt and tools/planted.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from mc.props import registry
registry.load_all()
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]

INTRO = open(HERE + '/tools/design_intro.md').read()
ORACLE = json.load(open(HERE + '/tools/design_oracles.json'))

out = [INTRO, '\n## Properties\n']
for p in props:
    s = registry.SPECS.get(p['id'])
    out.append('### %s. %s\n' % (p['id'], p['title']))
    if not s:
        out.append('No check.\n')
        continue
    o = ORACLE.get(p['id'], {})
    out.append('- Decided by: %s (level %s).' % (s.technique, s.level))
    out.append('- Enumerated, within which bounds: %s' % s.note)
    out.append('- Oracle: %s' % o.get('oracle', ''))
    out.append('- Cost of the quick check: about %s s on 8 cores.' % o.get('cost', '?'))
    out.append('- What the tests cannot reach: %s\n' % p['why_tests_cant'])
out.append('## Defects found in blag/keyczar\n')
out.append('All were shown against the real code by a check, then repaired in a "fix:" commit (or recorded). From '
           'known_findings.txt:\n')
for l in open(HERE + '/known_findings.txt'):
    if l.strip() and not l.startswith('#'):
        out.append('- ' + l.strip())
out.append('\n## Planted bugs\n')
out.append('Written from the property text and the code; each was confirmed with tools/plant.py (applies, original lines, '
           'tests still pass, demonstration tells the trees apart). "caught by" lists checks that were run on it and '
           'report it.\n')
out.append('| planted bug | needs | caught by | missed by |\n|---|---|---|---|')
planted = json.load(open(HERE + '/tools/planted.json'))
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(HERE + '/seeded/%s/meta.json' % d))
    t = planted.get(d, {})
    out.append('| %s | %s | %s | %s |' % (d, m['needs'].replace('|', '/'), ' '.join(t.get('caught', [])), ' '.join(t.get('missed', []))))
extra = HERE + '/tools/design_end.md'
if os.path.exists(extra):
    out.append('\n' + open(extra).read())
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out).rstrip('\n') + '\n')
