"""Writes MANIFEST.json from the registry."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from mc.props import registry
registry.load_all()
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
py = '/opt/venv/bin/python check.py %s --tier %s'
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[],
         notes='No hooks: the checks control the code through its public interfaces, the random source and the file '
               'system. known_findings.txt lists recorded findings and repairs.')
for p in ids:
    s = registry.SPECS.get(p)
    if s:
        m['checks'].append(dict(property=p, quick_cmd=py % (p, 'quick'), thorough_cmd=py % (p, 'thorough'),
                                technique='model checking: ' + s.technique, level=s.level, level_note=s.note))
    else:
        m['not_applicable'].append(dict(property=p, reason='check not built yet'))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', [x['property'] for x in m['not_applicable']])
