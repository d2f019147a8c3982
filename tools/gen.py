"""Regenerates properties.jsonl and MANIFEST.json from tools/table.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import table  # noqa: E402

PY = '/opt/venv/bin/python'
claimed = set()
for line in open(os.path.join(VERIF, 'props', 'INDEX')):
    claimed.update(line.split()[1:])
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in table.PROPS:
        row = {'id': p['id'], 'title': p['title'],
               'statement': p['statement'],
               'quantifier': {'over': p['over'], 'text': p['forall']},
               'why_tests_cant': p['why'],
               'anchors': {'files': p['files'],
                           'mechanism': [{'name': n, 'where': w}
                                         for n, w in p['mech']],
                           'hook_needed': None}}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(row) + '\n')
checks, na = [], []
for p in table.PROPS:
    if p['id'] in claimed:
        checks.append({
            'property': p['id'],
            'quick_cmd': '%s check.py %s --tier quick' % (PY, p['id']),
            'thorough_cmd': '%s check.py %s --tier thorough' % (PY, p['id']),
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'bounded symbolic execution of the real Python code '
                         '(path exploration, every branch and assertion '
                         'decided by Z3), counterexamples replayed',
            'level': 'model_checking',
            'level_note': p['note']})
    else:
        na.append({'property': p['id'],
                   'reason': p.get('na', 'not built yet')})
man = {'version': 1,
       'setup_cmd': '%s check.py --selftest' % PY,
       'checks': checks, 'not_applicable': na,
       'notes': 'No hooks: the real modules are instrumented in memory when '
                'they are imported. Repairs: see known_findings.txt.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print('%d properties, %d claimed' % (len(table.PROPS), len(checks)))
