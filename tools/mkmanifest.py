"""Writes MANIFEST.json from properties.jsonl and the modules present in pbt/props."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'levels.json'), encoding='utf-8'))
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8'):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(V, 'pbt', 'props', p.lower() + '.py')) and p in NOTES:
        t, note = NOTES[p]
        checks.append({'property': p, 'quick_cmd': f'bash run.sh {p} quick',
                       'thorough_cmd': f'bash run.sh {p} thorough',
                       'technique': t, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks}
if na:
    m['not_applicable'] = na
m['notes'] = ('Property-based testing with Hypothesis (bundled in the sandbox) over generated '
              'inputs against independent oracles; see DESIGN.md. No hooks in /repo.')
with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
