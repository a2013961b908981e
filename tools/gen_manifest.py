"""writes MANIFEST.json from the property list and the check modules that exist"""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / 'tools'))
from techniques import T as TECH
checks, na = [], []
for line in (V / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    i = p['id']
    if (V / f'mc/props/{i.lower()}.py').exists() and i in TECH:
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough', technique=TECH[i][0],
                           level='model_checking', level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason='not built yet'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='All checks explore the real code of /repo (no build needed: pure Python, imported from the working tree with a fresh bytecode cache); '
               'see DESIGN.md. No hooks in /repo.')
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
