import importlib, json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V), str(V / 'tools'), '/repo']
from design_props import P
from techniques import T
props = [json.loads(l) for l in (V / 'properties.jsonl').read_text().splitlines()]
out = [(V / 'tools/design_head.md').read_text(), '## Per property\n']
costs = json.loads((V / 'tools/costs.json').read_text()) if (V / 'tools/costs.json').exists() else {}
for p in props:
    i = p['id']
    m = importlib.import_module('mc.props.' + i.lower())
    b = m.BOUNDS
    out.append(f'### {i} — {p["title"]}\n')
    out.append(f'*Technique:* {T[i][0]}.  ')
    out.append(f'*Enumerated:* {P[i][0]}  ')
    out.append(f'*Oracle:* {P[i][1]}  ')
    out.append(f'*One case:* {m.RULE}.  ')
    out.append(f'*Bounds, quick:* {b["quick"]}.  ')
    out.append(f'*Bounds, thorough:* {b["thorough"]}.  ')
    if getattr(m, 'ASSUMPTIONS', None):
        out.append(f'*Assumptions:* {"; ".join(m.ASSUMPTIONS)}.  ')
    if i in costs:
        out.append(f'*Cost (8 cores):* {costs[i]}.  ')
    out.append(f'*Beyond the tests:* {p["why_tests_cant"]}\n')
out.append('Not applicable: none; all 30 properties are decided by this family.\n')
out.append((V / 'tools/design_tail.md').read_text())
ref = V / 'tools/design_refactorings.md'
if ref.exists():
    out.append(ref.read_text())
out.append('## Planted bugs\n\nEach is in `seeded/<id>/` (patch, demonstration, what it needs). "caught by" lists the checks confirmed to report it (quick tier).\n')
res = json.loads((V / 'tools/seed_results.json').read_text()) if (V / 'tools/seed_results.json').exists() else {}
out.append('| planted bug | property | what it breaks | needs | caught by |\n| --- | --- | --- | --- | --- |')
for d in sorted((V / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    out.append(f'| {d.name} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {", ".join(res.get(d.name, [])) or "-"} |')
(V / 'DESIGN.md').write_text('\n'.join(out) + '\n')
