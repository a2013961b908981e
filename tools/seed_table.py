"""seedres.txt (output of the seed runs) -> seed_results.json"""
import json, pathlib, re, sys
V = pathlib.Path(__file__).resolve().parent.parent
f = V / 'tools/seed_results.json'
res = json.loads(f.read_text()) if f.exists() else {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+) prop=\S+ check=(\S+) rc=(\d+)', l)
    if m:
        r = set(res.get(m[1], []))
        r.discard(m[2])
        if m[3] == '1':
            r.add(m[2])
        res[m[1]] = sorted(r)
res = {k: v for k, v in sorted(res.items()) if (V / 'seeded' / k).exists()}
f.write_text(json.dumps(res, indent=0))
