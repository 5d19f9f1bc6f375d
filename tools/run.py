"""runs the obligations of one property that match a pattern; groups the
failures by their detail:  tools/run.py C07 'Compose' [n]"""
import os, sys, re, collections, signal
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), '/verif']
import check, registry
from pyvc import npm
from pyvc.verify import discharge
P = registry.load(sys.argv[1])
obs = [o for o in P.obligations('quick') if re.search(sys.argv[2], o.name)]
check.STATE.update(obs=obs, seed=1, deadline=4e6 + __import__("time").time(), limit=60, cross=1)
res = check.pool_run(check.work, len(obs), 8, 4e6 + __import__("time").time(), max(1, min(40, len(obs) // 64)))
g = collections.defaultdict(list)
for r in res:
    if r['status'] != 'proved' or r['confirmed']:
        c = r['confirmed']
        g[r['status'], bool(c), str(r['goal']), re.sub(r'[0-9$+*-]+', '#', r['detail'])[:150],
          c['what'][:150] if c else r.get('harness', '')[-300:]].append(r['name'])
print(collections.Counter(r['status'] for r in res))
if len(sys.argv) > 3:
    for r in sorted(res, key=lambda r: -r.get("seconds", r.get("time", 0)))[:int(sys.argv[3])]:
        print(round(r.get("seconds", r.get("time", 0)), 1), r["name"])
for k, v in sorted(g.items(), key=lambda t: -len(t[1])):
    print(len(v), k, '\n      ', sorted(v, key=len)[:3])
