"""writes MANIFEST.json from the registry"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import registry
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
PY = 'VERIF_REPO=/repo /opt/venv/bin/python -B check.py --property %s --tier %s'
checks, na = [], []
for i in ids:
    if i in registry.PROPS:
        p = registry.load(i)
        checks.append(dict(
            property=i, quick_cmd=PY % (i, 'quick'), thorough_cmd=PY % (i, 'thorough'),
            technique=p.technique, level=p.level, level_note=p.note))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(
            i, 'not claimed yet: its contracts are still being built')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import sys; sys.path[:0]=[\'/repo\',\'.\']; import pyvc.index, registry"',
         checks=checks, not_applicable=na,
         notes='Contract-based deductive verification by symbolic execution of the real functions; see DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
