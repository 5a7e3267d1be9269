#!/opt/veriftools/pyvenv/bin/python3
"""writes properties.jsonl and MANIFEST.json from props/meta.py and validates them"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/props')
import meta
rows = []
for p in sorted(meta.P + meta.NA, key=lambda p: p['id']):
    assert len(p['title']) <= 80, p['title']
    r = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
             anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))
    for k in ('state', 'observe_at'):
        if k in p:
            r['anchors'][k] = p[k]
    rows.append(r)
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(r) + '\n' for r in rows))
man = dict(version=1, setup_cmd='./setup.sh',
           checks=[dict(property=p['id'], quick_cmd='VERIF_TIER=quick ./check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check.py ' + p['id'],
                        technique=p.get('technique', meta.TECH), level='proof', level_note=meta.NOTE + p['note']) for p in sorted(meta.P, key=lambda p: p['id'])],
           not_applicable=[dict(property=p['id'], reason=p['reason']) for p in sorted(meta.NA, key=lambda p: p['id'])],
           notes='No hooks: /repo is verified as it is. See DESIGN.md.')
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
for r in rows:
    jsonschema.validate(r, json.load(open('/root/.vp/PROPERTIES.schema.json')))
jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(rows), 'properties,', len(man['checks']), 'checks')
