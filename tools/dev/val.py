import json,jsonschema
P=json.load(open('/root/.vp/PROPERTIES.schema.json'));M=json.load(open('/root/.vp/MANIFEST.schema.json'));Ev=json.load(open('/root/.vp/EVIDENCE.schema.json'))
rows=[json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
for r in rows:
    try: jsonschema.validate(r,P if P.get('type')=='object' else P['items'])
    except Exception as e: print(r['id'],str(e)[:300])
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),M)
print(len(rows),'ok')
