#!/opt/veriftools/pyvenv/bin/python3
import json,jsonschema,glob,sys
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); assert len(d['statement'].split('. '))<=3,d['id']; ids.append(d['id'])
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
c=[x['property'] for x in m['checks']]+[x['property'] for x in m.get('not_applicable',[])]
assert sorted(c)==sorted(ids),(c,ids)
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
print('ok',len(ids))
