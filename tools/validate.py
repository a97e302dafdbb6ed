import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
import glob
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); n=d['statement'].count('. ')+1
    if n>3: print(d['id'],n)
print('valid')
