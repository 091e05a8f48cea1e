import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
import os
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir('/verif/evidence'):
    if f.endswith('.json'): jsonschema.validate(json.load(open('/verif/evidence/'+f)),es)
print("valid")
