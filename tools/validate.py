#!/opt/veriftools/pyvenv/bin/python
import glob, json, jsonschema
load = lambda f: json.load(open(f))
jsonschema.validate(load('/verif/MANIFEST.json'), load('/root/.vp/MANIFEST.schema.json'))
s = load('/root/.vp/PROPERTIES.schema.json')
for l in open('/verif/properties.jsonl'):
    d = json.loads(l); jsonschema.validate(d, s); assert len(d['title']) <= 80, (d['id'], len(d['title']))
s = load('/root/.vp/EVIDENCE.schema.json')
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(load(f), s)
print("valid")
