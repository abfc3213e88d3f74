"""python3-vt tools/validate.py: properties.jsonl and MANIFEST.json against their schemas"""
import json, jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    for e in jsonschema.Draft202012Validator(S).iter_errors(d): print(d["id"], e.json_path, e.message[:150])
    print(d["id"], len(d["statement"]), "sentences ~", d["statement"].count(". ")+1)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
