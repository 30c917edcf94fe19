"""python3-vt tools/validate.py: are the committed lists valid?"""
import json, jsonschema, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    p = json.loads(l)
    try:
        jsonschema.validate(p, s)
    except jsonschema.ValidationError as e:
        print(p['id'], e.message[-90:], list(e.path))
