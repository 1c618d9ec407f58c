import json, jsonschema
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    for e in jsonschema.Draft202012Validator(s).iter_errors(json.loads(l)):
        print(json.loads(l)['id'], e.message[:200])
print('validated')
