import json, jsonschema, pathlib
v = pathlib.Path('/verif'); r = pathlib.Path('/root/.vp')
jsonschema.validate(json.loads((v/'MANIFEST.json').read_text()), json.loads((r/'MANIFEST.schema.json').read_text()))
s = json.loads((r/'PROPERTIES.schema.json').read_text())
for l in (v/'properties.jsonl').read_text().splitlines():
    jsonschema.validate(json.loads(l), s)
e = json.loads((r/'EVIDENCE.schema.json').read_text())
for f in (v/'evidence').glob('P*.json'):
    jsonschema.validate(json.loads(f.read_text()), e)
print('valid')
