#!/bin/bash
# Rewrites properties.jsonl and MANIFEST.json and validates them.
cd /verif && python3 tools/catalogue.py && python3-vt - <<'P'
import json,jsonschema
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),sc)
print("valid")
P
