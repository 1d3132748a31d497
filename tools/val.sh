#!/bin/bash
# regenerate and validate properties.jsonl and MANIFEST.json
cd "$(dirname "$0")/.." && python3 tools/registry.py && python3-vt - <<'P'
import json,jsonschema
ms=json.load(open('/root/.vp/MANIFEST.schema.json')); m=json.load(open('MANIFEST.json')); jsonschema.validate(m,ms)
ps=json.load(open('/root/.vp/PROPERTIES.schema.json'))
n=0
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),ps); n+=1
print("valid", n, "properties,", len(m["checks"]), "checks")
P
