"""Validate MANIFEST.json, properties.jsonl and evidence/*.json against the schemas (python3-vt)."""
import json,jsonschema,glob,os
v=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sch=lambda n: json.load(open(f'/root/.vp/{n}.schema.json'))
m=json.load(open(v+'/MANIFEST.json')); jsonschema.validate(m,sch('MANIFEST'))
s=sch('PROPERTIES')
for l in open(v+'/properties.jsonl'): jsonschema.validate(json.loads(l),s)
es=sch('EVIDENCE')
for f in sorted(glob.glob(v+'/evidence/*.json')): jsonschema.validate(json.load(open(f)),es)
print([c['property'] for c in m['checks']],'valid')
