import json,jsonschema,os,sys
V='/verif/'
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V+'properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s)
    n=d['statement'].count('. ')+1
    if n>3 or len(d['title'])>80: print('bad',d['id'],n)
if os.path.exists(V+'MANIFEST.json'): jsonschema.validate(json.load(open(V+'MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir(V+'evidence'):
    jsonschema.validate(json.load(open(V+'evidence/'+f)),e)
print('valid')
