import json,sys
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    if d['id'] in sys.argv[1:]: print(json.dumps(d,indent=1))
