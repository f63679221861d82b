import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
p=set(o['passed']); print("missing", [x for x in b['stable'] if x not in p])
