import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/w/out.json'))
print('missing', b-set(o['passed']), 'n', len(o['passed']))
