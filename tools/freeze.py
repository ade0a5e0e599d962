#!/usr/bin/env python3
# freeze.py: record, after review, the rules and obligation counts of the last dev.sh run as floors
import json,sys
f='/verif/floors.json'
try: fl=json.load(open(f))
except Exception: fl={}
d=json.load(open('/verif/build/dev.json'))
seen={}
for r in d['results']:
    seen.setdefault(r['rule'].split('::')[0],{})[r['rule']]=len([o for o in r['obs'] if '!panic' not in o['key'] and '!effect' not in o['key'] and '!domain' not in o['key']])
fl.update(seen)
json.dump(fl,open(f,'w'),indent=0,sort_keys=True)
print({k:(len(v),sum(v.values())) for k,v in seen.items()})
