#!/usr/bin/env python3
# addfix.py PROP COMMIT TEXT: record a repair in known_findings.json
import json,sys
f='/verif/known_findings.json'; d=json.load(open(f)); d['fixed'].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"); json.dump(d,open(f,'w'),indent=1)
