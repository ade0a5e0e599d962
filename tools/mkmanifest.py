#!/usr/bin/env python3
import json,sys
sys.path.insert(0,'/verif')
import props
ids=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
checks=[]; na=[]
for i in ids:
    s=props.PROPS.get(i)
    if not s:
        na.append(dict(property=i,reason=props.NA.get(i,"check under construction")))
        continue
    checks.append(dict(property=i,quick_cmd=f"python3 check.py {i}",thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
        technique=s.get("technique","abstract interpretation of MIR (global value numbering with algebraic normal forms, gated joins)"),level="other",
        level_note=s["note"] if "note" in s else "Sound over the reals for every input of the analysed instances, up to the stated abstractions (no rounding, NaN or overflow; generics at f64 and f32). "+s.get("note_extra","")))
m=dict(version=1,setup_cmd="python3 check.py setup",checks=checks,not_applicable=na,
  notes="One analyser (smcheck, a rustc driver) runs the rules in anchors/src against /repo's current MIR; see DESIGN.md. No hooks are needed in /repo.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),"checks",len(na),"n/a")
