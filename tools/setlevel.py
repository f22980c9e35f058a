#!/usr/bin/env python3
"""setlevel.py ID proof|exploration MODULES [note] -- record what decides a property (checks.json)"""
import json, sys
p, level, mods = sys.argv[1:4]
note = sys.argv[4] if len(sys.argv) > 4 else ""
d = json.load(open("/verif/checks.json"))
q = d["properties"][p]
q["modules"] = [m for m in mods.split(",") if m and m != "-"]
q["level"] = level
if level == "proof":
    t = "Every obligation of the functions that carry the property is discharged by Verus/Z3 from /repo's current source, for all inputs; trusted: the weaver's extraction (insertions and the reported token rewrites only), Verus, Z3, the assumed std contracts listed in the evidence. "
    q["technique"] = "contract-based deductive verification (Verus) of the woven /repo source, with replay on the real crate"
elif level == "other":
    t = "Mixed: the obligations of the functions that carry the property are discharged by Verus/Z3 from /repo's current source, for all inputs, except the part named here, which is bounded (replay on the real crate) and not counted as proved. "
    q["technique"] = "contract-based deductive verification (Verus) of the woven /repo source, bounded replay on the real crate for the part no contract decides"
else:
    if q["modules"]:
        t = "Bounded overall: part of the functions the property depends on are under discharged contracts (listed in the evidence), the rest is covered by randomised/exhaustive-small executable contracts on the real crate. "
        q["technique"] = "contract-based deductive verification (Verus) of part of the functions, bounded replay of executable contracts on the real crate for the rest"
    else:
        t = "Bounded: randomised/exhaustive-small executable contracts on the real crate against independent oracles; not a proof. "
q["level_note"] = q["explanation"] = t + note
json.dump(d, open("/verif/checks.json", "w"), indent=1)
