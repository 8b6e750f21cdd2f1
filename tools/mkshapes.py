"""Records the loop forms of the functions under contract on the current tree (vlib/shapes.json)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vlib"); sys.path.insert(0, V + "/vlib/contracts")
import assemble, props, vgen
src = vgen.Source()
sh = {}
for p, P in props.PROPS.items():
    for u in P["units"]:
        a = assemble.Assembly(src, props.CT, props.DEFS, props.LEMMAS)
        a.emit(u["fns"], u["lemmas"], u["extra"], u["structs"], libs=u["libs"], fp=u["fp"])
        sh.update(a.g.shapes)
# functions no user can call: they may disappear (their callers are then verified with whatever replaced them)
priv = []
for k in sh:
    rel, toks, it, h = src.get(props.CT[k].get("src", k)) if k in props.CT else (None, None, None, None)
    if it and not (h and h["trait"]) and not any(toks[i].s == "pub" for i in range(*it["head"])):
        priv.append(k)
sh["__private__"] = sorted(priv)
json.dump(sh, open(V + "/vlib/shapes.json", "w"), indent=0, sort_keys=True)
print(len(sh))
