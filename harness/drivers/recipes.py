"""W04: the shipped recipe templates against RecipeOps.tla and the step functions' real signatures."""
import glob
import inspect
import json
import os
import vf
import corgidrp
import corgidrp.data as data
import corgidrp.walker as walker

NODATA = ("bp_map", "test")


def params(fn):
    ps = list(inspect.signature(fn).parameters.values())
    pos = [p for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    req = [p for p in pos[1:] if p.default is p.empty]
    return {"params": [p.name for p in pos[1:]] + [p.name for p in ps if p.kind == p.KEYWORD_ONLY], "nreq": len(req),
            "varkw": any(p.kind == p.VAR_KEYWORD for p in ps)}


def load(path):
    j = json.load(open(path))
    base = os.path.basename(path)[:-5]
    level = "L2a" if base.startswith("l2a_") else "L2b" if base.startswith("l2b_") else "L3" if base.startswith("l3_") else "L1"
    steps = []
    for s in j["steps"]:
        st = {"name": s["name"], "calibs": list(s.get("calibs", {})), "kw": list(s.get("keywords", {})), "params": [], "nreq": 0, "varkw": False}
        st["form"] = [v is None or v.upper() == "AUTOMATIC" or (v.upper().startswith("AUTOMATIC") and "OPTIONAL" in v.upper()) for v in s.get("calibs", {}).values()]
        if s["name"] in walker.all_steps:
            st.update(params(walker.all_steps[s["name"]]))
        if s["name"].lower() == "save":
            st["name"] = "save"
        steps.append(st)
    return {"file": base, "level": level, "nodata": base in NODATA, "pumped": base == "trap_pump_cal", "template": bool(j.get("template")),
            "drp": list(j.get("drpconfig", {})), "steps": steps}


def check(prop, tier):
    mc = vf.model_check("MCRecipe")
    kinds = [k for k, v in data.datatypes.items()]
    sets = [k for k in vars(corgidrp) if not k.startswith("_")]
    traces = []
    for p in sorted(glob.glob(os.path.join(walker.recipe_dir, "*.json"))):
        e = {"names": list(walker.all_steps), "types": kinds, "settings": sets}
        e.update(load(p))
        traces.append({"meta": {"file": e["file"]}, "ev": [e]})
    bad, val = vf.validate("RecipeTrace", traces)
    return vf.report(traces, bad, [mc, val], site=lambda t, e: e["file"], describe=lambda t, e: e["file"] + " " + json.dumps([(s["name"], s["calibs"]) for s in e["steps"]]),
                     extra={"recipes": len(traces), "steps": sum(len(t["ev"][0]["steps"]) for t in traces)})
