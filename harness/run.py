"""run.py PROPERTY [quick|thorough]"""
import contextlib, importlib, json, os, sys, time, traceback
import vf

KNOWN = os.path.join(vf.HERE, "known_findings.json")


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    t0 = time.time()
    reg = json.load(open(os.path.join(vf.HERE, "harness", "registry.json")))
    if prop not in reg:
        print("unknown property", prop)
        return 2
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    mod = importlib.import_module("drivers." + reg[prop])
    try:
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):     # the code under test prints
            rep = mod.check(prop, tier)
    except vf.MachineryError as e:
        print("MACHINERY-ERROR property=%s %s" % (prop, e))
        return 2
    except vf.ObservationFailure as e:
        rep = {"violations": [{"clause": "ObservationFailed", "what": str(e)}],
               "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}}
    known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == prop and k["status"] == "known"]
    viol, hit = [], set()
    for v in rep["violations"]:          # {"clause","what","case"}
        sup = None
        for k in known:
            if v["clause"] == k["clause"] and k["site"] == v.get("site", ""):
                sup = k
        if sup is not None:
            hit.add(sup["id"])
        else:
            viol.append(v)
    for k in known:
        if k["id"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev = {"property": prop, "tier": tier, "seed": vf.SEED, "level": "model_checking",
          "coverage": rep["coverage"], "assumptions": rep.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(vf.HERE, "evidence"), exist_ok=True)
    with open(os.path.join(vf.HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        rdir = os.path.join(vf.HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s.json" % prop)
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": vf.SEED, "tier": tier, "violations": viol[:20]}, f, indent=1, default=str)
        seen = set()
        for v in viol:
            if v["clause"] in seen:
                continue
            seen.add(v["clause"])
            print("  clause %s: %s" % (v["clause"], str(v["what"])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    c = rep["coverage"]
    print("PASS property=%s states=%s transitions=%s traces=%s wall=%.1fs" % (
        prop, c.get("states"), c.get("transitions"), c.get("traces_validated_against_impl"), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
