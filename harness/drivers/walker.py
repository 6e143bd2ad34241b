"""W01, W02, W03: recipe choice, generation and execution against WalkerOps.tla."""
import glob, json, os, copy
import numpy as np
from astropy.io import fits
import vf, mk
import corgidrp
import corgidrp.data as data
import corgidrp.caldb as caldb
import corgidrp.walker as walker

REALTYPES = ["KGain", "BadPixelMap", "Dark", "FlatField", "TrapCalibration", "NonLinearityCalibration", "DetectorNoiseMaps", "AstrometricCalibration"]
AUTO = ["AUTOMATIC", "AUTOMATIC", "automatic"]
OPT = ["AUTOMATIC,OPTIONAL", "AUTOMATIC, OPTIONAL"]
PROD = "FluxcalFactor"      # what the product-making stand-in makes
T0 = 40          # time of the first frame (eighths of days)


class StepError(RuntimeError):
    pass


class settings:
    """The module-wide pipeline settings, restored on exit."""
    KEYS = ("caldb_filepath", "track_individual_errors", "skip_missing_cal_steps", "jit_calib_id")

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = {k: getattr(corgidrp, k) for k in self.KEYS}
        for k, v in self.kw.items():
            setattr(corgidrp, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(corgidrp, k, v)


class World:
    """Scratch folder with a calibration database, input files and the stand-in steps."""

    def __init__(self, i, nin, lvl="L1", heads=None):
        self.r = vf.rng("walker", i)
        self.dir = vf.scratch("walker")
        self.out = os.path.join(self.dir, "out")
        os.mkdir(self.out)
        self.db = os.path.join(self.dir, "caldb.csv")
        self.nin, self.log = nin, []
        self.names = [mk.fname(3 * k + 2, lvl) for k in range(nin)]
        for k in range(nin):
            h = heads[k] if heads else ({}, {})
            im = mk.image(np.full((2, 2), float(k)), name=self.names[k], filedir=self.dir,
                          p=h[0], e=dict(SCTSRT=mk.isot(T0 if k == 0 else T0 + 25), EXPTIME=2.0 if k == 0 else 5.0, DATALVL=lvl, **h[1]))
            for key in h[0]:
                if h[0][key] is None:
                    del im.pri_hdr[key]
            im.save(filedir=self.dir)
        self.files = [os.path.join(self.dir, n) for n in self.names]

    def calibs(self, types):
        """two files per type; the first is the best match for the first frame and the newest"""
        self.best, self.far = {}, {}
        db = caldb.CalDB(self.db)
        for t in types:
            for which, dt, created in (("best", self.r.choice([-2, 1, 3]), 90), ("far", self.r.choice([-20, 26]), 50)):
                o = mk.product(t, e=dict(SCTSRT=mk.isot(T0 + dt), EXPTIME=2.0))
                o.ext_hdr["DRPCTIME"] = mk.isot(created)
                o.filename, o.filedir = "%s_%s.fits" % (t, which), self.dir
                o.save(filedir=self.dir)
                db.create_entry(o)
                getattr(self, which)[t] = os.path.abspath(o.filepath)
            if t == "Dark":     # nearer, but for another exposure time
                o = mk.product(t, e=dict(SCTSRT=mk.isot(T0), EXPTIME=5.0))
                o.ext_hdr["DRPCTIME"] = mk.isot(10)
                o.filename, o.filedir = "Dark_other.fits", self.dir
                o.save(filedir=self.dir)
                db.create_entry(o)
        return db

    def unregistered(self, types):
        for t in types:
            o = mk.product(t, e=dict(SCTSRT=mk.isot(T0 + 26), EXPTIME=2.0))
            o.filename, o.filedir = "%s_far.fits" % t, self.dir
            o.save(filedir=self.dir)
            self.far[t] = os.path.abspath(o.filepath)

    # ---- the stand-in for the step of a given name
    def standin(self, name, index, behaviour):
        def step(cur, *args, **kw):
            i = kw.get("step_no", index.get(name, -1))
            frames, kind = self.frames(cur)
            toks = [tok(f) for f in frames]
            cal = []
            for a in args:
                if a is None:
                    cal.append("null")
                else:
                    t = type(a).__name__
                    p = os.path.abspath(a.filepath)
                    cal.append("best" if p == self.best.get(t) or (t == PROD and os.path.dirname(p) == os.path.abspath(self.out)) else "file" if p == self.far.get(t) else "other:" + t)
            types = [type(a).__name__ if a is not None else "" for a in args]
            rec = [recipe_of(f) for f in frames]
            self.log.append({"i": i, "tok": toks[0] if toks and all(t == toks[0] for t in toks) else [-1] if toks else [], "n": len(frames), "kind": kind,
                             "cal": cal, "types": types, "kw": sorted(kw), "trk": bool(corgidrp.track_individual_errors),
                             "names": [f.filename for f in frames],
                             "rec": all(x is not None for x in rec) if frames and self.nin else True})
            b = behaviour.get(i, "pass")
            if b == "fail":
                raise StepError("stand-in failure")
            if b == "prod":
                h = frames[0] if frames else mk.image(np.zeros((2, 2)), e=dict(SCTSRT=mk.isot(T0), EXPTIME=2.0))
                o = mk.product(PROD, e={k: h.ext_hdr[k] for k in ("SCTSRT", "EXPTIME", "RECIPE", "TOK") if k in h.ext_hdr})
                o.filename, o.filedir = "prod%d.fits" % i, ""
                out, fs = o, [o]
            elif isinstance(cur, data.Dataset):
                out = cur.copy()
                if b == "merge":
                    out = data.Dataset([out[0]])
                fs = list(out)
            else:
                out = cur.copy()
                fs = [out]
            for f in fs:
                f.ext_hdr["TOK"] = json.dumps((tok(f) + [i]))
            return out
        return step

    @staticmethod
    def frames(cur):
        if isinstance(cur, data.Dataset):
            return list(cur), "set"
        if isinstance(cur, data.Image):
            return [cur], "prod"
        return [], "none"


def tok(f):
    return json.loads(f.ext_hdr["TOK"]) if "TOK" in f.ext_hdr else []


def recipe_of(f):
    try:
        return json.loads(f.ext_hdr["RECIPE"])
    except Exception:
        return None


class standins:
    def __init__(self, world, index, behaviour):
        self.new = {n: world.standin(n, index, behaviour) for n in walker.all_steps}

    def __enter__(self):
        self.old = dict(walker.all_steps)
        walker.all_steps.update(self.new)

    def __exit__(self, *a):
        walker.all_steps.clear()
        walker.all_steps.update(self.old)


def calclass(w, step, tstep):
    """the calibrations of a recipe step, by class: sequence of [ty, req]"""
    out = []
    for t, v in step.get("calibs", {}).items():
        orig = tstep.get("calibs", {}).get(t, "missing")
        if v is None:
            q = "null"
        elif v == orig and isinstance(v, str) and "AUTOMATIC" in v.upper():
            q = "opt" if "OPTIONAL" in v.upper() else "auto"
        elif isinstance(v, str) and (v == w.best.get(t) or (t == PROD and os.path.dirname(v) == os.path.abspath(w.out))):
            q = "best"
        elif v == w.far.get(t):
            q = "file"
        else:
            q = "other"
        out.append({"ty": t, "req": q})
    return out


def recsteps(w, recipe, tmpl):
    if not isinstance(recipe, dict):
        return []
    out = []
    for s, t in zip(recipe["steps"], tmpl["steps"]):
        out.append({"name": s["name"], "skip": bool(s.get("skip", False)), "cal": calclass(w, s, t), "kw": s.get("keywords") == t["_kw"] if "_kw" in t else s.get("keywords") == t.get("keywords")})
    return out if len(recipe["steps"]) == len(tmpl["steps"]) else []


def listing(w, recipe, tmpl):
    """what is on disk in the output directory"""
    files, recs = [], 0
    for p in sorted(os.listdir(w.out)):
        full = os.path.join(w.out, p)
        if p.endswith("_recipe.json"):
            recs += 1
            continue
        f = data.autoload(full)
        rec = recipe_of(f)
        files.append({"name": p, "tok": tok(f), "type": type(f).__name__, "rec": rec is not None and rec.get("name") == recipe["name"] and rec.get("inputs") == recipe["inputs"],
                      "reccal": [x["cal"] for x in recsteps(w, rec, tmpl)] if rec else []})
    return files, recs


def registered(w):
    db = caldb.CalDB(w.db)
    return sorted(os.path.basename(p) for p in db._db["Filepath"] if os.path.dirname(p) == os.path.abspath(w.out))


def job(i, sc):
    cfg, tm = sc["cfg"], sc["tmpl"]
    nin = cfg["nin"]
    w = World(i, nin)
    r = w.r
    real = dict(zip("ABC", r.sample(REALTYPES, 3)))
    free = [x for x in "ABC" if x not in cfg["have"]]
    if free and r.random() < .5:
        real[free[0]] = PROD
    have = [real[x] for x in cfg["have"]]
    stepnames = r.sample([n for n in walker.all_steps if n not in ("dark_subtraction",)], len(tm))
    for k in range(len(tm)):      # the step whose output directory can be automatic
        if tm[k]["kind"] == "pass" and tm[k]["kw"] and r.random() < .25 and "dark_subtraction" not in stepnames:
            stepnames[k] = "dark_subtraction"
        elif tm[k]["kw"] and k and r.random() < .15 and stepnames[k - 1] != "dark_subtraction" and tm[k - 1]["kind"] != "save":
            stepnames[k] = stepnames[k - 1]
    index, beh, steps, mod = {}, {}, [], []
    for k, s in enumerate(tm, 1):
        if s["kind"] == "save":
            d = {"name": r.choice(["save", "save", "Save"])}
            if s["suffix"]:
                d["keywords"] = {"suffix": r.choice(["", "_"]) + s["suffix"]}
            elif s["kw"]:
                d["keywords"] = {}
        else:
            d = {"name": stepnames[k - 1]}
            index.setdefault(d["name"], k)
            beh[k] = s["kind"]
            if s["cal"] or r.random() < .2:
                d["calibs"] = {real[c["ty"]]: None if c["req"] == "null" else "%s/%s_far.fits" % (w.dir, real[c["ty"]]) if c["req"] == "file"
                               else r.choice(AUTO if c["req"] == "auto" else OPT) for c in s["cal"]}
            if s["kw"]:
                d["keywords"] = {"step_no": k}
                if d["name"] == "dark_subtraction":
                    d["keywords"]["outputdir"] = r.choice(["AUTOMATIC", "automatic", "/elsewhere"])
            if s["skip"]:
                d["skip"] = True
            elif r.random() < .1:
                d["skip"] = False
        steps.append(d)
        mod.append({"kind": s["kind"], "skip": s["skip"], "cal": [{"ty": real[c["ty"]], "req": c["req"]} for c in s["cal"]], "suffix": s["suffix"],
                    "kws": sorted(d.get("keywords", {})), "name": d["name"]})
    template = {"name": "gen%d" % i, "template": True, "drpconfig": {}, "inputs": [], "outputdir": "", "steps": steps}
    for key, v in (("jit_calib_id", cfg["djit"]), ("skip_missing_cal_steps", cfg["dskip"]), ("track_individual_errors", cfg["trk"])):
        if v != "absent":
            template["drpconfig"][key] = (v == "yes")
    for d in steps:      # keywords expected after generation
        d["_kw"] = json.loads(json.dumps(d.get("keywords"))) if d.get("keywords") is not None else None
        if d["name"] == "dark_subtraction" and d["_kw"]["outputdir"].upper() == "AUTOMATIC":
            d["_kw"]["outputdir"] = w.out
    expkw = copy.deepcopy(template)
    for d in steps:
        del d["_kw"]
    before = copy.deepcopy(template)
    jit = cfg["gjit"] if cfg["djit"] == "absent" else cfg["djit"] == "yes"
    skiprun = cfg["gskip"] if cfg["dskip"] == "absent" else cfg["dskip"] == "yes"
    base = {"steps": mod, "have": have, "jit": jit, "names": [n[:-5] for n in w.names],
            "trk": cfg["trk"] == "yes"}
    evs = []
    with settings(caldb_filepath=w.db, jit_calib_id=cfg["gjit"], skip_missing_cal_steps=cfg["gskip"], track_individual_errors=False):
        w.calibs(have)
        w.unregistered([t for t in real.values() if t not in have])
        with standins(w, index, beh):
            gen = dict(base, op="gen", skipMissing=cfg["gskip"], exc="")
            rec = None
            flist = list(w.files)
            try:
                rec = walker.autogen_recipe(flist, w.out, template=template)
            except Exception as ex:
                gen["exc"] = vf.excname(ex)
            gen["out"] = recsteps(w, rec, expkw) if rec else []
            gen["untouched"] = template == before and flist == w.files
            gen["inputs"] = rec is not None and rec["inputs"] == w.files
            gen["outdir"] = rec is not None and rec["outputdir"] == w.out
            gen["istemplate"] = bool(rec["template"]) if rec else False
            gen["cfgkept"] = rec is not None and rec["drpconfig"] == before["drpconfig"] and rec["name"] == before["name"]
            evs.append(gen)
            if rec is not None or cfg["walk"]:
                saved = copy.deepcopy(rec)
                run = dict(base, op="run", skipMissing=skiprun, exc="", nin=nin, walk=cfg["walk"], genSkip=cfg["gskip"])
                try:
                    if cfg["walk"]:
                        if cfg["byfile"]:
                            tp = os.path.join(w.dir, "mytemplate.json")
                            json.dump(template, open(tp, "w"))
                            res = walker.walk_corgidrp(w.files, "", w.out, template=tp)
                        else:
                            res = walker.walk_corgidrp(w.files, "", w.out, template=copy.deepcopy(template))
                        if saved is None:
                            saved = res
                    elif cfg["byfile"]:
                        p = os.path.join(w.dir, "myrecipe.json")
                        json.dump(rec, open(p, "w"))
                        walker.run_recipe(p, save_recipe_file=cfg["recfile"])
                    else:
                        walker.run_recipe(copy.deepcopy(rec), save_recipe_file=cfg["recfile"])
                except Exception as ex:
                    run["exc"] = vf.excname(ex)
                run["calls"] = w.log
                run["files"], run["recfiles"] = listing(w, saved or dict(template, inputs=w.files), expkw)
                run["wantrecfile"] = 1 if (cfg["walk"] or cfg["recfile"]) else 0
                run["recfileok"] = all(json.load(open(p)) == saved for p in glob.glob(os.path.join(w.out, "*_recipe.json"))) if saved else True
                run["db"] = registered(w)
                run["nin"] = nin
                evs.append(run)
    return {"meta": {"i": i, "cfg": cfg, "types": real}, "ev": evs}


# ------------------------------------------------------------------- recipe choice
LVLS = ["L1", "L2a", "L2b", "L3", "L4", "CAL", "TDA", "L2"]
VIS = ["", "ENGPUPIL", "ENGIMGAGE", "BORESITE", "FFIELD", "DARK", "PUPILIMG", "ABSFLXFT", "ABSFLXBT", "CORETPUT", "SCI", "CGIVST_TDD_OBS", "PHOTCAL"]


def templates():
    out = {}
    for p in glob.glob(os.path.join(walker.recipe_dir, "*.json")):
        out[os.path.basename(p)] = json.load(open(p))
    return out


def same_recipe(rec, t, outdir):
    """is rec the recipe generated from template t with lookups left for later?"""
    a = copy.deepcopy(t)
    for s in a["steps"]:
        if s["name"] == "dark_subtraction" and s["keywords"]["outputdir"].upper() == "AUTOMATIC":
            s["keywords"]["outputdir"] = outdir
    return rec["name"] == a["name"] and rec["steps"] == a["steps"]


def choice_job(i, combos):
    evs = []
    ts = templates()
    for f in combos:
        r = vf.rng("choice", i, sorted(f.items()))
        w = World("c%d" % i, 0, lvl="L1")
        nfr = 3
        mixkey = r.choice(["EXPTIME", "EMGAIN_C", "KGAINPAR"])
        mixat = r.choice([1, 2])
        paths = []
        for k in range(nfr):
            e = {"DATALVL": f["lvl"], "ISPC": f["pc"], "FSMLOS": f["fsm"], "EXPTIME": 2.0, "EMGAIN_C": 10.0, "KGAINPAR": 8.0}
            if f["many"] and k == mixat:
                e[mixkey] = 30.0
            p = {"VISTYPE": f["vis"]}
            if k and f["other"]:     # later frames do not decide
                p["VISTYPE"] = "DARK" if f["vis"] != "DARK" else "FFIELD"
                e["ISPC"] = not f["pc"]
                e["FSMLOS"] = 1 - f["fsm"]
            im = mk.image(np.zeros((2, 2)), name=mk.fname(k + 1), filedir=w.dir, p=p, e=e)
            if f["vis"] == "" and (k == 0 or not f["other"]):
                del im.pri_hdr["VISTYPE"]
            im.save(filedir=w.dir)
            paths.append(os.path.join(w.dir, im.filename))
        ev = {"op": "choice", "f": {k: f[k] for k in ("lvl", "vis", "pc", "many", "fsm")}, "exc": "", "names": [], "matches": []}
        with settings(jit_calib_id=True, caldb_filepath=w.db):
            try:
                g = walker.autogen_recipe(paths, w.out)
                g = g if isinstance(g, list) else [g]
                ev["matches"] = [sorted(n for n, t in ts.items() if same_recipe(x, t, w.out)) for x in g]
                if not all(x["inputs"] == paths for x in g):
                    ev["matches"] = [["inputs differ"]]
            except Exception as ex:
                ev["exc"] = vf.excname(ex)
        evs.append(ev)
    return {"meta": {"op": "choice", "i": i}, "ev": evs}


def shipped_job(i, f):
    """process a file list with the shipped recipes, every step replaced by a stand-in"""
    w = World("s%d" % i, 2, lvl=f["lvl"], heads=[({"VISTYPE": f["vis"] or None}, {"ISPC": f["pc"], "FSMLOS": f["fsm"]})] * 2)
    ts = templates()
    ev = {"op": "shipped", "f": f, "exc": "", "calls": [], "have": []}
    types = sorted({t for n in ts for s in ts[n]["steps"] for t in (s.get("calibs") or {})})
    names, real = [], dict(walker.all_steps)

    def stand(name):
        def step(cur, *args, **kw):
            names.append([name] + [type(a).__name__ if a is not None else "null" for a in args])
            return cur.copy()
        return step
    with settings(caldb_filepath=w.db, jit_calib_id=False, skip_missing_cal_steps=False):
        w.calibs([t for t in types if t in mk.KINDS and t != "CoreThroughputCalibration"])
        o = mk.product("CoreThroughputCalibration", e=dict(SCTSRT=mk.isot(T0), EXPTIME=2.0))
        o.filename = "ctcal.fits"
        o.save(filedir=w.dir)
        o.filedir = w.dir
        caldb.CalDB(w.db).create_entry(o)
        walker.all_steps.update({n: stand(n) for n in real})
        try:
            walker.walk_corgidrp(w.files, "", w.out)
        except Exception as ex:
            ev["exc"] = vf.excname(ex) + str(ex)[:200]
        finally:
            walker.all_steps.clear()
            walker.all_steps.update(real)
    ev["calls"] = names
    ev["want"] = {n: [[s["name"]] + list((s.get("calibs") or {}).keys()) for s in ts[n]["steps"] if s["name"] != "save" and not s.get("skip")] for n in ts}
    ev["f"]["many"] = True
    return {"meta": {"op": "shipped", "f": f}, "ev": [ev]}


def check(prop, tier):
    thorough = tier == "thorough"
    if prop == "W01":
        allc = [{"lvl": l, "vis": v, "pc": p, "many": m, "fsm": s, "other": o} for l in LVLS for v in VIS for p in (False, True) for m in (False, True)
                for s in (0, 1) for o in (False, True) if not (v == "" and l not in ("L1",))]
        r = vf.rng("choices")
        r.shuffle(allc)
        if not thorough:
            # every (level, visit, counting, mixture, loop) combination once
            seen, keep = set(), []
            for c in allc:
                k = (c["lvl"], c["vis"], c["pc"], c["many"], c["fsm"] if c["lvl"] == "L3" else 0)
                if k not in seen:
                    seen.add(k)
                    keep.append(c)
            allc = keep
        traces = vf.pmap(choice_job, [(k, [c]) for k, c in enumerate(allc)])
        ship = [{"lvl": l, "vis": v, "pc": p, "fsm": s} for l in ("L1", "L2a", "L2b", "L3") for v in (VIS if l == "L1" else ["DARK", "SCI", "ABSFLXFT", "CORETPUT"])
                for p in (False, True) for s in ((0, 1) if l == "L3" else (0,))]
        traces += vf.pmap(shipped_job, [(k, f) for k, f in enumerate(ship)])
        mc = [vf.model_check("MCChoice")]
    else:
        gen, g = vf.generate("GenWalker", num=2500 if thorough else 330, depth=10)
        traces = vf.pmap(job, [(k, sc) for k, sc in enumerate(gen)])
        mc = [vf.model_check("MCWalker"), vf.model_check("MCWalker", "MCWalkerThree"), g]
        if thorough:
            mc.append(vf.model_check("MCWalker", "MCWalkerDeep"))
    bad, val = vf.validate("WalkerTrace", traces)
    bad = [(t, l, [c for c in cl if c.startswith(prop)]) for t, l, cl in bad]
    bad = [b for b in bad if b[2]]
    return vf.report(traces, bad, mc + [val], describe=lambda t, e: json.dumps(e)[:1200])
