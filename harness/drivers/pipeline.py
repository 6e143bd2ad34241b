"""Q01, M01, M07, H01 (and part of M02): random processing histories against PipelineOps.tla."""
import copy
import hashlib
import os
import shutil
import numpy as np
import corgidrp
import corgidrp.data as data
import snap
import steps
import vf

STEPCLAUSES = {"M02": "M02_Step"}
TRACK = "track_individual_errors"


def project(f):
    return {"id": f.pri_hdr.get("VFID", ""), "lvl": str(f.ext_hdr.get("DATALVL", "")), "unit": str(f.ext_hdr.get("BUNIT", "")),
            "name": f.filename, "sat": int(f.pri_hdr.get("SATSPOTS", 0)), "ref": int(f.pri_hdr.get("PSFREF", 0))}


def area(ds):
    s = ds[0].data.shape
    return "full" if s == steps.FULL else "image" if s == (steps.N, steps.N) else "other"


def state(ds):
    def g(f):
        return tuple(repr(f.ext_hdr.get(k)) for k in ("EXPTIME", "EMGAIN_C", "KGAINPAR"))
    return {"fr": [project(f) for f in ds], "area": area(ds), "dim": int(ds[0].data.ndim), "mixed": len({g(f) for f in ds}) > 1,
            "bias": any("BIAS" in f.hdu_names for f in ds)}


def history(h):
    return [str(c.value) for c in h.cards if c.keyword == "HISTORY"]


def cards(h):
    return {c.keyword: repr(c.value) for c in h.cards if c.keyword not in ("HISTORY", "COMMENT", "") + SKIP}


def snapcal(cal):
    return {k: None if v is None else snap.frame(v) for k, v in cal.items()}


def settings():
    return {k: repr(v) for k, v in vars(corgidrp).items() if not k.startswith("_") and isinstance(v, (str, bool, int, float, type(None), dict, list))}


SKIP = ("DRPCTIME", "DATETIME", "DATE")


def digest(ds, tmp):
    """What a caller gets from the dataset, without creation times and scratch paths."""
    def h(x):
        return None if x is None else [(c.keyword, str(c.value).replace(tmp, "")) for c in x.cards if c.keyword not in SKIP]
    out = []
    for f in ds:
        out.append((snap.arr(f.data), snap.arr(f.err), snap.arr(f.dq), h(f.pri_hdr), h(f.ext_hdr), h(f.err_hdr), h(f.dq_hdr), f.filename,
                    [(x.name, snap.arr(x.data)) for x in f.hdu_list]))
    return hashlib.sha1(repr(out).encode()).hexdigest()


def arrays(ds):
    out = [ds.all_data, ds.all_err, ds.all_dq]
    for f in ds:
        out += [f.data, f.err, f.dq] + [x.data for x in f.hdu_list if x.data is not None]
    return out


def inmem(ds, cal, out):
    """Do the output's arrays share memory with the input's or a calibration's?"""
    ins = arrays(ds)
    for c in cal.values():
        if c is not None:
            ins += [c.data, getattr(c, "err", None), getattr(c, "dq", None)]
    for a in arrays(out):
        for b in ins:
            if b is not None and np.shares_memory(a, b):
                return True
    return False


def hdrshared(ds, cal, out):
    ids = set()
    for f in list(ds) + [c for c in cal.values() if c is not None]:
        ids |= {id(h) for h in (f.pri_hdr, f.ext_hdr, f.err_hdr, f.dq_hdr) if h is not None}
    return any(id(h) in ids for f in out for h in (f.pri_hdr, f.ext_hdr, f.err_hdr, f.dq_hdr))


def linked(ds):
    ok = len(ds.all_data) == len(ds.frames)
    for i, f in enumerate(ds.frames):
        for cube, own in ((ds.all_data, f.data), (ds.all_err, f.err), (ds.all_dq, f.dq)):
            ok = ok and cube[i].shape == own.shape and (own.size == 0 or np.shares_memory(cube[i], own))
    return bool(ok)


def calflags(step, opt, ds, cal):
    """The flag words the calibration assigns to each output pixel."""
    shape = ds[0].dq.shape
    if step == "dark_subtraction":
        d = cal["dark"]
        if type(d) is data.DetectorNoiseMaps:
            q = np.bitwise_or.reduce(np.asarray(d.dq, dtype=np.int64), axis=0)
            r, c, n, m = steps.AREA["img"]
            return q if shape == steps.FULL else q[r:r + n, c:c + m]
        return np.asarray(d.dq, dtype=np.int64)
    if step == "flat_division":
        return np.where(cal["flat_field"].data == 0, 4, 0)
    if step == "correct_bad_pixels":
        return np.asarray(cal["bp_mask"].data, dtype=np.int64)
    return np.zeros(shape, dtype=np.int64)


def window(step, opt, fi, fo):
    """The rows and columns of the input frame the output frame consists of."""
    if step == "prescan_biassub" and fi.data.shape == steps.FULL and fo.data.shape != steps.FULL:
        r, c, n, m = steps.AREA["img"]
        return (slice(r, r + n), slice(c, c + m))
    if step == "crop":
        x = fo.ext_hdr["DETPIX0X"] - fi.ext_hdr.get("DETPIX0X", 0)
        y = fo.ext_hdr["DETPIX0Y"] - fi.ext_hdr.get("DETPIX0Y", 0)
        n, m = fo.data.shape[-2:]
        return (Ellipsis, slice(y, y + n), slice(x, x + m))
    return (Ellipsis,)


def observe(step, opt, ds, cal, out, src, tmp):
    """Project one successful call."""
    e = {"out": [project(f) for f in out]}
    names = [f.filename for f in ds]
    by = {f.pri_hdr.get("VFID"): i for i, f in enumerate(ds)}
    pos = [by.get(f.pri_hdr.get("VFID"), -1) + 1 for f in out]
    e["pos"] = pos
    keys, pri, dropped, kept, grew, has = set(), set(), set(), True, True, None
    for f, p in zip(out, pos):
        if p < 1:
            continue
        g = ds[p - 1]
        a, b = cards(g.ext_hdr), cards(f.ext_hdr)
        keys |= {k for k in b if a.get(k) != b[k]}
        dropped |= {k for k in a if k not in b and not k.startswith("FILE")}
        a2, b2 = cards(g.pri_hdr), cards(f.pri_hdr)
        pri |= {k for k in set(a2) | set(b2) if a2.get(k) != b2.get(k)}
        ha, hb = history(g.ext_hdr), history(f.ext_hdr)
        if step == "do_psf_subtraction":
            kept = kept and "".join(ha) in "".join(hb)
            grew = grew and len("".join(hb)) > len("".join(ha))
        else:
            kept = kept and hb[:len(ha)] == ha
            grew = grew and len(hb) > len(ha)
        has = set(b) if has is None else has & set(b)
    e.update(keys=sorted(keys), prikeys=sorted(pri), dropped=sorted(dropped), histkept=bool(kept), histgrew=bool(grew), has=sorted(has or []),
             errunit=[str(f.err_hdr.get("BUNIT", "")) for f in out])
    e["anyflag"] = int(np.bitwise_or.reduce(np.asarray(ds.all_dq, dtype=np.int64).ravel()))
    if step in ("northup", "combine_subexposures", "do_psf_subtraction"):
        e["dq"] = sorted({int(x) for f in out for x in np.unique(np.asarray(f.dq, dtype=np.int64))})
        e["dqshape"] = True
    else:
        trip, ok = set(), True
        c0 = calflags(step, opt, ds, cal)
        for f, p in zip(out, pos):
            if p < 1:
                continue
            g = ds[p - 1]
            w = window(step, opt, g, f)
            i = np.asarray(g.dq, dtype=np.int64)[w]
            c = np.broadcast_to(c0, g.dq.shape)[w]
            o = np.asarray(f.dq, dtype=np.int64)
            if i.shape != o.shape:
                ok = False
                continue
            trip |= {tuple(int(x) for x in t) for t in np.unique(np.stack([i.ravel(), c.ravel(), o.ravel()], 1), axis=0)}
        e["dq"] = [list(t) for t in sorted(trip)]
        e["dqshape"] = ok
    e["linked"] = linked(out)
    e["shared"] = inmem(ds, cal, out)
    e["sharedhdr"] = hdrshared(ds, cal, out)
    st = state(out)
    e.update(area=st["area"], dim=st["dim"], mixed=st["mixed"])
    return e


BLANK = {"out": [], "pos": [], "keys": [], "prikeys": [], "dropped": [], "histkept": True, "histgrew": True, "has": [], "errunit": [], "anyflag": 0,
         "dq": [], "dqshape": True, "linked": True, "shared": False, "sharedhdr": False, "area": "", "dim": 2, "mixed": False}


def parts(ds):
    return [(i, k, v) for i, f in enumerate(ds.frames) for k, v in snap.parts(f).items()] + [
        ("cube", k, snap.arr(getattr(ds, k))) for k in ("all_data", "all_err", "all_dq")]


def once(step, opt, ds, cal, tmp):
    os.makedirs(tmp, exist_ok=True)
    try:
        return steps.call(step, opt, ds, cal, tmp), ""
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as ex:
        return None, vf.excname(ex)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def runhistory(scn):
    steps.no_network()
    cfg = scn["cfg"]
    was = getattr(corgidrp, TRACK)
    setattr(corgidrp, TRACK, cfg["track"])
    tmp = vf.scratch("pl")
    wd = os.path.join(tmp, "w")
    try:
        ds = steps.start(cfg["fam"], cfg["n"], cfg["seed"], cfg["track"], cfg["mixed"])
        tr = {"meta": {"cfg": cfg, "start": state(ds)}, "ev": []}
        kept = []
        for k, c in enumerate(scn["calls"]):
            step, opt = c["step"], c["opt"]
            cal = steps.calibs(step, opt, ds, c["seed"], os.path.join(tmp, "cal%d" % k))
            pristine, pcal = copy.deepcopy(ds), copy.deepcopy(cal)
            b, bc, bs = parts(ds), snapcal(cal), settings()
            out, exc = once(step, opt, ds, cal, wd)
            e = dict(BLANK, step=step, opt=opt, exc=exc)
            e["changed"] = sorted({"%s.%s" % (x[0], x[1]) for x, y in zip(b, parts(ds)) if x != y})[:10]
            ac = snapcal(cal)
            e["calchanged"] = sorted(k2 for k2 in bc if bc[k2] != ac[k2])
            e["settings"] = settings() == bs
            if out is not None:
                e.update(observe(step, opt, ds, cal, out, None, wd))
                if step == "frame_select" and exc == "":
                    pass
            kept.append((step, opt, pristine, pcal, digest(out, wd) if out is not None else exc))
            tr["ev"].append(e)
            if out is not None:
                ds = out
            if len(ds) == 0:
                break
        # the same calls again, last first, on untouched copies of the same inputs
        for k in range(len(kept) - 1, -1, -1):
            step, opt, ds0, cal0, d = kept[k]
            out, exc = once(step, opt, ds0, cal0, wd)
            tr["ev"][k]["again"] = (digest(out, wd) if out is not None else exc) == d
        return tr
    finally:
        setattr(corgidrp, TRACK, was)
        shutil.rmtree(tmp, ignore_errors=True)


def pairs():
    """Every step called with each ordered pair of its option sets (and with other calibrations) on equal frames."""
    out = []
    for s in steps.ALL:
        fam = {"prescan_biassub": "L1", "find_star": "SAT"}.get(s, "L3")
        fam = {"update_to_l2a": "L1", "update_to_l2b": "L2a", "update_to_l3": "L2b", "update_to_tda": "L4"}.get(s, fam)
        for a in range(4):
            for b in range(4):
                out.append({"cfg": {"fam": fam, "n": 3, "seed": 2 * a, "track": False, "mixed": False}, "pair": True,
                            "calls": [{"step": s, "opt": a, "seed": 1}, {"step": s, "opt": b, "seed": 2}, {"step": s, "opt": a, "seed": 1}]})
    return out


def runpair(scn):
    """Calls on the same dataset instead of a chain: each trace has one event per call."""
    res = []
    steps.no_network()
    cfg = scn["cfg"]
    tmp = vf.scratch("pl")
    wd = os.path.join(tmp, "w")
    try:
        first, ds = {}, steps.start(cfg["fam"], cfg["n"], cfg["seed"], cfg["track"], cfg["mixed"])
        for k, c in enumerate(scn["calls"]):
            step, opt = c["step"], c["opt"]
            cal = steps.calibs(step, opt, ds, c["seed"], os.path.join(tmp, "cal%d" % k))
            b, bc, bs = parts(ds), snapcal(cal), settings()
            out, exc = once(step, opt, ds, cal, wd)
            e = dict(BLANK, step=step, opt=opt, exc=exc)
            e["changed"] = sorted({"%s.%s" % (x[0], x[1]) for x, y in zip(b, parts(ds)) if x != y})[:10]
            ac = snapcal(cal)
            e["calchanged"] = sorted(k2 for k2 in bc if bc[k2] != ac[k2])
            e["settings"] = settings() == bs
            if out is not None:
                e.update(observe(step, opt, ds, cal, out, None, wd))
            key = (step, opt, c["seed"])
            d = digest(out, wd) if out is not None else exc
            e["again"] = first.setdefault(key, d) == d
            res.append({"meta": {"cfg": cfg, "calls": scn["calls"], "start": state(ds)}, "ev": [e]})
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def job(kind, lst):
    return [runhistory(s) for s in lst] if kind == "h" else [t for s in lst for t in runpair(s)]


def check(prop, tier):
    deep = tier == "thorough"
    runs = [vf.model_check("MCPipeline", "MCPipelineDeep" if deep else "MCPipeline")]
    scn, g = vf.generate("GenPipeline", num=1500 if deep else 160, depth=14)
    runs.append(g)
    todo = [("h", c) for c in vf.chunks(scn, 160)] + [("p", [c]) for c in pairs()]
    todo.sort(key=lambda t: -max([6] + [9 for s in t[1] for c in s["calls"] if c["step"] == "find_star" and c["opt"] == 0]))     # slow calls first
    traces = [t for r in vf.pmap(job, todo) for t in r]
    traces = [t for t in traces if t["ev"]]
    bad, val = vf.validate("PipelineTrace", traces)
    runs.append(val)
    pre = STEPCLAUSES.get(prop, prop)
    bad = [(t, l, [c for c in cs if c.startswith(pre)]) for t, l, cs in bad]
    bad = [b for b in bad if b[2]]
    calls = {}
    for t in traces:
        for e in t["ev"]:
            k = calls.setdefault(e["step"], [0, 0])
            k[1 if e["exc"] else 0] += 1

    def describe(t, e):
        return {k: v for k, v in e.items() if k not in ("dq", "has")}
    return vf.report(traces, bad, runs, site=lambda t, e: e["step"], describe=describe,
                     extra={"calls_returned_and_raised": calls, "histories": len(scn)})
