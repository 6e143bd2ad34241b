"""M02, M04: the in-memory data model against DataOps.tla."""
import os, json
import numpy as np
from astropy.io import fits
import vf, mk
import corgidrp
import corgidrp.data as data

OFF = {2: np.arange(6.).reshape(2, 3), 3: np.arange(12.).reshape(2, 2, 3)}


def full(v, dim, dtype=float):
    return np.full(OFF[dim].shape, v, dtype=dtype)


def val(a, off=None):
    """The single value of an array filled with it (plus the pattern), else INEXACT."""
    a = np.asarray(a, dtype=float)
    if off is not None:
        if a.shape != off.shape:
            return vf.INEXACT
        a = a - off
    if a.size == 0 or np.any(np.abs(a - a.flat[0]) > 1e-6):
        return vf.INEXACT
    return vf.q(a.flat[0])


def layers(e):
    return [val(np.asarray(l, dtype=float) ** 2) for l in e]


def term(s):
    s = str(s)
    i = s.rfind("term#")
    return int(s[i + 5:]) if i >= 0 and s[i + 5:].isdigit() else 0


def hdr(f):
    def key(h):
        return int(h.get("TKEY", -1))
    n = max([0] + [int(k[6:]) for k in f.err_hdr.keys() if k.upper().startswith("LAYER_")])
    return {"pri": key(f.pri_hdr), "ext": key(f.ext_hdr), "err": key(f.err_hdr), "dqh": key(f.dq_hdr),
            "name": int(f.filename[1:-5]), "xh": sum("upd#" in str(x) for x in f.ext_hdr.get("HISTORY", [])),
            "hist": [term(x) for x in f.err_hdr.get("HISTORY", [])],
            "lay": [term(f.err_hdr.get("Layer_%d" % (k + 1), "")) for k in range(n)]}


def look(ds, off):
    return {"d": [val(a, off) for a in ds.all_data], "e": [layers(a) for a in ds.all_err], "q": [val(a) for a in ds.all_dq],
            "fd": [val(f.data, off) for f in ds.frames], "fe": [layers(f.err) for f in ds.frames], "fq": [val(f.dq) for f in ds.frames],
            "h": [hdr(f) for f in ds.frames]}


def linked(ds):
    return [{"d": bool(np.shares_memory(ds.all_data[i], f.data)), "e": bool(np.shares_memory(ds.all_err[i], f.err)),
             "q": bool(np.shares_memory(ds.all_dq[i], f.dq))} for i, f in enumerate(ds.frames)]


def frames(ds, off):
    return {k: v for k, v in look(ds, off).items() if k not in ("d", "e", "q")}


def fresh(o, dim, d):
    ims = []
    for v in o["fr"]:
        err = np.stack([full(np.sqrt(x), dim) for x in v["e"]])
        if len(v["e"]) == 1 and o["form"] == 3:
            err = err[0]
        h = [fits.Header() for _ in range(2)]
        for x in h:
            x["TKEY"] = v["h"]
        p, e = mk.pri(TKEY=v["h"]), mk.ext(TKEY=v["h"])
        im = data.Image(OFF[dim] + v["d"], pri_hdr=p, ext_hdr=e, err=err, dq=full(v["q"], dim, np.uint16), err_hdr=h[0], dq_hdr=h[1])
        im.filename = "f%d.fits" % v["h"]
        im.filedir = d
        ims.append(im)
    if o["form"] == 2:
        paths = []
        for im in ims:
            im.save()
            paths.append(im.filepath)
        return data.Dataset(paths)
    return data.Dataset(np.array(ims) if o["form"] == 4 else ims)


def inplace(a, v, form):
    if form == 1:
        a[...] = v
    elif form == 2:
        a *= 0
        a += np.asarray(v, dtype=a.dtype)
    elif form == 3:
        np.copyto(a, v, casting="unsafe")
    else:
        for k in np.ndindex(a.shape):
            a[k] = np.broadcast_to(v, a.shape)[k]


def job(n, sc):
    d = vf.scratch("ds")
    dim = sc["cfg"]["dim"]
    off = OFF[dim]
    dss, evs = [], []
    old = corgidrp.track_individual_errors
    for o in sc["ops"]:
        corgidrp.track_individual_errors = o["track"]
        ev = {"o": o, "exc": "", "lk": [], "x": 0, "equal": True, "srckept": True, "ds": []}
        op, form = o["op"], o["form"]
        ds = dss[o["d"] - 1] if o.get("d", 0) > 0 and dss else None
        touched = None
        try:
            if op == "new":
                touched = fresh(o, dim, d)
                dss.append(touched)
            elif op == "copy":
                before, bf = look(ds, off), frames(ds, off)
                touched = ds.copy() if form <= 2 else ds.copy(copy_data=True) if form == 3 else data.Dataset([f.copy() for f in ds])
                ev["equal"] = frames(touched, off) == bf
                ev["srckept"] = look(ds, off) == before
                dss.append(touched)
            elif op == "headercopy":
                before, bf = look(ds, off), frames(ds, off)
                touched = ds.copy(copy_data=False) if form <= 3 else data.Dataset([f.copy(copy_data=False) for f in ds])
                ev["equal"] = frames(touched, off) == bf
                ev["srckept"] = look(ds, off) == before
                dss.append(touched)
            elif op == "take":
                idx = [i - 1 for _, i in o["idx"]]
                if form == 1 and idx == list(range(idx[0], idx[0] + len(idx))):
                    touched = ds[idx[0]:idx[-1] + 1]
                elif form <= 2:
                    touched = ds[idx]
                elif form == 3:
                    touched = ds[np.array(idx)]
                elif form == 4 and idx == sorted(idx):
                    m = np.zeros(len(ds), dtype=bool)
                    m[idx] = True
                    touched = ds[m]
                else:
                    touched = data.Dataset([dss[x - 1][i - 1] for x, i in o["idx"]])
                dss.append(touched)
            elif op in ("cube", "frame"):
                i = o["i"] - 1
                if op == "cube":
                    a = {"d": ds.all_data, "e": ds.all_err, "q": ds.all_dq}[o["c"]][i]
                else:
                    f = ds[i] if form % 2 else ds.frames[i]
                    a = {"d": f.data, "e": f.err, "q": f.dq}[o["c"]]
                if o["c"] == "d":
                    inplace(a, off + o["v"], form)
                elif o["c"] == "e":
                    inplace(a[0], np.sqrt(o["v"]), form)
                else:
                    inplace(a, o["v"], form)
            elif op == "hdr":
                f = ds[o["i"] - 1]
                if o["c"] == "name":
                    f.filename = "f%d.fits" % o["v"]
                else:
                    {"pri": f.pri_hdr, "ext": f.ext_hdr, "err": f.err_hdr, "dqh": f.dq_hdr}[o["c"]]["TKEY"] = o["v"]
            elif op == "update":
                kw = {}
                if o["nd"]:
                    kw["new_all_data"] = np.stack([off + v for v in o["nd"]])
                if o["nq"]:
                    kw["new_all_dq"] = np.stack([full(v, dim, np.uint16) for v in o["nq"]])
                if o["ne"]:
                    kw["new_all_err"] = np.stack([np.stack([full(np.sqrt(x), dim) for x in v]) for v in o["ne"]])
                if o["v"]:
                    kw["header_entries"] = {"TKEY": o["v"]}
                ds.update_after_processing_step("upd#", **kw)
                touched = ds
            elif op in ("adderr", "rescale"):
                t = [np.sqrt(x) if op == "adderr" else float(x) for x in o["t"]]
                arr = full(t[0], dim) if form == 1 else np.stack([full(x, dim) for x in t])
                (ds.add_error_term if op == "adderr" else ds.rescale_error)(arr, "term#%d" % o["id"])
                touched = ds
            elif op == "frameadd":
                ds[o["i"] - 1].add_error_term(full(np.sqrt(o["v"]), dim), "term#%d" % o["id"])
            elif op == "framerescale":
                ds[o["i"] - 1].rescale_error(full(float(o["v"]), dim), "term#%d" % o["id"])
            if touched is not None:
                ev["lk"] = linked(touched)
                ev["x"] = [x is touched for x in dss].index(True) + 1
        except Exception as e:
            ev["exc"] = vf.excname(e) + ": " + str(e)
        ev["ds"] = [look(x, off) for x in dss]
        evs.append(ev)
        if ev["exc"]:
            break
    corgidrp.track_individual_errors = old
    return {"meta": {"n": n, "cfg": sc["cfg"]}, "ev": evs}


def check(prop, tier):
    deep = tier == "thorough"
    mc = vf.model_check("MCData", "MCDataDeep" if deep else "MCData")
    gen, g = vf.generate("GenData", num=3000 if deep else 400, depth=24)
    traces = vf.pmap(job, list(enumerate(gen)))
    bad, val_ = vf.validate("DataTrace", traces)
    bad = [(t, l, [c for c in cl if c.startswith(prop)]) for t, l, cl in bad]
    bad = [b for b in bad if b[2]]
    return vf.report(traces, bad, [mc, g, val_], site=lambda t, e: e["o"]["op"], describe=lambda t, e: json.dumps(e["o"]) + " exc=" + e["exc"],
                     extra={"operations": sum(len(t["ev"]) for t in traces)})
