"""K01: sort_pupilimg_frames against SortOps.tla."""
import contextlib, io
import numpy as np
import vf, mk, snap
import corgidrp.data as data
import corgidrp.sorting as sorting


def order(n, sh):
    idx = list(range(n))
    if sh == 1:
        idx.reverse()
    elif sh:
        np.random.default_rng(sh * 1000 + n).shuffle(idx)
    return idx


def job(c):
    frames, ids = [], {}
    for i in order(len(c["c"]), c["sh"]):
        f = c["c"][i]
        im = mk.image(np.full((1, 1), float(f["id"])), name="CGI_EXCAM_L1_%010d.fits" % f["id"],
                      p=dict(VISTYPE="PUPILIMG", OBSNUM=f["id"]), e=dict(EXPTIME=f["t"] / 4., EMGAIN_C=float(f["g"]), MYID=f["id"]))
        im.filedir = "campaign"
        frames.append(im)
        ids[im.filename] = f
    ds = data.Dataset(frames)
    before = snap.dataset(ds)
    parts = {f.filename: snap.parts(f) for f in ds}
    ev = {"c": c["c"], "cal": c["cal"], "low": c["cal"].lower(), "exc": "", "named": True, "out": [], "carried": True, "inputkept": True}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            out = sorting.sort_pupilimg_frames(ds, c["cal"])
        for f in out:
            s = ids[f.filename]
            ev["out"].append({"id": s["id"], "g": s["g"], "t": s["t"], "label": str(f.pri_hdr.get("OBSNAME"))})
            a, b = parts[f.filename], snap.parts(f)
            drop = lambda h: tuple(x for x in h if x[0] not in ("OBSNAME", "HISTORY", "DRPCTIME", "DRPVERSN"))
            ev["carried"] &= bool(all(a[k] == b[k] for k in ("data", "err", "dq", "err_hdr", "dq_hdr", "name"))
                                  and drop(a["pri_hdr"]) == drop(b["pri_hdr"]) and drop(a["ext_hdr"]) == drop(b["ext_hdr"]))
    except Exception as ex:
        ev["exc"] = vf.excname(ex) + ": " + str(ex)
        ev["named"] = not isinstance(ex, (KeyError, AttributeError, NameError, TypeError))
    ev["inputkept"] = bool(snap.dataset(ds) == before)
    return {"meta": {"cal": c["cal"], "sh": c["sh"]}, "ev": [ev]}


def check(prop, tier):
    deep = tier == "thorough"
    mc = vf.model_check("MCSort", "MCSortDeep" if deep else "MCSort")
    gen, g = vf.generate("GenSort", num=3000 if deep else 250, depth=18)
    traces = vf.pmap(job, [(c,) for c in gen])
    bad, val = vf.validate("SortTrace", traces)
    return vf.report(traces, bad, [mc, g, val], site=lambda t, e: "sort_pupilimg_frames " + e["low"])
