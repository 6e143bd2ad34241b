"""K06: photon counting against PhotonOps.tla."""
import os
import warnings
import numpy as np
from astropy.io import fits
import vf, mk, snap
import corgidrp
import corgidrp.data as data
import corgidrp.photon_counting as pc

SHAPE = (2, 3)
U = {1: 0., 2: .2231435513, 3: .4054651081, 4: .6931471806, 5: .0953101798}


def qs(a, sc=1000.):
    return [int(round(max(-9e8, min(9e8, float(v) * sc)))) if not np.isnan(v) else vf.NAN for v in np.asarray(a, dtype=float).ravel()]


def flat(a):
    return [int(v) for v in np.asarray(a).ravel()]


def job(c):
    r = np.random.default_rng(c["seed"])
    n = c["n"]
    rn = c["rn"] / 100.
    u = U[c["u"]]
    tf = 5.
    kw = {}
    if u == 0:
        tf = 0.
        if c["neg"]:
            tf = -1.
    elif c["neg"]:
        tf = -5.
    if c["tf"] == "default" and tf == 5.:
        tf = float(data.DetectorParams({}).params["TFACTOR"])
    else:
        kw["T_factor"] = tf
    thr = tf * rn
    g = thr / u if u > 0 and thr > 0 else 1000.
    if c["smallgain"] and c["mix"] != "EMGAIN_C":
        g = max(abs(thr) * float(r.choice([.5, 1.])), .5)
    # few frames over the threshold, so that the correction stays in its range
    t100 = int(round(thr * 100))
    x = r.choice(np.array([0, 1, t100 - 1, t100, t100 // 2]), (n,) + SHAPE)
    hi = r.random((n,) + SHAPE) < r.choice([.1, .3, .6])
    x = np.where(hi, r.choice(np.array([t100 + 1, t100 + 100, 50000]), x.shape), x)
    p = r.random(SHAPE)
    q = np.zeros(x.shape, dtype=np.uint16)
    if c["dens"]:
        q = np.where((r.random(x.shape) < (.15, .4, .7)[c["dens"] - 1]) | (p < .12), r.choice(np.array([1, 4, 32, 128, 256], dtype=np.uint16), x.shape), 0).astype(np.uint16)
    err = r.integers(0, 3, (n, c["layers"]) + SHAPE).astype(float) * (r.random() < .5)
    corgidrp.track_individual_errors = c["layers"] > 1
    fr, rec = [], []
    for k in range(n):
        h = dict(EXPTIME=1., EMGAIN_C=float(g), EMGAIN_A=-1., KGAINPAR=8., RN=rn, DATALVL="L2a")
        if c["gain"] == "M":
            h.update(EMGAIN_M=float(g), EMGAIN_C=77., EMGAIN_A=55.)
        if c["gain"] == "A":
            h.update(EMGAIN_A=float(g), EMGAIN_C=77.)
        vis = "DARK" if c["dark"] else "SCI"
        f = {"x": flat(x[k]), "e": flat(err[k, 0] * 100), "q": flat(q[k]), "t": 0, "g": 0, "k": 0, "rn": c["rn"], "vis": vis, "ispc": c["ispc"]}
        if c["ispc"] != "absent":
            h["ISPC"] = c["ispc"] == "yes"
        if k + 1 == c["where"] and c["mix"]:
            if c["mix"] == "VISTYPE":
                vis = f["vis"] = "SCI" if c["dark"] else "DARK"
            else:
                h[c["mix"]] += 1.
                f[{"EXPTIME": "t", "EMGAIN_C": "g", "KGAINPAR": "k", "RN": "rn"}[c["mix"]]] += 1
        fr.append(mk.image(x[k] / 100., err=err[k], dq=q[k], name=mk.fname(k + 1, "L2a"), p=dict(VISTYPE=vis), e=h))
        rec.append(f)
    mode = "darks" if c["dark"] else "illuminated"
    if c["mode"] == "swap":
        mode = "illuminated" if c["dark"] else "darks"
    kw.update(pc_ecount_max=1e-9 if c["low"] else 1e9, niter=c["niter"], safemode=c["safe"], inputmode=mode)
    if c["bin"]:
        kw["bin_size"] = c["bin"]
    mask = np.zeros(SHAPE, dtype=int)
    d = vf.scratch("pc")
    if c["mask"]:
        mask = (r.random(SHAPE) < .5).astype(int)
        mask.flat[0] = 0
        fits.PrimaryHDU(mask).writeto(os.path.join(d, "mask.fits"))
        kw["mask_filepath"] = os.path.join(d, "mask.fits")
    md = c["md"]
    mdd, mdq, mde, dark = [], [], [], None
    if md:
        m = {"good2": 2, "good3": 3}.get(md, 1)
        dd = r.integers(0, 300, (m,) + SHAPE)
        de = r.integers(0, 30, (m,) + SHAPE)
        dq = np.where(r.random(dd.shape) < .3, r.choice([1, 4, 8, 256], dd.shape), 0)
        e = dict(PC_STAT="photon-counted master dark", PCTHRESH=thr, NUM_FR=100)
        if md == "analog":
            e["PC_STAT"] = "analog master dark"
        if md == "thresh":
            e["PCTHRESH"] = thr + 1
        if md == "few":
            e["NUM_FR"] = (c["bin"] or n) - 1
        if md == "nothresh":
            del e["PCTHRESH"]
        dark = mk.product("Dark", arr=dd / 1000., err=de[None] / 10., dq=dq.astype(np.uint16), e=e)
        if md == "image":
            dark = data.Image(dd / 1000., pri_hdr=dark.pri_hdr, ext_hdr=dark.ext_hdr)
        mdd, mdq, mde = [flat(v) for v in dd], [flat(v) for v in dq], [flat(v) for v in de]
    ds = data.Dataset(fr)
    before = (snap.dataset(ds), snap.frame(dark) if dark is not None else None)
    ev = {"fr": rec, "bin": c["bin"], "niter": c["niter"], "thr": t100, "g": int(round(g * 100)), "u": int(round(u * 1000)), "E": int(round(np.exp(u) * 1000)),
          "mode": mode, "md": md, "mdd": mdd, "mdq": mdq, "mde": mde, "safe": c["safe"], "low": c["low"], "mask": flat(mask), "out": [], "plain": [], "stat": [], "kept": True, "exc": ""}
    ids = {f.filename: k + 1 for k, f in enumerate(fr)}

    def par(f):
        return [ids.get(f.ext_hdr["FILE%d" % i], -1) for i in range(int(f.ext_hdr["DRPNFILE"]))]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            o = pc.get_pc_mean(ds, pc_master_dark=dark, **kw)
            pl = o
            if dark is not None:
                pl = pc.get_pc_mean(ds, **kw)
            if mode == "darks":
                ok = bool(isinstance(o, data.Dark) and o.data.ndim == 3 and o.dq.shape == o.data.shape and o.err.shape == (1,) + o.data.shape
                          and o.ext_hdr["PC_STAT"] == "photon-counted master dark" and o.ext_hdr["DATATYPE"] == "Dark")
                for b in range(len(o.data)):
                    ev["out"].append({"d": qs(o.data[b]), "q": flat(o.dq[b]), "e2": qs(o.err[0][b] ** 2), "thr": vf.q(round(o.ext_hdr["PCTHRESH"] * 100)), "nfr": int(o.ext_hdr["NUM_FR"]),
                                      "parents": par(o), "type": ok})
                    ev["plain"].append(qs(o.err[0][b] ** 2))
                    ev["stat"].append(qs(o.err[0][b]))
            else:
                size = c["bin"] or n
                for b, f in enumerate(o):
                    ok = bool(type(f) is data.Image and f.filename == fr[min((b + 1) * size, n) - 1].filename.replace("L2a", "L2b") and "HISTORY" in f.ext_hdr
                              and f.data.shape == SHAPE and f.dq.shape == SHAPE and f.err.shape[1:] == SHAPE)
                    ev["out"].append({"d": qs(f.data), "q": flat(f.dq), "e2": qs(f.err[0] ** 2), "thr": vf.q(round(f.ext_hdr["PCTHRESH"] * 100)), "nfr": int(f.ext_hdr["NUM_FR"]),
                                      "parents": par(f), "type": ok})
                ev["plain"] = [qs(f.err[0] ** 2) for f in pl]
                ev["stat"] = [qs(f.err[0]) for f in pl]
        except Exception as ex:
            ev["exc"] = vf.excname(ex) + ": " + str(ex)
    ev["kept"] = bool((snap.dataset(ds), snap.frame(dark) if dark is not None else None) == before)
    corgidrp.track_individual_errors = False
    return {"meta": {"c": c}, "ev": [ev]}


def check(prop, tier):
    deep = tier == "thorough"
    mc = vf.model_check("MCPhoton")
    gen, g = vf.generate("GenPhoton", num=8000 if deep else 700, depth=3)
    traces = vf.pmap(job, [(c,) for c in gen])
    bad, val = vf.validate("PhotonTrace", traces)
    return vf.report(traces, bad, [mc, g, val], site=lambda t, e: "get_pc_mean", describe=lambda t, e: "%s exc=%s" % (t["meta"]["c"], e["exc"]))
