"""K02-K05: averaging, traditional and synthesized darks, noise maps and bad-pixel maps against DarkOps.tla."""
import os
import warnings
import numpy as np
import vf, mk, snap
import corgidrp
import corgidrp.data as data
import corgidrp.darks as darks
import corgidrp.detector as detector
import corgidrp.bad_pixel_calibration as bpc

SC = 1000
NOGAIN = -1000000005


def flat(a):
    return [int(v) for v in np.asarray(a).ravel()]


def qs(a, p=1):
    return [vf.q(round(float(v) ** p * SC)) if np.isfinite(v) else vf.NAN for v in np.asarray(a, dtype=float).ravel()]


def geom(c):
    a = c["a"]
    return {"SCI": {"frame_rows": c["fr"], "frame_cols": c["fc"],
                    "image": {"rows": a["rows"], "cols": a["cols"], "r0c0": [a["r0"], a["c0"]]},
                    "prescan": {"rows": c["fr"], "cols": a["c0"], "r0c0": [0, 0], "col_start": 0, "col_end": a["c0"]},
                    "prescan_reliable": {"rows": c["fr"], "cols": a["c0"], "r0c0": [0, 0]},
                    "parallel_overscan": {"rows": c["fr"] - a["r0"] - a["rows"], "cols": a["cols"], "r0c0": [a["r0"] + a["rows"], a["c0"]]},
                    "serial_overscan": {"rows": c["fr"], "cols": c["fc"] - a["c0"] - a["cols"], "r0c0": [0, a["c0"] + a["cols"]]}}}


def values(f):
    return (np.asarray(f.data).tolist(), np.asarray(f.err).tolist(), np.asarray(f.dq).tolist(), snap.hdr(f.pri_hdr), snap.hdr(f.ext_hdr), f.filename)


def params(c):
    return mk.product("DetectorParams", params={"TELRSTRT": c["ts"], "TELREND": c["te"]})


def masks(r, n, shape, dens):
    """dens 0: none; otherwise also whole pixels masked in all or all but one frame."""
    if dens == 0:
        return np.zeros((n,) + shape, dtype=np.uint16)
    m = r.random((n,) + shape) < (.15, .35, .6)[dens - 1]
    p = r.random(shape)
    m |= (p < .1)
    m[0] &= ~((p >= .05) & (p < .1))
    return np.where(m, r.choice(np.array([1, 4, 8, 32, 128, 256], dtype=np.uint16), m.shape), 0).astype(np.uint16)


def combine(c):
    r = np.random.default_rng(c["seed"])
    n, shape = c["n"], (c["rows"], c["cols"])
    x = r.integers(0 if c["err"] else -9, 20, (n,) + shape)
    m = (masks(r, n, shape, c["dens"]) > 0).astype(int)
    ims, bps = [np.array(v, dtype=float) for v in x], [np.array(v) for v in m]
    if c["stack"] and not c["bad"]:
        ims, bps = (ims[0], bps[0]) if n == 1 else (np.stack(ims), np.stack(bps))
    b = c["bad"]
    if b == "length":
        bps = bps + [bps[0]]
    elif b == "empty":
        ims, bps = [], []
    elif b == "oned":
        ims, bps = [v.ravel() for v in ims], [v.ravel() for v in bps]
    elif b == "shape":
        ims, bps = ims + [np.zeros((shape[0] + 1, shape[1]))], bps + [np.zeros((shape[0] + 1, shape[1]), dtype=int)]
    elif b == "mask2":
        bps[-1] = bps[-1] * 0 + 2
    elif b == "maskfloat":
        bps[-1] = bps[-1].astype(float)
    elif b == "maskshape":
        bps[-1] = np.zeros((shape[0], shape[1] + 1), dtype=int)
    elif b == "string":
        ims = "frames"
    before = repr((ims, bps))
    ev = {"kind": "combine", "bad": b, "err": c["err"], "x": [flat(v) for v in x], "m": [flat(v) for v in m], "o": [], "ob": [], "on": [], "enough": True, "kept": True, "exc": ""}
    try:
        o, ob, on, ev["enough"] = darks.mean_combine(ims, bps, err=True) if c["err"] else darks.mean_combine(ims, bps)
        ev["o"], ev["ob"], ev["on"], ev["enough"] = qs(o, 2 if c["err"] else 1), flat(ob), flat(on), bool(ev["enough"])
    except Exception as ex:
        ev["exc"] = vf.excname(ex)
    ev["kept"] = bool(repr((ims, bps)) == before)
    return ev


def trad(c):
    r = np.random.default_rng(c["seed"])
    n, shape = c["n"], (c["fr"], c["fc"])
    x = r.integers(-5, 20, (n,) + shape)
    e = r.integers(0, 5, (n, c["layers"]) + shape)
    q = masks(r, n, shape, c["dens"])
    corgidrp.track_individual_errors = c["layers"] > 1
    fr = []
    for k in range(n):
        h = dict(EXPTIME=c["t4"] / 4., EMGAIN_C=float(c["g"]), KGAINPAR=8.)
        if c["mix"] and k + 1 == c["where"]:
            h[c["mix"]] += 1.
        fr.append(mk.image(x[k], err=np.array(e[k], dtype=float), dq=q[k], name=mk.fname(k + 1, "L2a"), e=h))
    ds = data.Dataset(fr)
    dp = params(c)
    before = (snap.dataset(ds), snap.frame(dp))
    ev = {"kind": "trad", "fr": c["fr"], "fc": c["fc"], "a": c["a"], "ts": c["ts"], "te": c["te"], "full": c["full"], "mix": c["mix"],
          "x": [flat(v) for v in x], "e": [flat(v[0]) for v in e], "q": [flat(v) for v in q], "o": [], "oe2": [], "oq": [], "labels": True, "parents": True, "kept": True, "exc": ""}
    try:
        d = darks.build_trad_dark(ds, dp, detector_regions=geom(c), full_frame=c["full"])
        ev["o"], ev["oe2"], ev["oq"] = qs(d.data), qs(d.err[0], 2), flat(d.dq)
        ok = d.data.shape == (shape if c["full"] else (c["a"]["rows"], c["a"]["cols"])) and d.err.shape[1:] == d.data.shape and d.dq.shape == d.data.shape
        if not ok:
            ev["o"] = []
        ev["labels"] = bool(isinstance(d, data.Dark) and d.ext_hdr["EXPTIME"] == c["t4"] / 4. and d.ext_hdr["EMGAIN_C"] == c["g"] and d.ext_hdr["KGAINPAR"] == 8.
                            and str(d.ext_hdr["BUNIT"]).lower() == "detected electrons" and d.ext_hdr["DATALVL"] == "CAL" and d.ext_hdr["DATATYPE"] == "Dark"
                            and d.ext_hdr.get("PC_STAT") == "analog master dark")
        ev["parents"] = bool(sorted(d.ext_hdr["FILE%d" % i] for i in range(int(d.ext_hdr["DRPNFILE"]))) == sorted(f.filename for f in fr))
    except Exception as ex:
        ev["exc"] = vf.excname(ex)
    ev["kept"] = bool((snap.dataset(ds), snap.frame(dp)) == before)
    corgidrp.track_individual_errors = False
    return ev


def hdr(h):
    d = {"EMGAIN_C": float(h["c"]), "EMGAIN_A": float(h["a"])}
    if h["m"] != NOGAIN:
        d["EMGAIN_M"] = float(h["m"])
    return d


def noisemaps(arr, err, dq, saved, **e):
    nm = mk.product("DetectorNoiseMaps", arr=np.array(arr, dtype=float), err=np.array(err, dtype=float)[None], dq=dq, e=e)
    d = vf.scratch("nm")
    nm.save(filedir=d)
    p = nm.filepath
    out = data.DetectorNoiseMaps(p)
    if saved:
        os.remove(p)
    return out


def synth(c):
    r = np.random.default_rng(c["seed"])
    n, shape = c["n"], (c["fr"], c["fc"])
    F, C, D = r.integers(0, 40, shape), r.integers(0, 9, shape), r.integers(0, 9, shape)
    fe, ce, de = r.integers(0, 4, shape), r.integers(0, 4, shape), r.integers(0, 3, shape)
    dq = np.where(r.random((3,) + shape) < .4, r.choice(np.array([1, 4, 8, 128, 256], dtype=np.uint16), (3,) + shape), 0).astype(np.uint16)
    b = c["bad"]
    h = dict(c["h"])
    if b == "negD":
        D[-1, -1] = -1
    if b == "negC":
        C[0, 0] = -1
    if b == "negF":
        F[0, 0] = -7
    if b == "gain":
        h = {"m": NOGAIN, "a": 0, "c": 0}
    arr, err = np.stack([F, C, D]), np.stack([fe, ce, de])
    g = geom(c)
    if b == "shape":
        arr, err, dq = arr[:, :, 1:], err[:, :, 1:], dq[:, :, 1:]
    fr = []
    for k in range(n):
        e = dict(hdr(h), EXPTIME=c["t4"] / 4., KGAINPAR=8.)
        if c["mix"] and k + 1 == c["where"]:
            e[c["mix"]] += 1.
        fr.append(mk.image(np.zeros((2, 2)), name=mk.fname(k + 1, "L2a"), e=e))
    ds = data.Dataset(fr)
    nm = noisemaps(arr, err, dq, c["saved"], EXPTIME=99., EMGAIN_C=77.)
    before = (snap.dataset(ds), snap.frame(nm))
    full3 = lambda v: flat(v) if b != "shape" else []
    ev = {"kind": "synth", "fr": c["fr"], "fc": c["fc"], "a": c["a"], "full": c["full"], "mix": c["mix"], "bad": b, "h": h, "t4": c["t4"],
          "f": flat(F), "c": flat(C), "d": flat(D), "fe": flat(fe), "ce": flat(ce), "de": flat(de), "or": flat(np.bitwise_or.reduce(dq, axis=0)) if b != "shape" else [],
          "o": [], "oe2": [], "oq": [], "og": 0, "ot4": 0, "labels": True, "kept": True, "exc": ""}
    try:
        d = darks.build_synthesized_dark(ds, nm, detector_regions=g, full_frame=c["full"])
        ev["o"], ev["oe2"], ev["oq"] = qs(d.data), qs(d.err[0], 2), flat(d.dq)
        if d.data.shape != (shape if c["full"] else (c["a"]["rows"], c["a"]["cols"])) or d.err.shape[1:] != d.data.shape or d.dq.shape != d.data.shape:
            ev["o"] = []
        ev["og"], ev["ot4"] = vf.q(d.ext_hdr["EMGAIN_C"]), vf.q(d.ext_hdr["EXPTIME"], 4)
        ev["labels"] = bool(isinstance(d, data.Dark) and d.ext_hdr["DATATYPE"] == "Dark" and d.ext_hdr["DATALVL"] == "CAL")
    except Exception as ex:
        ev["exc"] = vf.excname(ex)
    ev["kept"] = bool((snap.dataset(ds), snap.frame(nm)) == before)
    return ev


def lsq(c):
    r = np.random.default_rng(c["seed"])
    shape, n = (c["fr"], c["fc"]), c["n"]
    F, C, D = r.integers(-4, 9, shape), r.integers(0, 6, shape), r.integers(0, 6, shape)
    plan = [dict(s) for s in c["plan"]]
    w = c["where"] - 1
    if c["bad"] == "gain":
        plan[w].update(g=0, h="C")
    if c["bad"] == "exptime":
        plan[w]["t"] = -1
    if c["bad"] == "same":
        plan[w].update(g=plan[w - 1]["g"], t=plan[w - 1]["t"])
    seen = set()
    for s in plan:                        # stacks are told apart by their commanded gain
        if (s["g"], s["t"]) in seen and s["h"] == "C":
            s["h"] = "A" if s["g"] > 0 else "M"
        seen.add((s["g"], s["t"]))
    nmin = 1 if c["bad"] != "unequal" else 0
    stacks, qs_, frames, k = [], [], [], 0
    for i, s in enumerate(plan):
        cnt = n + (1 if c["bad"] == "unequal" and i == w else 0)
        q = masks(r, cnt, shape, c["dens"])
        v = F + s["g"] * (s["t"] * D + C)
        x = np.where(q > 0, r.integers(-50, 500, q.shape), v[None])
        h = {"EMGAIN_C": float(s["g"]) if s["h"] == "C" else 100. + i, "EMGAIN_A": float(s["g"]) if s["h"] == "A" else -1.}
        if s["h"] == "M":
            h["EMGAIN_M"] = float(s["g"])
        kg = 8. if not (c["bad"] == "kgain" and i == w) else 0.
        for j in range(cnt):
            k += 1
            frames.append(mk.image(x[j], err=np.full(shape, 0. if c["clean"] else float(r.integers(0, 3))), dq=q[j], name=mk.fname(k, "L2a"),
                                   e=dict(h, EXPTIME=float(s["t"]), KGAINPAR=kg)))
        stacks.append([flat(y) for y in x])
        qs_.append([flat(y) for y in q])
    if c["sh"]:
        r.shuffle(frames)
    ds, dp = data.Dataset(frames), params(c)
    before = (snap.dataset(ds), snap.frame(dp))
    ev = {"kind": "lsq", "fr": c["fr"], "fc": c["fc"], "a": c["a"], "ts": c["ts"], "te": c["te"], "plan": [{"g": s["g"], "t": s["t"]} for s in plan],
          "unequal": c["bad"] == "unequal", "badk": c["bad"] == "kgain", "clean": True, "zeroerr": c["clean"], "x": stacks, "q": qs_, "f": flat(F), "c": flat(C), "d": flat(D),
          "of": [], "oc": [], "od": [], "fe": [], "ce": [], "de": [], "oq": [], "bo": 0, "kept": True, "exc": ""}
    try:
        m = darks.calibrate_darks_lsq(ds, dp, detector_regions=geom(c))
        ev["of"], ev["oc"], ev["od"] = (qs(v) for v in m.data)
        ev["fe"], ev["ce"], ev["de"] = (qs(v) for v in m.err[0])
        ev["oq"] = [flat(v) for v in m.dq]
        ev["bo"] = vf.q(round(float(m.ext_hdr["B_O"]) * SC))
    except Exception as ex:
        ev["exc"] = vf.excname(ex) + ": " + str(ex)
    ev["kept"] = bool((snap.dataset(ds), snap.frame(dp)) == before)
    return ev


def bpm(c):
    r = np.random.default_rng(c["seed"])
    shape = (c["rows"], c["cols"])
    if c["defaults"]:
        c = dict(c, kn=5, kd=1, fn=4, fd=5, w=32)
    dark = r.integers(-3, 4, shape) * c["spread"] + np.where(r.random(shape) < .12, 40, 0)
    fl = r.integers(6, 9, shape) + np.where(r.random(shape) < .2, -5, 0) + np.arange(c["cols"])[None, :] * r.integers(0, 3)
    F, C, D = r.integers(-3, 8, shape) * c["g"], r.integers(0, 5, shape), r.integers(0, 4, shape) + np.where(r.random(shape) < .1, 20, 0)
    how = c["how"]
    ev = {"kind": "bpm", "how": how, "rows": c["rows"], "cols": c["cols"], "kn": c["kn"], "kd": c["kd"], "fn": c["fn"], "fd": c["fd"], "w": c["w"], "g": c["g"], "t": c["t"],
          "d": flat(D if how == "maps" else dark), "f": flat(F), "c": flat(C), "flat": flat(fl), "o": [], "parents": True, "labels": True, "kept": True, "exc": ""}
    try:
        if how == "hot":
            a = np.array(dark, dtype=float)
            o = np.where(bpc.detect_hot_warm_pixels_from_dark(a, c["kn"] / c["kd"]), 8, 0)
        elif how == "dead":
            o = np.where(bpc.detect_dead_pixels_from_flat(np.array(fl, dtype=float), c["fn"] / c["fd"], c["w"]), 4, 0)
        else:
            mf = mk.product("FlatField", arr=np.array(fl, dtype=float), e=dict(EXPTIME=float(c["t"]), EMGAIN_C=float(c["g"]), EMGAIN_A=-1., DATALVL="L2a"))
            if how == "maps":
                # a detector as small as the test images, with the image area at one corner
                gm = geom({"fr": c["rows"] + 1, "fc": c["cols"] + 2, "a": {"rows": c["rows"], "cols": c["cols"], "r0": 1, "c0": 1}})["SCI"]
                detector.detector_areas["SCI"].clear()
                detector.detector_areas["SCI"].update(gm)
                arr = r.integers(0, 50, (3, c["rows"] + 1, c["cols"] + 2)).astype(float)
                for k, v in enumerate((F, C, D)):
                    arr[k, 1:, 1:-1] = v
                md = noisemaps(arr, np.zeros_like(arr), np.zeros(arr.shape, dtype=np.uint16), True)
            else:
                md = mk.product("Dark", arr=np.array(dark, dtype=float), err=np.ones((1,) + shape), dq=np.zeros(shape, dtype=np.uint16))
            before = values(md) + values(mf)
            kw = {} if c["defaults"] else dict(dthresh=c["kn"] / c["kd"], ffrac=c["fn"] / c["fd"], fwidth=c["w"])
            out = vf.scratch("bpmd")
            m = bpc.create_bad_pixel_map(None, md, mf, dark_outputdir=out if how == "maps" else None, **kw)
            o = m.data
            par = [m.ext_hdr["FILE%d" % i] for i in range(int(m.ext_hdr["DRPNFILE"]))]
            dname = md.filename if how == "map" else (os.listdir(out) + [""])[0]
            ev["parents"] = bool({dname, mf.filename} <= set(par) and len(set(par)) == len(par))
            ev["labels"] = bool(isinstance(m, data.BadPixelMap) and m.ext_hdr["DATATYPE"] == "BadPixelMap" and m.ext_hdr["DATALVL"] == "CAL")
            ev["kept"] = bool(values(md) + values(mf) == before)
        ev["o"] = flat(o) if np.shape(o) == shape else []
    except Exception as ex:
        ev["exc"] = vf.excname(ex) + ": " + str(ex)
    return ev


DO = {"combine": combine, "trad": trad, "synth": synth, "lsq": lsq, "bpm": bpm}


def job(c):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return {"meta": {"c": c}, "ev": [DO[c["kind"]](c)]}


PLAN = {"K02": ("GenDark_bpm", 500, 6000), "K03": ("GenDark_combine", 500, 6000), "K04": ("GenDark_synth", 400, 5000), "K05": ("GenDark_lsq", 400, 5000)}


def check(prop, tier):
    deep = tier == "thorough"
    mc = vf.model_check("MCDark", "MCDarkDeep" if deep else "MCDark")
    cfg, few, many = PLAN[prop]
    gen, g = vf.generate("GenDark", cfg, num=many if deep else few, depth=5)
    traces = vf.pmap(job, [(c,) for c in gen])
    bad, val = vf.validate("DarkTrace", traces)
    return vf.report(traces, bad, [mc, g, val], site=lambda t, e: e["kind"], describe=lambda t, e: "%s exc=%s" % (t["meta"]["c"], e["exc"]))
