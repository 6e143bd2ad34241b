"""S10 detector geometry and S02 prescan bias subtraction against GeomOps.tla."""
import copy
import numpy as np
from astropy.io import fits
import vf, mk
import corgidrp
import corgidrp.data as data
import corgidrp.detector as det
import corgidrp.l1_to_l2a as l1

TYPES = ["SCI", "ENG", "ENG_EM", "ENG_CONV"]
W = 4096                                        # row weight of the coordinate pattern


def reg(d):
    return {"r": int(d["r0c0"][0]), "c": int(d["r0c0"][1]), "h": int(d["rows"]), "w": int(d["cols"])}


def grec(d):
    return {"R": int(d["frame_rows"]), "C": int(d["frame_cols"]), "image": reg(d["image"]), "prescan": reg(d["prescan"]),
            "par": reg(d["parallel_overscan"]), "ser": reg(d["serial_overscan"]),
            "st": int(d["prescan"]["col_start"]), "end": int(d["prescan"]["col_end"])}


def frame(R, C):
    return np.arange(R)[:, None] * W + np.arange(C)[None, :].astype(float)


def window(a):
    """Where in the coordinate pattern a 2-D array lies."""
    a = np.asarray(a)
    if a.ndim != 2 or a.size == 0:
        return {"r": 0, "c": 0, "h": 0, "w": 0}
    v = int(a[0, 0])
    r, c = divmod(v, W)
    if not np.array_equal(a, frame(a.shape[0], a.shape[1]) + v):
        return {"r": r, "c": c, "h": -1, "w": -1}
    return {"r": r, "c": c, "h": a.shape[0], "w": a.shape[1]}


def small_geom(r):
    """A random small frame type of the shipped layouts, in the code's own dictionary format."""
    pw, sw, ph = r.randint(3, 6), r.randint(1, 3), r.randint(1, 3)
    iw, ih = r.randint(2, 5), r.randint(2, 6)
    R, C = ih + ph, pw + iw + sw
    left, up = r.random() < .6, r.random() < .8
    mr, mc = r.randint(0, ih - 1), r.randint(0, iw - 1)
    hr, wc = r.randint(1, ih - mr), r.randint(1, iw - mc)
    ic, ir = (pw if left else sw), (0 if up else ph)
    pc = 0 if left else sw + iw
    st = pc + r.randint(0, pw - 2)
    end = r.randint(st + 2, pc + pw)
    return {"frame_rows": R, "frame_cols": C,
            "image": {"rows": hr, "cols": wc, "r0c0": [ir + mr, ic + mc]},
            "prescan": {"rows": R, "cols": pw, "r0c0": [0, pc], "col_start": st, "col_end": end},
            "prescan_reliable": {"rows": R, "cols": end - st, "r0c0": [0, st]},
            "parallel_overscan": {"rows": ph, "cols": iw, "r0c0": [ih if up else 0, ic]},
            "serial_overscan": {"rows": R, "cols": sw, "r0c0": [0, pw + iw if left else 0]}}


def attempt(f):
    try:
        return f(), ""
    except Exception as ex:
        return None, vf.excname(ex)


def geom_events(regions, ty, keyed=True, small=True):
    d = (regions or det.detector_areas)[ty]
    kw = {"detector_regions": regions} if regions is not None else {}
    g = grec(d)
    ev = []
    f = frame(g["R"], g["C"])
    if not small:
        ev.append({"op": "shipped", "g": g, "rel": reg(d["prescan_reliable"]),
                   "halves": [reg(d["lower_image"]), reg(d["upper_image"])] if "lower_image" in d else []})
    for key in [k for k in d if isinstance(d[k], dict)]:
        q = reg(d[key])
        o, exc = attempt(lambda: det.slice_section(f, ty, key, **kw))
        ev.append({"op": "slice", "g": g, "key": key, "reg": q, "win": window(o) if exc == "" else q, "exc": exc})
        o, exc = attempt(lambda: det.unpack_geom(ty, key, **kw))
        ev.append({"op": "unpack", "g": g, "key": key, "reg": q, "exc": exc,
                   "win": {"r": o[2][0], "c": o[2][1], "h": o[0], "w": o[1]} if exc == "" else q})
        sub = f[q["r"]:q["r"] + q["h"], q["c"]:q["c"] + q["w"]]
        for pad in ([0, -1] if small else [-1]):
            o, exc = attempt(lambda: det.embed(sub, ty, key, pad, **kw) if pad != 0 else det.embed(sub, ty, key, **kw))
            e = {"op": "embed", "g": g, "key": key, "reg": q, "exc": exc, "win": q, "shape": [], "padok": False, "inverse": False}
            if exc == "":
                m = np.ones(o.shape, dtype=bool)
                m[q["r"]:q["r"] + q["h"], q["c"]:q["c"] + q["w"]] = False
                e.update(shape=list(o.shape), win=window(o[q["r"]:q["r"] + q["h"], q["c"]:q["c"] + q["w"]]),
                         padok=bool(np.all(o[m] == pad)))
                b, x2 = attempt(lambda: det.slice_section(o, ty, key, **kw))
                e["inverse"] = bool(x2 == "" and np.array_equal(b, sub))
            ev.append(e)
        for dh, dw in ((1, 0), (0, 1), (-1, 0), (0, -1)):
            hh, ww = q["h"] + dh, q["w"] + dw
            if hh < 2 or ww < 2:
                continue                  # would be broadcast
            o, exc = attempt(lambda: det.embed(np.zeros((hh, ww)), ty, key, 0, **kw))
            ev.append({"op": "embedbad", "g": g, "key": key, "shape": [hh, ww], "exc": exc})
    before = copy.deepcopy(regions or det.detector_areas)
    o, exc = attempt(lambda: det.imaging_area_geom(ty, **kw))
    s, exc2 = attempt(lambda: det.imaging_slice(ty, f, **kw))
    z = {"r": 0, "c": 0, "h": 0, "w": 0}
    ev.append({"op": "imaging", "g": g, "exc": exc + exc2, "win": window(s) if exc2 == "" else z,
               "geom": {"r": o[2][0], "c": o[2][1], "h": o[0], "w": o[1]} if exc == "" else z,
               "untouched": before == (regions or det.detector_areas)})
    return ev


def geom_job(i):
    if i < 4:
        ev = geom_events(None, TYPES[i], small=False)
    else:
        r = vf.rng("geom", i)
        ty = r.choice(TYPES)
        regions = {t: small_geom(r) for t in TYPES}
        ev = geom_events(regions, ty)
    return [{"meta": {"i": i}, "ev": [e]} for e in ev]


# ------------------------------------------------------------------ bias subtraction
def noise_maps(off, err):
    nm = mk.product("DetectorNoiseMaps")
    nm.ext_hdr["B_O"], nm.ext_hdr["B_O_ERR"] = off, err
    nm.bias_offset, nm.bias_offset_err = off, err
    return nm


def ints(a, s):
    a = np.asarray(a, dtype=float)
    return [[vf.q(x, s) for x in row] for row in a]


def bias_job(i):
    r = vf.rng("bias", i)
    regions = {t: small_geom(r) for t in TYPES}
    ty = r.choice(TYPES)
    if r.random() < .5:                         # same size for all types, so that frames of different types fit together
        for t in TYPES:
            regions[t] = regions[ty] if r.random() < .7 else copy.deepcopy(regions[ty])
    d = regions[ty]
    g = grec(d)
    n = r.randint(1, 3)
    mode = ["full", "image", "imaging"][i % 3]
    track = r.random() < .4
    L = r.choice([1, 1, 2, 3])
    off4, oe2 = (0, 0) if r.random() < .3 else (r.randint(-9, 9), r.randint(0, 4))
    nm = None if (off4, oe2) == (0, 0) and r.random() < .5 else noise_maps(off4 / 4., oe2 / 2.)
    valid = "ok" if r.random() < .9 else r.choice(["type", "size"])
    old = corgidrp.track_individual_errors
    corgidrp.track_individual_errors = track
    if not track:
        L = 1                                  # individual layers only exist while tracking
    frames, raw = [], []
    for k in range(n):
        px = np.array([[r.choice([0, 1, 2, 3, 5, 8, -2, 40]) + 10 * a for b in range(g["C"])] for a in range(g["R"])], dtype=float)
        er = np.array([[[r.choice([0, 1, 2, 3]) for b in range(g["C"])] for a in range(g["R"])] for l in range(L)], dtype=float) / 2
        dq = np.array([[r.randint(0, 255) for b in range(g["C"])] for a in range(g["R"])], dtype=np.uint16)
        if valid == "size":
            px, er, dq = px[:-1], er[:, :-1], dq[:-1]
        im = mk.image(px, err=er, dq=dq, name=mk.fname(k, "L1"), e={"ARRTYPE": "BOGUS" if valid == "type" else ty, "DATALVL": "L1"})
        frames.append(im)
        raw.append((px, er, dq))
    ds = data.Dataset(frames)
    kw = {"full": {"return_full_frame": True}, "image": {}, "imaging": {"use_imaging_area": True}}[mode]
    out, exc = attempt(lambda: l1.prescan_biassub(ds, noise_maps=nm, detector_regions=regions, **kw))
    corgidrp.track_individual_errors = old
    nn = g["end"] - g["st"]
    ev = []
    for k in range(n):
        px, er, dq = raw[k]
        e = {"op": "bias", "g": g, "mode": mode, "track": track, "off4": off4, "oe2": oe2, "valid": valid == "ok", "exc": exc,
             "px": ints(px, 1), "err": [ints(x, 2) for x in er], "d": dq.tolist(), "shape": [], "v4": [], "s2": [], "dqo": [],
             "layers": [], "own2": [], "nlayers": 0, "bias4": [], "naxis": []}
        if exc == "":
            f = out[k]
            e["shape"] = list(f.data.shape)
            e["v4"] = ints(f.data, 4)
            e["s2"] = ints(np.asarray(f.err[0]) ** 2, 4 * nn ** 3)
            e["dqo"] = np.asarray(f.dq).tolist()
            e["nlayers"] = int(f.err.shape[0])
            e["layers"] = [ints(x, 2) for x in f.err[1:L]]
            e["own2"] = ints(np.asarray(f.err[-1]) ** 2, 4 * nn ** 3) if track else []
            e["bias4"] = [vf.q(x, 4) for x in f.hdu_list["BIAS"].data]
            e["naxis"] = [int(f.ext_hdr["NAXIS1"]), int(f.ext_hdr["NAXIS2"])]
        ev.append(e)
        if exc:
            break
    return {"meta": {"i": i, "type": ty, "frames": n}, "ev": ev}


def big_job(ty, mode):
    g = grec(det.detector_areas[ty])
    R, C = g["R"], g["C"]
    rr, cc = np.arange(R)[:, None], np.arange(C)[None, :]
    px = ((3 * rr + 5 * cc) % 1009).astype(float)
    px[:, g["st"]:g["end"]] = ((7 * rr) % 97)
    dq = ((rr + cc) % 256).astype(np.uint16)
    im = mk.image(px, dq=dq, name=mk.fname(1, "L1"), e={"ARRTYPE": ty, "DATALVL": "L1"})
    kw = {"full": {"return_full_frame": True}, "image": {}, "imaging": {"use_imaging_area": True}}[mode]
    out, exc = attempt(lambda: l1.prescan_biassub(data.Dataset([im]), **kw))
    e = {"op": "bigbias", "g": g, "mode": mode, "exc": exc, "shape": [], "smp": [], "biaslen": 0}
    if exc == "":
        f = out[0]
        e["shape"] = list(f.data.shape)
        b = f.hdu_list["BIAS"].data
        e["biaslen"] = len(b)
        r = vf.rng("big", ty, mode)
        h, w = f.data.shape
        if h and w:
            pts = [(0, 0), (h - 1, w - 1), (0, w - 1), (h - 1, 0)] + [(r.randrange(h), r.randrange(w)) for _ in range(60)]
            e["smp"] = [[y, x, vf.q(f.data[y, x]), int(f.dq[y, x]), vf.q(b[y])] for y, x in pts]
    return {"meta": {"type": ty, "mode": mode}, "ev": [e]}


def check(prop, tier):
    deep = tier == "thorough"
    if prop == "S10":
        mc = vf.model_check("MCGeom", "MCGeomDeep" if deep else "MCGeom")
        traces = [t for ts in vf.pmap(geom_job, [(i,) for i in range(300 if deep else 40)]) for t in ts]
    else:
        mc = vf.model_check("MCGeom")
        traces = vf.pmap(bias_job, [(i,) for i in range(1500 if deep else 240)])
        traces += vf.pmap(big_job, [(t, m) for t in TYPES for m in ("image", "imaging", "full")], procs=4)
    bad, val = vf.validate("GeomTrace", traces)
    return vf.report(traces, bad, [mc, val], site=lambda t, e: e["op"])
