"""K09: core-throughput calibration and its lookups against CtOps.tla."""
import contextlib
import io
import os
import shutil
import warnings
import numpy as np
from astropy.io import fits
import vf, mk, snap
import corgidrp
import corgidrp.data as data
import corgidrp.corethroughput as ctp
import corgidrp.klip_fm as klip_fm

LABEL = [2. ** k for k in range(24)]


def frame(c, shape=(4, 4), **kw):
    e = {"STARLOCX": float(c["star"]["x"]), "STARLOCY": float(c["star"]["y"]), "FPAM_H": 10., "FPAM_V": 20., "FSAM_H": 30., "FSAM_V": 40., "PLTSCALE": 21.8}
    if c["hasoff"]:
        e["DETPIX0X"], e["DETPIX0Y"] = c["off"]["x"], c["off"]["y"]
    e.update(kw.pop("e", {}))
    return mk.image(np.zeros(shape), err=np.zeros((1,) + shape), e=e, **kw)


def ctcal(ct, cube=None, fpam=(10., 20.), fsam=(30., 40.)):
    o = mk.product("CoreThroughputCalibration", ct=np.array(ct, dtype=float))
    if cube is not None:
        o.data = np.array(cube, dtype=float)
    for i, v in ((1, fpam), (2, fsam)):
        o.hdu_list[i].data = np.array(v, dtype=float)
    o.ct_fpam, o.ct_fsam = np.array(fpam, dtype=float), np.array(fsam, dtype=float)
    return o


def off(c):
    return c["off"] if c["hasoff"] else {"x": 0, "y": 0}


def caught(ev, f):
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return f()
    except Exception as ex:
        ev["exc"] = vf.excname(ex)
        ev["why"] = str(ex)[:200]
    return None


def sep(c):
    o = off(c)
    star = {k: 4 * c["star"][k] + c["half"] for k in "xy"}
    pts = [{k: star[k] + 4 * o[k] + 2 + p[k] for k in "xy"} for p in c["pts"]]
    ct = [100 + 17 * i for i in range(len(pts))]
    cal = ctcal([[p["x"] / 4. for p in pts], [p["y"] / 4. for p in pts], [v / 1000. for v in ct]])
    fr = frame(c, e={"STARLOCX": star["x"] / 4., "STARLOCY": star["y"] / 4.})
    before = snap.frame(cal), snap.frame(fr)
    ev = {"op": "sep", "star": star, "off": o, "pts": pts, "ct": ct, "seps": c["seps"], "out": [], "kept": True, "exc": ""}
    r = caught(ev, lambda: ctp.get_1d_ct(cal, fr, np.array(c["seps"]) / 4.))
    if r is not None:
        ev["out"] = [{"sep": vf.q(r[0][k], 4), "ct": vf.q(r[1][k], 1000)} for k in range(np.shape(r)[1])]
    ev["kept"] = before == (snap.frame(cal), snap.frame(fr))
    return ev


def near(c):
    o = off(c)
    q, s = c["quarter"], c["sep"]
    d = [(0, s), (-s, 0), (0, -s), (s, 0)][q % 4]
    pts = [{"x": 4 * (c["star"]["x"] + o["x"] + d[0]) + 2 + p["x"], "y": 4 * (c["star"]["y"] + o["y"] + d[1]) + 2 + p["y"]} for p in c["pts"]]
    n = len(pts)
    cube = np.zeros((n, 5, 5))
    for i in range(n):
        cube[i, 2, 2] = 3. * (i + 1)
        cube[i, 2, 3] = cube[i, 2, 2] * (i + 1) / 16.
    cal = ctcal([[p["x"] / 4. for p in pts], [p["y"] / 4. for p in pts], [.5] * n], cube)
    fr = frame(c, shape=(56, 56), p={"ROLL": c["roll"]})
    fr.data[:] = 2.
    before = snap.frame(cal), snap.frame(fr)
    ev = {"op": "near", "star": c["star"], "off": o, "pts": pts, "sep": s, "quarter": q % 4, "amp": c["amp"], "near": 0, "used": 0, "peak": 0, "where": {"x": -1, "y": -1},
          "centre": {"x": -1, "y": -1}, "elsewhere": False, "kept": True, "exc": ""}
    r = caught(ev, lambda: klip_fm.get_closest_psf(cal, c["star"]["x"] + o["x"], c["star"]["y"] + o["y"], d[0], d[1]))
    if r is not None:
        hit = [i + 1 for i in range(n) if np.array_equal(r, cube[i])]
        ev["near"] = hit[0] if hit else 0
        r = caught(ev, lambda: klip_fm.inject_psf(fr, cal, float(c["amp"]), float(s), float(c["roll"] + 90 * q)))
    if r is not None:
        out, model, cen = r
        diff = np.asarray(out.data) - 2.
        y, x = np.unravel_index(np.argmax(diff), diff.shape)
        ev["where"] = {"x": int(x), "y": int(y)}
        ev["centre"] = {"x": vf.q(cen[0]), "y": vf.q(cen[1])}
        ev["peak"] = vf.q(diff[y, x])
        w = diff[y, x + 1] / diff[y, x] * 16 if x + 1 < diff.shape[1] else -1
        k = vf.q(w, 1, tol=1e-5)
        ev["used"] = k if 1 <= k <= n and np.allclose(model, cube[k - 1] / (3. * k) * c["amp"]) else 0
        rest = diff.copy()
        rest[y, x] = 0
        rest[y, min(x + 1, diff.shape[1] - 1)] = 0
        ev["elsewhere"] = bool(np.abs(rest).max() < 1e-6 * c["amp"])
    ev["kept"] = before == (snap.frame(cal), snap.frame(fr))
    return ev


def fpm(c):
    o = off(c)
    cor = c["cor"]
    fr = frame(c, e={"FPAM_H": cor[0]["h"] / 4., "FPAM_V": cor[0]["v"] / 4., "FSAM_H": cor[1]["h"] / 4., "FSAM_V": cor[1]["v"] / 4.})
    fr2 = frame(dict(c, star={"x": 1, "y": 2}))
    ds = data.Dataset([fr, fr2])
    cal = ctcal([[1., 2.], [3., 4.], [.5, .25]], fpam=[c["ct"][0]["h"] / 4., c["ct"][0]["v"] / 4.], fsam=[c["ct"][1]["h"] / 4., c["ct"][1]["v"] / 4.])
    ff = mk.product("FpamFsamCal", arr=np.array(c["m"]) / 64.)
    before = snap.frame(cal), snap.frame(fr), snap.frame(ff)
    ev = {"op": "fpm", "star": c["star"], "off": o, "m": c["m"], "ct": c["ct"], "cor": cor, "out": [], "kept": True, "exc": ""}
    r = caught(ev, lambda: cal.GetCTFPMPosition(ds, ff))
    if r is not None:
        ev["out"] = [{"x": vf.q(v[0], 256), "y": vf.q(v[1], 256)} for v in r]
    ev["kept"] = before == (snap.frame(cal), snap.frame(fr), snap.frame(ff))
    return ev


def polar(r, az):
    return r * np.cos(np.radians(az)), r * np.sin(np.radians(az))


def setting(c):
    """A coronagraphic dataset, mechanism matrices and the mask's centre during the throughput measurement."""
    o = off(c)
    m = np.array([[[.5, .25], [-.25, .5]], [[1., 0], [0, 1.]]])
    ff = mk.product("FpamFsamCal", arr=m)
    fr = frame(c)
    fpam = (14., 12.) if c["shift"] else (10., 20.)
    d = m[0] @ (np.array(fpam) - np.array([10., 20.]))
    cen = np.array([c["star"]["x"] + o["x"], c["star"]["y"] + o["y"]], dtype=float) + d
    return data.Dataset([fr, frame(dict(c, star={"x": 1, "y": 2}))]), ff, fpam, cen


def shaped(form, xs, ys):
    if form == "array":
        return np.array(xs), np.array(ys)
    if form == "list" or len(xs) > 1:
        return list(xs), list(ys)
    return float(xs[0]), float(ys[0])


def interp(c):
    ds, ff, fpam, cen = setting(c)
    nr, na = c["nr"], c["na"]
    log = c["logr"]
    R = [c["r0"] * 2. ** i if log else float(c["r0"] + c["dr"] * i) for i in range(nr)]
    U = [8 * i if log else int(8 * R[i]) for i in range(nr)]
    step = 8 if log else 8 * c["dr"]
    A = [c["az0"] + c["da"] * j for j in range(na)]
    f, rng8 = c["f"], 8 * (na - 1) * c["da"]
    grid = [(i, j) for i in range(nr) for j in range(na)]
    perm = np.random.default_rng(c["perm"]).permutation(len(grid))
    X, Y, CT = [], [], []
    for k in perm:
        i, j = grid[k]
        x, y = polar(R[i], A[j])
        X.append(x + cen[0])
        Y.append(y + cen[1])
        CT.append((f["a"] + f["b"] * (U[i] - U[0]) + f["c"] * 8 * (A[j] - A[0])) / 1e5)
    cal = ctcal([X, Y, CT], fpam=fpam)
    T, xs, ys = [], [], []
    ts = c["t"][:1] if c["form"] == "scalar" else c["t"]
    for t in ts:
        i, j = (t["i"] - 1) % nr, (t["j"] - 1) % na
        if t["how"] in ("point", "last"):
            j = na - 1 if t["how"] == "last" else j
            k = [tuple(grid[p]) for p in perm].index((i, j))
            x, y = X[k] - cen[0], Y[k] - cen[1]
            T.append({"u": U[i], "az": 8 * A[j], "point": True})
        else:
            i, j = min(i, nr - 2), min(j, na - 2)
            u8 = t["u"]
            az8 = 8 * A[j] + t["w"] * c["da"] if t["how"] == "inside" else 8 * t["az"]
            if t["how"] == "far":
                u = U[-1] + u8
            elif t["how"] == "close":
                u = U[0] - (u8 if log else min(u8, U[0] - 1))
            else:
                u = U[i] + u8 * step // 8
            r = c["r0"] * 2. ** (u / 8.) if log else u / 8.
            x, y = polar(r, az8 / 8.)
            T.append({"u": u, "az": az8, "point": False})
        xs.append(x)
        ys.append(y)
    before = snap.frame(cal), snap.dataset(ds), snap.frame(ff)
    ev = {"op": "interp", "u": U, "az0": 8 * A[0], "range": rng8, "f": f, "t": T, "out": [], "map": {"rows": "none", "file": "none", "asked": False}, "kept": True, "exc": ""}
    xa, ya = shaped(c["form"], xs, ys)
    r = caught(ev, lambda: cal.InterpolateCT(xa, ya, ds, ff, logr=log))
    if r is not None:
        left = list(range(len(T)))
        for v, x, y in zip(*r):
            m = [k for k in left if xs[k] == x and ys[k] == y]
            if m:
                left = [k for k in left if k > m[0]]
            ev["out"].append({"i": m[0] + 1 if m else 0, "v": int(round(v * 1e5)) if v == v else vf.NAN})
        if c["map"] != "no":
            where, keep = vf.scratch("map"), corgidrp.default_cal_dir
            path, dflt = os.path.join(where, "m.csv"), os.path.join(where, "ct_map.csv")
            corgidrp.default_cal_dir = where
            ev["map"]["asked"] = c["map"] in ("saved", "given")
            kw = {"given": {"save": True, "filepath": path}, "saved": {"save": True}, "map": {"filepath": path}}[c["map"]]
            g = caught(ev, lambda: ctp.CreateCTMap(ds, ff, cal, target_pix=np.array([xs, ys]), logr=log, **kw))
            if g is not None:
                ev["map"]["rows"] = "same" if np.array_equal(g, np.array([r[1], r[2], r[0]])) else "other"
                want = path if c["map"] == "given" else dflt
                got = [p for p in (path, dflt) if os.path.exists(p)]
                if got:
                    ev["map"]["file"] = "same" if got == [want] and np.allclose(np.loadtxt(got[0], delimiter=",", ndmin=2), g) else "other"
            corgidrp.default_cal_dir = keep
            shutil.rmtree(where)
    ev["kept"] = before == (snap.frame(cal), snap.dataset(ds), snap.frame(ff))
    return ev


def grid(c):
    """The map over a default-style grid; the calibration surrounds the mask."""
    ds, ff, fpam, cen = setting(c)
    rmin, rmax = c["r0"], c["r0"] + 2 * c["dr"] + 2
    R = np.linspace(rmin, rmax, 3)
    A = np.arange(-175, 176, 10)
    X = [r * np.cos(np.radians(a)) + cen[0] for r in R for a in A]
    Y = [r * np.sin(np.radians(a)) + cen[1] for r in R for a in A]
    cal = ctcal([X, Y, [.5] * len(X)], fpam=fpam)
    q = np.random.default_rng(c["perm"])
    nx, ny, dx, dy = int(q.integers(2, 14)), int(q.integers(2, 14)), int(q.integers(1, 4)), int(q.integers(1, 4))
    x0, y0 = int(q.integers(-14, 0)), int(q.integers(-14, 0))
    ev = {"op": "grid", "nx": nx, "ny": ny, "dx": dx, "dy": dy, "x0": x0, "y0": y0, "rmin": int(rmin), "rmax": int(rmax), "rows": [], "exc": ""}
    g = caught(ev, lambda: ctp.CreateCTMap(ds, ff, cal, x_range=[x0, x0 + dx * (nx - 1)], y_range=[y0, y0 + dy * (ny - 1)], n_gridx=nx, n_gridy=ny))
    if g is not None:
        ev["rows"] = [{"x": vf.q(x), "y": vf.q(y)} for x, y, v in np.array(g).T]
    inside = [1 for j in range(ny) for i in range(nx) if rmin ** 2 < (x0 + i * dx) ** 2 + (y0 + j * dy) ** 2 < rmax ** 2 and (x0 + i * dx) * (y0 + j * dy)]
    if ev["exc"] and not inside:
        return None
    return ev


def psf(c):
    ds, ff, fpam, cen = setting(c)
    nr, na = c["nr"], c["na"]
    R = [c["r0"] + c["dr"] * i for i in range(nr)]
    A = [c["az0"] + c["da"] * j for j in range(na)]
    g = [(i, j) for i in range(nr) for j in range(na)]
    perm = np.random.default_rng(c["perm"]).permutation(len(g))
    pts = [polar(R[g[k][0]], A[g[k][1]]) for k in perm]
    pat = np.arange(1., 10.).reshape(3, 3)
    cube = np.array([LABEL[k] * pat for k in range(len(pts))])
    cal = ctcal([[p[0] + cen[0] for p in pts], [p[1] + cen[1] for p in pts], [.5] * len(pts)], cube, fpam=fpam)
    T, xs, ys = [], [], []
    for t in (c["t"][:1] if c["form"] == "scalar" else c["t"]):
        i, j = (t["i"] - 1) % nr, (t["j"] - 1) % na
        r10 = 10 * R[i] + t["u"]
        if t["how"] == "far":
            r10 = 10 * R[-1] + 3 + abs(t["u"])
        if t["how"] == "close":
            r10 = 10 * R[0] - 3 - abs(t["u"])
        if t["how"] == "half":
            j = min(j, na - 2)
            az8 = 8 * A[j] + 4 * c["da"]
            z = np.radians(c["da"] / 2.) / (1 / 10 / (r10 / 10.))
            if abs(z % 1 - .5) < 1e-3:
                continue
        else:
            az8 = 8 * A[j] + t["w"] * c["da"]
        x, y = polar(r10 / 10., az8 / 8.)
        T.append({"r": r10, "az": az8})
        xs.append(x)
        ys.append(y)
    if not T:
        return None
    before = snap.frame(cal), snap.dataset(ds), snap.frame(ff)
    ev = {"op": "psf", "r": [10 * R[g[k][0]] for k in perm], "az": [8 * A[g[k][1]] for k in perm], "label": [int(LABEL[k]) for k in range(len(pts))], "t": T, "out": [], "kept": True, "exc": ""}
    xa, ya = shaped(c["form"], xs, ys)
    r = caught(ev, lambda: cal.GetPSF(xa, ya, ds, ff))
    if r is not None:
        left = list(range(len(T)))
        for p, x, y in zip(*r):
            m = [k for k in left if xs[k] == x and ys[k] == y]
            if m:
                left = [k for k in left if k > m[0]]
            ok = np.shape(p) == (3, 3) and np.allclose(p, p[0, 0] * pat)
            ev["out"].append({"i": m[0] + 1 if m else 0, "v": vf.q(2 * p[0, 0]) if ok else -1})
    ev["kept"] = before == (snap.frame(cal), snap.dataset(ds), snap.frame(ff))
    return ev


PUPIL = [("DPAMNAME", "PUPIL"), ("LSAMNAME", "OPEN"), ("FSAMNAME", "OPEN"), ("FPAMNAME", "OPEN_12")]
NOTPUPIL = ["IMAGING", "NFOV", "R1C1", "HLC12_C2R1"]
RING = [(-1, -1), (-1, 0), (-1, 1), (0, -1), (0, 1), (1, -1), (1, 0), (1, 1)]


def sparse(a):
    a = np.asarray(a)
    return [{"x": int(x), "y": int(y), "v": vf.q(a[y, x])} for y, x in zip(*np.nonzero(a))]


def make(c):
    frames, spec = [], []
    for k, f in enumerate(c["fr"]):
        pupil = f["pupil"] and c["other"] != "nopupil" or c["other"] == "nooff"
        a = np.zeros((48, 48))
        q = np.zeros((48, 48), dtype=np.uint16)
        x, y = f["x"], f["y"]
        if pupil:
            a[y - 3:y + 4, x - 3:x + 4] = f["peak"]
        else:
            for (dy, dx), w in zip(RING, f["w"]):
                a[y + dy, x + dx] = w
            a[y, x] = f["peak"]
            a[y, x + 2 + f["odd"]] = f["far"]
            q[y + 1, x + f["odd"] - 2] = 4
            q[y - 12, x - 12] = 8
        e = {"CFAMNAME": c["filter"], "DATETIME": mk.isot(k), "FPAM_H": 3. if pupil else 10., "FPAM_V": 4. if pupil else 20., "FSAM_H": 5. if pupil else 30., "FSAM_V": 6. if pupil else 40.}
        for i, (key, v) in enumerate(PUPIL):
            e[key] = v if pupil or (1 <= f["odd"] <= 4 and f["odd"] != i + 1) else NOTPUPIL[i]
        if not pupil and f["odd"] == 5 and c["other"] == "missing":
            del e["DPAMNAME"]
        if c["other"] == "cfam" and k == c["seed"] % len(c["fr"]):
            e["CFAMNAME"] = "2A"
        frames.append(mk.image(a, err=np.zeros((1, 48, 48)), dq=q, e=e, name=mk.fname(k, "L3")))
        spec.append({"pupil": bool(pupil), "px": sparse(a), "dq": sparse(q)})
    ds = data.Dataset(frames)
    before = snap.dataset(ds)
    ev = {"op": "make", "fr": spec, "filter": c["filter"], "roi": c["roi"], "onefilter": len({f.ext_hdr["CFAMNAME"] for f in frames}) == 1, "out": [], "fpam": [], "fsam": [],
          "offpam": [10, 20], "offsam": [30, 40],
          "firstpam": [vf.q(frames[0].ext_hdr[m]) for m in ("FPAM_H", "FPAM_V")], "firstsam": [vf.q(frames[0].ext_hdr[m]) for m in ("FSAM_H", "FSAM_V")], "kept": True, "exc": ""}
    o = caught(ev, lambda: ctp.generate_ct_cal(ds, roi_radius=c["roi"]))
    if o is not None:
        total = sum(f.data.sum() for f, s in zip(frames, spec) if s["pupil"]) * ctp.di_over_pil_transmission(cfam_name=c["filter"])
        n = np.shape(o.ct_excam)[1]
        for k in range(n):
            p = o.data[k]
            ev["out"].append({"cx": int(round(o.ct_excam[0][k] * 1000)), "cy": int(round(o.ct_excam[1][k] * 1000)), "ctn": vf.q(o.ct_excam[2][k] * total), "side": int(p.shape[0]) if p.shape[0] == p.shape[1] else -1,
                              "px": sparse(p), "dq": sparse(o.dq[k])})
        ev["fpam"], ev["fsam"] = [vf.q(v) for v in o.ct_fpam], [vf.q(v) for v in o.ct_fsam]
    ev["kept"] = snap.dataset(ds) == before
    return ev


def job(c):
    ev = [e for e in ([globals()[c["kind"]](c)] + ([grid(c)] if c["kind"] == "interp" and c["perm"] % 5 == 0 else [])) if e]
    return {"meta": {"c": c}, "ev": ev}


KINDS = {"sep": 400, "near": 300, "fpm": 200, "interp": 500, "psf": 400, "make": 300}


def check(prop, tier):
    deep = tier == "thorough"
    runs = [vf.model_check("MCCt")]
    jobs = []
    for k, n in KINDS.items():
        gen, g = vf.generate("GenCt", "GenCt_" + k, num=n * (10 if deep else 1), depth=3)
        runs.append(g)
        jobs += gen
    traces = [t for t in vf.pmap(job, [(c,) for c in jobs]) if t["ev"]]
    bad, val = vf.validate("CtTrace", traces)
    return vf.report(traces, bad, runs + [val], site=lambda t, e: e["op"], describe=lambda t, e: "%s exc=%s %s" % (t["meta"]["c"], e["exc"], e.get("why", "")))
