"""K11: PSF subtraction against PsfOps.tla; pyklip's subtraction is replaced by a recording stand-in, and run for real on a few scenes."""
import contextlib
import inspect
import io
import multiprocessing
import os
import shutil
import warnings
import numpy as np
import vf, mk, snap
import corgidrp
import corgidrp.data as data
import corgidrp.l3_to_l4 as l4
import corgidrp.klip_fm as klip_fm
import pyklip.parallelized as pp
from drivers import coret

REAL = pp.klip_dataset
SIG = inspect.signature(REAL)


@contextlib.contextmanager
def instead(f):
    """Put f in the place of pyklip's klip_dataset wherever it is looked up."""
    places = [(m, "klip_dataset") for m in (pp, l4, klip_fm, data) if getattr(m, "klip_dataset", None) is REAL]
    for m, k in places:
        setattr(m, k, f)
    try:
        yield
    finally:
        for m, k in places:
            setattr(m, k, REAL)


def bound(a, kw):
    b = SIG.bind(*a, **kw)
    b.apply_defaults()
    return b.arguments


def answer(g, cube):
    """What klip_dataset leaves behind: the combined cube saved by the dataset's own method."""
    d = g["dataset"]
    h, w = d.input.shape[1:]
    d.output_centers = np.array([[(w - 1) / 2., (h - 1) / 2.]] * len(d.input))
    d.klipparams = "mode=" + g["mode"]
    basis = list(np.atleast_1d(g["numbasis"]))
    d.savedata(os.path.join(g["outputdir"], g["fileprefix"] + "-KLmodes-all.fits"), cube, klipparams=d.klipparams, filetype="KL Mode Cube", zaxis=basis)


def run(ev, f):
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter("ignore")
            return f()
    except Exception as ex:
        ev["exc"] = vf.excname(ex)
        ev["why"] = str(ex)[:300]
    return None


def flat(a):
    return [vf.q(v) for v in np.asarray(a, dtype=float).ravel()]


def isname(tag, lvl="L3"):
    return "CGI_0200001001001001%03d_20240705T000%04d_%s_.fits" % (tag % 1000, tag, lvl)


def tagof(name):
    try:
        return int(str(name).split("_")[1][-3:])
    except Exception:
        return -1


def frame(arr, dq, sx, sy, roll, tag, ref, **e):
    hd = {"STARLOCX": sx / 2., "STARLOCY": sy / 2., "PLTSCALE": 21.8, "CFAMNAME": "1F", "TAG": tag, "DATALVL": "L3", "BUNIT": "photoelectron/s", "LSAMNAME": "NFOV", "FPAMNAME": "HLC12_C2R1"}
    hd.update(e)
    p = {"ROLL": roll, "PSFREF": ref, "TELESCOP": "ROMAN", "INSTRUME": "CGI"}
    im = mk.image(arr, err=np.zeros((1,) + arr.shape), dq=dq, name=isname(tag), p=p, e=hd)
    im.ext_hdr.add_history("made for tag %d" % tag)
    return im


def build(fr, c, w, h, crop, first):
    out, spec = [], []
    for k, f in enumerate(fr):
        arr = (np.arange(w * h).reshape(h, w) + 1 + 200. * (first + k))
        dq = np.zeros((h, w), dtype=np.uint16)
        for z in f["flags"]:
            dq.flat[z["i"] % (w * h)] |= z["f"]
        sx, sy = w - 1 + 2 * f["dx"], h - 1 + 2 * f["dy"]
        e = {"FPAM_H": 10., "FPAM_V": 20., "FSAM_H": 30., "FSAM_V": 40.}
        if c["hasoff"]:
            e["DETPIX0X"], e["DETPIX0Y"] = c["off"]["x"], c["off"]["y"]
        ref = 2 if c["third"] and k == 1 else f["ref"]
        if c["wrong"] == "science":
            ref = 1
        tag = first + k + 1
        out.append(frame(arr, dq, sx, sy, f["roll"], tag, ref, **e))
        spec.append({"ref": ref, "w": w, "h": h, "px": flat(arr), "dq": [int(v) for v in dq.ravel()], "sx": sx, "sy": sy, "roll": f["roll"], "tag": tag})
    return out, spec


def prep(c):
    w, h = c["size"]
    crop = c["crop"] if w % 2 == 0 and h % 2 == 0 else 0
    d = vf.scratch("psf")
    fr, spec = build(c["fr"], c, w, h, crop, 0)
    refs, rspec = build(c["refs"], c, w, h, crop, 50)
    i = c["seed"] % len(fr)
    what = c["wrong"] if c["wrong"] != "science" else ""
    if what == "scale":
        fr[i].ext_hdr["PLTSCALE"] = 20.
    elif what == "cfam":
        fr[i].ext_hdr["CFAMNAME"] = "9Z"
    elif what == "instr":
        fr[i].pri_hdr["INSTRUME"] = "WFI"
    elif what == "tel":
        fr[i].pri_hdr["TELESCOP"] = "HST"
    if c["given"]:
        for f in refs:
            f.pri_hdr["PSFREF"] = c["seed"] % 2
    ds = data.Dataset(fr)
    rds = data.Dataset(refs) if c["given"] else None
    basis = c["basis"][:1] if c["int"] else c["basis"]
    sci = [s for s in spec if c["given"] or s["ref"] == 0]
    o = c["off"] if c["hasoff"] else {"x": 0, "y": 0}
    curve = {"star": {"x": 0, "y": 0}, "off": o, "pts": [], "ct": [], "seps": [4 * v for v in (5, 10, 15, 20, 25, 30, 35)], "out": []}
    cal = None
    if c["core"] != "nocal" and sci:
        curve["star"] = {"x": 2 * sci[0]["sx"], "y": 2 * sci[0]["sy"]}
        curve["pts"] = [{k: curve["star"][k] + 4 * o[k] + 2 + p[k] for k in "xy"} for p in c["pts"]]
        curve["ct"] = [100 + 17 * k for k in range(len(c["pts"]))]
        cal = coret.ctcal([[p["x"] / 4. for p in curve["pts"]], [p["y"] / 4. for p in curve["pts"]], [v / 1000. for v in curve["ct"]]])
    ev = {"op": "prep", "fr": spec, "refs": rspec, "given": c["given"], "told": c["told"], "crop": crop, "basis": basis, "annuli": c["annuli"], "subs": c["subs"], "move": c["move"], "prefix": c["prefix"],
          "wrong": {"what": what, "i": i + 1}, "core": c["core"], "curve": curve, "calls": 0, "call": {}, "cube": [], "out": {}, "kept": True, "exc": ""}
    before = snap.dataset(ds), (snap.dataset(rds) if rds else None), (snap.frame(cal) if cal is not None else None)
    outdir = os.path.join(d, "out") if c["outdir"] else None
    home, corgidrp.config_folder = corgidrp.config_folder, d         # jobs share nothing
    default = os.path.join(d, "KLIP_SUB")
    rr = vf.rng("psf", c["seed"])

    def stand(*a, **kw):
        g = bound(a, kw)
        ev["calls"] += 1
        p = g["dataset"]
        lib = [] if g["psf_library"] is None else [flat(g["psf_library"].master_library[k]) for k in g["psf_library"].isgoodpsf]
        rel = os.path.relpath(os.path.realpath(g["outputdir"]), os.path.realpath(outdir or default))
        ev["call"] = {"mode": g["mode"], "input": [flat(x) for x in p.input], "lib": lib, "pas": [vf.q(v) for v in p.PAs], "tags": [tagof(n) for n in p.filenames], "cen": [{"x": vf.q(x, 2), "y": vf.q(y, 2)} for x, y in p.centers],
                      "basis": [int(v) for v in np.atleast_1d(g["numbasis"])], "annuli": g["annuli"], "subs": g["subsections"], "move": g["movement"], "prefix": g["fileprefix"], "dir": rel}
        nb = len(np.atleast_1d(g["numbasis"]))
        cube = np.arange(nb * p.input[0].size, dtype=float).reshape((nb,) + p.input.shape[1:]) + 5
        for k in range(c["nans"]):
            cube.flat[rr.randrange(cube.size)] = np.nan
        ev["cube"] = flat(cube)
        answer(g, cube)

    def go():
        with instead(stand):
            return l4.do_psf_subtraction(ds, ct_calibration=cal if c["core"] == "yes" else None, reference_star_dataset=rds, mode=c["told"] or None, annuli=c["annuli"], subsections=c["subs"], movement=c["move"],
                                         numbasis=basis[0] if c["int"] else list(basis), outdir=outdir, fileprefix=c["prefix"], do_crop=crop != 0, crop_sizexy=[crop, crop] if crop else None,
                                         measure_klip_thrupt=False, measure_1d_core_thrupt=c["core"] != "no")
    r = run(ev, go)
    ev["kept"] = before == (snap.dataset(ds), (snap.dataset(rds) if rds else None), (snap.frame(cal) if cal is not None else None))
    if r is not None:
        f = r[0]
        hist = " ".join(str(v) for v in f.ext_hdr["HISTORY"]) if "HISTORY" in f.ext_hdr else ""
        first = sci[0]["tag"] if sci else 0
        ev["out"] = {"n": len(r), "shape": list(f.data.shape), "px": flat(f.data), "dq": [int(v) for v in f.dq.ravel()], "err": flat(f.err[0]), "star": {"x": vf.q(f.ext_hdr["STARLOCX"], 2), "y": vf.q(f.ext_hdr["STARLOCY"], 2)},
                     "alg": f.pri_hdr.get("KLIP_ALG", ""), "tag": f.ext_hdr.get("TAG", -1), "name": tagof(f.filename), "modes": [int(f.ext_hdr["KLMODE%d" % k]) for k in range(len(basis)) if "KLMODE%d" % k in f.ext_hdr],
                     "hist": "PSF subtracted" in hist and "made for tag %d" % first in hist}
        hl = {x.name: x for x in f.hdu_list}
        if "CT_THRU" in hl:
            a = np.atleast_2d(hl["CT_THRU"].data)
            ev["curve"]["out"] = [{"sep": vf.q(a[0][k], 4), "ct": vf.q(a[1][k], 1000)} for k in range(a.shape[1])]
    corgidrp.config_folder = home
    shutil.rmtree(d, ignore_errors=True)
    return ev


def gauss(n, x, y, amp, s=1.3):
    yy, xx = np.indices((n, n))
    return amp * np.exp(-((xx - x) ** 2 + (yy - y) ** 2) / (2 * s * s))


def real(c):
    multiprocessing.current_process()._config["daemon"] = False       # pyklip starts its own pool
    n = 32
    d = vf.scratch("psf")
    cx = (n - 1) / 2.
    fr = []
    turns = {"x": {0: 0, 1: -1, 2: 0, 3: 1}, "y": {0: 1, 1: 0, 2: -1, 3: 0}}
    r = np.random.RandomState(c["seed"])
    speckle = r.rand(n, n) * 3.
    for k in range(c["n"] + c["m"]):
        q = (c["turn0"] + (k if not c["back"] else -k)) % 4
        x, y = cx + c["dx"], cx + c["dy"]
        base = np.roll(np.roll(gauss(n, cx, cx, 200., 2.) + speckle + r.rand(n, n), c["dx"], axis=1), c["dy"], axis=0)
        sci = k < c["n"]
        if sci:
            det = (c["pa"] - q) % 4               # on the detector the sky appears turned back by the roll
            base = base + gauss(n, x + c["sep"] * turns["x"][det], y + c["sep"] * turns["y"][det], 60., 1.)
        fr.append(frame(base, np.zeros((n, n), dtype=np.uint16), n - 1 + 2 * c["dx"], n - 1 + 2 * c["dy"], 90 * q, k + 1, 0 if sci else 1))
    ds = data.Dataset(fr)
    before = snap.dataset(ds)
    ev = {"op": "real", "sep": c["sep"], "pa": c["pa"], "basis": c["basis"], "peaks": [], "kept": True, "exc": ""}
    crop = c["crop"]
    o = run(ev, lambda: l4.do_psf_subtraction(ds, numbasis=list(c["basis"]), outdir=os.path.join(d, "o"), fileprefix="r", do_crop=crop, crop_sizexy=[24, 24] if crop else None, measure_klip_thrupt=False, measure_1d_core_thrupt=False, num_processes=1, movement=1))
    if o is not None:
        m = o[0].data.shape[-1]
        for s in o[0].data:
            s = s.copy()
            yy, xx = np.indices(s.shape)
            rr = np.hypot(xx - (m - 1) / 2., yy - (m - 1) / 2.)
            s[(rr < 3.) | (rr > 9.5)] = np.nan
            k = int(np.nanargmax(s)) if np.isfinite(s).any() else 0
            y, x = divmod(k, m)
            ev["peaks"].append({"x": int(np.floor(x - (m - 1) / 2. + 0.5)), "y": int(np.floor(y - (m - 1) / 2. + 0.5))})
    ev["kept"] = before == snap.dataset(ds)
    shutil.rmtree(d, ignore_errors=True)
    return ev


def thr(c):
    n = 49
    cen = n // 2
    d = vf.scratch("psf")
    yy, xx = np.indices((n, n))
    a0 = 2.
    noise = a0 * np.where((xx + yy) % 2 == 0, 1., -1.)
    rr = np.hypot(xx - cen, yy - cen)
    seps, pas = ([6.42, 14.84], [0, 72, 144, 216, 288]) if c["dflt"] else (c["seps"], c["pas"])
    cands = [] if c["dflt"] else c["cands"]
    gains = {b: np.where(rr < (10.6 if c["dflt"] else 13.5), g["near"] / 1000., g["far"] / 1000.) for b, g in enumerate(c["gain"])}
    fr = [frame(noise.copy(), np.zeros((n, n), dtype=np.uint16), 2 * cen, 2 * cen, c["rolls"][k], k + 1, 0) for k in range(c["n"])]
    ref = [frame(np.zeros((n, n)) + noise, np.zeros((n, n), dtype=np.uint16), 2 * cen, 2 * cen, 0, 60, 1)] if c["ref"] else []
    ds = data.Dataset(fr + ref)
    width = 1.22 * 573.8e-9 / 2.36 * 206265. * 1000. / 21.8
    sig = width / 2.3548
    m = 15
    model = gauss(m, m // 2, m // 2, 1., sig)
    grid = [(x, y) for x in (-20, -10, 0, 10, 20) for y in (-20, -10, 0, 10, 20)]
    cal = coret.ctcal([[cen + 0.5 + x for x, y in grid], [cen + 0.5 + y for x, y in grid], [0.1 + 0.01 * k for k in range(len(grid))]], cube=[model * (k + 1) for k in range(len(grid))])
    before = snap.dataset(ds), snap.frame(cal)
    basis = list(c["basis"])
    if len(set(basis)) < len(basis):
        basis = [1, 2]
    ev = {"op": "thr", "basis": basis, "dflt": c["dflt"], "seps": [int(round(x)) for x in seps], "pas": pas, "gain": c["gain"], "cands": cands, "core": c["core"], "calls": [], "sepsout": [], "thr": [], "inj": [], "ctseps": [], "kept": True, "exc": ""}

    def stand(*a, **kw):
        g = bound(a, kw)
        p = g["dataset"]
        fake = g["fileprefix"].startswith("FAKE")
        ev["calls"].append({"fake": fake, "set": {"mode": g["mode"], "annuli": g["annuli"], "subs": g["subsections"], "move": g["movement"], "dir": g["outputdir"], "n": len(p.input), "lib": 0 if g["psf_library"] is None else len(g["psf_library"].isgoodpsf)},
                            "basis": [int(v) for v in np.atleast_1d(g["numbasis"])]})
        out = []
        for b in np.atleast_1d(g["numbasis"]):
            b = basis.index(int(b))
            turned = [np.rot90(x, -int(round(pa / 90.))) for x, pa in zip(p.input, p.PAs)]     # first row is the bottom one
            out.append(np.mean(turned, axis=0) * gains[b])
        if fake:
            for f, (x, pa) in enumerate(zip(p.input, p.PAs)):
                for k, s in enumerate(seps):
                    for j, ang in enumerate(pas):
                        t = (ang + k * (360 // (3 * len(pas)))) % 360
                        th = np.radians(t - pa)
                        ix, iy = int(round(cen - s * np.sin(th))), int(round(cen + s * np.cos(th)))
                        v = (x[iy, ix] - noise[iy, ix]) / (c["snr"] * a0)
                        ev["inj"].append({"b": b + 1, "f": f + 1, "k": k + 1, "j": j + 1, "v": int(round(1000 * v)), "exact": t % 90 == 0 and not c["dflt"]})
        answer(g, np.array(out))

    def go():
        with instead(stand):
            return l4.do_psf_subtraction(ds, ct_calibration=cal, numbasis=basis, outdir=os.path.join(d, "o"), fileprefix="t", do_crop=False, measure_klip_thrupt=True, measure_1d_core_thrupt=c["core"],
                                         cand_locs=[(float(x["s"]), float(x["pa"])) for x in cands], kt_seps=None if c["dflt"] else np.array(seps, dtype=float), kt_pas=None if c["dflt"] else np.array(pas, dtype=float),
                                         annuli=c["annuli"], subsections=c["subs"], movement=c["move"], kt_snr=float(c["snr"]))
    o = run(ev, go)
    if o is not None:
        hl = {x.name: x for x in o[0].hdu_list}
        if "KL_THRU" in hl:
            a = hl["KL_THRU"].data
            ev["sepsout"] = [near(v, 1000) for v in a[0, :, 0]]
            ev["thr"] = [[{"t": near(a[b + 1, k, 0], 1000), "w": near(a[b + 1, k, 1] / width, 1000)} for k in range(a.shape[1])] for b in range(a.shape[0] - 1)]
        if "CT_THRU" in hl:
            ev["ctseps"] = [near(v, 1000) for v in np.atleast_2d(hl["CT_THRU"].data)[0]]
    ev["kept"] = before == (snap.dataset(ds), snap.frame(cal))
    shutil.rmtree(d, ignore_errors=True)
    return ev


def near(v, s):
    return vf.NAN if np.isnan(v) else int(round(min(max(v * s, -10 ** 7), 10 ** 7)))


def noise(c):
    w, h = c["w"], c["h"]
    r = vf.rng("noise", c["seed"])
    cube = np.array([[r.randint(-c["vals"], c["vals"]) for _ in range(w * h)] for _ in range(c["nk"])], dtype=float).reshape(c["nk"], h, w)
    for _ in range(c["nans"]):
        cube.flat[r.randrange(cube.size)] = np.nan
    f = mk.image(cube, err=np.zeros((1,) + cube.shape), dq=np.zeros(cube.shape, dtype=np.uint16), e={"STARLOCX": c["sx"] / 4., "STARLOCY": c["sy"] / 4.})
    before = snap.frame(f)
    pick = c["pick"] if c["pick"] < c["nk"] else -1
    ev = {"op": "noise", "w": w, "h": h, "px": [flat(s) for s in cube], "sx": c["sx"], "sy": c["sy"], "seps": c["seps"], "hw": c["hw"], "cands": c["cands"], "pick": pick, "out": [], "kept": True, "exc": ""}
    o = run(ev, lambda: klip_fm.measure_noise(f, np.array(c["seps"]) / 4., c["hw"] / 4., None if pick < 0 else pick, [(x["s"] / 4., 90. * x["k"]) for x in c["cands"]]))
    if o is not None:
        o = np.asarray(o)
        ev["out"] = [[near(v * v, 1000) for v in np.atleast_1d(row)] for row in o]
    ev["kept"] = before == snap.frame(f)
    return ev


def job(c):
    return {"meta": {"c": c}, "ev": [globals()[c["kind"]](c)]}


KINDS = {"prep": 500, "thr": 60, "noise": 200, "real": 24}


def check(prop, tier):
    deep = tier == "thorough"
    runs = [vf.model_check("MCPsf", "MCPsfDeep" if deep else "MCPsf")]
    jobs = []
    for k, n in KINDS.items():
        gen, g = vf.generate("GenPsf", "GenPsf_" + k, num=n * (8 if deep else 1), depth=3)
        runs.append(g)
        jobs += gen
    traces = vf.pmap(job, [(c,) for c in jobs])
    bad, val = vf.validate("PsfTrace", traces)
    return vf.report(traces, bad, runs + [val], site=lambda t, e: e["op"], describe=lambda t, e: "%s exc=%s %s" % (t["meta"]["c"], e["exc"], e.get("why", "")))
