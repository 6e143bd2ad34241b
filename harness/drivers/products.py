"""M03, M06: product files and bookkeeping against ProductOps.tla."""
import hashlib, json, os
import numpy as np
from astropy.io import fits
import vf, mk
import corgidrp
import corgidrp.data as data

SKIP = {"SIMPLE", "BITPIX", "NAXIS", "EXTEND", "XTENSION", "PCOUNT", "GCOUNT", "BSCALE", "BZERO", "EXTNAME", "EXTVER", "DRPCTIME", "DRPVERSN",
        "COMMENT", "", "BLANK", "GROUPS"}
ATTR = {"KGain": ["value", "error", "ptc"], "DetectorNoiseMaps": ["bias_offset", "bias_offset_err", "FPN_map", "CIC_map", "DC_map", "FPN_err", "CIC_err", "DC_err"],
        "DetectorParams": ["params"], "AstrometricCalibration": ["boresight", "platescale", "northangle", "avg_offset", "distortion_coeffs"],
        "FluxcalFactor": ["fluxcal_fac", "fluxcal_err", "filter", "nd_filter"], "CoreThroughputCalibration": ["ct_excam", "ct_fpam", "ct_fsam"],
        "NDFilterSweetSpotDataset": ["od_values", "x_values", "y_values"]}


def arr(a, kind=float):
    a = np.asarray(a)
    return (a.shape, hashlib.sha1(np.ascontiguousarray(a.astype(np.int64 if kind is int else np.float64)).tobytes()).hexdigest())


def plain(v):
    if isinstance(v, dict):
        return sorted((k, plain(x)) for k, x in v.items())
    if isinstance(v, (np.ndarray, float, int, np.generic)) and not isinstance(v, (bool, np.bool_, str)):
        return arr(np.asarray(v))
    return str(v)


def hdr(h, **default):
    d = {k: v for k, v in default.items()}
    for c in h.cards:
        if c.keyword == "HISTORY":
            d.setdefault("HISTORY", [])
            d["HISTORY"] = d["HISTORY"] + [str(c.value).strip()]
        elif not (c.keyword in SKIP or c.keyword.startswith("NAXIS")):
            v = c.value
            d[c.keyword] = v.strip() if isinstance(v, str) else float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else str(v)
    return sorted((k, str(v)) for k, v in d.items())


def generic(o):
    kg = o.ext_hdr.get("DATATYPE") == "KGain"
    ext = [(h.name, arr(h.data)) for h in o.hdu_list if h.data is not None]
    if kg:
        ext = [("PTC", arr(o.ptc))] if hasattr(o, "ptc") else [x for x in ext if x[0] == "PTC"]
    t = corgidrp.track_individual_errors
    parts = [arr(o.data), arr(np.squeeze(o.err)), None if kg else arr(o.dq, int), hdr(o.pri_hdr, ORIGIN="DRP"),
             hdr(o.ext_hdr, DESMEAR="False", CTI_CORR="False", IS_BAD="False"), hdr(o.err_hdr, TRK_ERRS=str(t)), None if kg else hdr(o.dq_hdr), ext]
    return parts


def full(o):
    kind = type(o).__name__
    return repr([kind] + [(a, plain(getattr(o, a, None))) for a in ATTR.get(kind, [])])


def make(kind, n, r, layers):
    v = n + r.random()
    p = {"OBSNUM": r.randint(0, 9), "PKEY": r.choice([1.25, "text", True, "it's", "x" * 90, -3, 1e-30])}
    e = {"EKEY": r.choice([0.1, "value with  spaces", False, 12345678901, -2.5e17]), "UNIQ": v, "EXPTIME": r.choice([.1, 1., 60.]),
         "SCTSRT": mk.isot(r.randint(0, 9)), "RN": 10.0}
    if kind in ("Image", "Cube"):
        shp = (r.randint(1, 4), r.randint(1, 4)) if kind == "Image" else (r.randint(1, 3), 2, r.randint(1, 3))
        dt = r.choice([np.uint8, np.uint16, np.int64])
        a = np.array([r.choice([v, np.nan, -1.5, np.inf, 0., 1e30]) for _ in range(int(np.prod(shp)))]).reshape(shp)
        a.flat[0] = v
        err = np.abs(np.array([r.choice([v, np.nan, 0., 2.5]) for _ in range(layers * a.size)])).reshape((layers,) + shp)
        dq = np.array([r.choice([0, 1, 4, 128, 255, 300 if dt != np.uint8 else 254]) for _ in range(a.size)]).reshape(shp).astype(dt)
        hl = None
        if r.random() < .4:
            hl = [fits.ImageHDU(data=np.arange(r.randint(1, 5)) + v, name=nm) for nm in r.sample(["BIAS", "KL_THRU", "EXTRA"], r.randint(1, 2))]
        eh, dh = fits.Header(), fits.Header()
        eh["ERRKEY"], dh["DQKEY"] = v, "dq%d" % n
        for k in range(2, layers + 1):
            eh["Layer_%d" % k] = "term%d" % k
        im = data.Image(a, pri_hdr=mk.pri(**p), ext_hdr=mk.ext(**e), err=err, dq=dq, err_hdr=eh, dq_hdr=dh, input_hdulist=hl)
        if hl is None and r.random() < .3:
            im.add_extension_hdu("ADDED", data=np.array([v, 2.]))
        if r.random() < .5:
            im.add_error_term(np.full(shp, .5), "more")
        im.ext_hdr["HISTORY"] = "history of %d" % n
        return im
    kw = {}
    if kind == "Dark":
        shp = (r.randint(2, 4), r.randint(2, 4))
        kw = dict(arr=np.full(shp, v), err=np.full((layers,) + shp, .5), dq=np.array([r.choice([0, 1, 8, 255]) for _ in range(shp[0] * shp[1])], dtype=np.uint16).reshape(shp))
    elif kind == "NonLinearityCalibration":
        kw = dict(arr=np.array([[np.nan, 1., 10.], [1., .5, v], [100., 1.5, 1.5]]))
    elif kind == "KGain":
        kw = dict(ptc=np.array([[1., v], [3., 4.], [5., 6.]][:r.randint(1, 3)]))
    elif kind == "BadPixelMap":
        kw = dict(arr=np.array([[r.choice([0, 4, 8, 12, 255]) for _ in range(3)] for _ in range(2)], dtype=np.uint8))
    elif kind == "DetectorNoiseMaps":
        kw = dict(dq=np.array([r.choice([0, 4, 128]) for _ in range(12)], dtype=np.uint16).reshape(3, 2, 2), err=np.full((1, 3, 2, 2), r.random()))
    elif kind == "DetectorParams":
        kw = dict(params={k: r.random() for k in r.sample(["KGAINPAR", "FWC_PP_E", "FWC_EM_E", "ROWREADT", "GAINMAX", "TFACTOR"], r.randint(0, 4))})
    elif kind == "CoreThroughputCalibration":
        kw = dict(ct=np.array([[1., v], [3., 4.], [.5, .25]]))
    elif kind == "NDFilterSweetSpotDataset":
        kw = dict(arr=np.array([[1., v, 3.], [2., 4., 5.], [7., 8., 9.]][:r.randint(1, 3)]))
    elif kind == "FluxcalFactor":
        e.update(FPAMNAME=r.choice(["HOLE", "ND225"]), CFAMNAME=r.choice(["1F", "3C"]))
    o = mk.product(kind, p=p, e=e, val=v, **kw)
    if kind == "DetectorNoiseMaps":
        o.ext_hdr["B_O"] = o.bias_offset = v
    return o


def edit(o, n, r):
    """Change the object's content somewhere; parts that have derived attributes only in the header."""
    kind = type(o).__name__
    w = r.choice(["pri", "ext"] + (["data", "dq", "err", "errh", "dqh"] if kind in ("Image", "Dark", "FlatField") and o.ext_hdr.get("DATATYPE") in (None, "Dark", "FlatField") else []))
    if w == "data":
        o.data.flat[-1] = n + .25
    elif w == "err":
        o.err.flat[-1] = n + .125
    elif w == "dq":
        o.dq.flat[0] = (n * 7 + 1) % 251
        o.dq_hdr["DQEDIT"] = n
    else:
        {"pri": o.pri_hdr, "ext": o.ext_hdr, "errh": o.err_hdr, "dqh": o.dq_hdr}[w]["EDITED"] = n


def job(n, hist):
    r = vf.rng("products", n)
    d = vf.scratch("pr")
    for s in "pqr":
        os.makedirs(os.path.join(d, "d" + s))
    old = corgidrp.track_individual_errors
    corgidrp.track_individual_errors = r.random() < .5
    layers = r.randint(1, 3) if corgidrp.track_individual_errors else 1
    objs, cids, fulls, evs = [], {}, {}, []
    for k, h in enumerate(hist, 1):
        ev = dict(h, n=k, exc="", full=True, place=True, kind="", all=[])
        try:
            if h["op"] == "new":
                objs.append(make(h["k"], k, r, 1 if h["k"] in ("DetectorNoiseMaps",) else layers))
                cids.setdefault(repr(generic(objs[-1])), k)
                fulls.setdefault(repr(generic(objs[-1])), full(objs[-1]))
            elif h["op"] == "edit":
                o = objs[h["x"] - 1]
                edit(o, k, r)
                cids.setdefault(repr(generic(o)), k)
                fulls.setdefault(repr(generic(o)), full(o))
            elif h["op"] == "copy":
                objs.append(objs[h["x"] - 1].copy())
            else:
                fd, fn = os.path.join(d, "d" + h["p"]), h["p"] + ".fits"
                path = os.path.join(fd, fn)
                if h["op"] == "save":
                    o = objs[h["x"] - 1]
                    w = r.randint(0, 3)
                    if w == 0:
                        o.save(filedir=fd, filename=fn)
                    elif w == 1:
                        o.filedir, o.filename = fd, fn
                        o.save()
                    elif w == 2:
                        o.filename = fn
                        o.save(filedir=fd)
                    elif type(o) is data.Image:
                        data.Dataset([o]).save(filedir=fd, filenames=[fn])
                    else:
                        o.save(filedir=fd, filename=fn)
                    ev["place"] = o.filename == fn and o.filedir == fd and o.filepath == path
                else:
                    if h["op"] == "auto":
                        o = data.autoload(path)
                    elif h["c"] == "Image" and r.random() < .4:
                        o = data.Dataset([path])[0]
                    else:
                        o = getattr(data, h["c"])(path)
                    ev["kind"] = type(o).__name__
                    ev["place"] = o.filename == fn and o.filedir == fd and o.filepath == path
                    g = repr(generic(o))
                    ev["full"] = ev["kind"] == "Image" or fulls.get(g) == full(o)
                    objs.append(o)
        except Exception as e:
            ev["exc"] = vf.excname(e) + ": " + str(e)[:200]
        ev["all"] = [cids.get(repr(generic(o)), 0) for o in objs]
        evs.append(ev)
    corgidrp.track_individual_errors = old
    return {"meta": {"n": n}, "ev": evs}


LV = ["_L1_", "_L2a", "_L2b", "_L3_", "_L4_"]


def book_job(n, kinds):
    evs = []
    for k in kinds:
        r = vf.rng("book", n, len(evs), k)
        inp = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            i = r.randint(0, 30)
            inp.append({"stem": "CGI_02000010010010010%02d_20240705T000%04d" % (i, i), "lvl": r.choice(LV), "sfx": r.choice(["", "", "", "_x"]),
                        "parents": sorted({"CGI_parent%d_L1_.fits" % r.randint(0, 5) for _ in range(r.choice([0, 0, 1, 3]))})})
        if inp:
            f = inp[-1]
            f["sfx"] = ""
            if k == "BadPixelMap" and r.random() < .4:
                f.update(lvl="", sfx="_FLT_CAL")
            if k == "Dark" and r.random() < .4:
                f.update(lvl="", sfx="_DNM_CAL")
        frames = []
        for f in inp:
            im = mk.image(np.zeros((2, 2)), name=f["stem"] + f["lvl"] + f["sfx"] + ".fits")
            if f["parents"]:
                im.ext_hdr["DRPNFILE"] = len(f["parents"])
                for j, p in enumerate(f["parents"]):
                    im.ext_hdr["FILE%d" % j] = p
            frames.append(im)
        has = r.random() < .35
        old = ["CGI_old%d_L2a.fits" % r.randint(0, 9) for _ in range(r.randint(1, 6))]
        old = sorted(set(old))
        ev = {"op": "book", "k": k, "inputs": inp, "has": has, "old": old, "exc": "", "type": "", "lvl": "", "count": 0, "files": [], "name": ""}
        e = {"DATALVL": r.choice(["L1", "L2a", "L2b"])}
        if has:
            e["DRPNFILE"] = len(old)
            e.update({"FILE%d" % j: p for j, p in enumerate(old)})
        try:
            if k in ("DetectorParams", "FpamFsamCal"):
                o = data.DetectorParams({}) if k == "DetectorParams" else data.FpamFsamCal([] if r.random() < .5 else np.ones((2, 2, 2)))
                ev["has"] = False
            else:
                o = mk.product(k, e=e, ds=data.Dataset(frames) if frames else "none")
            ev.update(type=str(o.ext_hdr["DATATYPE"]), lvl=str(o.ext_hdr["DATALVL"]), name=o.filename)
            nf = int(o.ext_hdr.get("DRPNFILE", 0))
            ev.update(count=nf, files=[o.ext_hdr["FILE%d" % j] for j in range(nf)])
        except Exception as x:
            ev["exc"] = vf.excname(x)
        evs.append(ev)
    return {"meta": {"n": n, "book": True}, "ev": evs}


def check(prop, tier):
    deep = tier == "thorough"
    mc = vf.model_check("MCProducts", "MCProductsDeep" if deep else "MCProducts")
    runs = [mc]
    if prop == "M03":
        gen, g = vf.generate("GenProducts", num=700 if deep else 70, depth=18)
        runs.append(g)
        gen = vf.rng("products").sample(gen, min(len(gen), 5000 if deep else 420))
        # every ordered pair of kinds: a file of one loaded through the class of the other
        ks = mk.KINDS + ["Image", "Cube"]
        gen += [[{"op": "new", "k": k}, {"op": "save", "x": 1, "p": "p"}] + [{"op": "load", "p": "p", "c": c} for c in mk.KINDS if c != k]
                + ([{"op": "load", "p": "p", "c": k}] if k in mk.KINDS else []) + [{"op": "load", "p": "p", "c": "Image"}, {"op": "auto", "p": "p"}] for k in ks]
        traces = vf.pmap(job, list(enumerate(gen)))
    else:
        ks = [k for k in mk.KINDS for _ in range(400 if deep else 60)]
        traces = [t for t in vf.pmap(book_job, [(i, [k] * 20) for i, k in enumerate(ks[::20])])]
    bad, val = vf.validate("ProductTrace", traces)
    return vf.report(traces, bad, runs + [val], site=lambda t, e: str(e.get("k", e.get("c", ""))), describe=lambda t, e: json.dumps(e)[:700],
                     extra={"events": sum(len(t["ev"]) for t in traces)})
