"""K10: flux conversion, photometry, band integrals, calibration factors and neutral density against FluxOps.tla."""
import contextlib
import io
import math
import os
import shutil
import urllib.request
import warnings
import numpy as np
from astropy.io import fits
import vf, mk, snap

SEDS = {}          # prefix of the catalogue file -> (wavelength, flux)


def retrieve(url, filename=None, *a, **kw):
    """Stand-in for the download of a catalogue spectrum."""
    base = url.rsplit("/", 1)[-1]
    hit = [k for k in SEDS if base.startswith(k)]
    if not hit:
        raise OSError("no such file %s" % base)
    spectrum(filename, *SEDS[hit[0]])
    return filename, None


urllib.request.urlretrieve = retrieve
import corgidrp
import corgidrp.data as data
import corgidrp.fluxcal as fluxcal
import corgidrp.l4_to_tda as tda
import corgidrp.nd_filter_calibration as ndc
if hasattr(fluxcal, "urlretrieve"):
    fluxcal.urlretrieve = retrieve

PREFIX = {"Vega": "alpha_lyr", "TYC 4433-1800-1": "1808347", "109 Vir": "109vir", "UCAC3 313-62260": "kf08t3", "TYC 4205-1677-1": "1812095", "Eta Uma": "etauma", "Lam Lep": "lamlep"}
WAVE = np.arange(3000., 12001., 10.)
CURVES = os.path.join(os.path.dirname(fluxcal.__file__), "data", "filter_curves")


def spectrum(path, w, f):
    fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns([fits.Column("WAVELENGTH", "D", array=w), fits.Column("FLUX", "D", array=f)])]).writeto(path, overwrite=True)
    return path


def seds(d):
    """d: star -> flux on WAVE (a number: flat)"""
    SEDS.clear()
    for k, v in d.items():
        SEDS[PREFIX[k]] = (WAVE, np.broadcast_to(np.asarray(v, dtype=float), WAVE.shape).copy())


def curve_of(name):
    """wavelength in Angstrom and transmission of a shipped filter, read here independently"""
    f = [x for x in os.listdir(CURVES) if x.endswith(".csv") and ("_" + name + "_") in x][0]
    rows = [l.split(",") for l in open(os.path.join(CURVES, f)) if l[:1].isdigit()]
    return np.array([10 * float(r[0]) for r in rows]), np.array([float(r[1]) / 100 for r in rows])


def simpson(y, x):
    """composite Simpson rule on an arbitrary grid (piecewise parabolas; an odd interval at the end by the last parabola)"""
    tot, n = 0., len(x)
    for i in range(0, n - 2, 2):
        tot += parabola(x[i:i + 3], y[i:i + 3], x[i], x[i + 2])
    if n % 2 == 0:
        tot += parabola(x[-3:], y[-3:], x[-2], x[-1])
    return tot


def parabola(x, y, a, b):
    c = np.polyfit(x - x[1], y, 2)
    p = np.polyint(c)
    return np.polyval(p, b - x[1]) - np.polyval(p, a - x[1])


def near(v, s=1):
    try:
        v = float(v)
    except Exception:
        return vf.NAN
    return vf.NAN if not np.isfinite(v) else int(round(min(max(v * s, -10 ** 9), 10 ** 9)))


def run(ev, f):
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter("ignore")
            return f()
    except Exception as ex:
        ev["exc"] = vf.excname(ex)
        ev["why"] = str(ex)[:300]
    return None


@contextlib.contextmanager
def home():
    """a scratch place for whatever gets downloaded"""
    d = vf.scratch("flux")
    old = corgidrp.config_filepath
    corgidrp.config_filepath = os.path.join(d, "corgidrp.cfg")
    try:
        yield d
    finally:
        corgidrp.config_filepath = old
        shutil.rmtree(d, ignore_errors=True)


def factor(val, err, **e):
    h = {"FPAMNAME": "HOLE", "FSAMNAME": "OPEN", "CFAMNAME": "1F", "BUNIT": "erg/(s * cm^2 * AA)/(electron/s)"}
    h.update(e)
    return data.FluxcalFactor(np.array([[val]]), err=np.array([[[err]]]), pri_hdr=mk.pri(), ext_hdr=mk.ext(**h), err_hdr=fits.Header(), input_dataset=mk.inputs())


def conv(c):
    w, h = c["w"], c["h"]
    r = vf.rng("conv", c["seed"])
    old = corgidrp.track_individual_errors
    corgidrp.track_individual_errors = c["track"]
    try:
        fr = []
        for k in range(c["n"]):
            px = np.array([c["vals"][(i + 2 * k) % 9] for i in range(w * h)], dtype=float).reshape(h, w)
            er = np.array([c["errs"][(i + 4 * k) % 9] for i in range(w * h)], dtype=float).reshape(1, h, w)
            for _ in range(c["nan"]):
                px.flat[r.randrange(px.size)] = np.nan
            dq = np.array([r.choice([0, 0, 4, 128]) for _ in range(w * h)], dtype=np.uint16).reshape(h, w)
            e = {"CFAMNAME": "1F", "BUNIT": "photoelectron/s"}
            if c["cc"]:
                e["COL_COR"] = c["cc"] / 4.
            fr.append(mk.image(px, err=er, dq=dq, name=mk.fname(k, "L4"), e=e))
        ds = data.Dataset(fr)
        cal = factor(c["fn"] / 8., c["en"] / 8.)
        before = (snap.dataset(ds), snap.frame(cal))
        ev = {"op": "conv", "fn": c["fn"], "en": c["en"], "cc": c["cc"], "track": c["track"], "px": [vf.q(v) for f in ds for v in f.data.ravel()], "er": [vf.q(v) for f in ds for v in f.err[0].ravel()],
              "out": [], "var": [], "layers": 0, "layersin": len(ds[0].err), "unit": "", "fac": 0, "kept": True, "dqkept": True, "exc": ""}
        o = run(ev, lambda: tda.convert_to_flux(ds, cal))
        if o is not None:
            ev["out"] = [vf.q(v, 64) for f in o for v in f.data.ravel()]
            ev["var"] = [near(v * v, 4096) for f in o for v in f.err[0].ravel()]
            ev["layers"] = min(len(f.err) for f in o)
            ev["unit"] = ",".join(sorted(set(f.ext_hdr["BUNIT"] for f in o)))
            ev["fac"] = near(o[0].ext_hdr["FLUXFAC"], 8)
            ev["dqkept"] = all(np.array_equal(a.dq, b.dq) for a, b in zip(o, ds))
        ev["kept"] = before == (snap.dataset(ds), snap.frame(cal))
        return ev
    finally:
        corgidrp.track_individual_errors = old


def scene(st, b, seed, x, y, far=False, scale=1, look=None):
    """A star whose surroundings are point symmetric (so that its centroid is exactly x, y), a flat background b from 5.5 pixels on."""
    r, v = vf.rng("scene", seed), vf.rng("look", seed if look is None else look)
    w, h = st["w"], st["h"]
    x, y = min(max(x, 5), w - 6), min(max(y, 5), h - 6)
    px = np.full((h, w), float(b))
    er = np.zeros((1, h, w))
    dq = np.zeros((h, w), dtype=np.uint16)
    thick = st["flags"] == 3          # most of the ring for the background is flagged, the star reaches all the way to it
    for dy in range(-5, 6):
        for dx in range(-5, 6):
            if (dy, dx) > (0, 0) and dx * dx + dy * dy < 30:
                px[y + dy, x + dx] = px[y - dy, x - dx] = b + scale * v.randint(1 if thick and dx * dx + dy * dy > 12 else 0, st["vals"])
            if dx * dx + dy * dy < 36:
                er[0, y + dy, x + dx] = r.randint(0, st["errs"]) if st["errs"] else 0
    px[y, x] = b + scale * st["peak"]
    for _ in range(st["flags"]):
        dx, dy = r.randint(-4, 4), r.randint(-4, 4)
        if (dx, dy) != (0, 0):
            dq[y + dy, x + dx] = r.choice([1, 4, 32, 128])
    out = [(j, i) for j in range(h) for i in range(w) if max(abs(j - y), abs(i - x)) > 5]
    for _ in range(st["flags"]):
        j, i = r.choice(out)
        px[j, i] = b + r.randint(0, st["peak"] - 1)
        dq[j, i] = r.choice([4, 64])
    for j, i in out if thick else []:
        if (j - y) ** 2 + (i - x) ** 2 < 58 and r.random() < .85:
            px[j, i], dq[j, i] = b + 6, 4
    if far:
        o = [q for q in out if (q[0] - y) ** 2 + (q[1] - x) ** 2 > 64]
        if o:
            px[r.choice(o)] = b + scale * st["peak"] + 50
    return px, er, dq, x, y


def frames(c, ph, n, e, prim):
    fr, sp = [], []
    st = c["st"]
    for k in range(n):
        s = c["shift"][k] if "shift" in c else {"dx": 0, "dy": 0}
        px, er, dq, x, y = scene(dict(st, peak=st["peak"] + 11 * k * k), ph["b"], c["seed"] if c["kind"] == "flux" else c["seed"] + 7 * k, st["x"] + s["dx"], st["y"] + s["dy"], far=ph["center"] == "guess" and not ph["dflt"], look=c["seed"] + k)
        eh, p = dict(e), dict(prim)
        if ph["center"] == "wcs" and not ph["dflt"]:
            p.update(RA=120.25, DEC=-30.5)
            eh.update(CRVAL1=120.25, CRVAL2=-30.5, CRPIX1=float(x), CRPIX2=float(y), CDELT1=-6e-6, CDELT2=6e-6, CTYPE1="RA---TAN", CTYPE2="DEC--TAN")
        im = mk.image(px, err=er, dq=dq, name=mk.fname(k, "L4"), p=p, e=eh)
        fr.append(im)
        sp.append({"w": st["w"], "h": st["h"], "px": [int(v) for v in px.ravel()], "er": [int(v) for v in er.ravel()], "dq": [int(v) for v in dq.ravel()], "pos": {"x": x, "y": y}})
    return fr, sp


def settings(ph, sp):
    if ph["dflt"]:
        return None
    k = {"encircled_radius": ph["r2"] / 2., "frac_enc_energy": 1. / ph["k"], "background_sub": ph["sub"], "r_in": 5.5, "r_out": 7.5, "centering_method": "wcs" if ph["center"] == "wcs" else "xy", "centroid_roi_radius": 5}
    k.update({"method": "center"} if ph["s"] == 1 else {"method": "subpixel", "subpixels": ph["s"]})
    if ph["center"] == "guess":
        k["centering_initial_guess"] = (sp[0]["pos"]["x"] + .3, sp[0]["pos"]["y"] - .2)
    return k


def plain(ph):
    return dict(ph, r2=10, s=5, k=1, sub=False, center="xy") if ph["dflt"] else ph


def flux(c):
    ph = plain(c["ph"])
    if ph["center"] == "guess":           # one guess for all frames
        c = dict(c, shift=[{"dx": 0, "dy": 0}] * c["n"])
    e = {"CFAMNAME": "1F", "BUNIT": "photoelectron/s"}
    if c["cc"]:
        e["COL_COR"] = c["cc"] / 4.
    with home():
        seds({"Vega": c["vega"]})
        fr, sp = frames(c, dict(c["ph"], b=ph["b"]), c["n"], e, {"TARGET": "109 Vir"})
        ds = data.Dataset(fr)
        cal = factor(c["fn"] / 8., c["en"] / 8.)
        before = (snap.dataset(ds), snap.frame(cal))
        ev = {"op": "flux", "ph": ph, "fr": sp, "fn": c["fn"], "en": c["en"], "cc": c["cc"], "vega": c["vega"], "flux": vf.NAN, "err2": vf.NAN, "fluxerr": vf.NAN, "back": 0, "mag": vf.NAN, "magerr": vf.NAN, "same": True, "kept": True, "exc": ""}
        kw = settings(c["ph"], sp)
        o = run(ev, lambda: tda.determine_flux(ds, cal, **({} if kw is None else {"phot_kwargs": kw})))
        if o is not None:
            hd = [f.ext_hdr for f in o]
            ev["flux"], ev["err2"], ev["fluxerr"] = near(hd[-1]["FLUX"], 1000), near(hd[-1]["FLUXERR"] ** 2, 16), near(hd[-1]["FLUXERR"], 1000)
            ev["back"], ev["mag"], ev["magerr"] = near(hd[-1]["LOCBACK"]), near(10 ** (-.4 * hd[-1]["APP_MAG"]), 1000), near(hd[-1]["MAGERR"], 1000)
            ev["same"] = all(np.array_equal(a.data, b.data) and np.array_equal(a.err, b.err) and np.array_equal(a.dq, b.dq) for a, b in zip(o, ds)) and all(x["FLUX"] == hd[0]["FLUX"] and x["FLUXFAC"] == c["fn"] / 8. for x in hd)
        ev["kept"] = before == (snap.dataset(ds), snap.frame(cal))
    return ev


def blob(w, x, y, total, fwhm):
    """a pixel-integrated round Gaussian"""
    s = fwhm / 2.3548200450309493 * math.sqrt(2)
    gx = [(math.erf((i - x + .5) / s) - math.erf((i - x - .5) / s)) / 2 for i in range(w)]
    gy = [(math.erf((i - y + .5) / s) - math.erf((i - y - .5) / s)) / 2 for i in range(w)]
    return total * np.outer(gy, gx)


def gauss(c):
    w, x, y, fw = c["w"], c["x"] / 4., c["y"] / 4., c["fw"] / 10.
    x, y = min(x, w - 7.), min(y, w - 7.)
    r = vf.rng("gauss", c["seed"])
    total = c["amp"] * 10
    fr = []
    for k in range(c["n"]):
        px = blob(w, x, y, total, fw) + c["b"]
        dq = np.zeros((w, w), dtype=np.uint16)
        for _ in range(c["flags"]):
            i, j = r.randrange(w), r.randrange(w)
            if max(abs(i - x), abs(j - y)) > 6:
                px[j, i], dq[j, i] = px.max() * .9, 4
        e = {"CFAMNAME": "1F", "FPAMNAME": "HOLE", "BUNIT": "photoelectron/s"}
        if c["cc"]:
            e["COL_COR"] = c["cc"] / 4.
        fr.append(mk.image(px, err=np.full((1, w, w), float(r.choice([0, 1]))), dq=dq, name=mk.fname(k, "L4"), p={"TARGET": "109 Vir"}, e=e))
    with home():
        seds({"Vega": 1.})
        ds = data.Dataset(fr)
        cal = factor(c["fn"] / 8., .125)
        before = (snap.dataset(ds), snap.frame(cal))
        ev = {"op": "gauss", "total": total, "fn": c["fn"], "cc": c["cc"], "flux": vf.NAN, "fac": vf.NAN, "back": 0, "b": c["b"], "kept": True, "exc": ""}
        kw = {"fwhm": fw, "fit_shape": 13, "background_sub": c["b"] > 0, "r_in": 7, "r_out": 9, "centroid_roi_radius": 6}
        o = run(ev, lambda: tda.determine_flux(ds, cal, photo="2dgauss", phot_kwargs=kw))
        seds({"Vega": 1., "109 Vir": 5.})
        g = run(ev, lambda: fluxcal.calibrate_fluxcal_gauss2d(ds, "flux", kw))
        if o is not None and g is not None:
            ev["flux"], ev["back"] = near(o[0].ext_hdr["FLUX"]), near(o[0].ext_hdr["LOCBACK"])
            ev["fac"] = near(g.fluxcal_fac * total / 5., 1000)
        ev["kept"] = before == (snap.dataset(ds), snap.frame(cal))
    return ev


def fcal(c):
    ph = plain(c["ph"])
    with home():
        seds({k: c["sed"] if k == c["star"] else 1. for k in PREFIX})
        fr, sp = frames(c, dict(c["ph"], b=ph["b"]), c["n"], {"CFAMNAME": c["filter"], "FPAMNAME": c["fpam"], "FSAMNAME": "OPEN", "BUNIT": "photoelectron/s"}, {"TARGET": c["star"]})
        thing = data.Dataset(fr) if c["set"] else fr[0]
        before = snap.dataset(thing) if c["set"] else snap.frame(thing)
        ev = {"op": "fcal", "ph": ph, "fr": sp[:1], "how": c["how"], "star": c["star"], "sed": c["sed"], "filter": c["filter"], "fpam": c["fpam"], "fac": vf.NAN, "rel": vf.NAN, "ofilter": "", "ond": "", "unit": "", "back": 0, "kept": True, "exc": ""}
        kw = settings(c["ph"], sp)
        o = run(ev, lambda: fluxcal.calibrate_fluxcal_aper(thing, c["how"], kw))
        if o is not None:
            i = 1.
            if c["how"] == "irr":
                wv, tr = curve_of(c["filter"])
                i = simpson(tr, wv)
            ev["fac"], ev["rel"] = near(o.fluxcal_fac / i, 1000), near(o.fluxcal_err / o.fluxcal_fac, 1000)
            ev["ofilter"], ev["ond"], ev["unit"], ev["back"] = str(o.filter), str(o.nd_filter), str(o.ext_hdr["BUNIT"]), near(o.ext_hdr.get("LOCBACK", 0))
        ev["kept"] = before == (snap.dataset(thing) if c["set"] else snap.frame(thing))
    return ev


def band(c):
    n = len(c["tr"])
    l = c["l0"] + c["dl"] * np.arange(n, dtype=float)
    tr, f, g = (np.array(c[k], dtype=float) for k in ("tr", "f", "g"))
    ev = {"op": "band", "l0": c["l0"], "dl": c["dl"], "tr": c["tr"], "f": c["f"], "g": c["g"], "k": c["k"], "band": 0, "eff": 0, "piv": 0, "irr": 0, "color": 0, "exc": ""}

    def go():
        ev["band"] = near(fluxcal.calculate_band_flux(tr, f, l), 1000)
        ev["eff"] = near(fluxcal.calculate_effective_lambda(tr, f, l), 1000)
        ev["piv"] = near(fluxcal.calculate_pivot_lambda(tr, l) ** 2, 10)
        ev["irr"] = near(fluxcal.calculate_band_irradiance(tr, f, l), 1000)
        ev["color"] = near(fluxcal.compute_color_cor(tr, l, g, l[c["k"] - 1], f), 100)
    run(ev, go)
    return ev


def curve(c):
    with home() as d:
        p = os.path.join(d, "filter.csv")
        with open(p, "w") as f:
            f.write("# one\n# two\n#three\nlambda_nm,%T\n" + "".join("%d,%d\n" % (c["w0"] + i, v) for i, v in enumerate(c["tr"])))
        x, pts = 10 * c["w0"] + c["start"], []
        for q in c["pts"]:
            pts.append({"x": x, "v": q["v"]})
            x += q["gap"]
        s = spectrum(os.path.join(d, "s.fits"), np.array([q["x"] for q in pts], dtype=float), np.array([q["v"] for q in pts], dtype=float))
        ev = {"op": "curve", "n": c["n"], "w0": c["w0"], "tr": c["tr"], "pts": pts, "wave": [], "trans": [], "spec": [], "exc": ""}

        def go():
            wv, t = fluxcal.read_filter_curve(p)
            ev["wave"], ev["trans"] = [vf.q(v) for v in wv], [near(v, 100) for v in t]
            if sum(1 for q in pts if wv[0] <= q["x"] <= wv[-1]) > 1:
                ev["spec"] = [near(v, 1000) for v in fluxcal.read_cal_spec(s, wv)]
        run(ev, go)
    return ev


SHAPES = [np.ones(len(WAVE)), 1 + WAVE / 3000., (WAVE / 5000.) ** -2, 2 + np.sin(WAVE / 400.)]


def mag(c):
    single = c["single"]
    n = 1 if single else c["n"]
    sh = SHAPES[c["shape"]]
    with home() as d:
        seds({"Vega": c["vega"] * sh, "109 Vir": c["src"] / 4. * sh})
        fr = []
        for k in range(n):
            odd = c["odd"] if k == c["i"] % n else ""
            fr.append(mk.image(np.arange(4.).reshape(2, 2), name=mk.fname(k, "L4"), p={"TARGET": "Other" if odd == "target" else "109 Vir"}, e={"CFAMNAME": "3C" if odd == "filter" else c["filter"]}))
        thing = fr[0] if single else data.Dataset(fr)
        before = snap.frame(thing) if single else snap.dataset(thing)
        star = spectrum(os.path.join(d, "mine.fits"), *SEDS["109vir"]) if c["file"] else "Nobody" if c["odd"] == "star" else "109 Vir"
        ev = {"op": "mag", "n": n, "single": single, "odd": c["odd"], "vega": c["vega"], "src": c["src"], "sf": c["sf"], "file": c["file"], "mags": [], "zero": [], "same": True, "kept": True, "exc": ""}
        o = run(ev, lambda: tda.determine_app_mag(thing, star, **({} if c["sf"] == 1 else {"scale_factor": float(c["sf"])})))
        if o is not None:
            ev["mags"] = [near(10 ** (-.4 * f.ext_hdr["APP_MAG"]), 1000) for f in o]
            ev["same"] = all(np.array_equal(a.data, b.data) and np.array_equal(a.dq, b.dq) for a, b in zip(o, fr))
        ev["kept"] = before == (snap.frame(thing) if single else snap.dataset(thing))
    return ev


def zero(c):
    """the zero point of a star image"""
    st, ph = c["st"], plain(c["ph"])
    with home():
        seds({"Vega": c["vega"], "109 Vir": c["src"] / 4.})
        fr, sp = frames(c, dict(c["ph"], b=ph["b"], center="xy"), 1, {"CFAMNAME": "1F"}, {"TARGET": "109 Vir"})
        before = snap.frame(fr[0])
        ph = dict(ph, sub=False, center="xy")
        ev = {"op": "zero", "ph": ph, "fr": sp, "vega": c["vega"], "src": c["src"], "zp": vf.NAN, "kept": True, "exc": ""}
        kw = {"frac_enc_energy": 1. / ph["k"], "method": "subpixel", "subpixels": ph["s"], "centroid_roi_radius": 5}
        o = run(ev, lambda: tda.calculate_zero_point(fr[0], "109 Vir", ph["r2"] / 2., None if c["ph"]["dflt"] else kw))
        if o is not None:
            ev["zp"] = near(10 ** (-.4 * o), 1e6) if np.ndim(o) == 0 else vf.NAN
        ev["kept"] = before == snap.frame(fr[0])
    return ev


def color(c):
    wv, tr = curve_of(c["filter"])

    def sed(k, s, w):
        return s * (1 + k * (w - 3000.) / 3000.)
    with home():
        seds({"Vega": sed(c["a"], c["sa"], WAVE), "109 Vir": sed(c["b"], c["sb"], WAVE)})
        ds = data.Dataset([mk.image(np.arange(4.).reshape(2, 2), name=mk.fname(k, "L4"), p={"TARGET": "109 Vir"}, e={"CFAMNAME": c["filter"]}) for k in range(c["n"])])
        before = snap.dataset(ds)
        ref, src = sed(c["a"], c["sa"], wv), sed(c["b"], c["sb"], wv)
        lam = math.sqrt(simpson(tr * wv, wv) / simpson(tr / wv, wv))
        k = simpson(tr * wv * src, wv) / sed(c["b"], c["sb"], lam) / (simpson(tr * wv * ref, wv) / sed(c["a"], c["sa"], lam))
        ev = {"op": "color", "a": c["a"], "b": c["b"], "wantlam": near(lam), "wantk": near(k, 10000), "lam": [], "k": [], "same": True, "kept": True, "exc": ""}
        o = run(ev, lambda: tda.determine_color_cor(ds, "Vega", "109 Vir"))
        if o is not None:
            ev["lam"], ev["k"] = [near(f.ext_hdr["LAM_REF"]) for f in o], [near(f.ext_hdr["COL_COR"], 10000) for f in o]
            ev["same"] = all(np.array_equal(a.data, b.data) for a, b in zip(o, ds))
        ev["kept"] = before == snap.dataset(ds)
    return ev


def plane(c):
    r = vf.rng("plane", c["seed"])
    m, pts, rows = c["m"], [], []
    for i in range(c["nx"]):
        for j in range(c["ny"]):
            x, y = c["x0"] + i * c["step"], c["y0"] + j * c["step"]
            v = 4 * (m["a"] + m["b"] * x + m["c"] * y) + (r.randint(-c["bumps"], c["bumps"]) if c["bumps"] else 0)
            pts.append({"x": 4 * x, "y": 4 * y, "v": v})
    r.shuffle(pts)
    arr = np.array([[p["v"] / 64., p["x"] / 4., p["y"] / 4.] for p in pts])
    star = {"x": r.randint(5, 12), "y": r.randint(5, 12)}
    px, _, _, star["x"], star["y"] = scene({"w": 18, "h": 18, "vals": 5, "errs": 0, "peak": 30, "flags": 0}, 1, c["seed"], star["x"], star["y"])
    with home() as d:
        nd = mk.product("NDFilterSweetSpotDataset", arr=arr, e={"FPAM_H": 50., "FPAM_V": 60.})
        clean = mk.image(px, e={"FPAM_H": 50. + c["dh"] / 4., "FPAM_V": 60. + c["dv"] / 4.})
        mat = os.path.join(d, "m.fits")
        a = np.array(c["mat"], dtype=float)
        (fits.HDUList([fits.PrimaryHDU(a)]) if c["seed"] % 2 else fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(a)])).writeto(mat)
        qs = c["qs"]
        before = (snap.frame(nd), snap.frame(clean))
        ev = {"op": "plane", "pts": pts, "step": c["step"], "m": m, "bumps": c["bumps"], "qs": qs, "mat": c["mat"], "dh": c["dh"], "dv": c["dv"], "star": star, "own": [], "free": [], "many": [], "moved": vf.NAN, "kept": True, "exc": ""}

        def go():
            for q in qs:
                ev["own"].append(near(nd.interpolate_od(q["x"] / 4., q["y"] / 4.), 64))
                ev["free"].append(near(ndc.interpolate_od(nd.data, q["x"] / 4., q["y"] / 4.), 64))
            ev["many"] = [near(v, 64) for v in ndc.interpolate_od(nd.data, np.array([q["x"] / 4. for q in qs]), np.array([q["y"] / 4. for q in qs]))]
            ev["moved"] = near(ndc.calculate_od_at_new_location(clean, mat, nd), 64)
        run(ev, go)
        ev["kept"] = before == (snap.frame(nd), snap.frame(clean))
    return ev


NAMES = ["109 Vir", "Eta Uma", "Lam Lep", "TYC 4205-1677-1", "UCAC3 313-62260"]


def ndcal(c):
    nb = len(c["bright"])
    wrong = c["wrong"] if nb > 1 else ""
    with home():
        seds(dict({n: float(v) for n, v in zip(NAMES, c["sed"])}, Vega=1.))
        looks, fr, spec = {}, [], {"b": [], "d": []}
        for k, b in enumerate(c["bright"] + c["dim"]):
            dim = k >= nb
            st = dict(looks.setdefault(b["star"], (b["st"], k))[0], w=c["bright"][0]["st"]["w"], h=c["bright"][0]["st"]["h"], flags=0)
            px, er, dq, x, y = scene(st, 0, c["seed"] + looks[b["star"]][1], b["st"]["x"], b["st"]["y"], scale=b.get("loud", 4))
            e = {"CFAMNAME": "1F", "FSAMNAME": "OPEN", "FPAMNAME": "HOLE" if dim else "ND225", "FPAM_H": 3000. + b.get("dh", 9) / 10., "FPAM_V": 400. + b.get("dv", 9) / 10., "BUNIT": "photoelectron/s"}
            if wrong and k == c["i"] % nb:
                e.update({"fpam": {"FPAMNAME": "ND475"}, "cfam": {"CFAMNAME": "2F"}, "h": {"FPAM_H": e["FPAM_H"] + 2}, "v": {"FPAM_V": e["FPAM_V"] - 2}}[wrong])
            fr.append(mk.image(px, err=er, dq=dq, name=mk.fname(k, "L3"), p={"TARGET": NAMES[b["star"] - 1]}, e=e))
            spec["d" if dim else "b"].append({"w": st["w"], "h": st["h"], "px": [int(v) for v in px.ravel()], "dq": [0] * px.size, "pos": {"x": x, "y": y}, "star": b["star"], "dh": b.get("dh", 9), "dv": b.get("dv", 9)})
        vf.rng("order", c["order"]).shuffle(fr)
        ds = data.Dataset(fr)
        wv, tr = curve_of("1F")
        cal = factor(c["fn"] * simpson(tr, wv), .125) if c["given"] else None
        before = (snap.dataset(ds), snap.frame(cal) if cal else 0)
        ev = {"op": "ndcal", "bright": spec["b"], "dim": spec["d"], "sed": c["sed"], "r2": c["r2"], "k": c["k"], "fn": c["fn"], "given": c["given"], "wrong": wrong, "rows": [], "flag": False, "fpam": "", "h": 0, "v": 0, "cfam": "", "kept": True, "exc": ""}
        o = run(ev, lambda: ndc.create_nd_filter_cal(ds, phot_kwargs={"encircled_radius": c["r2"] / 2., "frac_enc_energy": 1. / c["k"], "method": "center"}, fluxcal_factor=cal))
        if o is not None:
            ev["rows"] = [{"t": near(10 ** -v[0], 1000), "x": vf.q(round(v[1], 9)), "y": vf.q(round(v[2], 9))} for v in o.data]
            ev["flag"], ev["fpam"], ev["h"], ev["v"], ev["cfam"] = bool(o.ext_hdr["ODFLAG"]), str(o.ext_hdr["FPAMNAME"]), near(o.ext_hdr["FPAM_H"] - 3000, 10), near(o.ext_hdr["FPAM_V"] - 400, 10), str(o.ext_hdr["CFAMNAME"])
        ev["kept"] = before == (snap.dataset(ds), snap.frame(cal) if cal else 0)
    return ev


def job(c):
    return {"meta": {"c": c}, "ev": [globals()[c["kind"]](c)]}


KINDS = {"conv": 300, "flux": 200, "gauss": 24, "fcal": 100, "band": 300, "curve": 60, "mag": 80, "zero": 40, "color": 30, "plane": 150, "ndcal": 100}


def check(prop, tier):
    deep = tier == "thorough"
    runs = [vf.model_check("MCFlux", "MCFluxDeep" if deep else "MCFlux")]
    jobs = []
    for k, n in KINDS.items():
        gen, g = vf.generate("GenFlux", "GenFlux_" + k, num=n * (10 if deep else 1), depth=3)
        runs.append(g)
        jobs += gen
    traces = vf.pmap(job, [(c,) for c in jobs])
    bad, val = vf.validate("FluxTrace", traces)
    return vf.report(traces, bad, runs + [val], site=lambda t, e: e["op"], describe=lambda t, e: "%s exc=%s %s" % (t["meta"]["c"], e["exc"], e.get("why", "")))
