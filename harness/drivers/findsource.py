"""K08: source finding against FindOps.tla; what pyklip was given and returned is recorded."""
import multiprocessing
import signal
import warnings
import numpy as np
import vf, mk, snap
import corgidrp.data as data
import corgidrp.l4_to_tda as tda
import pyklip.kpp.metrics.crossCorr as cross
import pyklip.kpp.stat.statPerPix_utils as stat

REC = {"corr": [], "maps": []}
CORR, TASK = cross.correlate2d, stat.get_image_stat_map_perPixMasking_threadTask


def corr(a, b, *x, **k):
    o = CORR(a, b, *x, **k)
    REC["corr"].append((np.array(a), np.array(b), np.array(o)))
    return o


def task(rows, cols, image, wop, *x, **k):
    o = TASK(rows, cols, image, wop, *x, **k)
    m = np.full(np.shape(image), np.nan)
    m[rows, cols] = o
    REC["maps"].append((np.array(image), np.array(wop), m))
    if len(REC["maps"]) > 2 * m.size + 10:       # every report takes a pixel away
        stuck()
    return o


class OneProcess:
    """multiprocessing with so many processors that pyklip does its work in this one"""
    def __getattr__(self, k):
        return getattr(multiprocessing, k)

    def cpu_count(self):
        return 10 ** 9


class Stuck(Exception):
    pass


STUCK = [0]


def stuck(*a):
    STUCK[0] += 1
    raise Stuck("did not terminate")


def qs(a, sc):
    return [int(round(max(-9e8, min(9e8, float(v) * sc)))) if not np.isnan(v) else vf.NAN for v in np.asarray(a, dtype=float).ravel()]


def gauss(h, w, f):
    y, x = np.indices((h, w))
    return np.exp(-4 * np.log(2) * ((y - h // 2) ** 2 + (x - w // 2) ** 2) / (f / 10.) ** 2)


def image(c, r, src):
    h, w = c["h"], c["w"]
    y, x = np.indices((h, w))
    if c["noise"] == "gauss":
        a = r.normal(0, 1, (h, w))
    elif c["noise"] == "grid":
        a = ((y * 3 + x * 5) % 11) / 4. - 1.23
    else:
        a = np.zeros((h, w))
    for s in src:
        a = a + s["amp"] * np.exp(-4 * np.log(2) * ((y - s["y"]) ** 2 + (x - s["x"]) ** 2) / (c["f"] / 10.) ** 2)
    a = np.round(a * 100) / 100.
    d2 = (y - h // 2) ** 2 + (x - w // 2) ** 2
    if c["nan"] == "disc":
        a[d2 < 7] = np.nan
    if c["nan"] == "spots":
        a[r.random((h, w)) < .1] = np.nan
    if c["nan"] == "corner":
        a[:4, :5] = np.nan
    if c["nan"] == "outer":
        a[d2 > 36] = np.nan
    return a


def job(c):
    if STUCK[0] > 1:
        return None
    r = np.random.default_rng(c["seed"])
    a = image(c, r, c["src"])
    f = c["f"] / 10.
    box = int(f * 3)
    box += box % 2 == 0
    kw = {}
    n = max(box + c["psf"], 2)
    psf = gauss(box, box, c["f"])
    if c["psf"]:
        psf = gauss(n, n, c["f"])
        kw["psf"] = psf.copy()
    wop = None
    if c["wop"]:
        wop = image(dict(c, noise="gauss"), np.random.default_rng(c["seed"] + 1), [])
        kw["image_without_planet"] = wop
    im = mk.image(a, err=np.full((1,) + a.shape, .5), dq=np.zeros(a.shape, dtype=np.uint16))
    if c["stale"]:
        for i in range(6):
            im.ext_hdr["SNYX%03d" % i] = " 99.0,   1,   1"
    before = snap.frame(im)
    ev = {"h": c["h"], "w": c["w"], "f": c["f"], "thr": c["thr"] * 100, "img": qs(a, 100), "psf": qs(psf, 10000), "ph": psf.shape[0], "pw": psf.shape[1],
          "wop": c["wop"], "maps": [], "found": [], "keys": [], "numbered": True, "seen": True, "consumed": False, "kept": True, "exc": ""}
    REC["corr"], REC["maps"] = [], []
    cross.correlate2d, stat.get_image_stat_map_perPixMasking_threadTask, stat.mp = corr, task, OneProcess()
    o = None
    thr = c["thr"] / 10.
    signal.signal(signal.SIGALRM, stuck)
    signal.alarm(30)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            if c["equal"]:
                # the threshold is exactly the highest significance there is
                tda.find_source(im.copy(), fwhm=f, nsigma_threshold=1e30, **kw)
                top = [float(np.nanmax(m)) for _, _, m in REC["maps"] if np.isfinite(m).any()]
                if top and 0 < top[0] < 500:
                    thr = top[0]
                    ev["thr"] = int(round(thr * 1000))
                REC["corr"], REC["maps"] = [], []
            o = tda.find_source(im, fwhm=f, nsigma_threshold=thr, **kw)
    except Exception as ex:
        ev["exc"] = vf.excname(ex) + ": " + str(ex)
    finally:
        signal.alarm(0)
        cross.correlate2d, stat.get_image_stat_map_perPixMasking_threadTask, stat.mp = CORR, TASK, multiprocessing
    if ev["exc"].startswith("Stuck"):
        return {"meta": {"c": c}, "ev": [ev]}
    wcc = [out for (i, m, out) in REC["corr"] if wop is not None and np.array_equal(i, np.nan_to_num(wop))]
    for img, noise, sn in REC["maps"]:
        ok = np.isfinite(img)
        hit = [(i, m) for (i, m, out) in REC["corr"] if out.shape == img.shape and np.array_equal(out[ok], img[ok])]
        if not hit or not ok.any():
            ev["seen"] = False
            continue
        i, m = hit[-1]
        given = any(np.array_equal(np.where(np.isnan(wop), np.nan, out), noise, equal_nan=True) for out in wcc)
        ev["maps"].append({"in": qs(np.where(ok, i, np.nan), 100), "sn": qs(sn, 1000), "mask": [int(v) if v in (0, 1) else 9 for v in m.ravel()], "mw": m.shape[1],
                           "noise": "given" if given else "self" if np.array_equal(noise, img, equal_nan=True) else "other"})
    ev["seen"] = ev["seen"] and bool(ev["maps"])
    if ev["exc"]:
        # too little is left for pyklip's significance map (hardly a pixel, or a blank field)
        left = [int(np.isfinite(i).sum()) for i, _, _ in REC["maps"]] or [int(np.isfinite(a).sum())]
        ev["consumed"] = left[-1] < (3 * f + 2) ** 2 or not np.any(REC["corr"][-1][2] if REC["corr"] else a)
        return {"meta": {"c": c}, "ev": [ev]}
    keys = [k for k in o.ext_hdr if k.upper().startswith("SNYX")]
    ev["keys"] = keys
    ev["numbered"] = keys == ["SNYX%03d" % i for i in range(len(keys))]
    for k in keys:
        s, y, x = str(o.ext_hdr[k]).split(",")
        ev["found"].append({"sn": int(round(max(-9e6, min(9e6, float(s) * 10)))) if float(s) == float(s) else vf.NAN, "y": int(y), "x": int(x)})
    ev["kept"] = bool(snap.frame(im) == before and np.array_equal(o.data, a, equal_nan=True) and np.array_equal(o.err, im.err) and np.array_equal(o.dq, im.dq)
                      and ("psf" not in kw or np.array_equal(kw["psf"], psf)))
    return {"meta": {"c": c}, "ev": [ev]}


def check(prop, tier):
    deep = tier == "thorough"
    mc = [vf.model_check("MCFind"), vf.model_check("MCFind", "MCFindDeep")]
    gen, g = vf.generate("GenFind", num=3000 if deep else 300, depth=3)
    traces = [t for t in vf.pmap(job, [(c,) for c in gen]) if t]
    bad, val = vf.validate("FindTrace", traces)
    return vf.report(traces, bad, mc + [g, val], site=lambda t, e: "find_source", describe=lambda t, e: "%s exc=%s found=%s" % (t["meta"]["c"], e["exc"], e["found"]))
