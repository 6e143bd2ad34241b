"""S04, S05, S08: pixelwise steps against PixelOps.tla."""
import itertools
import numpy as np
import vf, mk
import corgidrp
import corgidrp.data as data
import corgidrp.detector as det
import corgidrp.l2a_to_l2b as l2a
import corgidrp.l2b_to_l3 as l2b

S, Q = 64, 4
VALS = [-3, 0, 1, 2, 100]
ERRS = [0, .5, 1, 2]
DQS = [0, 0, 0, 1, 2, 4, 8, 32, 64, 128, 6, 255, 256]
NOGAIN = -1000000005


def grid(lst, shape):
    return np.array(lst, dtype=float).reshape(shape)


def shape_for(n):
    w = max(2, int(np.ceil(np.sqrt(n))))
    return (int(np.ceil(n / w)), w)


def pack(r, combos):
    """combos: list of tuples -> (shape, padded list)"""
    sh = shape_for(len(combos))
    combos = list(combos)
    r.shuffle(combos)
    while len(combos) < sh[0] * sh[1]:
        combos.append(r.choice(combos))
    return sh, combos


def make(r, sh, vs, es, ds, layers, hdr, i, dt=np.uint16, lvl="L2a"):
    """one frame; further error layers are random powers of two"""
    n = sh[0] * sh[1]
    err = np.array([es] + [[r.choice(ERRS) for _ in range(n)] for _ in range(layers - 1)], dtype=float).reshape((layers,) + sh)
    return mk.image(grid(vs, sh), err=err, dq=np.array(ds).astype(dt).reshape(sh), name=mk.fname(i, lvl), e=hdr)


def proj(f, **kw):
    d = {"v": [vf.q(x, S) for x in np.asarray(f.data).ravel()],
         "e2": [[vf.q(float(x) ** 2, S * S) for x in np.asarray(y).ravel()] for y in np.asarray(f.err)],
         "d": [int(x) for x in np.asarray(f.dq).ravel()]}
    d.update(kw)
    return d


def run(ev, fn, ds, hdr=None):
    try:
        out = fn()
        ev["out"] = [proj(f, hdr=(hdr(f) if hdr else {})) for f in out]
        ev["exc"] = ""
    except Exception as e:
        ev["out"], ev["exc"] = [], vf.excname(e)
    return ev


class tracking:
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.old = corgidrp.track_individual_errors
        corgidrp.track_individual_errors = self.on

    def __exit__(self, *a):
        corgidrp.track_individual_errors = self.old


def hq(h, k, scale):
    v = h.get(k)
    return vf.q(v, scale) if isinstance(v, (int, float)) and not isinstance(v, bool) else vf.INEXACT


def dark_job(i, nf, kind):
    r = vf.rng("dark", i)
    layers = r.choice([1, 1, 3])
    with tracking(layers > 1):
        base = (r.choice([1., 2., 60.]), r.choice([1., 10., 100.]), r.choice([4., 8.]))
        combos = list(itertools.product(VALS, [-1, 0, 2, 50], [0, 1, 2], [0, .5]))
        sh, combos = pack(r, combos)
        frames, fset = [], []
        for k in range(nf):
            st = list(base)
            if kind == "mixed" and k == nf - 1:
                j = r.randrange(3)
                st[j] *= 2
            n = len(combos)
            vs = [c[0] if k == 0 else r.choice(VALS) for c in combos]
            es = [c[2] if k == 0 else r.choice(ERRS) for c in combos]
            fset.append(st)
            frames.append(make(r, sh, vs, es, [r.choice(DQS) for _ in range(n)], layers,
                               {"EXPTIME": st[0], "EMGAIN_C": st[1], "KGAINPAR": st[2]}, k))
        dst = list(base)
        if kind in ("exptime", "gain", "kgain"):
            dst[["exptime", "gain", "kgain"].index(kind)] *= r.choice([2, .5])
        pc = r.choice(["photon-counted master dark", "photon-counted"]) if kind == "pc" else "analog master dark"
        eh = {"EXPTIME": dst[0], "EMGAIN_C": dst[1], "KGAINPAR": dst[2]}
        if kind == "pc" or r.random() < .5:
            eh["PC_STAT"] = pc
        dk = mk.product("Dark", arr=grid([c[1] for c in combos], sh), err=np.array([grid([c[3] for c in combos], sh)]),
                        dq=np.array([r.choice(DQS) for _ in combos], dtype=np.uint16).reshape(sh), e=eh)
        typ, arg = "Dark", dk
        dp = proj(dk)
        if kind == "type":
            typ = r.choice(["Image", "FlatField", "none", "array"])
            arg = {"Image": frames[0].copy(), "FlatField": mk.product("FlatField", arr=np.ones(sh)), "none": None, "array": dk.data}[typ]
        ds = data.Dataset(frames)
        ev = {"op": "dark", "frames": [proj(f, set=[vf.q(x, 16) for x in s]) for f, s in zip(ds, fset)],
              "dark": dict(dp, type=typ, pc=pc, set=[vf.q(x, 16) for x in dst])}
        run(ev, lambda: l2a.dark_subtraction(ds, arg), ds)
    return {"meta": {"op": "dark", "i": i, "kind": kind}, "ev": [ev]}


def flat_job(i, nf):
    r = vf.rng("flat", i)
    layers = r.choice([1, 1, 2])
    with tracking(layers > 1):
        combos = list(itertools.product(VALS, ERRS, [0, .5, 1, 2, 4], [0, .25, .5]))
        sh, combos = pack(r, combos)
        frames = []
        for k in range(nf):
            frames.append(make(r, sh, [c[0] if k == 0 else r.choice(VALS) for c in combos], [c[1] if k == 0 else r.choice(ERRS) for c in combos],
                               [r.choice(DQS) for _ in combos], layers, {}, k))
        fl = mk.product("FlatField", arr=grid([c[2] for c in combos], sh))
        fl.err = np.array([grid([c[3] for c in combos], sh)])
        ds = data.Dataset(frames)
        ev = {"op": "flat", "frames": [proj(f) for f in ds], "flat": {"f": [vf.q(c[2], Q) for c in combos], "fe": [vf.q(c[3], Q) for c in combos]}}
        run(ev, lambda: l2a.flat_division(ds, fl), ds)
    return {"meta": {"op": "flat", "i": i}, "ev": [ev]}


def electrons_job(i, nf):
    r = vf.rng("el", i)
    layers = r.choice([1, 2, 3])
    with tracking(layers > 1):
        sh, combos = pack(r, list(itertools.product(VALS, ERRS)))
        frames = [make(r, sh, [r.choice(VALS) for _ in combos] if k else [c[0] for c in combos], [r.choice(ERRS) for _ in combos] if k else [c[1] for c in combos],
                       [r.choice(DQS) for _ in combos], layers, {}, k) for k in range(nf)]
        k, kerr, rn, rne = r.choice([.5, 1., 2., 8.]), r.choice([0., .25, .5]), r.choice([100., 7.5]), r.choice([1., .5])
        kg = data.KGain(np.array([[k]]), err=np.array([[kerr]]), ptc=np.array([[1., 2.], [3., 4.]]), pri_hdr=mk.pri(),
                        ext_hdr=mk.ext(RN=rn, RN_ERR=rne), err_hdr=None, input_dataset=mk.inputs())
        ds = data.Dataset(frames)
        ev = {"op": "electrons", "frames": [proj(f) for f in ds], "k": vf.q(k, Q), "kerr": vf.q(kerr, Q), "rn": vf.q(rn, Q), "rnerr": vf.q(rne, Q)}
        run(ev, lambda: l2a.convert_to_electrons(ds, kg), ds,
            lambda f: {"bunit": f.ext_hdr.get("BUNIT", ""), "k": hq(f.ext_hdr, "KGAINPAR", Q), "kerr": hq(f.ext_hdr, "KGAIN_ER", Q),
                       "rn": hq(f.ext_hdr, "RN", Q), "rnerr": hq(f.ext_hdr, "RN_ERR", Q)})
    return {"meta": {"op": "electrons", "i": i}, "ev": [ev]}


def gain_hdr(r, gains):
    a = r.choice([-1.0, 0.0, r.choice(gains)])
    c = r.choice(gains)
    m = r.choice([None, None, r.choice(gains)])
    h = {"EMGAIN_C": c, "EMGAIN_A": a}
    if m is not None:
        h["EMGAIN_M"] = m
    return h, {"m": NOGAIN if m is None else int(m), "a": int(a), "c": int(c)}


def divide_job(i, nf, what):
    r = vf.rng(what, i)
    layers = r.choice([1, 2, 3])
    with tracking(layers > 1):
        sh, combos = pack(r, list(itertools.product(VALS, ERRS)))
        frames, info = [], []
        for k in range(nf):
            if what == "emgain":
                h, g = gain_hdr(r, [1., 2., 4., 8., 16.])
                inf = {"gain": g}
            else:
                t = r.choice([.25, .5, 1., 2., 4., 16., 8])
                h, inf = {"EXPTIME": t}, {"exptime": vf.q(t, Q)}
            info.append(inf)
            frames.append(make(r, sh, [r.choice(VALS) for _ in combos] if k else [c[0] for c in combos], [r.choice(ERRS) for _ in combos] if k else [c[1] for c in combos],
                               [r.choice(DQS) for _ in combos], layers, h, k))
        ds = data.Dataset(frames)
        ev = {"op": what, "frames": [proj(f, **x) for f, x in zip(ds, info)]}
        run(ev, (lambda: l2a.em_gain_division(ds)) if what == "emgain" else (lambda: l2b.divide_by_exptime(ds)), ds,
            lambda f: {"bunit": f.ext_hdr.get("BUNIT", "")})
    return {"meta": {"op": what, "i": i}, "ev": [ev]}


def bad_job(i, nf, what):
    r = vf.rng(what, i)
    layers = r.choice([1, 1, 2])
    dt = r.choice([np.uint16, np.uint16, int, np.int32, float] if what == "flagnans" else [np.uint16, np.uint16, int, np.int32])
    flags = [0, 0, 1, 2, 3, 4, 8, 16, 32, 64, 128, 255, 256]
    with tracking(layers > 1):
        sh, combos = pack(r, list(itertools.product([float("nan"), -3, 5], flags, [0, 0, 1, 2, 4, 8, 12, 255])))
        frames = [make(r, sh, [c[0] for c in combos] if k == 0 else [r.choice([float("nan"), 0, 1]) for _ in combos],
                       [r.choice(ERRS) for _ in combos], [c[1] for c in combos] if k == 0 else [r.choice(flags) for _ in combos], layers, {}, k, dt) for k in range(nf)]
        ds = data.Dataset(frames)
        ev = {"op": what, "frames": [proj(f) for f in ds]}
        if what == "badpix":
            bp = mk.product("BadPixelMap", arr=np.array([c[2] for c in combos], dtype=r.choice([np.uint8, np.uint16, int])).reshape(sh))
            ev["mask"] = [c[2] for c in combos]
            run(ev, lambda: l2a.correct_bad_pixels(ds, bp), ds)
        elif what == "nanflags":
            thr = r.choice([None, 1, 2, 4, 5, 100, 128])
            ev["thr"] = thr or 1
            run(ev, lambda: det.nan_flags(ds, **({} if thr is None else {"threshold": thr})), ds)
        else:
            val = r.choice([None, 1, 2, 4, 128, 3, 256])
            ev["val"] = val or 1
            run(ev, lambda: det.flag_nans(ds, **({} if val is None else {"flag_val": val})), ds)
    return {"meta": {"op": what, "i": i}, "ev": [ev]}


def call(fn, *a):
    return fn(*a)


def check(prop, tier):
    k = 8 if tier == "thorough" else 1
    mc = vf.model_check("MCPixel", "MCPixelDeep" if tier == "thorough" else "MCPixel")
    jobs = []
    if prop == "S04":
        for n, kind in enumerate(["ok", "ok", "ok", "ok", "mixed", "mixed", "mixed", "exptime", "gain", "kgain", "pc", "pc", "type", "type", "type"] * 2 * k):
            jobs.append((dark_job, n, [1, 2, 3][n % 3] if kind != "mixed" else 2 + n % 2, kind))
        jobs += [(flat_job, n, 1 + n % 3) for n in range(12 * k)]
    elif prop == "S05":
        jobs += [(electrons_job, n, 1 + n % 3) for n in range(24 * k)]
        jobs += [(divide_job, n, 1 + n % 4, "emgain") for n in range(24 * k)]
        jobs += [(divide_job, n, 1 + n % 4, "exptime") for n in range(24 * k)]
    else:
        for w in ("badpix", "nanflags", "flagnans"):
            jobs += [(bad_job, n, 1 + n % 3, w) for n in range(14 * k)]
    traces = vf.pmap(call, jobs)
    bad, val = vf.validate("PixelTrace", traces)
    return vf.report(traces, bad, [mc, val], site=lambda t, e: t["meta"]["op"], describe=lambda t, e: str(t["meta"]) + " exc=" + e["exc"],
                     extra={"pixels": sum(len(f["v"]) for t in traces for e in t["ev"] for f in e["frames"])})
