"""S06: frame selection against SelectOps.tla."""
import numpy as np
import vf, mk
import corgidrp.data as data
import corgidrp.l2a_to_l2b as l2a

OFF = -1000000003
TAGS = [("bad pix frac", "pix"), ("OVEREXP", "over"), ("Z2VAR", "z2var"), ("Z3VAR", "z3var"), ("Z2RES", "z2res"), ("Z3RES", "z3res")]


def hval(h, k, scale):
    v = h.get(k, "missing")
    if v is None or type(v).__name__ == "Undefined":
        return OFF
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    return vf.q(v, scale) if isinstance(v, (int, float)) else vf.INEXACT


def job(i):
    r = vf.rng("select", i)
    nf = r.choice([1, 2, 3, 5])
    frac = r.choice([None, 8, 8, 0, 1, 2, 4, 6, 7])
    cfg = {"frac8": 8 if frac is None else frac, "allowed": r.choice([0, 0, 2, 4, 6, 128, 255, 96]), "over": r.random() < .4,
           "rms": r.choice([OFF, OFF, 0, 8, 12]), "bias": r.choice([OFF, OFF, 0, 8, 4])}
    frames, evf = [], []
    shape = r.choice([(2, 4), (4, 4), (1, 8)])
    clean = r.random() < .3
    for k in range(nf):
        p = r.choice([0, 0, .1, .5, 1])
        d = np.array([[r.choice([0, 1, 2, 4, 6, 64, 128, 130, 255]) if r.random() < p else 0 for _ in range(shape[1])] for _ in range(shape[0])], dtype=np.uint16)
        z = [r.choice([0, 2, 4, 8, 8, 9, 12, 100]) for _ in range(4)] if not clean else [r.choice([0, 2]) for _ in range(4)]
        over, isbad = (r.random() < .4), r.random() < .1
        e = {"OVEREXP": over, "Z2VAR": z[0] / 8., "Z3VAR": z[1] / 8., "Z2RES": z[2] / 8., "Z3RES": z[3] / 8., "IS_BAD": isbad}
        frames.append(mk.image(np.array([[r.randint(0, 9) for _ in range(shape[1])] for _ in range(shape[0])]), dq=d, name=mk.fname(10 + k), e=e))
        evf.append({"d": [int(x) for x in d.ravel()], "over": over, "z": z, "isbad": isbad})
    ds = data.Dataset(frames)
    names = [f.filename for f in frames]
    ref = [(f.data.copy(), f.err.copy(), f.dq.copy()) for f in ds]
    kw = {}
    if frac is not None:
        kw["bpix_frac"] = frac / 8.
    if cfg["allowed"] or r.random() < .5:
        kw["allowed_bpix"] = cfg["allowed"]
    if cfg["over"] or r.random() < .5:
        kw["overexp"] = cfg["over"]
    for key, name in (("rms", "tt_rms_thres"), ("bias", "tt_bias_thres")):
        if cfg[key] != OFF:
            kw[name] = cfg[key] / 8.
    discard = r.random() < .6
    if not discard or r.random() < .5:
        kw["discard_bad"] = discard
    ev = {"frames": evf, "cfg": cfg, "discard": discard, "exc": "", "out": []}
    try:
        o = l2a.frame_select(ds, **kw)
        for f in o:
            j = names.index(f.filename) if f.filename in names else -1
            hist = "".join(str(x) for x in f.ext_hdr["HISTORY"]) if "HISTORY" in f.ext_hdr else ""
            named, why = [], []
            pos = sorted((hist.find(n), n) for n in names if n in hist)
            for n in names:
                named.append(n in hist)
                txt = ""
                if n in hist:
                    a = hist.find(n)
                    nxt = [q for q, m in pos if q > a]
                    txt = hist[a + len(n):(nxt[0] if nxt else len(hist))]
                why.append([t for w, t in TAGS if w.replace(" ", "") in txt.replace(" ", "")])
            ev["out"].append({"i": j + 1, "same": j >= 0 and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(ref[j], (f.data, f.err, f.dq))),
                              "bad": bool(f.ext_hdr["IS_BAD"]),
                              "sel": [hval(f.ext_hdr, "FRMSEL0%d" % q, 8 if q != 2 else 1) for q in range(1, 7)], "named": named, "why": why})
    except Exception as ex:
        ev["exc"] = vf.excname(ex)
    return {"meta": {"i": i, "cfg": cfg}, "ev": [ev]}


def check(prop, tier):
    mc = vf.model_check("MCSelect")
    traces = vf.pmap(job, [(i,) for i in range(4000 if tier == "thorough" else 500)])
    bad, val = vf.validate("SelectTrace", traces)
    return vf.report(traces, bad, [mc, val], describe=lambda t, e: str(e)[:800])
