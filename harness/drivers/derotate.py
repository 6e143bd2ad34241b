"""S11: northup against RotOps.tla."""
import numpy as np
import vf, mk
import corgidrp
import corgidrp.data as data
import corgidrp.l3_to_l4 as l4

SC = 1000


def q(a):
    return [vf.q(round(float(x) * SC)) if np.isfinite(x) else vf.NAN for x in np.asarray(a).ravel()]


def job(c):
    r = np.random.default_rng(c["seed"])
    n, m = c["rows"], c["cols"]
    yy, xx = np.mgrid[:n, :m]
    roll = float(np.degrees(np.arctan2(c["a"]["s"], c["a"]["c"])))
    scale = 6e-6
    evs, frames = [], []
    corgidrp.track_individual_errors = c["layers"] > 1
    for k in range(c["n"]):
        ramp = [int(r.integers(-4, 5)), int(r.integers(-4, 5))]
        pos = [int(r.integers(1, 4)), int(r.integers(1, 4))]
        if c["kind"] == "ramp":
            d = (ramp[0] * xx + ramp[1] * yy + 200.)
            errs = [(ramp[0] * xx + ramp[1] * yy + 300. + 10 * j) for j in range(c["layers"])]
        else:
            d = r.permutation(n * m).reshape(n, m).astype(float) + 1
            errs = [r.permutation(n * m).reshape(n, m).astype(float) + 1000 * (j + 1) for j in range(c["layers"])]
        dq = r.choice(np.array([0, 0, 0, 1, 4, 8, 130, 255, 256], dtype=np.uint16), (n, m))
        # every frame of the dataset is turned by its own angle: later frames use another quarter turn
        a = dict(c["a"])
        if k:
            for _ in range(k):
                a = {"c": -a["s"], "s": a["c"], "d": a["d"]}
        ang = float(np.degrees(np.arctan2(a["s"], a["c"])))
        e = {}
        if c["hasstar"]:
            e.update(STARLOCX=c["cx"] / 2, STARLOCY=c["cy"] / 2)
        cd = [0, 0, 0, 0]
        p = dict(ROLL=ang + (77. if c["wcs"] else 0.))
        if c["wcs"]:
            cs, sn = a["c"] / a["d"] * scale, a["s"] / a["d"] * scale
            cd = [-cs, sn, sn, cs]
            e.update(CTYPE1="RA---TAN", CTYPE2="DEC--TAN", CRPIX1=m // 2, CRPIX2=n // 2, CRVAL1=80., CRVAL2=5.,
                     CD1_1=cd[0], CD1_2=cd[1], CD2_1=cd[2], CD2_2=cd[3])
        im = mk.image(d, err=np.array(errs), dq=dq, p=p, e=e, name=mk.fname(k + 1, "L3"))
        frames.append(im)
        evs.append({"kind": c["kind"], "rows": n, "cols": m, "cx": c["cx"], "cy": c["cy"], "mode": c["mode"], "hasstar": c["hasstar"], "a": a,
                    "d": [int(v) for v in d.ravel()], "err": [[int(v) for v in x.ravel()] for x in errs], "q": [int(v) for v in dq.ravel()],
                    "ramp": ramp, "sc": SC, "wcs": c["wcs"], "scale": round(scale * 1e9), "cd": [round(x * 1e9) for x in cd],
                    "ocd": [], "od": [], "oerr": [], "oq": [], "shapeok": True, "exc": ""})
    try:
        rc = {"centre": "im_center", "star": "starloc", "given": (c["cx"] / 2, c["cy"] / 2)}[c["mode"]]
        out = l4.northup(data.Dataset(frames), use_wcs=c["wcs"], rot_center=rc)
        for f, e in zip(out, evs):
            e["shapeok"] = bool(len(out) == len(evs) and f.data.shape == (n, m) and f.dq.shape == (n, m) and f.err.shape[1:] == (n, m))
            e["od"], e["oq"], e["oerr"] = q(f.data), [int(v) for v in f.dq.ravel()], [q(x) for x in f.err]
            e["ocd"] = [round(float(f.ext_hdr.get(k, 0.)) * 1e9) for k in ("CD1_1", "CD1_2", "CD2_1", "CD2_2")]
    except Exception as ex:
        for e in evs:
            e["exc"] = vf.excname(ex) + ": " + str(ex)
    finally:
        corgidrp.track_individual_errors = False
    return {"meta": {"c": c}, "ev": evs}


def check(prop, tier):
    deep = tier == "thorough"
    mc = vf.model_check("MCRot")
    gen, g = vf.generate("GenRot", num=1500 if deep else 250, depth=3)
    traces = vf.pmap(job, [(c,) for c in gen])
    bad, val = vf.validate("RotTrace", traces)
    return vf.report(traces, bad, [mc, g, val], site=lambda t, e: "northup", describe=lambda t, e: "%s exc=%s" % (t["meta"]["c"], e["exc"]))
