"""S07: combining subexposures against CombineOps.tla."""
import itertools
import numpy as np
import vf, mk, snap
import corgidrp
import corgidrp.data as data
import corgidrp.combine as comb

Z = 60
V, D = [0, 1, 3, -2], [0, 0, 1, 6, 128]


def job(i, n, nf, px, method, scale, size, layers, direct):
    """px: list of pixels, each a list of (value, flags) per frame."""
    r = vf.rng("combine", i)
    P = len(px)
    w = 8
    h = (P + w - 1) // w
    px = px + [[(0, 0)] * nf] * (h * w - P)
    P = len(px)
    old = corgidrp.track_individual_errors
    corgidrp.track_individual_errors = layers > 1
    er = np.array([[[r.choice([0, 1, 2, 4]) for _ in range(P)] for _ in range(layers)] for _ in range(nf)]) / 2.   # [frame][layer][pixel]
    frames, names, parents = [], [], []
    for k in range(nf):
        name = mk.fname(r.choice([k, k, 50 + k]), "L2b")
        par = [mk.fname(200 + r.randint(0, 3), "L1") for _ in range(r.choice([0, 0, 1, 2]))]
        par = sorted(set(par))
        e = {"DRPNFILE": len(par), **{"FILE%d" % j: p for j, p in enumerate(par)}} if par else {}
        im = mk.image(np.array([px[p][k][0] for p in range(P)], dtype=float).reshape(h, w), err=er[k].reshape(layers, h, w),
                      dq=np.array([px[p][k][1] for p in range(P)], dtype=np.uint16).reshape(h, w), name=name, e=e)
        frames.append(im)
        names.append(name)
        parents.append(par)
    ds = data.Dataset(frames)
    before = snap.dataset(ds)
    fac = size if scale else 1
    mfac = np.pi / 2 if method.lower() == "median" else 1.0
    ev = {"px": [[list(s) for s in p] for p in px], "e2": [[[vf.q(er[k][l][p] ** 2, 4) for k in range(nf)] for p in range(P)] for l in range(layers)],
          "names": names, "parents": parents, "size": size, "method": method.lower(), "scale": scale, "exc": "", "out": [], "images": direct}

    def observe(v, e, d):
        v, e, d = np.asarray(v).ravel(), np.asarray(e), np.asarray(d).ravel()
        return {"v": [vf.q(x / fac, Z) for x in v], "d": [int(x) for x in d],
                "e2": [[vf.q(x ** 2 / fac ** 2 / mfac, 4 * Z * Z) for x in y.ravel()] for y in e]}
    try:
        if direct:
            o = comb.combine_images(np.copy(ds.all_data), np.copy(ds.all_err), np.copy(ds.all_dq), method, scale)
            ev["out"] = [observe(*o)]
        else:
            kw = {"num_frames_per_group": size} if not (size == nf and r.random() < .5) else {}
            if not (method == "mean" and r.random() < .3):
                kw["collapse"] = method
            if not scale or r.random() < .5:
                kw["num_frames_scaling"] = scale
            o = comb.combine_subexposures(ds, **kw)
            for f in o:
                x = observe(f.data, f.err, f.dq)
                nfl = int(f.ext_hdr["DRPNFILE"])
                x.update(numfr=int(f.ext_hdr["NUM_FR"]), nfiles=nfl, name=f.filename,
                         files=[f.ext_hdr["FILE%d" % j] for j in range(nfl)])
                ev["out"].append(x)
    except Exception as ex:
        ev["exc"] = vf.excname(ex)
    corgidrp.track_individual_errors = old
    ev["inputok"] = snap.dataset(ds) == before
    return {"meta": {"i": i}, "ev": [ev]}


def check(prop, tier):
    deep = tier == "thorough"
    mc = vf.model_check("MCCombine", "MCCombineDeep" if deep else "MCCombine")
    r = vf.rng("combine")
    al = [(v, d) for v in V for d in sorted(set(D))]
    jobs = []

    def add(nf, px, method, scale, size, layers=1, direct=False):
        jobs.append((len(jobs), 0, nf, px, method, scale, size, layers, direct))
    for method in ("mean", "median"):
        for scale in (True, False):
            add(1, [list(p) for p in itertools.product(al, repeat=1)], method, scale, 1, 2)
            two = [list(p) for p in itertools.product(al, repeat=2)]
            add(2, two, method, scale, 2, 1)
            add(2, two, method, scale, 2, 2, True)
            three = [list(p) for p in itertools.product(al, repeat=3)]
            for c in vf.chunks(three if deep else r.sample(three, 600), 4):
                add(3, c, method, scale, 3, r.choice([1, 2]), r.random() < .3)
    for _ in range(600 if deep else 90):
        size = r.choice([1, 2, 3, 4, 5])
        groups = r.choice([1, 2, 3]) if size < 4 else r.choice([1, 2])
        nf = size * groups
        method = r.choice(["mean", "median", "mean", "median", "Mean", "MEDIAN"])
        if r.random() < .06:
            nf = max(1, nf + r.choice([-1, 1]))
        elif r.random() < .05:
            method = r.choice(["sum", "", "max", "meanmedian"])
        px = [[(r.choice([0, 1, 2, 3, 7, -2, -9]), r.choice([0, 0, 0, 1, 2, 4, 8, 16, 32, 64, 128, 255, 256])) for _ in range(nf)] for _ in range(24)]
        add(nf, px, method, r.random() < .5, size, r.choice([1, 1, 3]))
    traces = vf.pmap(job, jobs)
    bad, val = vf.validate("CombineTrace", traces)
    return vf.report(traces, bad, [mc, val], site=lambda t, e: e["method"], describe=lambda t, e: str({k: v for k, v in e.items() if k not in ("px", "e2")})[:800],
                     extra={"pixels": sum(len(t["ev"][0]["px"]) for t in traces)})
