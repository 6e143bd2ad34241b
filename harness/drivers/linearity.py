"""S12: nonlinearity correction and desmearing against LinearityOps.tla."""
import numpy as np
import vf, mk
import corgidrp.data as data
import corgidrp.detector as det
import corgidrp.l1_to_l2a as l1
import corgidrp.l2a_to_l2b as l2a

NOGAIN = -1000000005
FULL = 8 * 8 * 16


def axis(r, n, start, steps):
    a = [start]
    while len(a) < n:
        a.append(a[-1] + r.choice(steps))
    return a


def nonlin_job(i):
    r = vf.rng("nonlin", i)
    ng, nc = r.choice([2, 3, 4]), r.choice([2, 3, 5])
    g = axis(r, ng, r.choice([1, 2]), [1, 2, 4, 8])
    c = axis(r, nc, r.choice([0, 1, -3]), [1, 2, 4, 8, 16])
    tab = [[r.choice([4, 6, 8, 8, 9, 12, 16]) for _ in range(ng)] for _ in range(nc)]
    for j in range(ng):                     # make every curve straddle 8/8
        col = [tab[k][j] for k in range(nc)]
        if min(col) > 8:
            tab[r.randrange(nc)][j] = r.choice([8, 4])
        if max(tab[k][j] for k in range(nc)) < 8:
            tab[r.randrange(nc)][j] = r.choice([8, 12])
    kind = r.choice(["ok"] * 10 + ["gaxis", "caxis", "high", "low", "none", "nogain", "equal"])
    if kind == "gaxis":
        g[0], g[-1] = g[-1], g[0]
    if kind == "caxis":
        c[0], c[-1] = c[-1], c[0]
    if kind == "equal":
        if r.random() < .5:
            g[1] = g[0]
        else:
            c[1] = c[0]
    if kind in ("high", "low"):
        j = r.randrange(ng)
        for k in range(nc):
            tab[k][j] = r.choice([9, 12, 16]) if kind == "high" else r.choice([4, 6, 7])
    nf = r.choice([1, 2, 3])
    fr, frames = [], []
    for f in range(nf):
        h = {"m": r.choice([NOGAIN, NOGAIN, 1, 3, 5, 40]), "a": r.choice([-1, 0, 1, 2, 7]), "c": r.choice([1, 2, 3, 4, 6, 11, 100])}
        v = [r.randint(-6, 50) for _ in range(24)]
        d = [r.choice([0, 0, 1, 4, 32, 64, 128, 255]) for _ in range(24)]
        e = {"EMGAIN_C": float(h["c"]), "EMGAIN_A": float(h["a"])}
        if h["m"] != NOGAIN:
            e["EMGAIN_M"] = float(h["m"])
        if kind == "nogain":
            e["EMGAIN_C"] = None
            e["EMGAIN_A"] = None
        frames.append(mk.image(np.array(v, dtype=float).reshape(4, 6), err=np.full((4, 6), .5), dq=np.array(d, dtype=np.uint16).reshape(4, 6), name=mk.fname(f), e=e))
        fr.append({"v": v, "d": d, "h": h})
    thr = r.choice([None, None, 0, 10, 20, 49])
    ev = {"op": "nonlin", "frames": fr, "nogain": kind == "nogain", "table": {"g": [] if kind == "none" else g, "c": c, "r": tab},
          "thr": vf.NAN if thr is None else thr, "exc": "", "out": []}
    ds = data.Dataset(frames)
    try:
        if kind == "none":
            nl = None
        else:
            arr = np.full((nc + 1, ng + 1), np.nan)
            arr[0, 1:], arr[1:, 0], arr[1:, 1:] = g, c, np.array(tab) / 8.
            nl = mk.product("NonLinearityCalibration", arr=arr)
        o = l1.correct_nonlinearity(ds, nl, **({} if thr is None else {"threshold": thr}))
        ev["out"] = [{"v": [vf.q(x, FULL) for x in f.data.ravel()], "d": [int(x) for x in f.dq.ravel()],
                      "errok": bool(np.all(f.err == .5))} for f in o]
    except Exception as ex:
        ev["exc"] = vf.excname(ex)
    return {"meta": {"op": "nonlin", "i": i, "kind": kind}, "ev": [ev]}


def smear_job(i):
    r = vf.rng("smear", i)
    nf = r.choice([1, 2, 3])
    H, W = r.choice([(6, 3), (1, 4), (12, 2), (3, 8)])
    q0 = r.choice([1, 2, 4])                 # readout time in units of 1/q0 ... exposure times below
    row = r.choice([1, 2, 3])
    fr, frames = [], []
    for f in range(nf):
        t = r.choice([1, 2, 3, 4, 8])
        a = np.array([[r.choice([0, 1, 5, 20, 90, -3]) for _ in range(W)] for _ in range(H)], dtype=float)
        frames.append(mk.image(a, err=np.full((H, W), .25), dq=np.full((H, W), 4 * f, dtype=np.uint16), name=mk.fname(f), e={"EXPTIME": t / float(q0)}))
        fr.append({"cols": [[int(x) for x in a[:, c]] for c in range(W)], "p": row, "q": t})
    dp = mk.product("DetectorParams", params={"ROWREADT": row / float(q0)})
    ev = {"op": "desmear", "frames": fr, "exc": "", "out": []}
    try:
        o = l2a.desmear(data.Dataset(frames), dp)
        for k, f in enumerate(o):
            ev["out"].append({"cols": [[int(round(float(x) * 4096)) if np.isfinite(x) else vf.NAN for x in f.data[:, c]] for c in range(W)],
                              "desmear": f.ext_hdr.get("DESMEAR") is True, "rest": bool(np.all(f.err == .25) and np.all(f.dq == 4 * k))})
    except Exception as ex:
        ev["exc"] = vf.excname(ex)
    return {"meta": {"op": "desmear", "i": i}, "ev": [ev]}


def call(fn, *a):
    return fn(*a)


def check(prop, tier):
    deep = tier == "thorough"
    mc = vf.model_check("MCLinearity", "MCLinearityDeep" if deep else "MCLinearity")
    jobs = [(nonlin_job, i) for i in range(3000 if deep else 400)] + [(smear_job, i) for i in range(1000 if deep else 150)]
    traces = vf.pmap(call, jobs)
    bad, val = vf.validate("LinearityTrace", traces)
    return vf.report(traces, bad, [mc, val], site=lambda t, e: t["meta"]["op"], describe=lambda t, e: str(t["meta"]) + str(e)[:600])
