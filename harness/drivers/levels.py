"""L01: data-level updates against LevelOps.tla."""
import numpy as np
import vf, mk, snap
import corgidrp.data as data
import corgidrp.l1_to_l2a as l1
import corgidrp.l2a_to_l2b as l2a
import corgidrp.l2b_to_l3 as l2b
import corgidrp.l3_to_l4 as l3
import corgidrp.l4_to_tda as l4

TOK = {"L1": "_L1_", "L2a": "_L2a", "L2b": "_L2b", "L3": "_L3_", "L4": "_L4_", "TDA": "_TDA_", "none": "_raw"}


def name(i, tok, post):
    return "CGI_02000010010010010%02d_20240705T000%04d%s%s.fits" % (i, i, TOK[tok], post)


def tok(fn):
    for k, t in TOK.items():
        if t in fn:
            return k
    return "?"


def rest(f):
    """Name without its level, and the headers without level, calibration records and history."""
    fn = f.filename
    for t in TOK.values():
        fn = fn.replace(t, "*")
    skip = ("DATALVL", "CTCALFN", "FLXCALFN", "HISTORY", "DRPCTIME", "DRPVERSN")
    return (fn, f.filedir, snap.hdr(f.pri_hdr), tuple(c for c in snap.hdr(f.ext_hdr) if c[0] not in skip), snap.hdr(f.err_hdr), snap.hdr(f.dq_hdr))


def job(n, sc):
    r = vf.rng("levels", n)
    shape = r.choice([(2, 2), (3, 2), (2, 2, 2)])
    frames = []
    for i, f in enumerate(sc["start"]):
        a = np.array([r.choice([0., 1.5, -2., np.nan]) for _ in range(int(np.prod(shape)))]).reshape(shape)
        frames.append(mk.image(a, err=np.abs(np.nan_to_num(a)) + 1, dq=np.array([r.choice([0, 1, 4, 255]) for _ in range(a.size)], dtype=np.uint16).reshape(shape),
                               name=name(i, f["tok"], r.choice(["", "_x"])), e={"DATALVL": f["lvl"]}))
    ds = data.Dataset(frames)
    flux = mk.product("FluxcalFactor")
    ct = mk.product("CoreThroughputCalibration")
    evs = []
    for h in sc["hist"]:
        ev = dict(h, exc="", out=[], same=True, kept=True, others=True, nocal=False)
        if h["op"] == "set":
            ds[h["i"] - 1].ext_hdr["DATALVL"] = h["l"]
            evs.append(ev)
            continue
        before = snap.dataset(ds)
        k = h["k"]
        # an unrelated dataset that shares nothing must not matter; a fresh copy keeps the history independent
        try:
            if k == 4:
                flux.filename = r.choice(["", "some/dir/"]) + "fl%d_FXF_CAL.fits" % h["fx"]
                ct.filename = r.choice(["", "some/dir/"]) + "ct_CTP_CAL.fits"
                ev["nocal"] = r.random() < .1
                out = l3.update_to_l4(ds, ct if h["ct"] else None, None if ev["nocal"] else flux)
            else:
                out = {1: l1.update_to_l2a, 2: l2a.update_to_l2b, 3: l2b.update_to_l3, 5: l4.update_to_tda}[k](ds)
            for f in out:
                fx, c = str(f.ext_hdr.get("FLXCALFN", "-")), str(f.ext_hdr.get("CTCALFN", "-"))
                ev["out"].append({"lvl": str(f.ext_hdr["DATALVL"]), "tok": tok(f.filename),
                                  "fx": -1 if fx == "-" else int(fx[2:-13]) if fx.startswith("fl") else -2,
                                  "ct": -1 if c == "-" else 0 if c == "" else 1 if c == "ct_CTP_CAL.fits" else -2})
            ev["same"] = len(out) == len(ds) and all(snap.arr(a) == snap.arr(b) for x, y in zip(ds, out) for a, b in ((x.data, y.data), (x.err, y.err), (x.dq, y.dq))) \
                and snap.arr(out.all_data) == snap.arr(ds.all_data) and snap.arr(out.all_dq) == snap.arr(ds.all_dq) and snap.arr(out.all_err) == snap.arr(ds.all_err)
            ev["others"] = all(rest(x) == rest(y) for x, y in zip(ds, out))
            ev["kept"] = snap.dataset(ds) == before
            # header edits of the result must not reach the input
            for f in out:
                f.ext_hdr["XTEST"] = 1
                f.pri_hdr["XTEST"] = 1
            ev["kept"] &= snap.dataset(ds) == before
            for f in out:
                del f.ext_hdr["XTEST"], f.pri_hdr["XTEST"]
            ds = out
        except Exception as e:
            ev["exc"] = vf.excname(e)
            ev["kept"] = snap.dataset(ds) == before
        evs.append(ev)
    return {"meta": {"n": n, "start": sc["start"]}, "ev": evs}


def check(prop, tier):
    deep = tier == "thorough"
    mc = vf.model_check("MCLevel")
    g1, r1 = vf.generate("MCLevel", "GenLevel", num=2500 if deep else 200, depth=12)
    g2, r2 = vf.generate("MCLevel", "GenLevelOne", num=600 if deep else 100, depth=12)
    r = vf.rng("levels")
    g1, g2 = (r.sample(g, min(len(g), 20000 if deep else 1200)) for g in (g1, g2))
    # the whole chain from every level, and every update on every uniform dataset
    lv = ["L1", "L2a", "L2b", "L3", "L4", "TDA"]
    g3 = [{"start": [{"lvl": l, "tok": l, "ct": -1, "fx": -1}] * 2, "hist": [{"op": "up", "k": k, "ct": c, "fx": 3} for k in order]}
          for l in lv for c in (0, 1) for order in ([1, 2, 3, 4, 5], [5, 4, 3, 2, 1])] * 3
    g3 += [{"start": [{"lvl": lv[x], "tok": lv[x], "ct": -1, "fx": -1} for x in xs], "hist": [{"op": "up", "k": k, "ct": 1, "fx": 3}]}
           for k in range(1, 6) for xs in ((k - 1, k - 1, k), (k, k - 1, k - 1), (k - 1, k, k - 1), (k - 1, max(k - 2, 0), k - 1), (k - 1, k - 1, k - 1, k - 1, 5))]
    traces = vf.pmap(job, list(enumerate(g1 + g2 + g3)))
    bad, val = vf.validate("LevelTrace", traces)
    return vf.report(traces, bad, [mc, r1, r2, val], describe=lambda t, e: str(e)[:900], extra={"updates": sum(len(t["ev"]) for t in traces)})
