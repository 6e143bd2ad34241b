"""S03: saturation and cosmic-ray flags against CosmicOps.tla."""
import numpy as np
import vf, mk
import corgidrp.data as data
import corgidrp.l1_to_l2a as l1
import corgidrp.detector as det

S = 4
NOGAIN = -1000000005


def geom(R, C, r0, r1, c0, c1):
    """full-frame geometry: image rows r0..r1, cols c0..c1 (0-based, inclusive), prescan left, serial right"""
    g = {"frame_rows": R, "frame_cols": C,
         "image": {"rows": r1 - r0 + 1, "cols": c1 - c0 + 1, "r0c0": [r0, c0]},
         "prescan": {"rows": R, "cols": c0, "r0c0": [0, 0], "col_start": 0, "col_end": c0},
         "prescan_reliable": {"rows": R, "cols": c0, "r0c0": [0, 0]},
         "parallel_overscan": {"rows": R - r1 - 1, "cols": c1 - c0 + 1, "r0c0": [r1 + 1, c0]},
         "serial_overscan": {"rows": R, "cols": C - c1 - 1, "r0c0": [0, c1 + 1]}}
    return g


def job(i, dense, deep):
    r = vf.rng("cosmic", i)
    R, C = r.choice([(5, 12), (6, 9), (4, 16), (8, 8), (1, 20)])
    full = R > 4 and r.random() < .3
    k = r.choice([1., 2., 4., 8.])
    em = r.choice([64., 128.])                     # gain register well, DN
    pp = r.choice([8., 16., 32.])                  # image well, DN
    sat8, n, tail, box = r.choice([4, 6, 7, 8]), r.choice([1, 1, 2, 3, 4]), r.choice([0, 1, 2, 3, 5, 10, 25]), r.choice([0, 1, 2, 3])
    plat8 = r.choice([x for x in (4, 6, 7, 8) if x <= sat8])
    nf = r.choice([1, 1, 2, 3])
    fr, hs = [], []
    satv, platv = em * sat8 / 8, em * plat8 / 8
    for f in range(nf):
        h = {"m": r.choice([NOGAIN, NOGAIN, 1, 2, 4]), "a": r.choice([-1, -1, 1, 2, 8]), "c": r.choice([1, 2, 4, 16])}
        g = h["m"] if h["m"] != NOGAIN else h["a"] if h["a"] > 0 else h["c"]
        ppv = min(pp * g, em) * sat8 / 8
        alpha = [0., 0., 1., ppv, ppv - .25, ppv + .25, satv, satv, satv - .25, satv + 1, platv, platv - .25, platv, -3., em * 3]
        if f == 1 and r.random() < .5:
            alpha = [0., 1., -2.]
        a = np.array([[0.] * C] * R)
        if dense:
            for x in range(R):
                if r.random() < .7:
                    a[x] = [r.choice(alpha) for _ in range(C)]
        else:
            for _ in range(r.choice([0, 1, 1, 2, 3])):       # isolated plateaus, often at the edges
                x, c, ln = r.choice([0, R - 1, r.randrange(R)]), r.choice([0, C - 1, r.randrange(C), r.randrange(C)]), r.choice([1, 1, 2, 3, 4, 5])
                a[x, c:c + ln] = r.choice([satv, satv, satv + 5, satv - .25])
                if r.random() < .4 and c > 0:
                    a[x, c - 1] = platv
                if r.random() < .4 and c + ln < C:
                    a[x, c + ln] = platv
        d = np.array([[r.choice([0, 0, 0, 0, 1, 4, 32, 64, 128, 255]) for _ in range(C)] for _ in range(R)], dtype=np.uint16)
        fr.append((a, d))
        hs.append(h)
    arr = r.choice(["SCI", "SCI", "ENG"])
    frames = []
    for f, ((a, d), h) in enumerate(zip(fr, hs)):
        e = {"EMGAIN_C": float(h["c"]), "EMGAIN_A": float(h["a"]), "ARRTYPE": arr}
        if h["m"] != NOGAIN:
            e["EMGAIN_M"] = float(h["m"])
        frames.append(mk.image(a, dq=d, name=mk.fname(f, "L1"), e=e))
    usek = r.random() < .5
    dp = mk.product("DetectorParams", params={"FWC_PP_E": pp * k, "FWC_EM_E": em * k, "KGAINPAR": k * (3 if usek else 1)})
    kg = mk.product("KGain", val=k, e={"RN_ERR": 1.}) if usek else None
    kw = {"sat_thresh": sat8 / 8., "plat_thresh": plat8 / 8., "cosm_filter": n, "cosm_box": box, "cosm_tail": tail}
    gm = (1, R, 1, C)
    if full:
        r0, c0 = r.choice([0, 1]), r.choice([1, 2])
        r1, c1 = R - 1 - r.choice([1, 2]), C - 1 - r.choice([1, 2])
        kw["mode"] = "full"
        kw["detector_regions"] = {arr: geom(R, C, r0, r1, c0, c1)}
        gm = (r0 + 1, r1 + 1, c0 + 1, c1 + 1)
    elif r.random() < .3:
        kw["mode"] = "image"
    ds = data.Dataset(frames)
    ev = {"frames": [{"rows": [[vf.q(x, S) for x in row] for row in a], "d": [[int(x) for x in row] for row in d], "h": h} for (a, d), h in zip(fr, hs)],
          "pp": vf.q(pp, S), "em": vf.q(em, S), "ppe": vf.q(pp * k, S), "eme": vf.q(em * k, S), "sat8": sat8, "plat8": plat8, "n": n, "tail": tail, "box": box,
          "full": full, "geom": list(gm), "exc": "", "out": []}
    try:
        o = l1.detect_cosmic_rays(ds, dp, *([] if kg is None else [kg]), **kw)
        for f in o:
            ev["out"].append({"d": [[int(x) for x in row] for row in f.dq], "sat": vf.q(f.ext_hdr["SAT_DN"], 8 * S),
                              "pp": vf.q(f.ext_hdr["FWC_PP_E"], S), "em": vf.q(f.ext_hdr["FWC_EM_E"], S)})
    except Exception as e:
        ev["exc"] = vf.excname(e)
    return {"meta": {"i": i, "full": full, "n": n, "tail": tail, "box": box}, "ev": [ev]}


def check(prop, tier):
    deep = tier == "thorough"
    mc = vf.model_check("MCCosmic", "MCCosmicDeep" if deep else "MCCosmic")
    jobs = [(i, i % 3 == 0, deep) for i in range(3000 if deep else 400)]
    traces = vf.pmap(job, jobs)
    bad, val = vf.validate("CosmicTrace", traces)
    return vf.report(traces, bad, [mc, val], describe=lambda t, e: str(t["meta"]) + " exc=" + e["exc"],
                     extra={"frames": sum(len(e["frames"]) for t in traces for e in t["ev"])})
