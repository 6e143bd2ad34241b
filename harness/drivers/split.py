"""M05: splitting a dataset against SplitOps.tla."""
import math
import numpy as np
import vf, mk
import corgidrp.data as data

SCHEMES = [[1, 2, 10], [0, -1, 1], [1.0, 1.0000001, -2.5], [0.1, 0.3, 30.0], ["SCI", "ENG", "CAL"], ["a", "A", "ab"], [True, False, True],
           ["9", "10", "1"], ["", "x", "y"], [1, None, 2], ["u", None, "w"], [5, 5.5, 6], ["long" * 12 + "1", "long" * 12 + "2", "s"], [60000.1, 60000.2, 60000.25]]
PRI = ["OBSNUM", "VISTYPE", "TARGET", "PSFREF", "KPA"]
EXT = ["EXPTIME", "EMGAIN_C", "CFAMNAME", "KEXT", "KGAINPAR"]


def canon(v):
    """One identity per value, however numpy/pandas typed it."""
    if v is None:
        return "none"
    if isinstance(v, (bool, np.bool_)):
        return "n%.12g" % float(v)
    s = str(v).strip()
    if s in ("True", "False"):
        return "n%.12g" % float(s == "True")
    if s in ("nan", "None", "", "<NA>"):
        return "none" if s else "s"
    try:
        return "n%.12g" % float(s)
    except ValueError:
        return "s" + s


def job(n, cases):
    evs = []
    for c in cases:
        r = vf.rng("split", n, len(evs), str(c))
        vals = c["vals"]
        nk = len(vals[0])
        kp = r.randint(0, nk)
        pri, ext = r.sample(PRI, kp), r.sample(EXT, nk - kp)
        kp = len(pri)
        schemes = [r.choice(SCHEMES) for _ in range(nk)]
        ids, frames = {}, []
        tup = []
        for i, t in enumerate(vals):
            im = mk.image(np.full((2, 2), float(i)), dq=np.full((2, 2), i, dtype=np.uint16), name=mk.fname(i))
            row = []
            for k, v in enumerate(t):
                x = schemes[k][(v - 1) % 3]
                (im.pri_hdr if k < kp else im.ext_hdr)[(pri + ext)[k]] = x
                row.append(ids.setdefault(canon(x), len(ids) + 1))
            tup.append(row)
            frames.append(im)
        ev = {"vals": tup, "gs": [], "exc": "", "content": True, "keys": pri + ext, "schemes": str(schemes)}
        ds = data.Dataset(frames)
        kw = {}
        if pri or (ext and r.random() < .3):
            kw["prihdr_keywords"] = pri
        if ext or (pri and r.random() < .3):
            kw["exthdr_keywords"] = ext
        try:
            gs, us = ds.split_dataset(**kw)
            for g, u in zip(gs, us):
                u = u if isinstance(u, tuple) else (u,)
                ks = [int(f.filename.split("T000")[1][:4]) for f in g]
                ev["gs"].append({"m": [k + 1 for k in ks], "v": [ids.get(canon(x), 0) for x in u]})
                ev["content"] &= len(g.frames) == len(g.all_data) and all(
                    bool(np.all(f.data == k) and np.all(f.dq == k) and np.all(a == k) and np.all(q == k))
                    for k, f, a, q in zip(ks, g.frames, g.all_data, g.all_dq))
            ev["content"] &= len(gs) == len(us)
        except Exception as e:
            ev["exc"] = vf.excname(e)
        evs.append(ev)
    return {"meta": {"n": n}, "ev": evs}


def check(prop, tier):
    mc = vf.model_check("MCSplit")
    gen, g = vf.enumerate_states("MCSplit", "GenSplit")
    r = vf.rng("split")
    deep = tier == "thorough"
    cases = gen * 3 if deep else r.sample(gen, 1500)
    for _ in range(4000 if deep else 400):
        n, k = r.randint(2, 12), r.randint(1, 5)
        cases.append({"vals": [[r.randint(1, r.choice([1, 2, 3])) for _ in range(k)] for _ in range(n)]})
    cases += [{"vals": [[]] * n} for n in (1, 2, 3)]
    r.shuffle(cases)
    traces = vf.pmap(job, list(enumerate(vf.chunks(cases, 64))))
    bad, val = vf.validate("SplitTrace", traces)
    return vf.report(traces, bad, [mc, g, val], describe=lambda t, e: str(e)[:900], extra={"splits": sum(len(t["ev"]) for t in traces)})
