"""S09: cropping against CropOps.tla; histories of one to three crops."""
import numpy as np
import vf, mk, snap
import corgidrp.data as data
import corgidrp.l3_to_l4 as l34

WT, PL = 128, 16384


def pattern(h, w, planes):
    a = (np.arange(h)[:, None] * WT + np.arange(w)[None, :]).astype(float)
    return a if planes == 0 else np.array([a + k * PL for k in range(planes)])


def hdrpos(h, kx, ky):
    return [vf.q(h[kx], 4), vf.q(h[ky], 4)] if kx in h else [vf.NAN, vf.NAN]


def observe(f, base):
    d = np.asarray(f.data)
    flat = d.reshape((-1,) + d.shape[-2:])
    y, x = divmod(int(flat[0, 0, 0]) % PL, WT)
    h, w = d.shape[-2:]
    ok = bool(np.array_equal(d, base[..., y:y + h, x:x + w]))
    return {"x": x, "y": y, "w": w, "h": h, "ok": ok, "nfov": f.ext_hdr.get("LSAMNAME") == "NFOV",
            "errok": bool(all(np.array_equal(f.err[l], d + l + 1) for l in range(f.err.shape[0]))),
            "dqok": bool(np.array_equal(np.asarray(f.dq).astype(float), d)),
            "star": hdrpos(f.ext_hdr, "STARLOCX", "STARLOCY"), "refp": hdrpos(f.pri_hdr, "CRPIX1", "CRPIX2"),
            "refe": hdrpos(f.ext_hdr, "CRPIX1", "CRPIX2"),
            "det": [int(f.ext_hdr.get("DETPIX0X", 0)), int(f.ext_hdr.get("DETPIX0Y", 0))],
            "naxis": [int(f.ext_hdr.get("NAXIS1", w)), int(f.ext_hdr.get("NAXIS2", h))], "name": f.filename}


def job(i):
    r = vf.rng("crop", i)
    planes = r.choice([0, 0, 0, 1, 2, 3])
    big = r.random() < .35
    h, w = (r.randint(62, 80), r.randint(62, 80)) if big else (r.randint(6, 26), r.randint(6, 26))
    nf = r.randint(1, 3)
    base = pattern(h, w, planes)
    star, nfov, ref, detp = r.random() < .9, r.random() < (.9 if big else .5), r.choice(["", "p", "e", "pe"]), r.random() < .5
    frames = []
    for k in range(nf):
        s = star if r.random() < .95 else not star
        lim = 8 if not big else 30
        e = {"LSAMNAME": "NFOV" if nfov else "WFOV"}
        lo, hi = (lambda n: (n / 2 - (3 if big else 4), n / 2 + (3 if big else 4)))(w)
        if s:
            e["STARLOCX"] = r.randint(int(4 * lo), int(4 * hi)) / 4.
            e["STARLOCY"] = r.randint(int(4 * (h / 2 - 4)), int(4 * (h / 2 + 4))) / 4.
        if "e" in ref:
            e["CRPIX1"], e["CRPIX2"] = r.randint(0, 200) / 4., r.randint(0, 200) / 4.
        p = {}
        if "p" in ref:
            p["CRPIX1"], p["CRPIX2"] = r.randint(0, 200) / 4., r.randint(0, 200) / 4.
        if detp:
            e["DETPIX0X"], e["DETPIX0Y"] = r.randint(0, 50), r.randint(0, 50)
        im = mk.image(base, err=(base + 1)[np.newaxis], dq=base.astype(np.uint16), name=mk.fname(k, "L3_"), e=e, p=p)
        frames.append(im)
    ds = data.Dataset(frames)
    start = [observe(f, base) for f in ds]
    ev = []
    for n in range(r.randint(1, 3)):
        H, Wd = ds[0].data.shape[-2:]
        if big and r.random() < .5:
            size = None
        else:
            size = [2 * r.randint(1, max(1, Wd // 2)), 2 * r.randint(1, max(1, H // 2))]
            if r.random() < .07:
                size[r.randint(0, 1)] += 1
            if r.random() < .4:
                size = [min(size)] * 2
        if r.random() < .5:
            centre = None
        else:
            centre = [r.choice([Wd // 2 - .5, r.randint(0, 4 * Wd) / 4., Wd / 2.]), r.choice([H // 2 - .5, r.randint(0, 4 * H) / 4., H / 2.])]
        kw = {}
        if size is not None:
            kw["sizexy"] = size[0] if size[0] == size[1] and r.random() < .5 else (np.array(size) if r.random() < .3 else list(size))
        if centre is not None:
            kw["centerxy"] = float(centre[0]) if centre[0] == centre[1] else tuple(centre)
        before = snap.dataset(ds)
        try:
            out, exc = l34.crop(ds, **kw), ""
        except Exception as ex:
            out, exc = None, vf.excname(ex)
        fr = []
        if exc == "":
            try:
                fr = [observe(f, base) for f in out]
            except Exception as ex:
                exc = "unobservable " + vf.excname(ex)
        ev.append({"size": [vf.NAN] * 2 if size is None else size, "exc": exc, "fr": fr,
                   "centre": [vf.NAN] * 2 if centre is None else [vf.q(c, 4) for c in centre],
                   "inputok": snap.dataset(ds) == before})
        if exc == "":
            ds = out
    return {"meta": {"i": i, "start": start}, "ev": ev}


def check(prop, tier):
    deep = tier == "thorough"
    mc = vf.model_check("MCCrop")
    traces = vf.pmap(job, [(i,) for i in range(6000 if deep else 800)])
    bad, val = vf.validate("CropTrace", traces)
    rep = vf.report(traces, bad, [mc, val], site=lambda t, e: "crop",
                    extra={"accepted_crops": sum(e["exc"] == "" for t in traces for e in t["ev"])})
    return rep
