"""S01: every step uses the same EM gain, against EmGainOps.tla."""
import itertools
import numpy as np
import vf, mk
import corgidrp.data as data
import corgidrp.l1_to_l2a as l1
import corgidrp.l2a_to_l2b as l2a
import corgidrp.darks as darks
import corgidrp.photon_counting as pc

NOGAIN = -1000000005
G = [1, 2, 4, 8, 16]
NLARR = np.array([[np.nan, 1., 101.], [0., .5, .5], [1., 1., 2.], [100000., 1., 2.]])
STEPS = ["division", "saturation", "plateau", "nonlin", "photnoise", "synthdark", "darksub", "pc"]
GEOM = {"SCI": {"frame_rows": 4, "frame_cols": 6, "image": {"rows": 2, "cols": 2, "r0c0": [1, 3]},
                "prescan": {"rows": 4, "cols": 3, "r0c0": [0, 0], "col_start": 1, "col_end": 3},
                "prescan_reliable": {"rows": 4, "cols": 2, "r0c0": [0, 1]},
                "parallel_overscan": {"rows": 1, "cols": 2, "r0c0": [3, 3]},
                "serial_overscan": {"rows": 4, "cols": 1, "r0c0": [0, 5]}}}


def hdr(h):
    d = {"EMGAIN_C": float(h["c"]), "EMGAIN_A": float(h["a"])}
    if h["m"] != NOGAIN:
        d["EMGAIN_M"] = float(h["m"])
    return d


def frames(hs, v, shape=(2, 2), err=None, **kw):
    return data.Dataset([mk.image(np.full(shape, float(v)), name=mk.fname(i), e=dict(hdr(h), **kw),
                                  err=None if err is None else np.full(shape, err)) for i, h in enumerate(hs)])


def pcframes(hs):
    ds = []
    for i, h in enumerate(hs):
        a = np.zeros((2, 2))
        a[0, 0] = 50.
        if i % 2 == 0:
            a[0, 1] = 50.
        if i % 4 == 0:
            a[1, 0] = 50.
        ds.append(mk.image(a, name=mk.fname(i), e=dict(hdr(h), RN=1.0, ISPC=True)))
    return data.Dataset(ds)


def pcsig(ds):
    o = pc.get_pc_mean(ds, T_factor=.5, pc_ecount_max=1e9, niter=2)
    return [vf.q(round(float(x) * 1e6)) for x in o[0].data.ravel()]


def observe(step, hs):
    if step == "division":
        return [vf.q(1680 / f.data[0, 0]) for f in l2a.em_gain_division(frames(hs, 1680.))]
    if step in ("saturation", "plateau"):
        dp = mk.product("DetectorParams", params={"FWC_PP_E": 10., "FWC_EM_E": 1e6, "KGAINPAR": 2.})
        if step == "saturation":
            return [vf.q(f.ext_hdr["SAT_DN"] / 5. / .5) for f in l1.detect_cosmic_rays(frames(hs, 1.), dp, sat_thresh=.5)]
        # one column per whole gain: pixel value just at 5*g*0.5; the gain is the number of saturated pixels
        ds = frames(hs, 0., shape=(2, 120))
        for f in ds:
            f.data[0, :] = 2.5 * (np.arange(120) + 1) + 1e-6
        out = l1.detect_cosmic_rays(ds, dp, sat_thresh=.5)
        return [121 - int(np.sum((f.dq[0] & 32) > 0)) for f in out]
    if step == "nonlin":
        nl = mk.product("NonLinearityCalibration", arr=NLARR)
        return [vf.q(f.data[0, 0] - 99) for f in l1.correct_nonlinearity(frames(hs, 100.), nl)]
    if step == "photnoise":
        return [vf.q(f.err[0, 0, 0] ** 2 / 49.) for f in l2a.add_photon_noise(frames(hs, 49.))]
    if step in ("synthdark", "darksub"):
        fpn = np.full((4, 6), 1680.)
        nm = mk.product("DetectorNoiseMaps", arr=np.stack([fpn, 0 * fpn, 0 * fpn]), err=np.zeros((1, 3, 4, 6)), dq=np.zeros((3, 4, 6), dtype=np.uint16))
        d = vf.scratch("dk")
        nm.save(filedir=d)                # headers as read from a file
        nm = data.DetectorNoiseMaps(nm.filepath)
        if step == "synthdark":
            return [vf.q(1680. / darks.build_synthesized_dark(frames(hs, 0., (4, 6)), nm, detector_regions=GEOM).data[0, 0])]
        return [vf.q(-1680. / f.data[0, 0]) for f in l2a.dark_subtraction(frames(hs, 0.), nm, detector_regions=GEOM, outputdir=d)]
    if step == "pc":
        return [pcsig(pcframes(hs))]


def job(i, step, hs):
    ev = {"step": step, "frames": [{"h": h} for h in hs], "exc": "", "obs": [], "sig": []}
    if step == "pc":
        for g in G:
            ev["sig"].append([g, pcsig(pcframes([{"m": NOGAIN, "a": 0, "c": g}] * len(hs)))])
    try:
        ev["obs"] = observe(step, hs)
    except Exception as e:
        ev["exc"] = vf.excname(e)
    return {"meta": {"step": step, "i": i}, "ev": [ev]}


def check(prop, tier):
    mc = vf.model_check("MCEmGain")
    r = vf.rng("emgain")
    allh = [{"m": m, "a": a, "c": c} for m in [NOGAIN] + G for a in [-1, 0] + G for c in G]
    jobs = []
    for step in STEPS:
        single = step in ("synthdark", "pc", "darksub")
        for k in range(60 if tier == "thorough" else 14):
            n = r.choice([1, 2, 3, 5]) if step != "pc" else 4
            hs = [r.choice(allh) for _ in range(n)]
            if single:           # one gain per group
                hs = [dict(hs[0]) for _ in hs]
            jobs.append((len(jobs), step, hs))
        if not single:           # every header combination once, in groups of seven
            for c in vf.chunks(r.sample(allh, len(allh)), 30):
                jobs.append((len(jobs), step, c))
        else:
            for h in r.sample(allh, len(allh) if tier == "thorough" else 40):
                jobs.append((len(jobs), step, [h] * (4 if step == "pc" else 2)))
    traces = vf.pmap(job, jobs)
    bad, val = vf.validate("EmGainTrace", traces)
    return vf.report(traces, bad, [mc, val], site=lambda t, e: e["step"], describe=lambda t, e: str(e)[:800],
                     extra={"calls": len(jobs), "steps": STEPS})
