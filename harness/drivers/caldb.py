"""C01, C02: the calibration database against CalDB.tla."""
import csv, os, tempfile, shutil
import numpy as np
import vf, mk
import corgidrp
import corgidrp.data as data
import corgidrp.caldb as caldb
from astropy.time import Time

NOCREATED = -999999
EXPT = [0.0, 60.0, 60.002, 60.5, 4.0]
LABEL = {k: ("NDFilterSweetSpot" if k == "NDFilterSweetSpotDataset" else k) for k in mk.KINDS}
SPECTYPE = {"Dark": "Dark", "Flat": "FlatField", "KGain": "KGain"}


def days8(mjd):
    return vf.q((float(mjd) - mk.MJD0) * 8, 1.0, tol=1e-4)


def text(v):
    s = "" if v is None else str(v)
    return "" if s in ("nan", "None") else s


def num(v, scale):
    return vf.q(v, scale) if text(v) != "" else vf.NAN


def table(path):
    """The projected rows of a CSV file."""
    if not os.path.exists(path):
        return []
    out = []
    with open(path, newline="") as f:
        for r in csv.DictReader(f):
            created = float(r["Date Created"])
            out.append({"path": r["Filepath"], "type": r["Type"], "mjd": days8(r["MJD"]), "exptime": num(r["EXPTIME"], 1000),
                        "nfiles": num(r["Files Used"], 1), "created": NOCREATED if created == -1 else days8(created),
                        "hash": r["Hash"], "vers": text(r["DRPVERSN"]), "obsnum": num(r["OBSNUM"], 1),
                        "nax1": num(r["NAXIS1"], 1), "nax2": num(r["NAXIS2"], 1), "opmode": text(r["OPMODE"]),
                        "emgain": num(r["EMGAIN_C"], 100), "excamt": num(r["EXCAMT"], 100)})
    return out


def entry(o, kind):
    """What the specification needs to know about a registered object."""
    h = o.ext_hdr
    return {"path": os.path.abspath(o.filepath), "label": LABEL[kind], "sctsrt": days8(Time(h["SCTSRT"]).mjd),
            "exptime": vf.q(h["EXPTIME"], 1000), "drpnfile": int(h["DRPNFILE"]) if "DRPNFILE" in h else -1,
            "drpctime": days8(Time(h["DRPCTIME"]).mjd) if "DRPCTIME" in h else NOCREATED,
            "hash": o.get_hash(), "vers": text(h["DRPVERSN"]) if "DRPVERSN" in h else "", "obsnum": int(o.pri_hdr["OBSNUM"]),
            "shape": list(o.data.shape), "opmode": text(h["OPMODE"]), "emgain": vf.q(h["EMGAIN_C"], 100),
            "excamt": vf.q(h["EXCAMT"], 100)}


def build(kind, path, mjd8, exptime, created8, r):
    """Write a calibration file with the given metadata and return the object as loaded from disk."""
    n = r.choice([1, 1, 2, 3])
    o = mk.product(kind, ds=mk.inputs(n), val=r.choice([0.5, 1.5, 2.5]),
                   p={"OBSNUM": r.randint(0, 50)},
                   e={"SCTSRT": mk.isot(mjd8), "EXPTIME": exptime, "OPMODE": r.choice(["", "HLC", "SPEC"]),
                      "EMGAIN_C": r.choice([1.0, 1.5, 5000.0]), "EXCAMT": r.choice([40.0, -110.25])})
    o.filedir, o.filename = os.path.split(path)
    if created8 is None:
        del o.ext_hdr["DRPCTIME"]
    else:
        o.ext_hdr["DRPCTIME"] = mk.isot(created8)
    o.save()
    return mk.CLS[kind](path)


class World:
    def __init__(self, tag):
        self.dir = tempfile.mkdtemp(prefix="caldb_", dir=vf.SCRATCH)
        self.csv = os.path.join(self.dir, "db.csv")
        self.h = {}
        self.ev = []
        self.r = vf.rng("caldb", tag)
        self.nscan = 0

    def observe(self):
        mem = {}
        for n, h in self.h.items():
            tmp = os.path.join(self.dir, "obs.csv")
            keep = h.filepath
            h.filepath = tmp
            h.save()
            h.filepath = keep
            mem[n] = table(tmp)
        return mem

    def log(self, op, h, td, exc="", **kw):
        e = {"op": op, "h": h, "td": td, "exc": exc, "mem": self.observe(), "disk": table(self.csv)}
        e.update(kw)
        self.ev.append(e)

    def call(self, f):
        try:
            return f(), ""
        except Exception as ex:
            return None, vf.excname(ex)

    def open(self, h):
        o, exc = self.call(lambda: caldb.CalDB(self.csv))
        if o is not None:
            self.h[h] = o
        self.log("open", h, True, exc)

    def load(self, h):
        self.log("load", h, True, self.call(self.h[h].load)[1])

    def save(self, h):
        self.log("save", h, True, self.call(self.h[h].save)[1])

    def create(self, h, td, kind, path, mjd8, x, c8):
        o = build(kind, path, mjd8, x, c8, self.r)
        _, exc = self.call((lambda: self.h[h].create_entry(o)) if td and self.r.random() < .5
                           else (lambda: self.h[h].create_entry(o, to_disk=td)))
        self.log("create", h, td, exc, entry=entry(o, kind))

    def remove(self, h, td, kind, path):
        if os.path.exists(path):
            o = mk.CLS[kind](path)
        else:
            o = build(kind, path, 0, 1.0, 0, self.r)
        _, exc = self.call(lambda: self.h[h].remove_entry(o, to_disk=td))
        self.log("remove", h, td, exc, entry=entry(o, kind))

    def scan(self, h, td, files, extra=True, sub=True):
        """files: (kind, name, mjd8, x, c8, in subfolder)"""
        d = os.path.join(self.dir, "scan%d" % self.nscan)
        self.nscan += 1
        os.makedirs(os.path.join(d, "inner", "deep"))
        ents = []
        for (kind, name, m, x, c, deep) in files:
            p = os.path.join(d, *([["inner"], ["inner", "deep"]][self.r.randint(0, 1)] if deep else []), name)
            o = build(kind, p, m, x, c, self.r)
            if sub or not deep:
                ents.append(entry(o, kind))
        if extra:
            mk.image([[1, 2], [3, 4]], name="science_L2b.fits", filedir=d).save()
            mk.image([[1, 2], [3, 4]], name="sci2_L1_.fits", filedir=os.path.join(d, "inner")).save()
            open(os.path.join(d, "notes.txt"), "w").write("x")
            shutil.copy(os.path.join(d, "science_L2b.fits"), os.path.join(d, "science.fits.bak"))
        _, exc = self.call(lambda: self.h[h].scan_dir_for_new_entries(d, look_in_subfolders=sub, to_disk=td))
        self.log("scan", h, td, exc, entries=ents)

    def get(self, h, td, kind, frame):
        fr = None
        if frame is not None:
            fr = mk.image([[1, 2], [3, 4]], e={"SCTSRT": mk.isot(frame[0]), "EXPTIME": frame[1]})
        o, exc = self.call(lambda: self.h[h].get_calib(fr, mk.CLS[kind], to_disk=td))
        self.log("get", h, td, exc, label=LABEL[kind], noframe=frame is None,
                 frame={"mjd": 0, "exptime": 0} if frame is None else {"mjd": frame[0], "exptime": vf.q(frame[1], 1000)},
                 retpath="" if o is None else os.path.abspath(o.filepath),
                 rettype="" if o is None else ("?" if type(o) is not mk.CLS[kind] else LABEL[kind]))

    def getbad(self, h, td, cls):
        fr = mk.image([[1, 2], [3, 4]])
        _, exc = self.call(lambda: self.h[h].get_calib(fr, cls, to_disk=td))
        self.log("getbad", h, td, exc)

    def done(self, meta):
        shutil.rmtree(self.dir, ignore_errors=True)
        return {"meta": meta, "ev": self.ev}


def norm(paths, ev):
    """Shorten absolute paths in a trace so evidence does not depend on the scratch directory."""
    return ev


def replay(i, hist):
    """Replay one history generated from GenCalDB.tla."""
    w = World(("gen", i))
    path = lambda p: os.path.join(w.dir, "cal%d.fits" % p)
    types = ["Dark", "Dark", "Dark", "Flat", "Flat", "KGain", "Dark"]
    kind = lambda ty: SPECTYPE[ty]
    for a in hist:
        h, td = a["h"], a["td"]
        if a["op"] == "open":
            w.open(h)
        elif a["op"] == "load":
            w.load(h)
        elif a["op"] == "save":
            w.save(h)
        elif a["op"] == "create":
            r = a["r"]
            w.create(h, td, kind(r["type"]), path(r["path"]), r["mjd"] * 3, EXPT[r["exptime"]], r["created"] * 5)
        elif a["op"] == "remove":
            w.remove(h, td, kind(types[a["p"] - 1]), path(a["p"]))
        elif a["op"] == "scan":
            w.scan(h, td, [(kind(r["type"]), "s%d.fits" % r["path"], r["mjd"] * 3, EXPT[r["exptime"]], r["created"] * 5,
                            w.r.random() < .5) for r in a["rs"]], sub=w.r.random() < .7)
        elif a["op"] == "get":
            w.get(h, td, kind(a["ty"]), None if a["x"] == 0 else (a["mjd"] * 3 + w.r.choice([0, 1]), EXPT[a["x"]]))
        if h not in w.h:
            break
    return w.done({"source": "GenCalDB", "index": i})


def randomized(i, nops):
    """All thirteen types, all lookups; the table grows larger than in the generated histories."""
    w = World(("rnd", i))
    r = w.r
    kinds = list(mk.KINDS)
    r.shuffle(kinds)
    kinds = kinds[:5] + ["Dark", "Dark", "Dark"]
    w.open("h1")
    w.open("h2")
    known = []
    for n in range(nops):
        h = r.choice(["h1", "h2", "h1"])
        td = r.random() < .75
        u = r.random()
        if u < .42:
            k = r.choice(kinds)
            if known and r.random() < .3:
                k, p = r.choice(known)
            else:
                p = os.path.join(w.dir, "f%d.fits" % r.randint(0, 40))
                if os.path.exists(p):
                    continue
                known.append((k, p))
            w.create(h, td, k, p, r.randint(-40, 40), r.choice(EXPT[1:]), r.choice([None, 1, 2, 3, 40, 80]))
        elif u < .52 and known:
            k, p = r.choice(known)
            w.remove(h, td, k, p)
        elif u < .56:
            w.scan(h, td, [(r.choice(kinds), "c%d.fits" % j, r.randint(-9, 9), r.choice(EXPT[1:]), r.choice([None, 7, 9]), r.random() < .4)
                           for j in range(r.randint(0, 3))], sub=r.random() < .6)
        elif u < .60:
            w.load(h)
        elif u < .63:
            w.save(h)
        elif u < .66:
            w.getbad(h, td, r.choice([data.Image, data.Dataset, str]))
        else:
            w.get(h, td, r.choice(kinds), None if r.random() < .25 else (r.randint(-44, 44), r.choice(EXPT[1:])))
    # every type once more from every handle
    for h in ("h1", "h2"):
        for k in sorted(set(kinds)):
            w.get(h, h == "h1", k, (r.randint(-44, 44), r.choice(EXPT[1:])))
            w.get(h, False, k, None)
    return w.done({"source": "random", "index": i})


def check(prop, tier):
    deep = tier == "thorough"
    mc = vf.model_check("MCCalDB", "MCCalDBDeep" if deep else "MCCalDB")
    hists, gen = vf.generate("GenCalDB", num=400 if deep else 48, depth=16)
    hists = [h for h in hists]
    traces = vf.pmap(replay, list(enumerate(hists[:600 if deep else 48])))
    traces += vf.pmap(randomized, [(i, 60 if deep else 26) for i in range(80 if deep else 16)])
    traces = [t for t in traces if t["ev"]]
    bad, val = vf.validate("CalDBTrace", traces)
    bad = [(t, l, [c for c in f if c.startswith(prop)] ) for t, l, f in bad]
    bad = [b for b in bad if b[2]]
    rep = vf.report(traces, bad, [mc, gen, val], site=lambda tr, e: e["op"])
    rep["assumptions"] = ["one process at a time: the database documents that it is not parallelism-safe",
                          "times are eighths of days and exposure times thousandths of seconds; ties may be broken either way"]
    return rep
