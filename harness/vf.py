"""Common machinery: TLC runner, scratch directories, worker pool, trace validation."""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback, random, hashlib
import multiprocessing as mp

HERE = os.environ.get("VF_HERE", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SCRATCH = os.environ.get("VF_SCRATCH") or tempfile.mkdtemp(prefix="vf_")
SPECS = os.path.join(HERE, "specs")
SEED = int(os.environ.get("VERIF_SEED", "1"))
JAVA = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx6g", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]


class MachineryError(Exception):
    pass


class ObservationFailure(Exception):
    """The code under test behaved so unexpectedly that the driver could not observe it."""


def rng(*tags):
    """Deterministic random generator depending on VERIF_SEED and the tags."""
    h = hashlib.sha256(repr((SEED,) + tags).encode()).hexdigest()
    return random.Random(int(h[:16], 16))


def scratch(name):
    d = tempfile.mkdtemp(prefix=name + "_", dir=SCRATCH)
    return d


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m and not self.generated:
            self.generated = int(m[-1])
        self.json = []
        for line in out.splitlines():
            if line.startswith('"VJ '):
                self.json.append(json.loads(json.loads(line)[3:]))

    @property
    def ok(self):
        return self.rc == 0


def tlc(module, cfg=None, env=None, workers=8, args=(), timeout=800, cwd=None):
    """Run TLC on specs/<module>.tla with specs/<cfg>.cfg in a scratch metadir."""
    meta = scratch("tlc")
    e = dict(os.environ)
    e.update(env or {})
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    cmd = list(JAVA)
    cmd += ["-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
            "-config", os.path.join(SPECS, (cfg or module) + ".cfg")]
    cmd += list(args) + [os.path.join(SPECS, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(p.stdout, p.returncode, time.time() - t0)


def model_check(module, cfg=None, args=(), timeout=800, workers=8):
    """Exhaustive (or simulated) check of the model itself; any error is a machinery error."""
    r = tlc(module, cfg, args=["-deadlock"] + list(args), timeout=timeout, workers=workers)
    if not r.ok:
        raise MachineryError("model check of %s failed (rc %d):\n%s" % (cfg or module, r.rc, r.out[-4000:]))
    return r


def generate(module, cfg=None, num=50, depth=12, seed=None, timeout=300):
    """Behaviours of a Gen spec: every printed JSON history, deduplicated, in a fixed order."""
    r = tlc(module, cfg, args=["-deadlock", "-simulate", "num=%d" % num, "-depth", str(depth),
                               "-seed", str(SEED if seed is None else seed)],
            workers=1, timeout=timeout)
    if r.rc != 0:
        raise MachineryError("generation from %s failed:\n%s" % (module, r.out[-4000:]))
    seen, out = set(), []
    for j in r.json:
        k = json.dumps(j, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(j)
    return out, r


def enumerate_states(module, cfg=None, timeout=300):
    """Exhaustively enumerate a Gen spec's scenarios (every printed JSON record)."""
    r = tlc(module, cfg, args=["-deadlock"], workers=1, timeout=timeout)
    if r.rc != 0:
        raise MachineryError("enumeration from %s failed:\n%s" % (module, r.out[-4000:]))
    seen, out = set(), []
    for j in r.json:
        k = json.dumps(j, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(j)
    out.sort(key=lambda j: json.dumps(j, sort_keys=True))
    return out, r


def validate(module, traces, cfg=None, timeout=800, extra_env=None):
    """Check recorded traces against the trace spec.

    traces: list of dicts {"meta": {...}, "ev": [event, ...]} (each with at least one event).
    Returns (list of (trace index, event index, [clauses]), TLCResult); a trace the spec neither
    accepted nor rejected is a machinery error.
    """
    if not traces:
        raise MachineryError("no traces recorded for %s" % module)
    bad, done, res = [], set(), None
    path = os.path.join(scratch("trace"), "traces.json")
    with open(path, "w") as f:
        json.dump(traces, f, default=plain)
    env = {"TRACE": path}
    env.update(extra_env or {})
    r = tlc(module, cfg, env=env, args=["-deadlock"], timeout=timeout)
    for j in r.json:
        if j["k"] == "OK":
            done.add(j["t"])
        elif j["k"] == "V":
            done.add(j["t"])
            bad.append((j["t"] - 1, j["l"] - 1, sorted(j["f"])))
    if r.rc != 0 or len(done) != len(traces):
        raise MachineryError("trace validation of %s: rc %d, %d of %d traces decided\n%s" % (
            module, r.rc, len(done), len(traces), "\n".join(
                l for l in r.out.splitlines() if not l.startswith('"VJ'))[-4000:]))
    uniq = {}
    for b in bad:
        uniq[(b[0], b[1], tuple(b[2]))] = b
    return [uniq[k] for k in sorted(uniq)], r


# ---------------------------------------------------------------- parallel drivers
def _call(job):
    fn, args = job
    try:
        return ("ok", fn(*args))
    except BaseException as exc:      # a driver bug, not an observation
        return ("err", "%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc()))


def pmap(fn, argslist, procs=8, timeout=700):
    """Run fn(*args) for each args in forked workers, preserving order.

    The per-job time limit makes a non-terminating call in the code under test visible:
    the job's result is then ("timeout", None)."""
    argslist = list(argslist)
    ctx = mp.get_context("fork")
    out = [None] * len(argslist)
    with ctx.Pool(procs, maxtasksperchild=None) as pool:
        rs = [pool.apply_async(_call, ((fn, a),)) for a in argslist]
        deadline = time.time() + timeout
        for i, r in enumerate(rs):
            try:
                out[i] = r.get(max(0.1, deadline - time.time()))
            except mp.TimeoutError:
                out[i] = ("timeout", None)
        pool.terminate()
    res = []
    for o in out:
        if o[0] == "err":
            raise ObservationFailure("driver failed: " + o[1])
        if o[0] == "timeout":
            raise ObservationFailure("the driven calls did not finish in time")
        res.append(o[1])
    return res


def chunks(lst, n):
    lst = list(lst)
    k = max(1, (len(lst) + n - 1) // n)
    return [lst[i:i + k] for i in range(0, len(lst), k)]


def plain(o):
    """JSON image of numpy scalars and arrays."""
    if hasattr(o, "tolist"):
        return o.tolist()
    raise TypeError("not serializable: %r" % (o,))


def excname(e):
    return type(e).__name__


def report(traces, bad, runs, extra=None, samples=3, site=None, describe=None):
    """Build a check's result from validate()'s verdicts.

    runs: TLCResults (model checks, generation, validation) whose states are counted."""
    viol = []
    for (t, l, clauses) in bad:
        ev = traces[t]["ev"][l] if l < len(traces[t]["ev"]) else None
        for c in clauses:
            viol.append({"clause": c, "site": site(traces[t], ev) if site else "",
                         "what": describe(traces[t], ev) if describe else json.dumps(ev, default=str)[:1500],
                         "case": {"trace": t, "event": l, "meta": traces[t].get("meta"), "ev": traces[t]["ev"][:l + 1]}})
    cov = {"states": sum(r.distinct for r in runs), "transitions": sum(r.generated for r in runs),
           "traces_validated_against_impl": len(traces),
           "events_validated": sum(len(t["ev"]) for t in traces),
           "samples": [{"meta": t.get("meta"), "ev": json.loads(json.dumps(t["ev"][:2], default=str))}
                       for t in traces[:samples]]}
    # keep the evidence readable
    cov["samples"] = [x if len(json.dumps(x)) < 4000 else {"meta": x["meta"], "ev": json.dumps(x["ev"])[:3000] + "..."}
                      for x in cov["samples"]]
    cov.update(extra or {})
    return {"violations": viol, "coverage": cov}


def merge(a, b):
    """One result out of two drivers' results for the same property."""
    ca, cb = a["coverage"], b["coverage"]
    cov = dict(cb)
    cov.update(ca)
    for k in ("states", "transitions", "traces_validated_against_impl", "events_validated"):
        cov[k] = ca.get(k, 0) + cb.get(k, 0)
    cov["samples"] = ca["samples"][:2] + cb["samples"][:2]
    return {"violations": a["violations"] + b["violations"], "coverage": cov}


def q(x, scale=1.0, tol=1e-6):
    """Exact integer image of a float: round(x*scale), or a sentinel if x*scale is not an integer."""
    import math
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return INEXACT
    v = x * scale
    r = round(v)
    if abs(v - r) > tol * max(1.0, abs(v)) or abs(r) >= 2 ** 30:
        return INEXACT
    return int(r)


NAN = -1000000007
INEXACT = -1000000009
