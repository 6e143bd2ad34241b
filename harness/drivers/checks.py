"""K07: argument checks against Checks.tla."""
import decimal, fractions
import numpy as np
import vf
import corgidrp.check as check_mod

FUNCS = ["real_scalar", "real_positive_scalar", "real_nonnegative_scalar", "scalar_integer", "positive_scalar_integer",
         "nonnegative_scalar_integer", "real_array", "oneD_array", "twoD_array", "twoD_square_array", "threeD_array",
         "string", "boolean", "dictionary"]


def d(scalar=False, cplx=False, int=False, sign=0, str=False, bool=False, dict=False, ndim=-1, square=False, realdt=False):
    return locals()


def sgn(x):
    return (x > 0) - (x < 0)


def values(deep):
    out = []
    for x in (-3, -1, 0, 1, 2, 10 ** 12, -10 ** 12):
        out.append((x, d(scalar=True, int=True, sign=sgn(x), ndim=0)))
    for t in (np.int8, np.int16, np.int32, np.int64):
        for x in (-2, 0, 5):
            out.append((t(x), d(scalar=True, int=True, sign=sgn(x), ndim=0)))
    for t in (np.uint8, np.uint16, np.uint64):
        for x in (0, 7):
            out.append((t(x), d(scalar=True, int=True, sign=sgn(x), ndim=0)))
    for t in (float, np.float32, np.float64):
        for x in (-2.5, -1e-30, 0.0, 1e-30, 3.0, float("inf"), float("-inf")):
            out.append((t(x), d(scalar=True, sign=sgn(x), ndim=0)))
    out.append((-0.0, d(scalar=True, sign=0, ndim=0)))
    out.append((fractions.Fraction(-1, 3), d(scalar=True, sign=-1, ndim=0)))
    out.append((fractions.Fraction(2, 3), d(scalar=True, sign=1, ndim=0)))
    for x in (1j, 2 + 0j, -1 - 1j, np.complex64(3), np.complex128(-2j)):
        out.append((x, d(scalar=True, cplx=True, ndim=0)))
    out.append((True, d(scalar=True, int=True, sign=1, bool=True, ndim=0)))
    out.append((False, d(scalar=True, int=True, sign=0, bool=True, ndim=0)))
    for x in ("", "abc", "1", b"xy"):
        out.append((x, d(str=True, ndim=0)))
    out.append(({}, d(dict=True, ndim=0)))
    out.append(({"a": 1}, d(dict=True, ndim=0)))
    out.append((None, d(ndim=0)))
    for shape in [(), (0,), (1,), (4,), (1, 1), (2, 2), (2, 3), (3, 2), (5, 5), (0, 0), (0, 3), (1, 2, 3), (2, 2, 2), (1, 1, 1), (1, 1, 2, 2), (2, 2, 2, 2)]:
        n, sq = len(shape), len(set(shape)) <= 1
        for dt in (bool, np.uint8, np.int16, np.int64, np.float32, float):
            out.append((np.zeros(shape, dtype=dt), d(ndim=n, square=sq, realdt=True)))
        for dt in (np.complex64, complex):
            out.append((np.ones(shape, dtype=dt), d(ndim=n, square=sq, cplx=True)))
    out.append(([1, 2, 3], d(ndim=1, square=True, realdt=True)))
    out.append(((1.5,), d(ndim=1, square=True, realdt=True)))
    out.append(([[1, 2], [3, 4]], d(ndim=2, square=True, realdt=True)))
    out.append(([[1, 2, 3], [3, 4, 5]], d(ndim=2, square=False, realdt=True)))
    out.append(([[[1.]]], d(ndim=3, square=True, realdt=True)))
    out.append(([1j, 2], d(ndim=1, square=True, cplx=True)))
    out.append((["a", "b"], d(ndim=1, square=True)))
    out.append(([None, 1], d(ndim=1, square=True)))
    return out


class MyErr(Exception):
    pass


class MyErr2(ValueError):
    pass


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        x, y = np.asarray(a), np.asarray(b)
        return bool(x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y))
    return type(a) is type(b) and (a == b or a is b)


def call(f, v, name, exc):
    try:
        return getattr(check_mod, f)(v, name, exc), "", ""
    except Exception as ex:
        return None, type(ex).__name__, str(ex)


def check(prop, tier):
    deep = tier == "thorough"
    r = vf.rng("checks")
    mc = vf.model_check("MCChecks")
    traces = []
    names = ["gain", "my var_name 7", "x"]
    excs = [MyErr, MyErr2, ValueError, TypeError, KeyError]
    for f in FUNCS:
        ev = []
        for v, desc in values(deep):
            for exc in (excs if deep else [r.choice(excs)]):
                name = r.choice(names)
                ret, got, msg = call(f, v, name, exc)
                ev.append({"f": f, "v": desc, "goodname": True, "goodexc": True, "exc": got, "vexc": exc.__name__,
                           "named": name in msg, "same": got == "" and same(v, ret), "repr": repr(v)[:60]})
        # an improper name or exception class is rejected whatever the value
        for v in (1, -1, "s", np.zeros((2, 2)), {}, True, 1.5):
            for name in (None, 3, ["n"], 2.5):
                _, got, _ = call(f, v, name, ValueError)
                ev.append({"f": f, "v": d(), "goodname": False, "goodexc": True, "exc": got, "vexc": "ValueError", "named": False, "same": False, "repr": repr(v)})
            for exc in (None, "ValueError", int, ValueError("x"), object):
                _, got, _ = call(f, v, "n", exc)
                ev.append({"f": f, "v": d(), "goodname": True, "goodexc": False, "exc": got, "vexc": "", "named": False, "same": False, "repr": repr(v)})
        traces += [{"meta": {"function": f}, "ev": [e]} for e in ev]
    bad, val = vf.validate("ChecksTrace", traces)
    return vf.report(traces, bad, [mc, val], site=lambda t, e: e["f"])
