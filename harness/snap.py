"""Content snapshots of datasets, frames and calibration products, to see whether a call changed them."""
import hashlib
import numpy as np


def arr(a):
    if a is None:
        return None
    a = np.asarray(a)
    return (a.shape, str(a.dtype), hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest())


def hdr(h):
    if h is None:
        return None
    return tuple((c.keyword, repr(c.value)) for c in h.cards)


def frame(f):
    out = [arr(f.data), arr(getattr(f, "err", None)), arr(getattr(f, "dq", None)), hdr(f.pri_hdr), hdr(f.ext_hdr),
           hdr(getattr(f, "err_hdr", None)), hdr(getattr(f, "dq_hdr", None)), f.filename, f.filedir]
    hl = getattr(f, "hdu_list", None)
    if hl is not None:
        out.append(tuple((x.name, arr(x.data), hdr(x.header)) for x in hl))
    for k in ("ptc", "params", "ct_excam", "ct_fpam", "ct_fsam", "bias_offset"):
        v = getattr(f, k, None)
        if v is not None:
            out.append((k, arr(v) if isinstance(v, np.ndarray) else repr(v)))
    return tuple(out)


def dataset(ds):
    return (tuple(frame(f) for f in ds.frames), arr(ds.all_data), arr(ds.all_err), arr(ds.all_dq))


def parts(f):
    """A frame's snapshot by part, for naming what changed."""
    return {"data": arr(f.data), "err": arr(f.err), "dq": arr(f.dq), "pri_hdr": hdr(f.pri_hdr), "ext_hdr": hdr(f.ext_hdr),
            "err_hdr": hdr(getattr(f, "err_hdr", None)), "dq_hdr": hdr(getattr(f, "dq_hdr", None)), "name": (f.filename, f.filedir)}
