"""Q02: flag packing and the flag tables against DQBitsOps.tla."""
import numpy as np
import vf
import corgidrp.data as data


def words(arr):
    return [[int(b) for b in int(v).to_bytes(8, "big")] for v in np.asarray(arr).ravel().tolist()]


def unpack_event(arr, axis):
    a = np.asarray(arr)[..., np.newaxis]
    ev = {"op": "unpack", "words": words(arr), "bits": [], "packed": [], "shapeok": False, "exc": "",
          "case": "%s %s axis %d" % (a.shape, a.dtype, axis)}
    try:
        before = a.copy()
        bits = data.unpackbits_64uint(a, axis=axis)
        ev["shapeok"] = bool(bits.shape == np.asarray(arr).shape + (64,) and np.array_equal(a, before))
        back = data.packbits_64uint(bits, axis=axis)
        ev["bits"] = [[int(x) for x in r] for r in np.asarray(bits).reshape(-1, 64)]
        ev["packed"] = words(back)
    except Exception as ex:
        ev["exc"] = vf.excname(ex)
    return ev


def check(prop, tier):
    deep = tier == "thorough"
    r = vf.rng("dqbits")
    mc = vf.model_check("MCDQBits")
    ev = []
    # every 8-bit flag map value, in several layouts and integer types
    for dt in (np.uint8, np.uint16, np.uint64):
        ev.append(unpack_event(np.arange(256, dtype=dt).reshape(16, 16), 2))
    ev.append(unpack_event(np.arange(256, dtype=np.uint16).reshape(4, 8, 8), -1))
    one = np.array([1 << k for k in range(64)], dtype=np.uint64)
    ev.append(unpack_event(one.reshape(8, 8), 2))
    ev.append(unpack_event((~one).reshape(2, 4, 8), 3))
    for n in range(40 if deep else 8):
        shape = r.choice([(3,), (2, 5), (7, 1), (1, 9), (2, 2, 3), (6, 4)])
        vals = [r.getrandbits(r.choice([8, 9, 16, 33, 63, 64])) for _ in range(int(np.prod(shape)))]
        ev.append(unpack_event(np.array(vals, dtype=np.uint64).reshape(shape), r.choice([-1, len(shape)])))
    # non-contiguous and foreign-byte-order inputs, as read from FITS files
    ev.append(unpack_event(np.arange(200, 456, dtype=np.uint64).reshape(16, 16).T, 2))
    ev.append(unpack_event(np.arange(64, dtype=">u2").reshape(8, 8)[::2], -1))
    ev.append(unpack_event(np.arange(64, dtype=">u8").reshape(8, 8), 2))
    for n in range(20 if deep else 5):
        k = r.randint(1, 6)
        bits = [[r.randint(0, 1) for _ in range(64)] for _ in range(k)]
        e = {"op": "pack", "bits": bits, "packed": [], "exc": ""}
        try:
            e["packed"] = words(data.packbits_64uint(np.array(bits, dtype=np.uint8), axis=1))
        except Exception as ex:
            e["exc"] = vf.excname(ex)
        ev.append(e)
    f2b, b2f, f2v, v2f = data.get_flag_to_bit_map(), data.get_bit_to_flag_map(), data.get_flag_to_value_map(), data.get_value_to_flag_map()
    ev.append({"op": "maps", "flagtobit": f2b, "flagtovalue": f2v, "bittoflag": [b2f.get(i, "") for i in range(9)],
               "valuetoflag": [v2f.get(1 << i, "") for i in range(9)], "sizes": [len(f2b), len(b2f), len(f2v), len(v2f)]})
    traces = [{"meta": {"i": i}, "ev": [e]} for i, e in enumerate(ev)]
    bad, val = vf.validate("DQBitsTrace", traces)
    return vf.report(traces, bad, [mc, val], site=lambda t, e: e["op"],
                     extra={"words_checked": sum(len(e.get("words", e.get("bits", []))) for e in ev)})
