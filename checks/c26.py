"""C26: miniSEED 3 records accept data only with a true encoding and count."""
import array
import itertools
import math
import struct

import numpy as np

import simplemseed as sm
import ms3ref
import steimref
from vlib import req

PROP = "C26"
LEVEL = "model_checking"
RULE = "every container x element type x byte order x sequence of boundary values to the depth x header encoding x header count; distinct by those"
BOUNDS = {
    "quick": "numpy arrays of 20 element types x 3 byte orders x 6 layouts and 6 shapes, array.array of 13 types, lists, segments of 10 encodings in both orders, bytes, nothing and 9 other "
             "objects x 12 header encodings x 5 header counts; every sequence of 1 to 3 of the boundary values of wide integers, of 1 to 2 of 26 list elements x 6 encodings",
    "thorough": "sequences of 4 wide integers and 3 list elements",
}
ASSUME = ["bytes are of the encoding and count their header declares; a list without declared encoding is of 32 bit floats, which keep whole numbers exactly or refuse them, and other "
          "numbers to their precision"]
HENC = [-1, 0, 1, 3, 4, 5, 10, 11, 19, 32, 100, 2]
DT = {1: "<i2", 3: "<i4", 4: "<f4", 5: "<f8"}
NPENC = {"i2": 1, "i4": 3, "f4": 4, "f8": 5}
WIDE = ("i8", "u4", "u8")
OTHER = ("?", "i1", "u1", "u2", "f2", "c8", "c16", "S3", "U3", "O", "M8[s]", "m8[s]", "V4")
VALS = {"i2": [5, -32768, 32767], "i4": [7, -(2**31), 2**31 - 1], "f4": [0.5, -3e38, 1.5], "f8": [0.1, -1e300, 3.0], "i8": [5, -6, 2**31 - 1], "u4": [5, 6, 2**31 - 1],
        "u8": [5, 6, 2**31 - 1]}


def header(enc, n):
    h = sm.MSeed3Header()
    h.starttime = "2024-02-29T12:34:56.789012Z"
    h.sampleRate = 20.0
    h.encoding = enc
    h.numSamples = n
    return h


def create(enc, n, data):
    """record or None if refused"""
    try:
        return sm.MSeed3Record(header(enc, n), "FDSN:XX_ABC__B_H_Z", data)
    except Exception:
        return None


def bits(vals, dt):
    return np.array(vals, dtype=dt).tobytes()


def check_stored(r, enc, vals, what):
    """r has encoding and count and returns vals, in memory and packed"""
    n = len(vals)
    req(r.header.encoding == enc, lambda: f"{what}: encoding {r.header.encoding} not {enc}")
    req(r.header.numSamples == n, lambda: f"{what}: {r.header.numSamples} samples not {n}")

    def same(d, w):
        d = np.asarray(d)
        if enc in DT:
            req(d.ndim == 1 and len(d) == n and d.dtype.kind == DT[enc][1] and d.astype(DT[enc]).tobytes() == bits(vals, DT[enc]), lambda: f"{what}: {w} {d!r} not {vals}")
        else:
            req(d.ndim == 1 and d.tolist() == list(vals), lambda: f"{what}: {w} {d!r} not {vals}")

    readable = enc in DT or enc in (10, 11)
    if readable:
        same(r.decompress(), "samples")
    for k in range(2):
        b = bytes(r.pack())
        p = ms3ref.parse(b)
        req(p["crcok"] and p["encoding"] == enc and p["numSamples"] == n, lambda: f"{what}: packed encoding {p['encoding']} with {p['numSamples']} samples")
        if enc in DT:
            req(p["payload"] == bits(vals, DT[enc]), lambda: f"{what}: packed {p['payload'][:40].hex()} not {bits(vals, DT[enc])[:40].hex()}")
        elif enc in (10, 11) and n:
            req(list(steimref.decode(p["payload"], enc - 9, n)) == list(vals), lambda: f"{what}: packed samples")
        if readable:
            same(r.decompress(), "samples after pack")
    q = sm.unpackMSeed3Record(b)
    if readable:
        same(q.decompress(), "samples read")


def settle(what, make, hs, ns, enc, vals, optional=False, exact=True):
    """every header encoding and count; enc is the encoding of the data or None if it must be refused"""
    n = len(vals) if vals is not None else 0
    for he in hs:
        for hn in ns:
            hn = {"n": n, "n-1": n - 1, "n+1": n + 1, "2n": 2 * n}.get(hn, hn)
            if hn < 0:
                continue
            data, keep = make()
            before = keep()
            r = create(he, hn, data)
            w = f"{what} with header encoding {he}, count {hn}"
            req(keep() == before, lambda: f"{w}: data passed was modified")
            ok = enc is not None and he in (-1, enc) and hn in (0, n)
            if not ok:
                req(r is None, lambda: f"{w}: was not refused, has encoding {r.header.encoding} and {r.header.numSamples} samples")
                continue
            if r is None:
                req(optional, lambda: f"{w}: was refused")
                continue
            check_stored(r, enc, vals, w)
            req(keep() == before, lambda: f"{w}: data passed was modified")


NS = [0, "n", "n-1", "n+1", "2n"]


def layout(a, how):
    if how == "plain":
        return a.copy()
    if how == "strided":
        x = np.zeros(len(a) * 3, dtype=a.dtype)
        x[1::3] = a
        return x[1::3]
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "readonly":
        x = a.copy()
        x.setflags(write=False)
        return x
    if how == "column":
        x = np.zeros((len(a), 2), dtype=a.dtype)
        x[:, 1] = a
        return x[:, 1]
    if how == "buffer":
        return np.frombuffer(bytearray(a.tobytes()), dtype=a.dtype)
    raise AssertionError(how)


LAY = ["plain", "strided", "reversed", "readonly", "column", "buffer"]


def case_np(rec, kind, order, how, vals):
    a = np.array(vals, dtype=np.dtype(kind).newbyteorder(order))
    rec.step()
    rec.state("np", kind, order, how, tuple(vals))

    def make():
        x = layout(a, how)
        return x, lambda: (x.tobytes(), x.dtype.str, x.shape)

    if kind in NPENC:
        enc = NPENC[kind]
    else:
        enc = 3 if all(-(2**31) <= v < 2**31 for v in vals) else None
    settle(f"{order}{kind} {how} {vals}", make, HENC, NS, enc, [int(v) if kind[0] in "iu" else float(v) for v in vals])


def np_all(rec, kind):
    for order in "<>=":
        for how in LAY:
            for vals in ([], VALS[kind][:1], VALS[kind], VALS[kind] * 40):
                rec.case("case_np", kind, order, how, vals)


def case_wide(rec, kind, seqs):
    for vals in seqs:
        for order in "<>":
            a = np.array(vals, dtype=order + kind)
            enc = 3 if all(-(2**31) <= v < 2**31 for v in vals) else None
            rec.step()
            rec.state("wide", kind, tuple(vals))
            settle(f"{order}{kind} {vals}", lambda: (a, a.tobytes), [-1, 3, 1], [0, "n"], enc, list(vals))


EDGE = {"i8": [0, -1, 2**31 - 1, 2**31, -(2**31), -(2**31) - 1, 2**32, -(2**32), 2**63 - 1, -(2**63)],
        "u4": [0, 1, 2**31 - 1, 2**31, 2**32 - 1], "u8": [0, 1, 2**31 - 1, 2**31, 2**32, 2**63, 2**64 - 1]}


def wide_all(rec, kind, n):
    seqs = [list(s) for s in itertools.product(EDGE[kind], repeat=n)]
    for i in range(0, len(seqs), 32):
        rec.case("case_wide", kind, seqs[i : i + 32])
        if rec.stop:
            return


def case_nonnum(rec, kind, n):
    """must be refused, or (small numeric types) stored truly"""
    rec.step()
    rec.state("other", kind, n)
    base = [1, 0, 1] if kind in ("?", "i1", "u1", "u2", "f2") else [1, 2, 3]
    vals = (base * 3)[:n]
    if kind in ("S3", "U3"):
        vals = [str(v) for v in vals]
    if kind == "V4":
        a = np.zeros(n, dtype="V4")
    else:
        a = np.array(vals, dtype=kind)
    for he in HENC:
        for hn in (0, n, n + 1):
            r = create(he, hn, a)
            if r is None:
                continue
            req(kind in ("?", "i1", "u1", "u2", "f2"), lambda: f"{kind} array was accepted with header encoding {he}")
            check_stored(r, r.header.encoding, [int(v) for v in vals], f"{kind}")
            req(hn != n + 1, "count")


def case_shape(rec, kind, shape):
    """not one dimensional"""
    rec.step()
    rec.state("shape", kind, tuple(shape))
    a = np.ones(tuple(shape), dtype=kind)
    settle(f"{kind} of shape {shape}", lambda: (a, a.tobytes), HENC, [0, 1, 2, 3, 4, 6], None, [1])
    x = a.tolist()
    if isinstance(x, list):
        if x and any(isinstance(e, list) for e in x):
            settle(f"list of shape {shape}", lambda: (x, lambda: repr(x)), HENC, [0, 1, 2, 3, 4, 6], None, [1])


def shapes_all(rec):
    for kind in ("<i2", "<i4", ">i4", "<i8", "<f4", "<f8"):
        for shape in ([], [2, 3], [3, 1], [1, 3], [1, 1], [2, 1, 2], [0, 3], [3, 0]):
            rec.case("case_shape", kind, shape)
    for kind in OTHER:
        for n in (1, 2, 3):
            rec.case("case_nonnum", kind, n)


def case_array(rec, code, vals):
    rec.step()
    rec.state("array", code, tuple(vals))
    a = array.array(code, vals)
    enc = {("h", 2): 1, ("i", 4): 3, ("f", 4): 4, ("d", 8): 5}.get((code, a.itemsize))
    w = list(a)
    optional = False
    if code == "l" and a.itemsize == 4:
        enc = 3
    if enc is None and all(-(2**31) <= v < 2**31 for v in vals):
        # not supported today: refused, or stored truly
        for he in HENC:
            for hn in (0, len(w)):
                r = create(he, hn, array.array(code, vals))
                if r is not None:
                    check_stored(r, r.header.encoding, w, f"array {code}")
        return
    settle(f"array {code} {vals}", lambda: (a, lambda: (a.tobytes(), a.typecode)), HENC, NS, enc, w, optional)


def arrays_all(rec):
    for code in "bBhHiIlLqQfdu":
        if code == "u":
            continue
        lo = {"b": -128, "h": -32768, "i": -(2**31), "l": -(2**31), "q": -(2**63), "f": -0.5, "d": -1e300}.get(code, 0)
        hi = {"b": 127, "B": 255, "h": 32767, "H": 65535, "i": 2**31 - 1, "I": 2**32 - 1, "l": 2**31 - 1, "L": 2**32 - 1, "q": 2**63 - 1, "Q": 2**64 - 1, "f": 1.5, "d": 0.1}[code]
        for vals in ([], [lo], [hi], [lo, hi, 1], [1] * 100):
            rec.case("case_array", code, vals)


# list elements as python text, so that they are literals
ELEMS = ["0", "1", "-1", "32767", "32768", "-32768", "-32769", "2**24", "2**24+1", "-2**24-1", "2**31-1", "2**31", "-2**31", "-2**31-1", "2**63", "2**53+1", "0.5", "1.0", "0.1", "-0.0",
         "1e39", "1e-50", "nan", "inf", "True", "np.int16(5)", "np.float64(2.5)", "np.float32(0.1)", "np.int64(2**40)", "'5'", "None", "1j", "[1]", "b'7'"]


def elem(t):
    return eval(t, {"np": np, "nan": math.nan, "inf": math.inf})


def list_model(enc, vals):
    """values stored, None if refused, 'either' if it may be"""
    for v in vals:
        if isinstance(v, (str, bytes, complex, list)) or v is None:
            return None
    whole = all(not isinstance(v, (float, np.floating)) for v in vals)
    if enc in (1, 3):
        lim = 2**15 if enc == 1 else 2**31
        for v in vals:
            if isinstance(v, (float, np.floating)) and (not math.isfinite(v) or v != math.floor(v)):
                return None
            if not -lim <= v < lim:
                return None
        return [int(v) for v in vals]
    out = []
    for v in vals:
        try:
            f = float(v)
            if enc == 4 and math.isfinite(f):
                f = float(np.float32(v)) if not isinstance(v, int) else float(np.float32(f))
            if math.isinf(f) and not (isinstance(v, (float, np.floating)) and math.isinf(v)):
                return None
            if not isinstance(v, (float, np.floating)) and int(f) != int(v):
                if whole:
                    return None
                return "either"
            out.append(f)
        except OverflowError:
            return None
    return out


def case_list(rec, texts, encs):
    vals = [elem(t) for t in texts]
    for he in encs:
        enc = 4 if he == -1 else he
        want = list_model(enc, vals) if enc in DT else None
        rec.step()
        rec.state("list", tuple(texts), he)
        n = len(vals)
        for hn in (0, n, n + 1):
            data = list(vals)
            before = repr(data)
            r = create(he, hn, data)
            w = f"list {texts} with header encoding {he}, count {hn}"
            req(repr(data) == before, lambda: f"{w}: modified")
            if want is None or hn == n + 1:
                req(r is None, lambda: f"{w}: was not refused, stored {r.decompress()!r} with encoding {r.header.encoding}")
            elif want == "either":
                pass
            else:
                req(r is not None, lambda: f"{w}: was refused")
                check_stored(r, enc, want, w)


def lists_all(rec, n, first):
    for rest in itertools.product(ELEMS, repeat=n - 1):
        rec.case("case_list", [first] + list(rest), [-1, 1, 3, 4, 5, 0, 10, 11, 100] if n == 1 else [-1, 1, 3, 4, 5])
        if rec.stop:
            return


def lists_more(rec):
    rec.case("case_list", [], HENC)
    for n in (10, 300):
        rec.case("case_list", ["1", "-1", "32767"] * n, [-1, 1, 3, 4, 5])
        rec.case("case_list", ["0.5", "1.0"] * n, [-1, 1, 3, 4, 5])
        for bad in ("2**31", "0.1", "'5'", "None", "2**24+1", "32768", "1e39"):
            rec.case("case_list", ["1", "-1", "32767"] * n + [bad], [-1, 1, 3, 4, 5])


def case_segment(rec, enc, little, vals, count):
    """EncodedDataSegment"""
    rec.step()
    rec.state("segment", enc, little, tuple(vals), count)
    if enc in DT:
        data = np.array(vals, dtype=("<" if little else ">") + DT[enc][1:]).tobytes()
    elif enc in (10, 11):
        data = bytes((sm.encodeSteim1 if enc == 10 else sm.encodeSteim2)(np.array(vals, dtype=np.int32)))
    else:
        data = bytes(vals)
    for wrap in (bytes, bytearray):
        seg = sm.EncodedDataSegment(enc, wrap(data), len(vals), little)
        settle(f"segment of encoding {enc} {'little' if little else 'big'} endian {vals}", lambda: (seg, lambda: (bytes(seg.dataBytes), seg.compressionType, seg.numSamples, seg.littleEndian)),
               HENC, NS, enc, list(vals))
    if enc in DT and count:
        # fewer bytes than the segment says, big endian needs them
        seg = sm.EncodedDataSegment(enc, data, len(vals) + count, False)
        req(create(enc, 0, seg) is None, "big endian segment with too few bytes was not refused")


def segments_all(rec):
    for little in (True, False):
        for enc in (1, 3, 4, 5):
            k = DT[enc][1:]
            for vals in (VALS[k][:1], VALS[k], VALS[k] * 30, []):
                for count in (0, 1):
                    rec.case("case_segment", enc, little, vals, count if vals else 0)
        for enc in (10, 11):
            for vals in ([5], [1, 2, -300], list(range(0, 9000, 31))):
                rec.case("case_segment", enc, little, vals, 0)
        for enc in (0, 100, 19):
            rec.case("case_segment", enc, True, [65, 66, 67], 0)


def case_bytes(rec, enc, n, extra):
    rec.step()
    rec.state("bytes", enc, n, extra)
    k = DT[enc][1:]
    vals = (VALS[k] * 10)[:n]
    data = bits(vals, DT[enc])
    for wrap in (bytes, bytearray):
        d = wrap(data)
        r = create(enc, n, d)
        req(r is not None, "bytes were refused")
        check_stored(r, enc, vals, f"bytes of encoding {enc}")
        req(bytes(d) == data, "modified")
    # header without encoding: nothing to go by
    r = create(-1, n, data)
    if r is not None:
        try:
            r.pack()
        except Exception:
            return
        req(False, "bytes without encoding were packed")


def case_none(rec, enc, n):
    rec.step()
    rec.state("none", enc, n)
    r = create(enc, n, None)
    if n:
        req(r is None, lambda: f"no data with count {n} was not refused")
    elif enc in (-1, 0):
        req(r is not None, "no data was refused")
    if r is not None:
        p = ms3ref.parse(bytes(r.pack()))
        req(p["numSamples"] == 0 and p["payload"] == b"" and p["crcok"], "no data")
        req(r.header.numSamples == 0 and (enc != -1 or r.header.encoding == 0), "no data")
        q = sm.unpackMSeed3Record(r.pack())
        req(q.header.numSamples == 0, "read")
        for x in (create(enc, n, None), r):
            try:
                got = x.decompress()
            except Exception:
                continue
            req(got is not None and len(got) == 0, lambda: f"no data reads as {got!r}")


class Odd:
    pass


def case_odd(rec, name):
    """objects that are not data: refused, or stored truly"""
    rec.step()
    rec.state("odd", name)
    x = {"tuple": (1, 2, 3), "range": range(3), "int": 5, "float": 1.5, "str": "123", "dict": {1: 2}, "set": {1, 2}, "gen": (k for k in range(3)), "obj": Odd(), "bool": True,
         "memoryview": memoryview(b"\1\0\0\0"), "npscalar": np.int32(5)}[name]
    for he in HENC:
        for hn in (0, 1, 3):
            r = create(he, hn, x)
            if r is None:
                continue
            vals = {"tuple": [1, 2, 3], "range": [0, 1, 2]}.get(name)
            req(vals is not None, lambda: f"{name} was accepted")
            check_stored(r, r.header.encoding, vals, name)


def rest_all(rec):
    for enc in DT:
        for n in (1, 2, 3, 10):
            for extra in (0,):
                rec.case("case_bytes", enc, n, extra)
    for enc in HENC:
        for n in (0, 1, 5):
            rec.case("case_none", enc, n)
    for name in ("tuple", "range", "int", "float", "str", "dict", "set", "gen", "obj", "bool", "memoryview", "npscalar"):
        rec.case("case_odd", name)


def shards(tier):
    q = tier == "quick"
    out = [("np_all", (k,)) for k in list(NPENC) + list(WIDE)]
    out += [("shapes_all", ()), ("arrays_all", ()), ("segments_all", ()), ("rest_all", ()), ("lists_more", ())]
    for k in EDGE:
        out += [("wide_all", (k, n)) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    for first in ELEMS:
        out += [("lists_all", (n, first)) for n in ((1, 2) if q else (1, 2, 3))]
    return out
