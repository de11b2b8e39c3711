"""C29: miniSEED 2 records accept data only with a true encoding and count."""
import array
import itertools

import numpy as np

import simplemseed as sm
from simplemseed import miniseed
import ms2ref
import steimref
from checks import c26
from checks.c26 import DT, EDGE, ELEMS, HENC, LAY, NPENC, NS, OTHER, VALS, WIDE, bits, elem, layout, list_model
from vlib import req

PROP = "C29"
LEVEL = "model_checking"
RULE = "every container x element type x byte order x sequence of boundary values to the depth x header encoding x header count x header byte order; distinct by those"
BOUNDS = {
    "quick": "numpy arrays of 20 element types x 3 byte orders x 6 layouts and 6 shapes, array.array of 13 types, lists, segments of 9 encodings in both orders, bytes, nothing and 12 other "
             "objects x 12 header encodings x 5 header counts x 2 header byte orders; every count around the capacity of 4 record lengths with 4 sets of blockettes x 5 containers x 6 encodings; every sequence of 1 to 3 of the boundary values of wide integers, of 1 to 2 of 34 list elements x 6 encodings; "
             "counts around 65,535; record lengths 128 to 2^18",
    "thorough": "sequences of 4 wide integers and 3 list elements",
}
ASSUME = ["bytes are of the encoding, byte order and count their header declares", "a list without declared encoding is of 32 bit floats, which keep whole numbers exactly or refuse them, "
          "and other numbers to their precision", "data is refused by an exception, at the latest when the record is packed"]


def header(enc, n, order, exp=9):
    h = sm.MiniseedHeader("XX", "ABC", "00", "BHZ", miniseed.BTime(2024, 60, 12, 34, 56, 7890), n, 20.0, encoding=enc, byteorder=order)
    h.recordLengthExp = exp
    h.recordLength = 1 << exp
    return h


def create(enc, n, data, order, exp=9):
    """(record, packed bytes), or (None, None) if refused"""
    try:
        r = sm.MiniseedRecord(header(enc, n, order, exp), data)
        b = bytes(r.pack())
    except Exception:
        return None, None
    return r, b


def check_stored(r, b, enc, vals, what):
    """r has encoding and count and returns vals, in memory and packed"""
    n = len(vals)
    req(r.header.encoding == enc, lambda: f"{what}: encoding {r.header.encoding} not {enc}")
    req(r.header.numSamples == n, lambda: f"{what}: {r.header.numSamples} samples not {n}")

    def same(d, w):
        if d is None and n == 0:
            return
        d = np.asarray(d)
        if enc in DT:
            req(d.ndim == 1 and len(d) == n and d.dtype.kind == DT[enc][1] and d.astype(DT[enc]).tobytes() == bits(vals, DT[enc]), lambda: f"{what}: {w} {d!r} not {vals}")
        else:
            req(d.ndim == 1 and d.tolist() == list(vals), lambda: f"{what}: {w} {d!r} not {vals}")

    readable = enc in DT or enc in (10, 11)
    for k in range(2):
        p = ms2ref.parse(b)
        req(p["encoding"] == enc and p["nsamp"] == n, lambda: f"{what}: packed encoding {p['encoding']} with {p['nsamp']} samples")
        if enc in DT:
            w = bits(vals, p["data"] + DT[enc][1:])
            req(p["payload"][: len(w)] == w and not any(p["payload"][len(w):]), lambda: f"{what}: packed {p['payload'][:40].hex()} not {w[:40].hex()} in order {p['data']}")
        elif enc in (10, 11) and n:
            req(list(steimref.decode(p["payload"], enc - 9, n)) == list(vals), lambda: f"{what}: packed samples")
        if readable:
            same(r.decompress(), "samples")
        b = bytes(r.pack())
    q = sm.unpackMiniseedRecord(b)
    req(q.header.encoding == enc and q.header.numSamples == n, "read count or encoding")
    if readable:
        same(q.decompress(), "samples read")


def settle(what, make, hs, ns, enc, vals, optional=False, exp=9):
    """every header encoding, count and byte order; enc is the encoding of the data or None if it must be refused"""
    n = len(vals) if vals is not None else 0
    for he, hn, order in itertools.product(hs, ns, (1, 0)):
        hn = {"n": n, "n-1": n - 1, "n+1": n + 1, "2n": 2 * n}.get(hn, hn)
        if hn < 0:
            continue
        data, keep = make()
        before = keep()
        r, b = create(he, hn, data, order, exp)
        w = f"{what} with header encoding {he}, count {hn}"
        req(keep() == before, lambda: f"{w}: data passed was modified")
        ok = enc is not None and he in (-1, enc) and hn in (0, n)
        if not ok:
            req(r is None, lambda: f"{w}: was not refused, has encoding {r.header.encoding} and {r.header.numSamples} samples")
            continue
        if r is None:
            req(optional, lambda: f"{w}: was refused")
            continue
        check_stored(r, b, enc, vals, w)
        req(keep() == before, lambda: f"{w}: data passed was modified")


def case_np(rec, kind, order, how, vals):
    a = np.array(vals, dtype=np.dtype(kind).newbyteorder(order))
    rec.step()
    rec.state("np", kind, order, how, tuple(vals))

    def make():
        x = layout(a, how)
        return x, lambda: (x.tobytes(), x.dtype.str, x.shape)

    settle(f"{order}{kind} {how} {vals}", make, HENC, NS, NPENC[kind], [int(v) if kind[0] in "iu" else float(v) for v in vals], exp=10)


def np_all(rec, kind):
    for order in "<>=":
        for how in LAY:
            for vals in ([], VALS[kind][:1], VALS[kind], VALS[kind] * 40):
                rec.case("case_np", kind, order, how, vals)


def case_wide(rec, kind, seqs):
    """refused, or stored truly"""
    for vals in seqs:
        for order in "<>":
            a = np.array(vals, dtype=order + kind)
            rec.step()
            rec.state("wide", kind, tuple(vals))
            for he, hn in itertools.product((-1, 3, 1, 4), (0, len(vals))):
                r, b = create(he, hn, a, 1)
                if r is not None:
                    check_stored(r, b, 3, list(vals), f"{order}{kind} {vals} with header encoding {he}")


def wide_all(rec, kind, n):
    seqs = [list(s) for s in itertools.product(EDGE[kind], repeat=n)]
    for i in range(0, len(seqs), 32):
        rec.case("case_wide", kind, seqs[i : i + 32])
        if rec.stop:
            return


def case_nonnum(rec, kind, n):
    """must be refused, or (small numeric types) stored truly"""
    rec.step()
    rec.state("other", kind, n)
    base = [1, 0, 1] if kind in ("?", "i1", "u1", "u2", "f2") else [1, 2, 3]
    vals = (base * 3)[:n]
    if kind in ("S3", "U3"):
        vals = [str(v) for v in vals]
    a = np.zeros(n, dtype="V4") if kind == "V4" else np.array(vals, dtype=kind)
    for he, hn, order in itertools.product(HENC, (0, n, n + 1), (1, 0)):
        r, b = create(he, hn, a, order)
        if r is None:
            continue
        req(kind in ("?", "i1", "u1", "u2", "f2"), lambda: f"{kind} array was accepted with header encoding {he}")
        check_stored(r, b, r.header.encoding, [int(v) for v in vals], f"{kind}")
        req(hn != n + 1, "count")


def case_shape(rec, kind, shape):
    """not one dimensional"""
    rec.step()
    rec.state("shape", kind, tuple(shape))
    a = np.ones(tuple(shape), dtype=kind)
    empty = a.size == 0 and shape[0] == 0  # no samples either way
    if not empty:
        settle(f"{kind} of shape {shape}", lambda: (a, a.tobytes), HENC, [0, 1, 2, 3, 4, 6], None, [1])
    x = a.tolist()
    if isinstance(x, list) and x and any(isinstance(e, list) for e in x):
        settle(f"list of shape {shape}", lambda: (x, lambda: repr(x)), HENC, [0, 1, 2, 3, 4, 6], None, [1])


def shapes_all(rec):
    for kind in ("<i2", "<i4", ">i4", "<i8", "<f4", "<f8"):
        for shape in ([], [2, 3], [3, 1], [1, 3], [1, 1], [2, 1, 2], [0, 3], [3, 0]):
            rec.case("case_shape", kind, shape)
    for kind in OTHER:
        for n in (1, 2, 3):
            rec.case("case_nonnum", kind, n)


def case_array(rec, code, vals):
    rec.step()
    rec.state("array", code, tuple(vals))
    a = array.array(code, vals)
    enc = {("h", 2): 1, ("i", 4): 3, ("f", 4): 4, ("d", 8): 5}.get((code, a.itemsize))
    w = list(a)
    if enc is None:
        # not supported today: refused, or stored truly
        for he, hn, order in itertools.product(HENC, (0, len(w)), (1, 0)):
            r, b = create(he, hn, array.array(code, vals), order)
            if r is not None:
                check_stored(r, b, r.header.encoding, w, f"array {code}")
        return
    settle(f"array {code} {vals}", lambda: (a, lambda: (a.tobytes(), a.typecode)), HENC, NS, enc, w, exp=10)


def arrays_all(rec):
    for code in "bBhHiIlLqQfd":
        lo = {"b": -128, "h": -32768, "i": -(2**31), "l": -(2**31), "q": -(2**63), "f": -0.5, "d": -1e300}.get(code, 0)
        hi = {"b": 127, "B": 255, "h": 32767, "H": 65535, "i": 2**31 - 1, "I": 2**32 - 1, "l": 2**31 - 1, "L": 2**32 - 1, "q": 2**63 - 1, "Q": 2**64 - 1, "f": 1.5, "d": 0.1}[code]
        for vals in ([], [lo], [hi], [lo, hi, 1], [1] * 100):
            rec.case("case_array", code, vals)


def case_list(rec, texts, encs):
    vals = [elem(t) for t in texts]
    for he in encs:
        enc = 4 if he == -1 else he
        want = list_model(enc, vals) if enc in DT else None
        rec.step()
        rec.state("list", tuple(texts), he)
        n = len(vals)
        for hn in (0, n, n + 1):
            data = list(vals)
            before = repr(data)
            r, b = create(he, hn, data, 1, 13)
            w = f"list {texts[:5]} with header encoding {he}, count {hn}"
            req(repr(data) == before, lambda: f"{w}: modified")
            if want is None or hn == n + 1:
                req(r is None, lambda: f"{w}: was not refused, stored {r.decompress()!r} with encoding {r.header.encoding}")
            elif want != "either":
                req(r is not None, lambda: f"{w}: was refused")
                check_stored(r, b, enc, want, w)


def lists_all(rec, n, first):
    for rest in itertools.product(ELEMS, repeat=n - 1):
        rec.case("case_list", [first] + list(rest), [-1, 1, 3, 4, 5, 0, 10, 11, 100] if n == 1 else [-1, 1, 3, 4, 5])
        if rec.stop:
            return


def lists_more(rec):
    rec.case("case_list", [], HENC)
    for n in (10, 300):
        rec.case("case_list", ["1", "-1", "32767"] * n, [-1, 1, 3, 4, 5])
        rec.case("case_list", ["0.5", "1.0"] * n, [-1, 1, 3, 4, 5])
        for bad in ("2**31", "0.1", "'5'", "None", "2**24+1", "32768", "1e39"):
            rec.case("case_list", ["1", "-1", "32767"] * n + [bad], [-1, 1, 3, 4, 5])


def case_segment(rec, enc, little, vals):
    """EncodedDataSegment"""
    rec.step()
    rec.state("segment", enc, little, tuple(vals))
    if enc in DT:
        data = np.array(vals, dtype=("<" if little else ">") + DT[enc][1:]).tobytes()
    elif enc in (10, 11):
        data = bytes((sm.encodeSteim1 if enc == 10 else sm.encodeSteim2)(np.array(vals, dtype=np.int32)))
    else:
        data = bytes(vals)
    # steim is always big endian, whatever the segment says
    for wrap in (bytes, bytearray):
        seg = sm.EncodedDataSegment(enc, wrap(data), len(vals), little and enc in DT)
        settle(f"segment of encoding {enc} {'little' if little else 'big'} endian {vals[:9]}",
               lambda: (seg, lambda: (bytes(seg.dataBytes), seg.compressionType, seg.numSamples, seg.littleEndian)), HENC, NS, enc, list(vals), exp=11)


def segments_all(rec):
    for little in (True, False):
        for enc in (1, 3, 4, 5):
            k = DT[enc][1:]
            for vals in (VALS[k][:1], VALS[k], VALS[k] * 30, []):
                rec.case("case_segment", enc, little, vals)
        for enc in (10, 11):
            for vals in ([5], [1, 2, -300], list(range(0, 9000, 31))):
                rec.case("case_segment", enc, little, vals)
        for enc in (0, 100, 19):
            rec.case("case_segment", enc, little, [65, 66, 67])


def case_bytes(rec, enc, n, order):
    rec.step()
    rec.state("bytes", enc, n, order)
    k = DT[enc][1:]
    vals = (VALS[k] * 10)[:n]
    data = bits(vals, ("<", ">")[order] + k)
    for wrap in (bytes, bytearray):
        d = wrap(data)
        r, b = create(enc, n, d, order)
        req(r is not None, "bytes were refused")
        check_stored(r, b, enc, vals, f"bytes of encoding {enc}")
        req(bytes(d) == data, "modified")
    r, b = create(-1, n, data, order)
    req(r is None, "bytes without encoding were packed")


def case_odd(rec, name):
    """objects that are not data: refused, or stored truly"""
    rec.step()
    rec.state("odd", name)
    x = {"tuple": (1, 2, 3), "range": range(3), "int": 5, "float": 1.5, "str": "123", "dict": {1: 2}, "set": {1, 2}, "gen": (k for k in range(3)), "obj": c26.Odd(), "bool": True,
         "memoryview": memoryview(b"\1\0\0\0"), "npscalar": np.int32(5)}[name]
    for he, hn in itertools.product(HENC, (0, 1, 3)):
        r, b = create(he, hn, x, 1)
        if r is None:
            continue
        vals = {"tuple": [1, 2, 3], "range": [0, 1, 2]}.get(name)
        req(vals is not None, lambda: f"{name} was accepted")
        check_stored(r, b, r.header.encoding, vals, name)


def case_count(rec, n, exp, kind):
    """the count of a record is 16 bits, its length a power of two"""
    rec.step()
    rec.state("count", n, exp, kind)
    enc = NPENC[kind]
    a = (np.arange(n) % 1000).astype(kind)
    fits = n <= 65535 and 56 + a.nbytes <= 1 << exp
    for hn in (0, n):
        r, b = create(-1, hn, a, 1, exp)
        if fits:
            req(r is not None, lambda: f"{n} samples of {kind} were refused in {1 << exp} bytes")
            check_stored(r, b, enc, a.tolist(), f"{n} samples of {kind} in {1 << exp} bytes")
        else:
            req(r is None, lambda: f"{n} samples of {kind} were packed in {len(b)} bytes")


def case_fit(rec, how, enc, exp, nblk, ns):
    """packed exactly if blockettes and data fit the declared record length"""
    for n in ns:
        rec.step()
        rec.state("fit", how, enc, exp, nblk, n)
        vals = [(k * 7919 + 5) % 30000 - 15000 for k in range(n)]
        if enc in DT:
            vals = [v + 0.0 for v in vals] if enc > 3 else vals
            raw = bits(vals, DT[enc])
            data = {"np": lambda: np.array(vals, dtype=DT[enc][1:]), "array": lambda: array.array({1: "h", 3: "i", 4: "f", 5: "d"}[enc], vals), "list": lambda: list(vals),
                    "segment": lambda: sm.EncodedDataSegment(enc, raw, n, True), "bytes": lambda: raw}[how]()
        else:
            raw = bytes((sm.encodeSteim1 if enc == 10 else sm.encodeSteim2)(np.array(vals, dtype=np.int32)))
            data = sm.EncodedDataSegment(enc, raw, n, False) if how == "segment" else raw
        end = 56 + [0, 8, 12, 20][nblk]
        if enc in (10, 11):
            end = (end + 63) // 64 * 64
        h = header(enc, n, 0 if enc in DT else 1, exp)
        what = f"{n} samples of encoding {enc} as {how}, {len(raw)} bytes after {end} in {1 << exp}"
        try:
            r = sm.MiniseedRecord(h, data)
            r.blockettes = [[], [r.createB1001()], [r.createB100()], [r.createB100(), r.createB1001()]][nblk]
            b = bytes(r.pack())
        except Exception as e:
            req(end + len(raw) > 1 << exp, lambda: f"{what} were refused, {e!r}")
            continue
        req(len(b) == 1 << exp, lambda: f"{what}: packed {len(b)} bytes")
        req(end + len(raw) <= 1 << exp, lambda: f"{what} were packed, they do not fit")
        check_stored(r, b, enc, vals, what)


def fits_all(rec, how, enc):
    size = {1: 2, 3: 4, 4: 4, 5: 8}.get(enc)
    for exp in (7, 8, 9) if enc > 5 else (7, 8, 9, 10):
        for nblk in range(4):
            if size:
                full = ((1 << exp) - 48) // size
                ns = range(max(1, full - 48 // size), full + 3)
            else:
                ns = range(1, 4 << exp, 5)
                ns = [n for n in ns if n < 1 << exp]
            rec.case("case_fit", how, enc, exp, nblk, list(ns))


def counts_all(rec):
    for exp in (17, 18):
        for n in (32738, 65507, 65508, 65509, 65535, 65536, 65537, 70000, 131071, 131073):
            for kind in ("i2", "i4"):
                rec.case("case_count", n, exp, kind)
    for exp in (7, 8, 9, 12):
        for kind in NPENC:
            full = ((1 << exp) - 56) // int(kind[1])
            for n in (full - 1, full, full + 1, 2 * full):
                rec.case("case_count", n, exp, kind)


def rest_all(rec):
    for enc in DT:
        for n in (1, 2, 3, 10):
            for order in (0, 1):
                rec.case("case_bytes", enc, n, order)
    for name in ("tuple", "range", "int", "float", "str", "dict", "set", "gen", "obj", "bool", "memoryview", "npscalar"):
        rec.case("case_odd", name)


def shards(tier):
    q = tier == "quick"
    out = [("np_all", (k,)) for k in NPENC]
    out += [("shapes_all", ()), ("arrays_all", ()), ("segments_all", ()), ("rest_all", ()), ("lists_more", ()), ("counts_all", ())]
    out += [("fits_all", (how, enc)) for how in ("np", "array", "list", "segment", "bytes") for enc in (1, 3, 4, 5, 10, 11) if enc < 6 or how in ("segment", "bytes")]
    for k in EDGE:
        out += [("wide_all", (k, n)) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    for first in ELEMS:
        out += [("lists_all", (n, first)) for n in ((1, 2) if q else (1, 2, 3))]
    return out
