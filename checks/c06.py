"""C06: primitive encodings keep values, width and byte order exactly."""
import array
import itertools
import struct

import numpy as np

import cli
import simplemseed as sm
from simplemseed import steimframeblock
from vlib import req, raises, Violation

PROP = "C06"
LEVEL = "model_checking"
RULE = "every sequence over boundary bit patterns up to the depth, container and byte order; distinct by encoded bytes"
BOUNDS = {
    "quick": "all sequences over 14..20 boundary bit patterns to length 3 x containers x byte orders; every 16 bit integer; every "
             "exponent of both float sizes x 6 mantissas x sign; every single bit integer",
    "thorough": "the same with sequences to length 4",
}
ASSUME = ["signalling NaN of 32 bit floats excluded: the interpreter's own float conversion makes them quiet"]
INFO = {1: (2, "h", "i2", "h"), 3: (4, "i", "i4", "i"), 4: (4, "f", "f4", "f"), 5: (8, "d", "f8", "d")}
PATS = {
    1: [0, 1, 0xFFFF, 0x7FFF, 0x8000, 0x8001, 0x00FF, 0xFF00, 0x0100, 0x1234, 0x00FE, 0x0080],
    3: [0, 1, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFF, 0x8000, 0xFFFF8000, 0x01020304, 0xFF000000, 0x0000FF00],
    4: [0, 0x80000000, 1, 0x80000001, 0x7F800000, 0xFF800000, 0x7FC00000, 0xFFC00000, 0x7FC12345, 0x7F7FFFFF, 0xFF7FFFFF,
        0x00800000, 0x3F800000, 0x3DCCCCCD, 0x01020304],
    5: [0, 1 << 63, 1, (1 << 63) + 1, 0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 0xFFF8000000000123,
        0x7FEFFFFFFFFFFFFF, 0xFFEFFFFFFFFFFFFF, 0x0010000000000000, 0x3FF0000000000000, 0x3FB999999999999A, 0x47EFFFFFF0000000,
        0x0102030405060708],
}
CONT = ["native", "<", ">", "strided", "reversed", "readonly", "array", "list", "tuple2list"]


def to_values(code, pats):
    w = INFO[code][0]
    raw = b"".join(p.to_bytes(w, "little") for p in pats)
    return raw, np.frombuffer(raw, dtype="<" + INFO[code][2])


def container(code, vals, kind):
    f = INFO[code][2]
    if kind in ("<", ">"):
        return vals.astype(np.dtype(kind + f))
    if kind == "native":
        return vals.copy()
    if kind == "strided":
        b = np.zeros(len(vals) * 3, dtype=f)
        b[1::3] = vals
        return b[1::3]
    if kind == "reversed":
        return vals[::-1].copy()[::-1]
    if kind == "readonly":
        x = vals.copy()
        x.setflags(write=False)
        return x
    if kind == "array":
        return array.array(INFO[code][3], vals.tobytes())
    if kind == "list":
        return vals.tolist()
    if kind == "tuple2list":
        return list(vals)  # numpy scalars
    raise AssertionError(kind)


def case_prim(rec, code, pats, kind):
    w, ch, f, _ = INFO[code]
    raw, vals = to_values(code, pats)
    n = len(pats)
    for little in (True, False):
        data = container(code, vals, kind)
        want = raw if little else b"".join(p.to_bytes(w, "big") for p in pats)
        explicit = kind in ("list", "tuple2list")
        for enc in (code,) if explicit else (None, code, -1):
            rec.step(2)
            seg = sm.encode(data, enc, little)
            req(bytes(seg.dataBytes) == want, f"encoded {bytes(seg.dataBytes).hex()} not {want.hex()}")
            req(seg.compressionType == code, f"encoding {seg.compressionType} not {code}")
            req(seg.numSamples == n and bool(seg.littleEndian) == little, f"segment says {seg.numSamples} samples, little {seg.littleEndian}")
            for out in (sm.decompress(code, seg.dataBytes, n, little), seg.decode()):
                got = np.asarray(out).astype("<" + f).tobytes()
                req(out.dtype.kind + str(out.dtype.itemsize) == np.dtype(f).kind + str(w), f"decoded type {out.dtype}")
                req(got == raw and len(out) == n, f"decoded {got.hex()} not {raw.hex()}")
        if little:
            if not explicit:
                req(bytes(sm.encode(data).dataBytes) == want, "default byte order is not little")
        else:
            req(bytes(sm.decompress(code, bytearray(want) + b"\x55" * 7, n, little).astype("<" + f).tobytes()) == raw,
                "extra bytes change the values")
    rec.state(code, tuple(pats))


def seq_all(rec, code, first, n, kinds):
    for rest in itertools.product(PATS[code], repeat=n - 1):
        for k in kinds:
            rec.case("case_prim", code, [first] + list(rest), k)
            if rec.stop:
                return


def sweep16(rec, lo, hi):
    for a in range(lo, hi, 64):
        for k in ("native", ">", "array"):
            rec.case("case_prim", 1, list(range(a, a + 64)), k)


def sweep_float(rec, code):
    ebits, mbits = (8, 23) if code == 4 else (11, 52)
    q = 1 << (mbits - 1)
    mants = [0, 1, (1 << mbits) - 1, q, q + 5, 0x123456 & ((1 << mbits) - 1)]
    for s in (0, 1):
        for e in range(1 << ebits):
            pats = []
            for m in mants:
                if e == (1 << ebits) - 1 and m and not m & q:
                    m |= q  # quiet
                pats.append((s << (ebits + mbits)) | (e << mbits) | m)
            for k in ("native", ">", "array", "list"):
                rec.case("case_prim", code, pats, k)


def sweep_bits(rec, code):
    w = INFO[code][0] * 8
    for i in range(w):
        for j in range(w):
            v = (1 << i) | (1 << j)
            if code == 4 and v & 0x7F800000 == 0x7F800000:
                continue
            for p in (v, v ^ ((1 << w) - 1) if code < 4 else v):
                rec.case("case_prim", code, [p], "native")
                rec.case("case_prim", code, [p, 0], "array")


def typed(vals, kind):
    if kind == "list":
        return list(vals)
    if kind.startswith("array "):
        return array.array(kind[6:], vals)
    return np.array(vals, dtype=kind)


def case_float_size(rec, code, vals, kind):
    """floats that both sizes hold, stored as the other size by request; and whole numbers as floats"""
    data = typed(vals, kind)
    w, ch, f, _ = INFO[code]
    for little in (True, False):
        rec.step()
        seg = sm.encode(data, code, little)
        want = struct.pack(("<" if little else ">") + str(len(vals)) + ch, *vals)
        req(bytes(seg.dataBytes) == want and seg.compressionType == code, f"encoded {bytes(seg.dataBytes).hex()} not {want.hex()}")
        req([float(x) for x in seg.decode()] == list(vals), "decoded differs")
        rec.state("float", code, want, kind)


def case_wider(rec, code, vals, kind):
    """narrow integers stored as a wider integer type by request"""
    data = typed(vals, kind)
    w, ch, f, _ = INFO[code]
    for little in (True, False):
        rec.step()
        seg = sm.encode(data, code, little)
        want = struct.pack(("<" if little else ">") + str(len(vals)) + ch, *vals)
        req(bytes(seg.dataBytes) == want and seg.compressionType == code, f"encoded {bytes(seg.dataBytes).hex()} not {want.hex()}")
        req([int(x) for x in seg.decode()] == list(vals), "decoded differs")
        rec.state(code, want)


def wider_all(rec):
    v8 = [-128, -1, 0, 1, 127]
    v16 = [-32768, -129, 0, 255, 32767]
    for n in (1, 2, 3):
        for s in itertools.product(v8, repeat=n):
            for code in (1, 3):
                for k in ("i1", "i2", ">i2", "i4", "i8", "list") + tuple("array " + t for t in "bhilq"):
                    rec.case("case_wider", code, list(s), k)
        for s in itertools.product(v16, repeat=n):
            for k in ("i2", ">i2", "i4", "i8", ">i8", "list") + tuple("array " + t for t in "hilq"):
                rec.case("case_wider", 3, list(s), k)
                rec.case("case_wider", 1, list(s), k)
        for s in itertools.product([0, 1, 200, 255], repeat=n):
            for k in ("u1", "u2", "u4", "u8", ">u2") + tuple("array " + t for t in "BHILQ"):
                for code in (1, 3):
                    rec.case("case_wider", code, list(s), k)
        for s in itertools.product([0.0, 1.5, -2.25, 1e10, 2.0**-140, float("inf")], repeat=n):
            for k in ("f4", "f8", ">f4", ">f8", "list", "array f", "array d"):
                for code in (4, 5):
                    rec.case("case_float_size", code, list(s), k)
        for s in itertools.product([0, -1, 127], repeat=n):
            for k in ("i1", "i2", ">i4", "i8", "list") + tuple("array " + t for t in "bhilq"):
                for code in (4, 5):
                    rec.case("case_float_size", code, list(s), k)


def case_unfit(rec, code, kind, n, pos, big):
    vals = [1] * n
    vals[pos] = big
    data = typed(vals, kind)
    for little in (True, False):
        rec.step()
        try:
            seg = sm.encode(data, code, little)
        except Exception as e:
            rec.state("refused", code, kind, n, pos, big)
            continue
        raise Violation(f"{vals} accepted as encoding {code}: {bytes(seg.dataBytes).hex()}")


def unfit_all(rec):
    for n in (1, 2, 3, 4, 5):
        for pos in range(n):
            for kind in ("i4", ">i4", "i8", "list", "u2", "u4") + tuple("array " + t for t in "ilqHILQ"):
                for big in (32768, 65535, 65536) + (() if kind[-1] in "HILQ" or kind[0] == "u" else (-32769, -65536)):
                    if kind in ("u2", "array H") and big > 65535:
                        continue
                    rec.case("case_unfit", 1, kind, n, pos, big)
            for kind in ("i8", ">i8", "list", "array l", "array q"):
                for big in (2**31, -2**31 - 1, 2**32, 2**32 + 1, -2**32, 2**63 - 1):
                    rec.case("case_unfit", 1, kind, n, pos, big)
                    rec.case("case_unfit", 3, kind, n, pos, big)
            for kind in ("u4", "u8", "array I", "array L", "array Q"):
                rec.case("case_unfit", 3, kind, n, pos, 2**31)
                rec.case("case_unfit", 3, kind, n, pos, 2**32 - 1)
            for kind in ("f8", "f4", "list", "array f", "array d"):
                for big in (1.5, -0.25):
                    rec.case("case_unfit", 1, kind, n, pos, big)
                    rec.case("case_unfit", 3, kind, n, pos, big)
            for kind in ("f8", "list", "array d"):
                for big in (1e300, -1e39):
                    rec.case("case_unfit", 4, kind, n, pos, big)


NOGUESS_NP = ["i1", "u1", "u2", "u4", "u8", "i8", ">i8", ">u4", "f2", "c8", "c16", "?", "U1", "S1", "O", "M8[s]", "m8[s]", "g", "V4"]


def case_noguess(rec, kind, t, n):
    rec.step()
    if kind == "np":
        data = np.zeros(n, dtype=t)
    elif kind == "array":
        data = array.array(t, "a" * n) if t in "uw" else array.array(t, [1] * n)
        if (t in "hi") or (t in "fd") or (t == "l" and data.itemsize == 4):
            return
    else:
        data = {"list": [1] * n, "bytes": b"a" * n, "bytearray": bytearray(n), "str": "a" * n, "none": None, "float": 1.0}[t]
    rec.state(kind, t, n)
    req(raises(lambda: sm.encode(data)), f"encoding guessed for {kind} {t}")
    if t in ("bytes", "bytearray"):
        for code in (1, 3, 4, 5):
            req(raises(lambda: sm.encode(data, code)), f"{t} encoded")


def case_badcode(rec, code):
    rec.step()
    for data in (np.array([1, 2], dtype="i4"), [1, 2], array.array("i", [1, 2])):
        req(raises(lambda: sm.encode(data, code)), f"encode accepted encoding {code}")
    rec.state("badcode", code)


def noguess_all(rec):
    for n in (0, 1, 2):
        for t in NOGUESS_NP:
            rec.case("case_noguess", "np", t, n)
        for t in "bBhHiIlLqQfdu":
            rec.case("case_noguess", "array", t, n)
        for t in ("list", "bytes", "bytearray", "str", "none", "float"):
            rec.case("case_noguess", "other", t, n)
    for code in range(0, 256):
        if code not in INFO:
            rec.case("case_badcode", code)
    rec.case("case_maps")


def case_maps(rec):
    rec.step()
    for code, (w, ch, f, t) in INFO.items():
        for bo in "<>=":
            req(sm.seedcodec.mseed3EncodingFromNumpyDT(np.dtype(bo + f)) == code, f"encoding for {bo}{f}")
        req(sm.seedcodec.mseed3EncodingFromArrayTypecode(t, w) == code, f"encoding for array {t}")
        req(sm.seedcodec.isPrimitiveCompression(code) and not sm.seedcodec.isPrimitiveCompression(10) and not sm.seedcodec.isPrimitiveCompression(11), "primitive")
        req(sm.seedcodec.isFloatCompression(code) == (code in (4, 5)), "float")
        a = array.array(sm.seedcodec.arrayTypecodeFromMSeed(code), [1, 2])
        req(a.itemsize == w and sm.encode(a).compressionType == code, lambda: f"array of {a.typecode} for encoding {code} has {a.itemsize} bytes")
        x = np.array([1, 2], dtype=sm.seedcodec.numpyDTFromMseed3Encoding(code))
        req(x.dtype.str[1:] == f and sm.encode(x).compressionType == code, lambda: f"{x.dtype} for encoding {code}")
    for n in range(4):
        for v in ((1, -2, 32767), (-32768, 258, 0)):
            for little in (True, False):
                b = struct.pack(("<" if little else ">") + "3h", *v)
                got = sm.decompress(sm.seedcodec.DWWSSN, b, n, little)
                req([int(x) for x in got] == list(v[:n]), lambda: f"DWWSSN 16 bit integers {v[:n]} are read as {got}")
            req(raises(lambda: sm.decompress(sm.seedcodec.DWWSSN, b[:-1], 3, True)), "DWWSSN integers in too few bytes")
    for v in (0.0, -0.0, 1.5, -1e300, 5e-324, float("inf"), 1 / 3):
        for off in (0, 1, 8, 13):
            for little in (True, False):
                b = bytes(range(off)) + struct.pack("<d" if little else ">d", v) + b"\x01\x02"
                got = sm.seedcodec.getFloat64(b, off, little)
                req(struct.pack("<d", got) == struct.pack("<d", v), lambda: f"double {v} at {off} is read as {got}")
                for name, f, x in (("getInt16", "h", -2), ("getInt16", "h", 258), ("getInt32", "i", -3), ("getInt32", "i", 66051), ("getUint32", "I", 2**32 - 2), ("getFloat32", "f", 0.1 if v else v)):
                    c = struct.pack(("<" if little else ">") + f, x)
                    got = getattr(steimframeblock, name)(bytes(range(off)) + c + b"\x05\x06", off, little)
                    req(struct.pack("<" + f, got) == struct.pack("<" + f, x), lambda: f"{name} reads {got} for {x}")
    req([getattr(sm.seedcodec, n) for n in "ASCII SHORT INT24 INTEGER FLOAT DOUBLE STEIM1 STEIM2 STEIM3 CDSN SRO DWWSSN".split()] == [0, 1, 2, 3, 4, 5, 10, 11, 19, 16, 30, 32], "codes of encodings")
    req(sm.seedcodec.mseed3EncodingFromArrayTypecode("l", 4) == 3, "encoding for array l of 4 bytes")
    for code in range(-2, 258):
        rec.step()
        req(cli.encoding_named(sm.encodingName(code), code), lambda: f"encoding {code} is called {sm.encodingName(code)}")
        seg = sm.EncodedDataSegment(code, b"", 0, True)
        req(bool(seg.isFloatCompression()) == (code in (4, 5)) and bool(sm.seedcodec.isPrimitiveCompression(code)) == (code in INFO), lambda: f"kind of encoding {code}")
        if code not in INFO:
            req(raises(lambda: sm.seedcodec.arrayTypecodeFromMSeed(code)), f"array type for encoding {code}")
            req(raises(lambda: sm.seedcodec.numpyDTFromMseed3Encoding(code)), f"element type for encoding {code}")
    for t in "bBHILqQuhilfd":
        for w in (1, 2, 3, 4, 8, 16):
            if (t in "hil" and w in (2, 4)) or (t in "fd" and w in (4, 8)):
                continue
            req(raises(lambda: sm.seedcodec.mseed3EncodingFromArrayTypecode(t, w)), lambda: f"encoding {sm.seedcodec.mseed3EncodingFromArrayTypecode(t, w)} for {t} of {w} bytes")
    for t in ("i1", "u1", "u2", "u4", "i8", "u8", "f2", "c8", "c16", "b1", "S4", "U2", "M8[s]", "m8[s]", "O", "V4"):
        req(raises(lambda: sm.seedcodec.mseed3EncodingFromNumpyDT(np.dtype(t))), f"encoding for {t}")


def case_empty(rec, code, kind):
    raw, vals = to_values(code, [])
    seg = sm.encode(container(code, vals, kind), code)
    rec.step()
    req(bytes(seg.dataBytes) == b"" and seg.numSamples == 0 and len(seg.decode()) == 0, "empty data")
    rec.state("empty", code, kind)


def empty_all(rec):
    for code in INFO:
        for k in ("native", "<", ">", "array", "list"):
            rec.case("case_empty", code, k)


def case_record(rec, code, pats, kind):
    """through both record formats and both byte orders of miniSEED 2"""
    raw, vals = to_values(code, pats)
    n = len(pats)
    f = INFO[code][2]
    h = sm.MSeed3Header()
    h.sampleRatePeriod = 20
    r = sm.MSeed3Record(h, "FDSN:XX_S__B_H_Z", container(code, vals, kind))
    p = r.pack()
    rec.step(3)
    req(h.encoding == code and h.numSamples == n, f"header {h.encoding} {h.numSamples}")
    req(bytes(p[-len(raw):]) == raw, "miniSEED 3 payload is not little endian values")
    d = sm.unpackMSeed3Record(p).decompress()
    req(np.asarray(d).astype("<" + f).tobytes() == raw, "miniSEED 3 samples differ")
    for order in (sm.BIG_ENDIAN, sm.LITTLE_ENDIAN):
        seg = sm.encode(container(code, vals, kind), littleEndian=order == sm.LITTLE_ENDIAN)
        mh = sm.MiniseedHeader("XX", "S", "", "BHZ", "2024-01-01T00:00:00Z", n, 20)
        p2 = sm.MiniseedRecord(mh, seg).pack()
        m = sm.unpackMiniseedRecord(p2)
        req(m.header.byteorder == order and m.header.encoding == code, "miniSEED 2 byte order or encoding")
        req(np.asarray(m.decompress()).astype("<" + f).tobytes() == raw, f"miniSEED 2 samples differ, byte order {order}")
        want = raw if order == sm.LITTLE_ENDIAN else b"".join(x.to_bytes(INFO[code][0], "big") for x in pats)
        req(want in bytes(p2), "miniSEED 2 payload bytes")
    rec.state("record", code, tuple(pats))


def record_all(rec, code):
    for n in (1, 2):
        for s in itertools.product(PATS[code], repeat=n):
            for k in ("native", ">", "array"):
                rec.case("case_record", code, list(s), k)
                if rec.stop:
                    return


def shards(tier):
    q = tier == "quick"
    out = [("wider_all", ()), ("unfit_all", ()), ("noguess_all", ()), ("empty_all", ())]
    for code in INFO:
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            for a in PATS[code]:
                if n < 3:
                    out.append(("seq_all", (code, a, n, CONT)))
                elif n == 3:
                    out.append(("seq_all", (code, a, n, ["native", ">", "array"] if q else CONT)))
                else:
                    out.append(("seq_all", (code, a, n, ["native", ">"])))
        out.append(("sweep_bits", (code,)))
        out.append(("record_all", (code,)))
    for a in range(0, 65536, 8192):
        out.append(("sweep16", (a, a + 8192)))
    out += [("sweep_float", (4,)), ("sweep_float", (5,))]
    return out
