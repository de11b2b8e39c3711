"""C16: miniSEED 2 headers and data survive packing and unpacking."""
import array
import io
import itertools
import math
from fractions import Fraction

import numpy as np

import simplemseed as sm
from simplemseed import miniseed
import ms2ref
from checks import c18
from vlib import req, raises

PROP = "C16"
LEVEL = "model_checking"
RULE = "every value of each header field and every pair of edge values of two fields x byte orders x encodings; every rate; distinct by field values"
BOUNDS = {
    "quick": "each field over its values (every flag byte, every code length), all pairs of edge values; every whole rate and period to 32767, "
             "4,000 rates per decade from 1e-6 to 1e6, factor x multiplier of 44 values; 6 encodings x 9 containers x byte orders x 6 lengths and to 65535 samples; 18 record shapes read, used in every sequence of 0 to 3 of 10 ways and packed",
    "thorough": "as quick with triples of edge values, 60,000 rates per decade, factor x multiplier of 200 values, 40 lengths and record lengths to 2^16, sequences of 4 uses",
}
ASSUME = ["codes fit their fields (station to 5, location and network to 2 and channel to 3 characters), years are 1801 to 2054, sequence numbers 0 to 999999"]

FIELDS = {
    "seq": [0, 1, 9, 10, 99, 123, 9999, 99999, 100000, 999998, 999999],
    "quality": ["D", "R", "Q", "M", "", "d", "0", "-"],
    "sta": ["ABCDE", "A", "AB", "ABC", "ABCD", "12345", "A1", "", "a-b.c", "a b"],
    "loc": ["00", "", "1", "99", "--", "-", "ZZ", "a1"],
    "chan": ["BHZ", "LH1", "ACE", "VKI", "L", "LH", ""],
    "net": ["XX", "A", "9Z", "ZZ"],
    "act": [0, 1, 2, 4, 8, 16, 32, 64, 128, 255],
    "io": [0, 1, 32, 64, 128, 255],
    "qual": [0, 1, 2, 4, 64, 128, 255],
    "corr": [0, 1, -1, 32767, -32768, 65535, 65536, 2**31 - 1, -(2**31), 0x01020304],
    "rate": [20.0, 1.0, 0.01, 0.1, 100.0, 40000.0, 1e-5, 33.333333],
    "time": [(2024, 366, 23, 59, 59, 9999), (1999, 1, 0, 0, 0, 0), (1970, 200, 1, 2, 3, 4), (2054, 365, 23, 0, 0, 1), (1801, 1, 0, 0, 0, 0)],
    "order": [1, 0],
}
DEF = dict(seq=7, quality="D", sta="STA", loc="00", chan="BHZ", net="XX", act=0, io=0, qual=0, corr=0, rate=20.0, time=(2024, 60, 12, 34, 56, 7890), order=1)


def make_header(v, nsamp=0, encoding=-1):
    y = v["time"]
    return sm.MiniseedHeader(v["net"], v["sta"], v["loc"], v["chan"], miniseed.BTime(*y), nsamp, v["rate"], encoding=encoding, byteorder=v["order"],
                             actFlag=v["act"], ioFlag=v["io"], qualFlag=v["qual"], timeCorr=v["corr"], sequence_number=v["seq"],
                             dataquality=v["quality"])


def check_api(h, v, what):
    got = dict(seq=h.sequence_number, quality=h.dataquality, sta=h.station.strip(), loc=h.location.strip(), chan=h.channel.strip(),
               net=h.network.strip(), act=h.actFlag, io=h.ioFlag, qual=h.qualFlag, corr=h.timeCorr)
    for k in got:
        req(got[k] == v[k], lambda: f"{what}: {k} is {got[k]!r} not {v[k]!r}")
    req(abs(Fraction(h.sampleRate) / Fraction(v["rate"]) - 1) <= Fraction(4, 100000), lambda: f"{what}: rate {h.sampleRate!r} not {v['rate']!r}")


def sta5(s):
    return s.encode().ljust(5)


def check_bytes(p, v, what):
    want = dict(seq=b"%06d" % v["seq"], quality=v["quality"].ljust(1).encode(), reserved=b" ", sta=sta5(v["sta"]), loc=v["loc"].ljust(2).encode(),
                chan=v["chan"].ljust(3).encode(), net=v["net"].ljust(2).encode(), act=v["act"], io=v["io"], qual=v["qual"], corr=v["corr"])
    want.update(zip(("year", "yday", "hour", "minute", "sec", "tenth"), v["time"]))
    for k in want:
        req(p[k] == want[k], lambda: f"{what}: packed {k} is {p[k]!r} not {want[k]!r}")
    r = ms2ref.rate(p["factor"], p["mult"])
    req(abs(r / Fraction(v["rate"]) - 1) <= Fraction(4, 100000), lambda: f"{what}: packed rate {float(r)!r} not {v['rate']!r}")


def case_fields(rec, changes):
    v = dict(DEF)
    v.update({k: tuple(x) if isinstance(x, (list, tuple)) else x for k, x in changes.items()})
    r = sm.MiniseedRecord(make_header(v), np.array([1, -2, 3], dtype=">i4" if v["order"] else "<i4"))
    rec.step()
    rec.state(repr(sorted(changes.items())))
    b = bytes(r.pack())
    p = ms2ref.parse(b)
    req(p["header"] == (">" if v["order"] else "<"), "header byte order")
    check_bytes(p, v, "packed")
    req(p["nsamp"] == 3 and p["encoding"] == 3 and p["data"] == p["header"], lambda: f"packed {p}")
    req(p["payload"][:12] == ms2ref.primitive(3, p["data"], [1, -2, 3]) and not any(p["payload"][12:]), "payload")
    for q in (sm.unpackMiniseedRecord(b), r.clone()):
        check_api(q.header, v, "read")
        req(q.header.numSamples == 3 and q.header.encoding == 3 and q.header.byteorder == v["order"], "read count, encoding or byte order")
        req([int(x) for x in q.decompress()] == [1, -2, 3], "read samples")
        req(bytes(q.pack()) == b, "packing what was read gives other bytes")
        codes = [v[k].strip() for k in ("net", "sta", "loc", "chan")]
        req(q.codes() == q.header.codes() == ".".join(codes), lambda: f"codes {q.codes()!r}")
        for sep in ("_", "", " / "):
            req(q.codes(sep) == q.header.codes(sep=sep) == sep.join(codes), lambda: f"codes {q.codes(sep)!r} with {sep!r}")
        if len(codes[3]) == 3:
            want = "FDSN:" + "_".join(codes[:3] + list(codes[3]))
            req(str(q.header.fdsnSourceId()) == want and str(q.identifier) == want,
                lambda: f"source id {str(q.header.fdsnSourceId())!r} not {want!r}")
    # the same from bytes made by the reference
    f = {k: v[k] for k in ("seq", "quality", "net", "sta", "loc", "chan", "act", "io", "qual", "corr")}
    f["quality"] = v["quality"].ljust(1)
    f.update(zip(("year", "yday", "hour", "minute", "sec", "tenth"), v["time"]))
    f.update(factor=p["factor"], mult=p["mult"], nsamp=3)
    o = ">" if v["order"] else "<"
    ref = ms2ref.build(f, header=o, data=o, encoding=3, payload=ms2ref.primitive(3, o, [1, -2, 3]))
    req(ref == b, lambda: f"packed record differs from the SEED layout at {[i for i in range(len(b)) if b[i] != ref[i]][:8]}")


def fields_single(rec, part):
    for k in FIELDS:
        vals = range(256) if k in ("act", "io", "qual") else FIELDS[k]
        if k == "corr":
            vals = FIELDS[k] + [s * (1 << i) for i in range(31) for s in (1, -1)]
        for i, x in enumerate(vals):
            if i % 4 == part:
                for o in (0, 1):
                    rec.case("case_fields", {k: x, "order": o} if k != "order" else {"order": x})
                    if rec.stop:
                        return


def fields_multi(rec, n, part, parts):
    i = 0
    for ks in itertools.combinations(FIELDS, n):
        for xs in itertools.product(*(FIELDS[k] for k in ks)):
            i += 1
            if i % parts == part:
                rec.case("case_fields", dict(zip(ks, xs)))
                if rec.stop:
                    return


def case_rates(rec, rates, exact):
    for k, rt in enumerate(rates):
        v = dict(DEF, rate=rt)
        h = make_header(v)
        if k % 2:
            h.setSampleRate(3.0)
            h.setSampleRate(rt)
        req(h.sampleRate == rt, lambda: f"rate {rt!r} reads {h.sampleRate!r} when set")
        h.encoding = 3
        b = bytes(h.pack())
        f, m = int.from_bytes(b[32:34], "big", signed=True), int.from_bytes(b[34:36], "big", signed=True)
        got = ms2ref.rate(f, m)
        rec.step()
        if exact:
            want = Fraction(rt) if rt >= 1 else Fraction(1, round(1 / rt))
            req(got == want, lambda: f"rate {rt!r} is packed as {f} {m}, {float(got)!r}")
        req(abs(got / Fraction(rt) - 1) <= Fraction(4, 100000), lambda: f"rate {rt!r} is packed as {f} {m}, {float(got)!r}")
        u = miniseed.unpackMiniseedHeader(b, ">")
        req(abs(Fraction(u.sampleRate) / got - 1) < Fraction(1, 10**15), lambda: f"rate {f} {m} reads {u.sampleRate!r}")
        req(bytes(u.pack()) == b[:30] + b[30:44] + bytes(4), lambda: f"rate {rt!r}: header read and packed differs")
    rec.state("rates", rates[0], len(rates))


def rates_all(rec, per, part, parts):
    whole = [float(k) for k in range(1, 32768)][part::parts]
    for i in range(0, len(whole), 500):
        rec.case("case_rates", [x for x in whole[i : i + 500] if x <= 32766], True)
        rec.case("case_rates", [1.0 / x for x in whole[i : i + 500] if x <= 32766], True)
        if rec.stop:
            return
    lo, hi = -6 * per, 6 * per
    log = [10.0 ** (k / per) for k in range(lo, hi + 1)][part::parts]
    log = [min(max(x, 1e-6), 1e6) for x in log]
    edge = []
    if part == 0:
        for x in (1e-6, 1e6, 1.0, 32766.0, 32767.0, 32768.0, 65536.0, 1 / 32766, 1 / 32767, 1 / 32768, 0.5, 2.0, 1 / 3, 32765.0, 65532.0, 65534.0):
            for _ in range(3):
                edge += [y for y in (math.nextafter(x, 0), x, math.nextafter(x, 9e9)) if 1e-6 <= y <= 1e6]
                x = math.nextafter(x, 9e9)
        edge += [k / 100 for k in range(1, 3000)] + [k + 0.5 for k in range(1, 33000, 7)] + [k * 1000.0 for k in range(1, 1001)]
    rs = edge + log
    for i in range(0, len(rs), 500):
        rec.case("case_rates", rs[i : i + 500], False)
        if rec.stop:
            return


def case_factors(rec, factors, mults):
    """factor and multiplier as found in a record are kept"""
    for f, m in itertools.product(factors, mults):
        want = ms2ref.rate(f, m)
        for o in (">", "<"):
            b = ms2ref.build(dict(factor=f, mult=m, nsamp=2), header=o, data=o, payload=ms2ref.primitive(3, o, [4, 5]))
            r = sm.unpackMiniseedRecord(b)
            rec.step()
            req(abs(Fraction(r.header.sampleRate) - want) <= want / 10**15, lambda: f"factor {f} multiplier {m} reads {r.header.sampleRate!r}")
            req((r.header.sampRateFactor, r.header.sampRateMult) == (f, m), lambda: f"factor {f} multiplier {m} not kept")
            req(bytes(r.pack()) == b, lambda: f"factor {f} multiplier {m}: packing what was read gives other bytes")
    rec.state("factors", tuple(factors), len(mults))


def factors_all(rec, vals, part, parts):
    for f in vals[part::parts]:
        rec.case("case_factors", [f], vals)
        if rec.stop:
            return


def fvals(n):
    v = {1, 2, 3, 5, 7, 10, 20, 40, 99, 100, 101, 255, 256, 257, 1000, 10000, 12345, 32765, 32766, 32767}
    k = 0
    while len(v) * 2 < n:
        v.add(k * k % 32749 + 1)
        k += 3
    return sorted(v | {-x for x in v} | {-32768})


VALS = {1: [0, 1, -1, 32767, -32768, 300, -300], 3: [0, -1, 2**31 - 1, -(2**31), 65536, -77, 5], 4: [0.0, 1.5, -2.25, 3e38, float("inf"), -0.0, 7.0],
        5: [0.0, 1.5, -2.25, 1e300, float("-inf"), -0.0, 1 / 3], 10: [0, 1, -1, 100000, -100000, 7, 8], 11: [0, 1, -1, 100000, -100000, 7, 8]}
DT = {1: "i2", 3: "i4", 4: "f4", 5: "f8"}
CONT = ["np<", "np>", "np=", "npstride", "array", "list", "eds<", "eds>", "bytes"]


def case_data(rec, enc, cont, horder, n, exp):
    """samples in every container"""
    vals = [VALS[enc][(k * 3 + k // 7) % 7] for k in range(n)]
    steim = enc in (10, 11)
    v = dict(DEF, order=horder)
    order = {"np<": "<", "np>": ">", "np=": "<", "npstride": "<", "array": "<", "list": "<", "eds<": "<", "eds>": ">", "bytes": ">" if horder else "<"}[cont]
    if steim:
        if cont not in ("eds>", "bytes"):
            return
        if cont == "bytes" and not horder:
            return
        raw = bytes((sm.encodeSteim1 if enc == 10 else sm.encodeSteim2)(np.array(vals, dtype=np.int32)))
    else:
        raw = ms2ref.primitive(enc, order, vals)
    h = make_header(v, nsamp=n if cont == "bytes" else 0, encoding=enc if cont in ("bytes", "list") else -1)
    h.recordLengthExp, h.recordLength = exp, 1 << exp
    if cont.startswith("np"):
        data = np.array(vals, dtype=order + DT[enc])
        if cont == "np=":
            data = np.array(vals, dtype=DT[enc])
        if cont == "npstride":
            data = np.repeat(data, 2)[::2]
    elif cont == "array":
        data = array.array({1: "h", 3: "i", 4: "f", 5: "d"}[enc], vals)
    elif cont == "list":
        data = list(vals)
    elif cont.startswith("eds"):
        data = sm.EncodedDataSegment(enc, raw, n, order == "<")
    else:
        data = bytearray(raw)
    rec.step()
    rec.state(enc, cont, horder, n, exp)
    off = 64 if steim else 56
    r = sm.MiniseedRecord(h, data)
    req(r.header.numSamples == n and r.header.encoding == enc, lambda: f"header says {r.header.numSamples} samples of {r.header.encoding}")
    if off + len(raw) > 1 << exp:
        req(raises(r.pack), "packing too much data does not raise")
        return
    b = bytes(r.pack())
    p = ms2ref.parse(b)
    req(p["exp"] == exp and len(b) == 1 << exp, lambda: f"{len(b)} bytes")
    req(p["encoding"] == enc and p["nsamp"] == n and p["header"] == (">" if horder else "<"), lambda: f"packed {p}")
    req(steim or p["data"] == order, lambda: f"packed data order {p['data']}, data is {order}")
    req(p["payload"][: len(raw)] == raw and not any(p["payload"][len(raw) :]), lambda: f"payload {p['payload'][:32].hex()} not {raw[:32].hex()}")
    check_bytes(p, v, "packed")
    want = np.array(vals, dtype=DT.get(enc, "i4"))
    for q in (r, sm.unpackMiniseedRecord(b), r.clone(), next(sm.readMiniseed2Records(io.BytesIO(b)))):
        d = np.asarray(q.decompress())
        req(len(d) == n and d.astype(want.dtype).tobytes() == want.tobytes() and d.dtype.kind == want.dtype.kind and d.dtype.itemsize == want.dtype.itemsize,
            lambda: f"samples {d[:8]} {d.dtype} not {want[:8]}")
        check_api(q.header, v, "read")
        req(q.header.numSamples == n and q.header.encoding == enc, "read count or encoding")
        req(bytes(q.pack()) == b, "packing again gives other bytes")


def full_all(rec, enc, exp):
    """sample counts to the largest the header can hold"""
    for cont in CONT:
        for ho in (1, 0) if cont[-1] in '<>' else (1,):
            for n in (32767, 32768, 65535):
                rec.case("case_data", enc, cont, ho, n, exp)
                if rec.stop:
                    return


def data_all(rec, enc, exps, lens):
    for exp in exps:
        size = {1: 2, 3: 4, 4: 4, 5: 8}.get(enc, 4)
        full = ((1 << exp) - 56) // size
        for cont in CONT:
            for ho in (1, 0):
                for n in sorted(set(lens) | {full - 1, full, full + 1}):
                    if n > 65535 or n < 1:
                        continue
                    rec.case("case_data", enc, cont, ho, n, exp)
                    if rec.stop:
                        return


USES = {
    "decompress": lambda r: r.decompress(), "summary": lambda r: r.summary(), "details": lambda r: r.details(), "data": lambda r: r.details(True),
    "pack": lambda r: r.pack(), "clone": lambda r: r.clone(), "str": str, "end": lambda r: (r.endtime(), r.next_starttime()),
    "convert": sm.mseed2to3, "header": lambda r: r.header.pack(),
}


def case_reread(rec, i, uses):
    """a record that was read, and used, is written with everything it had"""
    e = c18.SHAPES[i]
    r = sm.unpackMiniseedRecord(e["b"])
    rec.step(1 + len(uses))
    rec.state("reread", i, tuple(uses))
    for u in uses:
        # some cannot be done with some records (samples of text)
        raises(lambda: USES[u](r))
    b = bytes(r.pack())
    a, p = ms2ref.parse(e["b"]), ms2ref.parse(b)
    for k in ("size", "payload", "dataoff", "blkoff", "blkend", "blockettes"):
        x, y = a.pop(k), p.pop(k)
        if k == "size":
            req(len(b) == x == y, lambda: f"{len(b)} bytes, were {x}")
        if k == "payload":
            n = min(len(x), len(y))
            req(x[:n] == y[:n] and not any(x[n:]) and not any(y[n:]), lambda: f"payload {y[:40]} was {x[:40]}")
        if k == "blockettes":
            z = [v[0] if v[0] != "raw" else v[:2] + (len(v[2]),) for v in y]
            # what is between the last and the data may be taken for a part of it
            req(x == y or (x[:-1] == y[:-1] and x[-1][0] == "raw" and y[-1][:2] == x[-1][:2] and y[-1][2].startswith(x[-1][2]) and not any(y[-1][2][len(x[-1][2]):])),
                lambda: f"blockettes {z} were {x}")
    req(a == p, lambda: f"header {[(k, p[k], a[k]) for k in a if a[k] != p[k]]}")
    c18.check_record(sm.unpackMiniseedRecord(b), e, "read again")


def reread_all(rec, n):
    for i in range(len(c18.SHAPES)):
        if not c18.SHAPES[i]["b1000"]:
            continue
        for uses in itertools.product(USES, repeat=n):
            rec.case("case_reread", i, list(uses))
            if rec.stop:
                return


def case_empty(rec, enc, kind, order):
    """a record of no samples has no samples, before and after packing"""
    rec.step(3)
    rec.state("empty", enc, kind, order)
    h = make_header(dict(DEF, order=order), 0, enc)
    data = {"bytes": b"", "bytearray": bytearray(), "segment": sm.EncodedDataSegment(enc, b"", 0, not order)}.get(kind)
    if data is None:
        data = np.array([], dtype={1: "i2", 3: "i4", 4: "f4", 5: "f8"}[enc])
        if kind == "list":
            data = []
    r = sm.MiniseedRecord(h, data)
    for q in (r, sm.unpackMiniseedRecord(r.pack()), r.clone()):
        d = q.decompress()
        req(d is not None and len(d) == 0 and q.header.numSamples == 0 and q.header.encoding == enc, f"{d!r} of {q.header.numSamples} samples, encoding {q.header.encoding}")
        if enc in (1, 3, 4, 5):
            req(d.dtype == np.dtype({1: "i2", 3: "i4", 4: "f4", 5: "f8"}[enc]), f"no samples of {d.dtype}")


def empty_all(rec):
    for enc in (1, 3, 4, 5, 10, 11):
        for kind in ("bytes", "bytearray", "segment") + (("list", "array") if enc < 10 else ()):
            for order in (0, 1):
                rec.case("case_empty", enc, kind, order)


def shards(tier):
    q = tier == "quick"
    out = [("fields_single", (p,)) for p in range(4)] + [("empty_all", ())]
    P = 8 if q else 32
    out += [("fields_multi", (2, p, P)) for p in range(P)]
    if not q:
        out += [("fields_multi", (3, p, 128)) for p in range(128)]
    out += [("rates_all", (4000 if q else 60000, p, P)) for p in range(P)]
    fv = fvals(44 if q else 200) + [0]
    out += [("factors_all", (fv, p, P)) for p in range(P)]
    out += [("reread_all", (n,)) for n in range(4 if q else 5)]
    for enc in VALS:
        out[:0] = [("full_all", (enc, e)) for e in ((20,) if q else range(12, 24))]
        for exp in (7, 8, 9, 12) if q else range(7, 17):
            out.append(("data_all", (enc, [exp], [1, 2, 7] if q else list(range(1, 40)))))
    return out
