"""C19: packed miniSEED 2 records have their declared size and intact blockettes."""
import functools
import itertools

import numpy as np

import simplemseed as sm
from simplemseed import miniseed
import ms2ref
from vlib import raises, req

PROP = "C19"
LEVEL = "model_checking"
RULE = "every list of blockettes to the depth x byte order x encoding x record length x fill; every sequence of operations to the depth"
BOUNDS = {
    "quick": "every list of 0 to 4 of 8 blockettes x 2 byte orders x 3 encodings at 128 and 256 bytes with 4 fills; record lengths 2^7 to 2^12 with every "
             "fill around full, to 2^20 with 5 fills; every sequence of 3 of 10 operations on 14 records (made and read)",
    "thorough": "every list of 0 to 5 blockettes, record lengths to 2^16, sequences of 5 operations",
}
ASSUME = ["blockette 1000 describes the record it is in (its values come from the header)", "codes and times as in C16 and C17"]

KINDS = ["1000", "100", "1001", "r8", "r4", "r9", "r200", "r30"]
SIZE = {"1000": 8, "100": 12, "1001": 8, "r8": 8, "r4": 4, "r9": 9, "r200": 200, "r30": 30}
BODY = {"r8": (500, b"\x01\x02\x03\xe8"), "r4": (395, b""), "r9": (310, b"\x01abc\x02"), "r200": (200, bytes(range(196))), "r30": (2000, b"\0" * 25 + b"z")}
ENC = {"i4": (3, 4), "i2": (1, 2), "s1": (10, 64), "f8": (5, 8)}


def blockette(k, order, enc, exp, o, n, stale):
    if k == "1000":
        if stale:
            # made before the record got its encoding, byte order and length
            return miniseed.Blockette1000(1000, 0, 3 if enc != "i4" else 1, 0 if o == ">" else 1, 9 if exp != 9 else 12)
        return miniseed.Blockette1000(1000, 0, ENC[enc][0], 1 if o == ">" else 0, exp)
    if k == "100":
        return miniseed.Blockette100(100, 0, [20.0, 33.25, 0.125][n % 3])
    if k == "1001":
        return miniseed.Blockette1001(1001, 0, 10 + n, 12, 200 + n)
    num, body = BODY[k]
    return miniseed.BlocketteUnknown(num, 0, int(num).to_bytes(2, "big" if order else "little") + b"\0\0" + body)


def wanted(kinds, enc, data, exp):
    out = []
    if "1000" not in kinds:
        out.append(("1000", ENC[enc][0], 1 if data == ">" else 0, exp))
    for n, k in enumerate(kinds):
        if k == "1000":
            out.append(("1000", ENC[enc][0], 1 if data == ">" else 0, exp))
        elif k == "100":
            out.append(("100", [20.0, 33.25, 0.125][n % 3]))
        elif k == "1001":
            out.append(("1001", 10 + n, 12, 200 + n))
        else:
            out.append(("raw",) + BODY[k])
    return out


def samples(enc, n):
    if enc == "f8":
        return [k * 0.5 - 3 for k in range(n)]
    return [(k * 37 % 200) - 100 for k in range(n)]


@functools.cache
def steim(frames):
    """payload of whole frames and its samples"""
    vals = [(k * k * 7919) % 2000003 - 1000000 for k in range(1 + 14 * frames)]
    block = sm.encodeSteim1FrameBlock(np.array(vals, dtype=np.int32), frames)
    return bytes(block.pack()), vals[: block.numSamples]


def make(kinds, order, enc, exp, n, stale=False, seq=1):
    """record of n samples (frames for Steim)"""
    o = ">" if order else "<"
    h = sm.MiniseedHeader("XX", "STA", "00", "BHZ", "2024-02-29T12:34:56.789012Z", 0, 20.0, byteorder=order, sequence_number=seq)
    h.recordLengthExp, h.recordLength = exp, 1 << exp
    if enc == "s1":
        raw, vals = steim(n) if n else (b"", [])
        data = sm.EncodedDataSegment(10, raw, len(vals), False)
        o = ">"
    else:
        vals = samples(enc, n)
        raw = ms2ref.primitive(ENC[enc][0], o, vals)
        data = np.array(vals, dtype=o + enc)
    bl = [blockette(k, order, enc, exp, o, i, stale) for i, k in enumerate(kinds)]
    return sm.MiniseedRecord(h, data, blockettes=bl), raw, vals, o


def check_packed(b, kinds, order, enc, exp, raw, vals, o):
    req(len(b) == 1 << exp, lambda: f"{len(b)} bytes packed, declares {1 << exp}")
    p = ms2ref.parse(b)
    req(p["size"] == len(b), "size in blockette 1000")
    req(p["header"] == (">" if order else "<"), "header byte order")
    want = wanted(kinds, enc, o, exp)
    # an unknown last blockette extends to the data
    got = list(p["blockettes"])
    if want[-1][0] == "raw" and got and got[-1][0] == "raw":
        g, w = got[-1][2], want[-1][2]
        if g.startswith(w) and not any(g[len(w):]):
            got[-1] = ("raw", got[-1][1], w)
    req(got == want, lambda: f"blockettes {got} not {want}")
    req(p["nsamp"] == len(vals) and p["encoding"] == ENC[enc][0], "count or encoding")
    end = 48 + sum(SIZE[k] for k in kinds) + (0 if "1000" in kinds else 8)
    req(p["dataoff"] >= end, lambda: f"data at {p['dataoff']}, blockettes end at {end}")
    if enc == "s1":
        req(p["dataoff"] % 64 == 0, lambda: f"Steim data at {p['dataoff']}")
    req(p["payload"][: len(raw)] == raw and not any(p["payload"][len(raw):]), "payload is not where declared")
    return p


def check_read(r, kinds, order, enc, exp, vals, o):
    got = []
    for b in r.blockettes:
        n = b.blocketteNum
        if n == 1000:
            got.append(("1000", b.encoding, b.byteorder, b.recLength))
        elif n == 100:
            got.append(("100", b.sampleRate))
        elif n == 1001:
            got.append(("1001", b.timeQuality, b.microseconds, b.frameCount))
        else:
            got.append(("raw", n, bytes(b.rawBytes[4:])))
    want = wanted(kinds, enc, o, exp)
    if want[-1][0] == "raw" and got and got[-1][0] == "raw":
        g, w = got[-1][2], want[-1][2]
        if g.startswith(w) and not any(g[len(w):]):
            got[-1] = want[-1]
    req(got == want, lambda: f"read blockettes {got} not {want}")
    d = r.decompress()
    if len(vals):
        w = np.array(vals)
        req(len(d) == len(w) and (np.asarray(d) == w).all(), lambda: f"read samples {d[:8]} not {w[:8]}")
    req(r.header.numSamples == len(vals), "count")


def case_pack(rec, kinds, order, enc, exp, n):
    r, raw, vals, o = make(kinds, order, enc, exp, n, len(kinds) > 1)
    end = 48 + sum(SIZE[k] for k in kinds) + (0 if "1000" in kinds else 8)
    off = -(-end // 64) * 64 if enc == "s1" else end
    rec.step()
    rec.state(tuple(kinds), order, enc, exp, n)
    if end > 1 << exp or (raw and off + len(raw) > 1 << exp):
        try:
            b = r.pack()
        except Exception:
            rec.count("refused")
            return
        req(False, f"{off + len(raw)} bytes packed in a record of {1 << exp} without an exception: {len(b)} bytes")
    if off > 1 << exp:
        # blockettes fit, there are no data, aligned offset does not fit: either way
        return
    b = bytes(r.pack())
    check_packed(b, kinds, order, enc, exp, raw, vals, o)
    q = sm.unpackMiniseedRecord(b + b"\xff" * 64)
    check_read(q, kinds, order, enc, exp, vals, o)
    c = bytes(q.pack())
    req(c == b, lambda: f"packing what was read differs at {[i for i in range(len(b)) if b[i] != c[i]][:8]}")
    req(bytes(r.pack()) == b, "packing again differs")


def case_notblockette(rec, k, at, n):
    """an entry of the blockettes that is none is refused"""
    rec.step()
    rec.state("none", k, at, n)
    r, raw, vals, o = make(["1000", "1001"], 1, "i4", 9, n)
    r.blockettes.insert(at, [None, 5, (1000, 0), {"blocketteNum": 1000}, "1000", b"\x03\xe8\x00\x00", object()][k])
    req(raises(lambda: r.pack()), f"packed with {r.blockettes}")


def case_values(rec, order, tq, frames, rate, num, body):
    """every value a blockette can hold"""
    rec.step()
    rec.state("values", order, tq, frames, rate, num, body)
    h = sm.MiniseedHeader("XX", "STA", "00", "BHZ", "2024-02-29T12:34:56.789012Z", 0, 20.0, byteorder=order)
    raw = int(num).to_bytes(2, "big" if order else "little") + b"\0\0" + body
    bl = [miniseed.Blockette1001(1001, 0, tq, 12, frames), miniseed.BlocketteUnknown(num, 0, raw), miniseed.Blockette100(100, 0, rate)]
    r = sm.MiniseedRecord(h, np.array([1, 2], dtype=">i4" if order else "<i4"), blockettes=bl)
    b = bytes(r.pack())
    want = [("1000", 3, 1 if order else 0, 9), ("1001", tq, 12, frames), ("raw", num, body), ("100", rate)]
    got = list(ms2ref.parse(b)["blockettes"])
    req(got == want, lambda: f"packed blockettes {got} not {want}")
    q = sm.unpackMiniseedRecord(b)
    x = [c for c in q.blockettes if c.blocketteNum == 1001][0]
    y = [c for c in q.blockettes if c.blocketteNum == num][0]
    z = [c for c in q.blockettes if c.blocketteNum == 100][0]
    req((x.timeQuality, x.microseconds, x.frameCount, bytes(y.rawBytes[4:]), z.sampleRate) == (tq, 12, frames, body, rate), lambda: f"read blockettes {q.blockettes}")
    req(bytes(q.pack()) == b and bytes(q.clone().pack()) == b, "packing what was read gives other bytes")


NUMS = [1, 10, 99, 101, 200, 201, 300, 500, 999, 1002, 2000, 7, 256, 1792, 2055, 32767, 32768, 65535]


def values_all(rec, order):
    for k in range(256):
        body = bytes((k, 255 - k, 0, k)[: k % 5])
        rec.case("case_values", order, k, 255 - k, (k + 1) / 8, NUMS[k % len(NUMS)], body)
        rec.case("case_values", order, 255 - k // 2, k, 2.0 ** (k % 40 - 20), 200 + k % 7, bytes([k]) * (k % 97))


def none_all(rec):
    for k in range(7):
        for at in range(3):
            for n in (0, 5):
                rec.case("case_notblockette", k, at, n)


def lists_all(rec, n, order, enc, exp, first, fills):
    for rest in itertools.product(KINDS, repeat=n - 1) if n else [()]:
        kinds = ([first] if n else []) + list(rest)
        if kinds.count("1000") > 1 or kinds.count("1001") > 1:
            continue
        end = 48 + sum(SIZE[k] for k in kinds) + (0 if "1000" in kinds else 8)
        size = ENC[enc][1]
        full = max(0, ((1 << exp) - (-(-end // 64) * 64 if enc == "s1" else end)) // size)
        for k in sorted({0, 1, full, full + 1}) if fills else (full,):
            rec.case("case_pack", kinds, order, enc, exp, k)
        if rec.stop:
            return


def fill_all(rec, enc, exp):
    for kinds in ([], ["1000"], ["1001"], ["100", "1000", "1001"], ["r200", "1000"], ["1000", "r30"]):
        end = 48 + sum(SIZE[k] for k in kinds) + (0 if "1000" in kinds else 8)
        full = max(0, ((1 << exp) - (-(-end // 64) * 64 if enc == "s1" else end)) // ENC[enc][1])
        for order in (1, 0):
            for n in {full + x for x in range(-5, 4)} | {0, 1, 2}:
                if 0 <= n <= (65535 if enc != "s1" else 1000):
                    rec.case("case_pack", kinds, order, enc, exp, n)
                    if rec.stop:
                        return


def big_all(rec, enc, exp):
    """long records, nearly empty and filled as far as the sample count allows"""
    for kinds in ([], ["1000", "1001"], ["1001", "r200", "1000", "r9"]):
        end = 48 + sum(SIZE[k] for k in kinds) + (0 if "1000" in kinds else 8)
        full = max(0, ((1 << exp) - (-(-end // 64) * 64 if enc == "s1" else end)) // ENC[enc][1])
        most = 65535 if enc != "s1" else 2000
        for order in (1, 0):
            for n in sorted({0, 1, 100, min(full, most), min(full + 1, most)}):
                rec.case("case_pack", kinds, order, enc, exp, n)
                if rec.stop:
                    return


def op_pack(r):
    r.pack()


def op_decompress(r):
    r.decompress()


def op_decompressed(r):
    r.decompressed()


def op_summary(r):
    r.summary()


def op_str(r):
    str(r)


def op_details(r):
    r.details(showData=True)


def op_clone(r):
    r.clone()


def op_ids(r):
    r.codes(), r.identifier, r.header.fdsnSourceId()


def op_times(r):
    r.starttime(), r.endtime(), r.next_starttime()


def op_blk(r):
    r.createB1000(), r.createB100(), r.createB1001(), r.header.calcSeedMultipilerFactor(), r.header.pack()


OPS = ["pack", "decompress", "summary", "details", "clone", "ids", "times", "blk", "str", "decompressed"]
RECS = [
    (["1000"], 1, "i4", 9, 20), (["1001"], 1, "i4", 9, 20), (["100", "r30", "1000", "1001"], 0, "i2", 8, 9), ([], 0, "f8", 9, 5),
    (["1000", "1001"], 1, "s1", 9, 3), (["r8"], 1, "s1", 8, 1), ([], 1, "i4", 7, 0),
]


def case_ops(rec, k, how, ops):
    kinds, order, enc, exp, n = RECS[k]
    r, raw, vals, o = make(kinds, order, enc, exp, n)
    if how == "read":
        r = sm.unpackMiniseedRecord(r.pack())
    base = bytes(make(kinds, order, enc, exp, n)[0].pack())
    rec.step(len(ops))
    rec.state(k, how, tuple(ops))
    for i, op in enumerate(ops):
        globals()["op_" + op](r)
        if i == len(ops) - 1:
            b = bytes(r.clone().pack() if op == "clone" else r.pack())
            req(b == base, lambda: f"after {ops[: i + 1]} packs differently at {[j for j in range(min(len(b), len(base))) if b[j] != base[j]][:8]}")
            check_packed(b, kinds, order, enc, exp, raw, vals, o)
            check_read(r, kinds, order, enc, exp, vals, o)
            check_read(sm.unpackMiniseedRecord(b), kinds, order, enc, exp, vals, o)


def ops_all(rec, k, how, n, first):
    for rest in itertools.product(OPS, repeat=n - 1):
        rec.case("case_ops", k, how, [first] + list(rest))
        if rec.stop:
            return


def shards(tier):
    q = tier == "quick"
    out = [("none_all", ()), ("values_all", (0,)), ("values_all", (1,))]
    for order in (1, 0):
        for enc in ("i4", "s1", "i2"):
            for exp in (7, 8) if q else (7, 8, 9):
                out.append(("lists_all", (0, order, enc, exp, None, True)))
                for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
                    for first in KINDS:
                        out.append(("lists_all", (n, order, enc, exp, first, n < (4 if q else 5))))
    for enc in ENC:
        for exp in range(7, 13 if q else 17):
            out.append(("fill_all", (enc, exp)))
        out += [("big_all", (enc, exp)) for exp in range(13, 21 if q else 25)]
    for k in range(len(RECS)):
        for how in ("made", "read"):
            for first in OPS:
                for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
                    out.append(("ops_all", (k, how, n, first)))
    return out
