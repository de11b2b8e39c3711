"""C08: corrupted miniSEED 3 records are detected by CRC."""
import contextlib
import io
import itertools
import json

import numpy as np

import simplemseed as sm
import ms3ref
from vlib import req, raises, Violation

PROP = "C08"
LEVEL = "model_checking"
RULE = ("every damage of the listed kinds of every base record, through unpacking and through reading it alone, before, between and "
        "after intact records; distinct by damaged bytes")
BOUNDS = {
    "quick": "9 records of 40 to 230 bytes: every bit flip, every value of every byte, all 8 (6) bit bursts and bursts of 9 (7)..32 bits with 6 (3) "
             "inner patterns on 4 (5) of them, every truncation, every removed, repeated and swapped byte; every pair of bit flips of 3 records; "
             "every packed record's CRC compared with an independent implementation",
    "thorough": "all 8 bit bursts and 6 patterns of 9..32 bits on every record, every pair of bit flips of 4 records, every pair of changed bytes (15 values each) of a header, and every triple of bit "
                "flips within 96 bits of a 60 byte record",
}
ASSUME = ["errors of more than 32 scattered bits can in principle keep a CRC-32C unchanged and are not claimed"]


def make_base(i):
    """(bytes) of intact record i"""
    h = dict(numSamples=0, encoding=3)
    pay = np.array([1, -2, 300], dtype="<i4").tobytes()
    return [
        ms3ref.build(dict(h), b"", b"", b""),
        ms3ref.build(dict(h, numSamples=3), b"FDSN:XX_A__B_H_Z", b"", pay[:12]),
        ms3ref.build(dict(h, numSamples=1, flags=4), b"FDSN:XX_A__B_H_Z", b"", b"\0\0\0\1"),
        ms3ref.build(dict(h), b"FDSN:XX_A_00_B_H_Z", b'{"a":1}', b""),
        ms3ref.build(dict(h, numSamples=3, nanosecond=999999000, dayOfYear=366), b"FDSN:XX_A_00_B_H_Z", b'{"a":"MS\\u0003","b":[1,2]}', pay),
        ms3ref.build(dict(h, numSamples=6, encoding=11, sampleRatePeriod=-10.0), b"X", b"{}",
                     bytes(sm.encodeSteim2([1, 2, 3, -4000, 70000, 70001]))),
        ms3ref.build(dict(h, numSamples=5, encoding=10), "FDSN:é".encode(), '{"é":"ü"}'.encode(),
                     bytes(sm.encodeSteim1([1, 2, 3, -4000, 70000]))),
        ms3ref.build(dict(h, numSamples=0, encoding=100), b"MS\x03MS\x03", b"", b"MS\x03" * 7),
        ms3ref.build(dict(h, numSamples=2, encoding=5), b"FDSN:XX_A__B_H_Z", b'{"a":' + b"1" * 60 + b"}", np.array([1.5, -2e9]).tobytes()),
    ][i]


N = 9
_BASE = {}


def base(i):
    if i not in _BASE:
        _BASE[i] = make_base(i)
    return _BASE[i]


OTHER = ms3ref.build(dict(numSamples=2), b"FDSN:YY_B_10_H_N_Z", b'{"k":2}', np.array([7, 8], dtype="<i4").tobytes())


OPTIONS = [dict(merge=True), dict(merge=True, matchsid=".", verbose=True, check_crc=True)]
_MERGED = {}


def merged(b):
    """an intact record alone, as the merging reader returns it"""
    if b not in _MERGED:
        _MERGED[b] = bytes(next(sm.readMSeed3Records(io.BytesIO(b), merge=True)).pack())
    return _MERGED[b]


def returned(rec, f):
    rec.step()
    try:
        return f()
    except Exception:
        return None


def case_damage(rec, i, damaged, streams):
    """damaged must not be returned, in any place"""
    orig = base(i)
    if damaged == orig:
        return
    extends = damaged[: len(orig)] == orig
    if not extends:
        r = returned(rec, lambda: sm.unpackMSeed3Record(damaged))
        if r is not None:
            raise Violation(f"unpacked as {bytes(r.pack()).hex()}")
        if streams:
            req(returned(rec, lambda: sm.unpackMSeed3Record(bytearray(damaged), True)) is None, "unpacked from a bytearray")
    rec.state(damaged)
    if not streams:
        return
    for pre, post in (((), ()), ((), (OTHER,)), ((OTHER,), ()), ((OTHER,), (orig, OTHER))):
        data = b"".join(pre) + damaged + b"".join(post)
        ok = list(pre) + ([orig] + list(post) if extends else [])
        for pat in (None, "."):
            got = []
            rec.step()
            try:
                for r in sm.readMSeed3Records(io.BytesIO(data), matchsid=pat):
                    got.append(bytes(r.pack()))
            except Exception:
                pass
            req(all(g in (OTHER, orig) for g in got), "reader returned an altered record")
            if pat is None and len(damaged) == len(orig):
                req(got == ok[: len(got)], lambda: f"reader returned {[g.hex() for g in got][len(pre):][:1]} from a damaged record")
        if not post:
            continue
        # also when records are decompressed and joined on the way
        for kw in OPTIONS:
            got = []
            rec.step()
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    for r in sm.readMSeed3Records(io.BytesIO(data), **kw):
                        got.append(bytes(r.pack()))
                except Exception:
                    pass
            good = [merged(OTHER), merged(orig)]
            req(all(g in good for g in got), lambda: f"reader with {kw} returned an altered record")


def flips1(rec, i):
    b = base(i)
    for k in range(len(b) * 8):
        x = bytearray(b)
        x[k // 8] ^= 1 << (k % 8)
        rec.case("case_damage", i, bytes(x), True)


def bytes1(rec, i, lo, hi):
    b = base(i)
    for k in range(lo, min(hi, len(b))):
        for v in range(256):
            if v != b[k]:
                rec.case("case_damage", i, b[:k] + bytes([v]) + b[k + 1:], k < 40 or v in (0, 255))
        if rec.stop:
            return


def bursts(rec, i, lo, hi, full):
    b = base(i)
    n = len(b) * 8
    v = int.from_bytes(b, "big")
    for k in range(lo, min(hi, n)):
        for width in range(2, 9 if full else 7):
            if k + width > n:
                continue
            for mid in range(1 << (width - 2)):
                pat = (1 << (width - 1)) | (mid << 1) | 1
                rec.case("case_damage", i, (v ^ (pat << (n - k - width))).to_bytes(len(b), "big"), False)
        for width in range(9 if full else 7, 33):
            if k + width > n:
                continue
            m = (1 << width) - 1
            edge = (1 << (width - 1)) | 1
            for mid in (0, m, 0x55555555 & m, 0xAAAAAAAA & m, 0x0F0F0F0F & m, 0x12345678 & m) if full else (0, m, 0x12345678 & m):
                rec.case("case_damage", i, (v ^ ((mid | edge) << (n - k - width))).to_bytes(len(b), "big"), False)
        if rec.stop:
            return


def pairs(rec, i, lo, hi):
    b = base(i)
    n = len(b) * 8
    v = int.from_bytes(b, "big")
    for a in range(lo, min(hi, n)):
        for c in range(a + 1, n):
            rec.case("case_damage", i, (v ^ (1 << (n - 1 - a)) ^ (1 << (n - 1 - c))).to_bytes(len(b), "big"), False)
        if rec.stop:
            return


def triples(rec, i, lo, hi, span):
    b = base(i)
    n = len(b) * 8
    v = int.from_bytes(b, "big")
    for a in range(lo, min(hi, n)):
        for c, d in itertools.combinations(range(a + 1, min(a + span, n)), 2):
            rec.case("case_damage", i, (v ^ (1 << (n - 1 - a)) ^ (1 << (n - 1 - c)) ^ (1 << (n - 1 - d))).to_bytes(len(b), "big"), False)
        if rec.stop:
            return


def bytepairs(rec, i, lo, hi):
    b = base(i)
    vals = (0, 1, 2, 3, 4, 7, 8, 16, 32, 64, 127, 128, 200, 254, 255)
    for k in range(lo, hi):
        for m in range(k + 1, min(len(b), 60)):
            for p in vals:
                for q in vals:
                    x = bytearray(b)
                    x[k], x[m] = p, q
                    rec.case("case_damage", i, bytes(x), False)
        if rec.stop:
            return


def edits(rec, i):
    b = base(i)
    for k in range(len(b)):
        rec.case("case_damage", i, b[:k], True)  # cut
        rec.case("case_damage", i, b[:k] + b[k + 1:], True)  # lost byte
        rec.case("case_damage", i, b[:k] + b[k: k + 1] + b[k:], True)  # repeated byte
        for w in (2, 3, 4, 8, 16, 40):
            if k + w <= len(b):
                rec.case("case_damage", i, b[:k] + b[k: k + w][::-1] + b[k + w:], True)  # swapped
                rec.case("case_damage", i, b[:k] + bytes(w) + b[k + w:], True)  # zeroed
                rec.case("case_damage", i, b[:k] + b"\xff" * w + b[k + w:], True)
                rec.case("case_damage", i, b[:k] + b[k + w:], True)
        if k:
            rec.case("case_damage", i, b[:k] + bytes(len(b) - k), True)  # torn
            rec.case("case_damage", i, bytes(k) + b[k:], True)


def lengths(rec, i):
    """moved section borders and other consistent looking changes with a stale CRC"""
    b = base(i)
    d = ms3ref.parse(b)
    fields = {k: d[k] for k in ms3ref.FIELDS}
    crc = b[28:32]
    whole = d["ident"] + d["eh"] + d["payload"]
    for a in range(len(d["ident"]) + 2):
        for e in range(min(len(whole) - a, 40) + 1 if len(whole) >= a else 0):
            x = bytearray(ms3ref.build(fields, whole[:a], whole[a: a + e], whole[a + e:]))
            x[28:32] = crc
            rec.case("case_damage", i, bytes(x), True)
    for k in ms3ref.FIELDS:
        for v in (0, 1, 5, 100, 200, 255):
            x = bytearray(ms3ref.build(dict(fields, **{k: float(v) if k == "sampleRatePeriod" else v}), d["ident"], d["eh"], d["payload"]))
            x[28:32] = crc
            rec.case("case_damage", i, bytes(x), True)


def case_intact(rec, i):
    b = base(i)
    rec.step(5)
    for f in (lambda: sm.unpackMSeed3Record(b), lambda: sm.unpackMSeed3Record(b, check_crc=True), lambda: sm.unpackMSeed3Record(b, check_crc=False),
              lambda: next(sm.readMSeed3Records(io.BytesIO(b))), lambda: next(sm.readMSeed3Records(io.BytesIO(b), check_crc=True)),
              lambda: next(sm.readMSeed3Records(io.BytesIO(b), check_crc=False)),
              lambda: sm.unpackMSeed3Record(b).clone()):
        r = f()
        req(r.header.crc == ms3ref.parse(b)["crc"], "crc of read record")
        req(bytes(r.pack()) == b, "intact record changed")
    rec.state("intact", i)


def case_packed(rec, ident, eh, payload, crc0):
    """the CRC of every packed record, whatever the header held before"""
    h = sm.MSeed3Header()
    h.encoding = 100
    h.crc = crc0
    r = sm.MSeed3Record(h, ident, payload, eh)
    for _ in range(2):
        rec.step()
        b = bytes(r.pack())
        z = bytearray(b)
        z[28:32] = bytes(4)
        want = ms3ref.crc32c(z)
        req(int.from_bytes(b[28:32], "little") == want, f"stored CRC {b[28:32].hex()} not {want:#x}")
        req(r.header.crc == want, f"header CRC {r.header.crc:#x} not {want:#x}")
        req(r.header.crcAsHex() == f"0x{want:08X}" == sm.crcAsHex(want), r.header.crcAsHex())
        rec.state(want)


def packed_all(rec, lo, hi):
    for n in range(lo, hi):
        for ident in ("", "FDSN:XX_A__B_H_Z", "é"):
            for eh in (None, {"a": 1}, '{"é": 2}'):
                rec.case("case_packed", ident, eh, bytes((i * 31 + n) & 255 for i in range(n)), (0, 1, 2**32 - 1)[n % 3])


def intact_all(rec):
    for i in range(N):
        rec.case("case_intact", i)


def shards(tier):
    q = tier == "quick"
    out = [("intact_all", ())]
    for i in range(N):
        out += [("flips1", (i,)), ("edits", (i,)), ("lengths", (i,))]
        n = len(base(i))
        out += [("bytes1", (i, a, a + 40)) for a in range(0, n, 40)]
        out += [("bursts", (i, a, a + 80, not q or i in (0, 1, 4, 6))) for a in range(0, n * 8, 80)]
    for i in (0, 1, 2) if q else (0, 1, 2, 3, 4):
        out += [("pairs", (i, a, a + 40)) for a in range(0, len(base(i)) * 8, 40)]
    if not q:
        out += [("triples", (2, a, a + 8, 96)) for a in range(0, len(base(2)) * 8, 8)]
        out += [("bytepairs", (1, a, a + 1)) for a in range(0, 40)]
    out += [("packed_all", (a, a + 16)) for a in range(0, 96, 16)]
    return out
