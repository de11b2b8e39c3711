"""C30: a changed byte is read as it is or refused, and touches no other record."""
import io
import itertools
import math
import re
import struct
from fractions import Fraction

import numpy as np

import cli
import simplemseed as sm
import ms2ref
import ms3ref
from checks import c18
from checks.c14 import micros
from vlib import req

PROP = "C30"
LEVEL = "model_checking"
RULE = "every changed value of every byte and of every 16 bit field of record headers, in a stream between intact records; distinct by record and change"
BOUNDS = {
    "quick": "12 miniSEED 2 records (both byte orders, lengths 128 to 512, 0 to 5 blockettes, gaps, no data, text, 6 encodings): every value of every byte of fixed header and blockettes, every 3rd "
             "value pattern of the data, every value of 8 16 bit fields of 2 records, every pair of 12 values of every two bytes of the structural fields; 7 miniSEED 3 records read without CRC: every value "
             "of every byte of header, identifier and extra headers, every value of 4 16 bit fields, edge values of the 32 bit fields; the display and conversion commands on every 5th of 7 values of every byte",
    "thorough": "16 bit fields of 6 records; every pair of 24 values of every two bytes of the structural fields; commands on every value of every byte",
}
ASSUME = ["a record is readable if its sequence number is digits, its codes are ASCII text, its time exists, its byte order can be told from the year, its blockettes follow one another inside the record and "
          "its declared length is inside the stream; any other may be refused, which ends reading",
          "what follows a change of a declared length is not claimed, only that reading ends"]
DAMAGE2 = [0, 1, 2, 3, 5, 7, 9, 12, 13, 15, 19, 20]
SEQ = re.compile(rb" *[0-9]+ *")


def days(y):
    return 366 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 365


def readable2(p):
    """a record the reader has to understand"""
    if not SEQ.fullmatch(p["seq"]):
        return False
    for k in ("sta", "loc", "chan", "net", "quality"):
        if any(c > 127 for c in p[k]):
            return False
    if not (1801 <= p["year"] <= 2054 and 1 <= p["yday"] <= days(p["year"]) and p["hour"] < 24 and p["minute"] < 60 and p["sec"] < 60 and p["tenth"] < 10000):
        return False
    if len([x for x in p["blockettes"] if x[0] == "1000"]) != 1:
        return False
    for x in p["blockettes"]:
        if x[0] == "100" and not (math.isfinite(x[1]) and x[1] > 1e-7):
            return False
    return True


def ambiguous(b, off):
    hi, lo = b[off + 20], b[off + 21]
    return (hi in (7, 8)) == (lo in (7, 8))


def check2(r, p, what):
    """r has the values of the parsed bytes"""
    h = r.header
    for k, v in dict(sta=h.station, loc=h.location, chan=h.channel, net=h.network, quality=h.dataquality).items():
        if all(c < 128 for c in p[k]):
            req(v.strip() == p[k].decode().strip(), lambda: f"{what}: {k} is {v!r}, bytes {p[k]}")
    if SEQ.fullmatch(p["seq"]):
        req(h.sequence_number == int(p["seq"]), lambda: f"{what}: sequence number {h.sequence_number}, bytes {p['seq']}")
    for k, v in dict(nsamp=h.numSamples, act=h.actFlag, io=h.ioFlag, qual=h.qualFlag, corr=h.timeCorr, encoding=h.encoding, size=h.recordLength, numblk=h.numBlockettes).items():
        req(v == p[k], lambda: f"{what}: {k} is {v!r} not {p[k]!r}")
    req(h.byteorder == (1 if p["data"] == ">" else 0) or h.byteorder not in (0, 1), lambda: f"{what}: byte order {h.byteorder}")
    us = [x[2] for x in p["blockettes"] if x[0] == "1001"]
    if p["hour"] < 24 and p["minute"] < 60 and p["sec"] < 60 and p["tenth"] < 10000 and 1 <= p["yday"] <= days(p["year"]) and len(us) < 2 and 1800 < p["year"] < 2055:
        want = micros(p["year"], p["yday"], p["hour"], p["minute"], p["sec"], 0) + p["tenth"] * 100
        s = h.starttime
        got = micros(s.year, s.timetuple().tm_yday, s.hour, s.minute, s.second, 0) + s.microsecond
        u = us[0] if us else 0
        req(got - want in ((u, u - 256) if u > 127 else (u,)), lambda: f"{what}: start {s!r} is {got - want - u} us off")
    rates = [x[1] for x in p["blockettes"] if x[0] == "100"]
    want = rates[-1] if rates else float(ms2ref.rate(p["factor"], p["mult"]))
    req(abs(h.sampleRate - want) <= 1e-14 * abs(want) or (want != want and h.sampleRate != h.sampleRate) or h.sampleRate == want, lambda: f"{what}: rate {h.sampleRate!r} not {want!r}")
    got = []
    for b in r.blockettes:
        n = b.blocketteNum
        got.append(("1000", b.encoding, b.byteorder, b.recLength) if n == 1000 else ("100", b.sampleRate) if n == 100 else
                   ("1001", b.timeQuality, b.microseconds, b.frameCount) if n == 1001 else ("raw", n, bytes(b.rawBytes[4:])))
    req(len(got) == len(p["blockettes"]), lambda: f"{what}: blockettes {got} not {p['blockettes']}")
    for g, w in zip(got, p["blockettes"]):
        same = g == w or (g[0] == w[0] == "100" and g[1] != g[1] and w[1] != w[1])
        if g[0] == w[0] == "raw" and g[1] == w[1]:
            same = g[2].startswith(w[2]) or w[2].startswith(g[2])
        req(same, lambda: f"{what}: blockette {g} not {w}")
    if p["dataoff"]:
        req(bytes(r.encodedDataBytes) == p["payload"], lambda: f"{what}: data {bytes(r.encodedDataBytes)[:40]} not {p['payload'][:40]}")
    else:
        req(not r.encodedDataBytes, lambda: f"{what}: data {r.encodedDataBytes!r}, declares none")


PRIM = {1: "i2", 3: "i4", 4: "f4", 5: "f8", 32: "i2"}


def check_samples(r, p, order, what):
    """decoding gives the samples the bytes have, or fails"""
    enc, n, payload = p["encoding"], p["nsamp"] if "nsamp" in p else p["numSamples"], p["payload"]
    if n > 100000:
        return
    try:
        x = r.decompress()
    except Exception as e:
        x = None
        if enc in PRIM and enc != 32:
            req(len(payload) < n * int(PRIM[enc][1]), lambda: f"{what}: {n} samples of encoding {enc} in {len(payload)} bytes are refused, {e!r}")
        return
    if x is None and not payload:
        return
    if n == 0:
        req(x is None or len(x) == 0, lambda: f"{what}: {x!r} for no samples")
    elif enc in PRIM:
        req(x is not None and len(x) == n and len(payload) >= n * int(PRIM[enc][1]), lambda: f"{what}: {n} samples of encoding {enc} in {len(payload)} bytes give {x!r}")
        w = np.frombuffer(payload, order + PRIM[enc], n)
        req(np.asarray(x).astype(w.dtype).tobytes() == w.tobytes(), lambda: f"{what}: samples {x!r} not {w!r}")
    elif enc in (10, 11):
        req(x is not None and len(x) == n, lambda: f"{what}: {n} samples of encoding {enc} give {x!r}")
    else:
        req(x is None, lambda: f"{what}: samples {x!r} of encoding {enc}")


def read2(data, limit, pat=None):
    got = []
    try:
        for r in sm.readMiniseed2Records(io.BytesIO(data), pat):
            got.append(r)
            req(len(got) <= limit, lambda: f"{len(got)} records from {len(data)} bytes")
    except (Exception, MemoryError) as e:
        if type(e).__name__ == "Violation":
            raise
        return got, e
    return got, None


PRE, POST = 16, 18


def case_damage2(rec, i, changes, alone=False):
    """changes: list of [[position, byte], ...]"""
    e = c18.SHAPES[i]
    pre, post = c18.SHAPES[PRE], c18.SHAPES[POST]
    for ch in changes:
        b = bytearray(e["b"])
        for k, v in ch:
            b[k] = v
        b = bytes(b)
        what = f"shape {i} with {ch}"
        data = pre["b"] + b + post["b"]
        off = len(pre["b"])
        rec.step()
        rec.state(i, b)
        got, exc = read2(data, len(data) // 48)
        req(len(got) >= 1, lambda: f"{what}: the intact record before it is lost, {exc!r}")
        c18.check_record(got[0], pre, f"{what}: the record before")
        for r in got:
            req(len(r.encodedDataBytes or b"") <= max(0, r.header.recordLength - r.header.dataOffset),
                lambda: f"{what}: a record of {r.header.recordLength} bytes with {len(r.encodedDataBytes)} bytes of data at {r.header.dataOffset}")
        try:
            p = ms2ref.parse(data, off)
        except (ValueError, struct.error, IndexError, OverflowError):
            rec.count("not a record")
            continue
        if p["size"] < 64 or ambiguous(data, off):
            continue
        if len(got) > 1:
            check2(got[1], p, what)
            if got[1].header.byteorder in (0, 1):
                check_samples(got[1], p, p["data"], what)
        ok = readable2(p)
        if not ok:
            rec.count("may be refused")
            continue
        req(len(got) > 1, lambda: f"{what}: refused, {exc!r}")
        if p["size"] == len(b):
            req(len(got) == 3 and exc is None, lambda: f"{what}: {len(got)} records of 3, {exc!r}")
            c18.check_record(got[2], post, f"{what}: the record after")
        if alone and p["size"] <= len(b):
            check2(sm.unpackMiniseedRecord(b), p, what + " alone")
            # other channel codes have no source id to match
            for pat in () if not (len(p["chan"].decode().strip()) == 3 and p["chan"].decode().isalnum()) else ("XX_AB1_", "X_XAB"):
                w = [x for x in ("FDSN:XX_AB1__B_H_Z", "FDSN:X_XAB_1_B_H_Z") if re.search(pat, x)]
                if p["size"] == len(b):
                    g, exc = read2(data, 9, pat)
                    have = [str(r.identifier) for r in g]
                    req(exc is None and all(x in have for x in w) and len(have) - len(w) in (0, 1), lambda: f"{what}: {pat} gives {have}, {exc!r}")


def head2(i):
    return c18.SHAPES[i]["head"]


def bytes2_all(rec, i, part, parts):
    b = c18.SHAPES[i]["b"]
    for k in range(part, len(b), parts):
        vals = range(256) if k < head2(i) else (b[k] ^ 0xFF, 0, 255)
        ch = [[[k, v]] for v in vals if v != b[k]]
        for j in range(0, len(ch), 64):
            rec.case("case_damage2", i, ch[j:j + 64], j % 4 == 0)
            if rec.stop:
                return


def fields2(i):
    """positions of 16 bit fields"""
    b = c18.SHAPES[i]["b"]
    return [22, 28, 30, 32, 34, 44, 46, 50]


def words2_all(rec, i, k):
    """every value of a 16 bit field"""
    for v0 in range(0, 65536, 256):
        rec.case("case_damage2", i, [[[k, v >> 8], [k + 1, v & 255]] for v in range(v0, v0 + 256)])
        if rec.stop:
            return


EDGES = [0, 1, 2, 4, 7, 8, 48, 56, 63, 64, 127, 255, 47, 49, 60, 3, 5, 6, 9, 52, 100, 128, 232, 254]


def pairs2_all(rec, i, k, n):
    """edge values of two bytes of the structure: count and offsets of blockettes and data, blockette numbers and lengths"""
    pos = [39, 44, 45, 46, 47] + list(range(48, min(head2(i), 68)))
    if k >= len(pos):
        return
    for m in pos[k + 1:]:
        rec.case("case_damage2", i, [[[pos[k], v], [m, w]] for v in EDGES[:n] for w in EDGES[:n]])
        if rec.stop:
            return


# ---- miniSEED 3 without CRC

ID = b"FDSN:XX_ABC_00_B_H_Z"


def rec3(i):
    P = lambda v, t: np.array(v, dtype=t).tobytes()
    return [
        ms3ref.build(dict(numSamples=3), ID, b"", P([1, -2, 3], "<i4")),
        ms3ref.build(dict(numSamples=2, encoding=5, sampleRatePeriod=-10.0, nanosecond=123456789), ID, b'{"FDSN":{"Time":{"Quality":7}}}', P([1.5, -2.5], "<f8")),
        ms3ref.build(dict(numSamples=0, encoding=0), b"FDSN:YY_B__L_O_G", b'{"a":[1,2]}', b""),
        ms3ref.build(dict(numSamples=6, encoding=11, year=1970), b"X", b"", bytes(sm.encodeSteim2([1, 2, 3, -4000, 70000, 70001]))),
        ms3ref.build(dict(numSamples=5, encoding=1, dayOfYear=366, flags=7), ID, b"{}", P([1, 2, 3, 4, -5], "<i2")),
        ms3ref.build(dict(numSamples=9, encoding=0), ID, b"", b"hello\r\nxy"),
        ms3ref.build(dict(numSamples=1, encoding=4, sampleRatePeriod=0.0, publicationVersion=255), b"", b"", P([1.5], "<f4")),
    ][i]


R3 = [rec3(i) for i in range(7)]
PRE3 = ms3ref.build(dict(numSamples=2), b"FDSN:AA_PRE__B_H_Z", b'{"k":2}', np.array([7, 8], dtype="<i4").tobytes())
POST3 = ms3ref.build(dict(numSamples=2, encoding=1), b"FDSN:ZZ_POST__B_H_Z", b"", np.array([9, 10], dtype="<i2").tobytes())


def check3(r, p, what):
    h = r.header
    got = dict(flags=h.flags, nanosecond=h.nanosecond, year=h.year, dayOfYear=h.dayOfYear, hour=h.hour, minute=h.minute, second=h.second, encoding=h.encoding,
               numSamples=h.numSamples, publicationVersion=h.publicationVersion, crc=h.crc)
    for k in got:
        req(got[k] == p[k], lambda: f"{what}: {k} is {got[k]!r} not {p[k]!r}")
    req(ms3ref.same_float(h.sampleRatePeriod, p["sampleRatePeriod"]), lambda: f"{what}: rate {h.sampleRatePeriod!r}")
    req(r.identifier.encode() == p["ident"], lambda: f"{what}: identifier {r.identifier!r} not {p['ident']}")
    req(bytes(r.encodedDataBytes()) == p["payload"], lambda: f"{what}: data {bytes(r.encodedDataBytes())[:40]} not {p['payload'][:40]}")
    try:
        want = ms3ref.ehval(p["eh"])
    except ValueError:
        return
    if isinstance(want, dict):
        req(r.eh == want or (repr(want) == repr(r.eh)), lambda: f"{what}: extra headers {r.eh} not {want}")
    elif want is None:
        req(not r.eh, lambda: f"{what}: extra headers {r.eh}")


def utf8(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def case_damage3(rec, i, changes):
    for ch in changes:
        b = bytearray(R3[i])
        for k, v in ch:
            b[k] = v
        b = bytes(b)
        what = f"record {i} with {ch}"
        data = PRE3 + b + POST3
        rec.step()
        rec.state("3", i, b)
        got, exc = [], None
        try:
            for r in sm.readMSeed3Records(io.BytesIO(data), check_crc=False):
                got.append(r)
                req(len(got) <= len(data) // 40, "too many records")
        except (Exception, MemoryError) as e:
            if type(e).__name__ == "Violation":
                raise
            exc = e
        if b[:3] != b"MS\x03":
            req(len(got) == 1 and exc is not None, lambda: f"{what}: {b[:3]} is read as a record")
        req(len(got) >= 1 and got[0].identifier == "FDSN:AA_PRE__B_H_Z" and bytes(got[0].pack()) == PRE3, lambda: f"{what}: the intact record before it is lost, {exc!r}")
        try:
            p = ms3ref.parse(data, len(PRE3))
        except ValueError:
            rec.count("not a record")
            continue
        if len(got) > 1:
            if utf8(p["ident"]) and utf8(p["eh"]):
                check3(got[1], p, what)
                check_samples(got[1], p, "<", what)
        if not (utf8(p["ident"]) and utf8(p["eh"])):
            continue
        req(len(got) > 1, lambda: f"{what}: refused, {exc!r}")
        if p["size"] <= len(b):
            check3(sm.unpackMSeed3Record(b, check_crc=False), p, what + " alone")
        h = sm.unpackMSeed3FixedHeader(b)
        req((h.flags, h.numSamples, h.identifierLength, h.extraHeadersLength, h.dataLength, h.year, h.crc) ==
            (p["flags"], p["numSamples"], b[33], int.from_bytes(b[34:36], "little"), int.from_bytes(b[36:40], "little"), p["year"], p["crc"]), lambda: f"{what}: fixed header")
        if p["size"] == len(b):
            req(len(got) == 3 and exc is None, lambda: f"{what}: {len(got)} records of 3, {exc!r}")
            req(bytes(got[2].pack()) == POST3, lambda: f"{what}: the record after it changed")
            # what is not matched is skipped, whatever it has
            g = [str(r.identifier) for r in sm.readMSeed3Records(io.BytesIO(data), check_crc=False, matchsid="PRE|POST")]
            req(g[:1] == ["FDSN:AA_PRE__B_H_Z"] and g[-1] == "FDSN:ZZ_POST__B_H_Z", lambda: f"{what}: matching gives {g}")


def bytes3_all(rec, i):
    b = R3[i]
    for k in range(len(b)):
        ch = [[[k, v]] for v in range(256) if v != b[k]]
        rec.case("case_damage3", i, ch)
        if rec.stop:
            return


def words3_all(rec, i, k):
    for v0 in range(0, 65536, 256):
        rec.case("case_damage3", i, [[[k, v & 255], [k + 1, v >> 8]] for v in range(v0, v0 + 256)])
        if rec.stop:
            return


def longs3_all(rec, i):
    n = len(R3[i])
    vals = sorted({0, 1, 2, 3, abs(n - 41), n - 40, n - 39, n, 2 * n, 127, 128, 255, 256, 999999999, 10**9, 2**31 - 1, 2**31, 2**32 - 1, 2**24, 65535, 65536})
    for k in (4, 24, 28, 36):
        rec.case("case_damage3", i, [[[k + j, (v >> 8 * j) & 255] for j in range(4)] for v in vals])
    for m, n in itertools.combinations((33, 34, 36), 2):
        rec.case("case_damage3", i, [[[m, v], [n, w]] for v in range(0, 60) for w in range(0, 60)])


# ---- commands

def case_command2(rec, i, changes):
    e = c18.SHAPES[i]
    pre, post = c18.SHAPES[PRE], c18.SHAPES[POST]
    want = bytes(sm.mseed2to3(sm.unpackMiniseedRecord(pre["b"])).pack())
    for ch in changes:
        b = bytearray(e["b"])
        for k, v in ch:
            b[k] = v
        what = f"shape {i} with {ch}"
        rec.step(2)
        rec.state("c", i, bytes(b))
        data = pre["b"] + bytes(b) + post["b"]
        got, exc = read2(data, 99)
        with cli.Scratch() as d:
            f = d.put("f", data)
            rc, out, err, x = cli.run("mseed2details", ["--summary", f])
            lines = out.split("\n")
            req(lines[0].startswith("XX.AB1..BHZ "), lambda: f"{what}: mseed2details shows {out[:100]!r}, {x!r}")
            req((rc == 0) == (exc is None), lambda: f"{what}: mseed2details exit status {rc}, {x!r}, reading {exc!r}")
            req(len(lines) >= len(got), lambda: f"{what}: {len(lines)} lines of {len(got)} records")
            o = d.path("o")
            rc, out, err, x = cli.run("mseed2to3", ["-2", f, "-3", o])
            c = d.get("o")
            req(c.startswith(want), lambda: f"{what}: the intact record before it was not converted, {x!r}")
            if exc is not None:
                req(rc != 0, lambda: f"{what}: mseed2to3 exit status {rc}, reading {exc!r}")
            if rc == 0:
                req(len(ms3ref.parse_all(c)) == len(got), lambda: f"{what}: {len(c)} bytes of {len(got)} records")


def commands2_all(rec, i, part, parts, q):
    b = c18.SHAPES[i]["b"]
    for k in range(part, head2(i), parts):
        vals = sorted({0, 1, 127, 128, 255, b[k] ^ 1, b[k] ^ 128} - {b[k]})
        if q:
            vals = vals[(k + i) % 5::5]
        rec.case("case_command2", i, [[[k, v]] for v in vals])


def case_command3(rec, i, changes):
    for ch in changes:
        b = bytearray(R3[i])
        for k, v in ch:
            b[k] = v
        what = f"record {i} with {ch}"
        rec.step(1)
        rec.state("c3", i, bytes(b))
        with cli.Scratch() as d:
            f = d.put("f", PRE3 + bytes(b) + POST3)
            rc, out, err, x = cli.run("mseed3details", ["--summary", f])
            req(out.startswith("FDSN:AA_PRE__B_H_Z "), lambda: f"{what}: mseed3details shows {out[:100]!r}, {x!r}")
            req(rc != 0 and out.count("\n") == 1, lambda: f"{what}: mseed3details exit status {rc}, output {out[:200]!r}")


def commands3_all(rec, i, q):
    b = R3[i]
    for k in range(0, len(b)):
        vals = sorted({0, 1, 127, 128, 255, b[k] ^ 1, b[k] ^ 128} - {b[k]})
        rec.case("case_command3", i, [[[k, v]] for v in (vals[(k + i) % 5::5] if q else vals)])


def shards(tier):
    q = tier == "quick"
    out = []
    for i in DAMAGE2:
        P = 4 if len(c18.SHAPES[i]["b"]) > 300 else 2
        out += [("bytes2_all", (i, p, P)) for p in range(P)]
    for i in [1, 2] if q else [0, 1, 2, 3, 5, 9]:
        out += [("words2_all", (i, k)) for k in (fields2(i))]
    for i in ([1, 2, 5] if q else DAMAGE2):
        out += [("pairs2_all", (i, k, 12 if q else 24)) for k in range(25)]
    for i in range(len(R3)):
        out += [("bytes3_all", (i,)), ("longs3_all", (i,)), ("commands3_all", (i, q))]
    for i in [1] if q else [0, 1, 2, 3]:
        out += [("words3_all", (i, k)) for k in (8, 10, 34, 36)]
    for i in DAMAGE2:
        out += [("commands2_all", (i, p, 4, q)) for p in range(4)]
    return out
