"""C20: conversion from miniSEED 2 to 3 preserves the record's meaning."""
import itertools
import json
import math
from fractions import Fraction

import numpy as np

import cli
import simplemseed as sm
import ms2ref
import ms3ref
import steimref
from checks import c18
from checks.c14 import micros
from vlib import req

PROP = "C20"
LEVEL = "model_checking"
RULE = "every value of each header part alone and every combination of the small sets given; every sequence of record shapes to the depth on the command line"
BOUNDS = {
    "quick": "every value of the 3 flag bytes alone and all 512 combinations of 3 bits of each; 256 timing qualities x qualities x 3 blockette orders; 40 x 40 factors and "
             "multipliers and 60 blockette 100 rates; 11 time corrections x 6 flags; every day of 4 years x 4 times x 3 microseconds; codes over small alphabets; every count 0 to full of 7 encodings and to 65535 x header "
             "and data byte orders x 2 lengths; command line: every sequence of 0 to 3 of 16 record shapes, as calls and as files of up to 2, plain and verbose",
    "thorough": "all pairs of flag bytes, every day of every 10th year, 200 x 200 factors, every sequence of 4 shapes and files of 3",
}
ASSUME = ["a record without blockette 1000 is not a miniSEED 2 record and may be refused", "microseconds of blockette 1001 are 0 to 127 here (see the finding of C17)",
          "start times are compared as instants, second 60 being one second after second 59, and a leap second stays second 60 unless microseconds carry over it", "a time correction not applied yet may be applied or not"]
DT = {1: "<i2", 3: "<i4", 4: "<f4", 5: "<f8"}


def payload_of(enc, order, vals):
    if enc in (10, 11):
        return bytes((sm.encodeSteim1 if enc == 10 else sm.encodeSteim2)(np.array(vals, dtype=np.int32))) if len(vals) else b""
    if enc == 0:
        return bytes(vals)
    return ms2ref.primitive(enc, order, vals)


def instant(year, doy, h, m, s, ns):
    return micros(year, doy, h, m, min(s, 59), 0) * 1000 + (10**9 if s == 60 else 0) + ns


def check3(d, f, blk, enc, vals, what="", rate=None):
    """d: parsed miniSEED 3 record; the rest as given to ms2ref.build"""
    e = dict(ms2ref.DEFAULT)
    e.update(f)
    req(d["crcok"], "CRC")
    sid = f"FDSN:{e['net']}_{e['sta']}_{e['loc']}_{e['chan'][0]}_{e['chan'][1]}_{e['chan'][2]}"
    req(d["ident"].decode() == sid, lambda: f"{what}id {d['ident']} not {sid}")
    req(d["numSamples"] == e["nsamp"], lambda: f"{what}{d['numSamples']} samples of {e['nsamp']}")
    us = 0
    want = Fraction(ms2ref.rate(e["factor"], e["mult"]))
    quality = 0
    for b in blk:
        if b[0] == "1001":
            us, quality = b[2], b[1]
        if b[0] == "100":
            want = Fraction(float(np.float32(b[1])))
    if rate is not None:
        want = rate
    ns = instant(e["year"], e["yday"], e["hour"], e["minute"], e["sec"], e["tenth"] * 100000 + us * 1000)
    got = instant(d["year"], d["dayOfYear"], d["hour"], d["minute"], d["second"], d["nanosecond"])
    req(0 <= d["nanosecond"] < 10**9 and d["second"] <= 60 and d["minute"] < 60 and d["hour"] < 24, "time fields out of range")
    req(got == ns, lambda: f"{what}start time is {got - ns} ns off")
    if e["sec"] == 60 and 0 <= e["tenth"] * 100 + us < 10**6:
        req((d["year"], d["dayOfYear"], d["hour"], d["minute"], d["second"]) == (e["year"], e["yday"], e["hour"], e["minute"], 60), lambda: f"{what}leap second not kept")
    srp = d["sampleRatePeriod"]
    req(not math.isnan(srp) and not math.isinf(srp), "rate is not a number")
    have = Fraction(srp) if srp >= 0 else -1 / Fraction(srp)
    req(abs(have - want) <= want / 10**14, lambda: f"{what}rate {srp!r}, should be {float(want)!r}")
    fl = (e["act"] & 1) | (2 if e["qual"] & 0x80 else 0) | (4 if e["io"] & 0x20 else 0)
    req(d["flags"] == fl, lambda: f"{what}flags {d['flags']:08b} not {fl:08b}")
    eh = ms3ref.ehval(d["eh"]) or {}
    fd = eh.get("FDSN", {})
    req(fd.get("DataQuality") == (None if e["quality"] == "D" else e["quality"]), lambda: f"{what}quality {e['quality']} gives {eh}")
    tm = fd.get("Time", {})
    tq = tm.get("Quality")
    req(tq == quality or (quality == 0 and tq is None), lambda: f"{what}timing quality {quality} gives {eh}")
    req(tm.get("LeapSecond") == (1 if e["sec"] == 60 else None), lambda: f"{what}second {e['sec']} gives {eh}")
    req(set(eh) <= {"FDSN"} and set(fd) <= {"DataQuality", "Time"} and set(tm) <= {"Quality", "LeapSecond"}, lambda: f"{what}unfounded extra headers {eh}")
    req(d["publicationVersion"] == 0, lambda: f"{what}publication version {d['publicationVersion']}, it is not known")
    # samples
    p = d["payload"]
    n = e["nsamp"]
    if n:
        req(d["encoding"] == enc, lambda: f"{what}encoding {d['encoding']} not {enc}")
    if n == 0:
        if d["encoding"] in DT:
            req(len(p) == 0, lambda: f"{what}{len(p)} bytes of samples, should be none")
    elif enc in DT:
        w = np.array(vals, dtype=DT[enc]).tobytes()
        req(p == w, lambda: f"{what}samples {np.frombuffer(p, DT[enc])[:9] if len(p) % np.dtype(DT[enc]).itemsize == 0 else p[:40]} not {vals[:9]}")
    elif enc in (10, 11):
        got = steimref.decode(p, 1 if enc == 10 else 2, n)
        req(list(got) == list(vals), lambda: f"{what}samples {got[:9]} not {vals[:9]}")
    else:
        req(p[: len(vals)] == bytes(vals) and not any(p[len(vals):]), lambda: f"{what}payload {p[:40]}")


def state_of(r):
    h = r.header
    return (repr(h.starttime), repr(h.btime), h.network, h.station, h.location, h.channel, h.sampleRate, h.sampRateFactor, h.sampRateMult, h.numSamples,
            h.encoding, h.byteorder, h.actFlag, h.ioFlag, h.qualFlag, h.timeCorr, h.sequence_number, h.dataquality, h.recordLength, h.numBlockettes,
            repr(r.blockettes), bytes(r.encodedDataBytes) if r.encodedDataBytes is not None else None)


def convert(b):
    """packed miniSEED 3 bytes, checking that the input is left alone and a second conversion is the same"""
    fresh = bytes(sm.unpackMiniseedRecord(b).pack())
    r = sm.unpackMiniseedRecord(b)
    s = state_of(r)
    m = sm.mseed2to3(r)
    req(state_of(r) == s, lambda: f"conversion changed the record: {state_of(r)} was {s}")
    out = bytes(m.pack())
    req(bytes(sm.mseed2to3(r).pack()) == out, "second conversion differs")
    req(state_of(r) == s and bytes(r.pack()) == fresh, "conversion changed what the record packs")
    q = sm.unpackMSeed3Record(out)
    return out, q


def one(rec, f, blk, enc, order, header, exp, vals, extra=0):
    payload = payload_of(enc, order, vals)
    b = ms2ref.build(f, header=header, data=order, exp=exp, encoding=enc, payload=payload, blockettes=blk)
    out, q = convert(b)
    rec.step()
    d = ms3ref.parse(out)
    req(d["size"] == len(out), "record length")
    check3(d, f, blk, enc, vals, f"{f} {blk} {enc}{order}{header}: ")
    if f.get("nsamp", 0) and enc in (1, 3, 4, 5, 10, 11):
        x = np.asarray(q.decompress())
        req(len(x) == len(vals) and (x == np.array(vals)).all(), "samples read from the converted record")


def case_corr(rec, corr, act, header, enc):
    """a record with a time correction; if it is not applied yet the start may be with or without it"""
    rec.state("corr", corr, act, header, enc)
    rec.step()
    vals = series(enc, 4)
    f = dict(nsamp=4, corr=corr, act=act, io=0xFF, qual=0xFF, seq=123, quality="Q", hour=10, minute=20, sec=30, tenth=5000)
    blk = [("1000",), ("1001", 70, 33, 5), ("raw", 500, b"abcd"), ("100", 12.5)]
    out, q = convert(ms2ref.build(f, header=header, data=">", exp=9, encoding=enc, payload=payload_of(enc, ">", vals), blockettes=blk))
    d = ms3ref.parse(out)
    total = (30 * 10000 + 5000 + corr)
    late = dict(f, sec=total // 10000, tenth=total % 10000)
    if not act & 2 and (d["second"], d["nanosecond"] // 100000) == (late["sec"], late["tenth"]):
        f = late
    check3(d, f, blk, enc, vals, f"correction {corr}: ")


def corr_all(rec):
    for corr in (0, 1, -1, 12345, -12345, 255, 65535, 100000, -100000, 2**16, 2**17 - 1):
        for act in (0, 1, 2, 3, 0xFD, 0xFF):
            for header in "<>":
                for enc in (1, 3, 5, 10, 11):
                    rec.case("case_corr", corr, act, header, enc)


V4 = [5, -2, 2**31 - 1, -(2**31)]


def case_flags(rec, act, io, qual):
    rec.state("flags", act, io, qual)
    one(rec, dict(nsamp=4, act=act, io=io, qual=qual), [("1000",)], 3, ">", ">", 7, V4)


def flags_all(rec, field, other, vals):
    for v in range(256):
        for w in vals:
            d = {"act": 0, "io": 0, "qual": 0, field: v}
            d[other] = w
            rec.case("case_flags", d["act"], d["io"], d["qual"])
            if rec.stop:
                return


def flags_bits(rec, act):
    for io in (0, 1, 4, 5, 0x20, 0x21, 0x24, 0xFF):
        for qual in (0, 1, 2, 4, 0x80, 0x81, 0x84, 0xFF):
            rec.case("case_flags", act, io, qual)


QUALS = "DRQMEAZ"


def case_quality(rec, q, tq, us, how, header):
    blk = [[("1000",), ("1001", tq, us, 7)], [("1001", tq, us, 0), ("1000",)], [("100", 12.5), ("1000",), ("raw", 500, b"abcd"), ("1001", tq, us, 255)]][how]
    rec.state("q", q, tq, us, how)
    one(rec, dict(nsamp=4, quality=q), blk, 3, ">", header, 8, V4)


def quality_all(rec, q, header):
    for tq in range(256):
        for us in (0, 1, 99, 127) if tq % 16 == 0 else (tq % 100,):
            for how in range(3):
                rec.case("case_quality", q, tq, us, how, header)
                if rec.stop:
                    return


FACT = [1, 2, 3, 7, 10, 11, 13, 20, 40, 80, 100, 101, 127, 128, 200, 255, 256, 333, 1000, 1001, 4000, 5000, 9999, 10000, 12345, 16384, 20000, 30000, 32766, 32767]


def factors(q):
    v = FACT[:20] if q else FACT + [k * k for k in range(12, 90)]
    v = sorted(set(v))[: 20 if q else 100]
    return v + [-x for x in v] + [0]


def case_rates(rec, factor, mults, header):
    for mult in mults:
        rec.state("rate", factor, mult)
        one(rec, dict(nsamp=4, factor=factor, mult=mult), [("1000",)], 3, "<", header, 7, V4)


def rates_all(rec, part, q):
    fs = factors(q)
    for factor in fs[part::8]:
        rec.case("case_rates", factor, fs, ">" if factor % 2 else "<")


def case_b100(rec, rate, factor, mult, nsamp):
    rec.state("b100", rate, factor, mult)
    one(rec, dict(nsamp=nsamp, factor=factor, mult=mult), [("1000",), ("100", rate)], 3, "<", "<", 7, V4[:nsamp])
    one(rec, dict(nsamp=nsamp, factor=factor, mult=mult), [("100", rate), ("1000",)], 3, ">", ">", 7, V4[:nsamp])


def b100_all(rec):
    rates = [20.0, 1.0, 0.5, 0.1, 1 / 3, 3.3, 99.99, 100.01, 1e-3, 1e-6, 1e-9, 1e6, 5000.0, 16777217.0, 39.9999, 40.0001, 2**-20, 3e8]
    rates += [x * 0.37 for x in range(1, 41)]
    for rate in rates:
        for fm in ((20, 1), (-10, 1), (0, 0)):
            rec.case("case_b100", rate, fm[0], fm[1], 4)
    # zero rate: no samples
    for fm in ((0, 0), (20, 1)):
        rec.case("case_b100", 0.0, fm[0], fm[1], 0)


def case_day(rec, year, first, last, t):
    for doy in range(first, last + 1):
        for us in (None, 0, 57, 99):
            rec.state("day", year, doy, t, us)
            f = dict(nsamp=4, year=year, yday=doy, hour=t[0], minute=t[1], sec=t[2], tenth=t[3])
            one(rec, f, [("1000",)] + ([("1001", 3, us, 0)] if us is not None else []), 3, ">", ">" if doy % 2 else "<", 7, V4)


TIMES = [(0, 0, 0, 0), (23, 59, 59, 9999), (12, 34, 56, 7891), (0, 0, 60, 1), (23, 59, 60, 9999)]


def days_all(rec, year):
    n = 366 if year % 4 == 0 and year % 100 or year % 400 == 0 else 365
    for t in TIMES:
        for first in range(1, n + 1, 40):
            rec.case("case_day", year, first, min(n, first + 39), t)


def case_codes(rec, net, stas, locs, chans):
    for sta, loc, chan in itertools.product(stas, locs, chans):
        rec.state("codes", net, sta, loc, chan)
        one(rec, dict(nsamp=4, net=net, sta=sta, loc=loc, chan=chan), [("1000",)], 3, ">", "<", 7, V4)


def codes_all(rec, net):
    rec.case("case_codes", net, ["A", "AB", "ABC", "A1B2", "ABCDE", "12345", "abc"], ["", "0", "00", "1A", "ZZ", "--", "-", "a1"], ["BHZ", "LOG", "ACE", "HN1", "123", "VM0", "bhz"])


def series(enc, n):
    if enc == 0:
        return [32 + k % 90 for k in range(n)]
    if enc in (4, 5):
        return [(k - 3) * 0.25 * (1e30 if k % 3 else 1) for k in range(n)] if enc == 5 else [(k - 3) * 0.25 for k in range(n)]
    if enc == 1:
        return [(k * 7919) % 65536 - 32768 for k in range(n)]
    return [(k * 7919 * (k % 5) ** 6) % 2**26 - 2**25 for k in range(n)]


def case_data(rec, enc, order, header, exp, counts, blk):
    for n in counts:
        rec.state("data", enc, order, header, exp, n, len(blk))
        vals = series(enc, n)
        f = dict(nsamp=n)
        if enc == 0 or n == 0 and exp == 7:
            f.update(factor=0, mult=0)
        one(rec, f, blk, enc, order, header, exp, vals)


def data_all(rec, enc, exp):
    size = {0: 1, 1: 2, 3: 4, 4: 4, 5: 8}
    for blk in ([("1000",)], [("1001", 50, 1, 0), ("raw", 9, b"9876"), ("1000",)]):
        end = 48 + sum({"1000": 8, "1001": 8}.get(x[0], 8) for x in blk)
        if enc in size:
            full = ((1 << exp) - end) // size[enc]
            counts = list(range(full + 1))
        else:
            counts = [n for n in range(0, 400) if n == 0 or len(payload_of(enc, ">", series(enc, n))) + (64 if end <= 64 else 128) <= 1 << exp]
        for order in "<>" if enc not in (0, 10, 11) else ">":
            for header in "<>":
                for i in range(0, len(counts), 16):
                    rec.case("case_data", enc, order, header, exp, counts[i : i + 16], blk)
                    if rec.stop:
                        return


def big_all(rec, enc, exp):
    """counts to the largest of the header"""
    blk = [("1000",)]
    for order in "<>" if enc not in (10, 11) else ">":
        for header in "<>":
            for n in (255, 256, 32767, 32768, 65534, 65535):
                rec.case("case_data", enc, order, header, exp, [n], blk)
                if rec.stop:
                    return


# command line

CAN = [i for i in c18.BASIC if c18.SHAPES[i]["b1000"]]


def blk_of(e):
    return e["blk"]


def check_shape(d, i, what):
    e = c18.SHAPES[i]
    f = {k: e[k] for k in ms2ref.DEFAULT}
    vals = e["vals"] if e["vals"] is not None else []
    check3(d, f, e["blk"], e["enc"], vals, what)


def case_cli(rec, seq, verbose):
    data = b"".join(c18.SHAPES[i]["b"] for i in seq)
    rec.state("cli", tuple(seq), verbose)
    rec.step()
    with cli.Scratch() as s:
        a = s.put("in.ms2", data)
        argv = ["-2", a, "-3", s.path("out.ms3")] + (["-v"] if verbose else [])
        if verbose == "process":
            rc, out = cli.process("mseed2to3", argv)
            exc = err = None
        else:
            rc, out, err, exc = cli.run("mseed2to3", argv)
        req(exc is None and rc == 0, lambda: f"exit {rc} {exc!r} {err}")
        got = s.get("out.ms3")
        req(s.get("in.ms2") == data, "input file changed")
        req(s.ls() == ["in.ms2", "out.ms3"], "other files")
    ds = ms3ref.parse_all(got)
    req(len(ds) == len(seq), lambda: f"{len(ds)} records of {len(seq)}")
    for k, (d, i) in enumerate(zip(ds, seq)):
        check_shape(d, i, f"record {k} (shape {i}): ")


def cli_all(rec, n, first):
    k = 0
    for rest in itertools.product(CAN, repeat=n - 1) if n else [()]:
        k += 1
        rec.case("case_cli", ([first] if n else []) + list(rest), k % 2 == 0)
        if rec.stop:
            return


def case_seq(rec, seq):
    """records of one file converted by call, all kept until the end"""
    import io

    data = b"".join(c18.SHAPES[i]["b"] for i in seq)
    rec.state("seq", tuple(seq))
    rec.step()
    ms3 = [sm.mseed2to3(r) for r in sm.readMiniseed2Records(io.BytesIO(data))]
    req(len(ms3) == len(seq), "number of records")
    for k, (m, i) in enumerate(zip(ms3, seq)):
        check_shape(ms3ref.parse(bytes(m.pack())), i, f"record {k} (shape {i}): ")


def seqs_all(rec, n, first):
    for rest in itertools.product(CAN, repeat=n - 1):
        rec.case("case_seq", [first] + list(rest))
        if rec.stop:
            return


def case_long(rec, n):
    case_cli(rec, (CAN * n)[: 14 * n], False)


def long_all(rec):
    for n in (1, 10, 50):
        rec.case("case_long", n)
    for seq in ([], CAN[:1], CAN):
        rec.case("case_cli", list(seq), "process")


def case_made(rec, enc, order, exp, n, blks):
    """a record that was made, not read"""
    vals = series(enc, n)
    dt = {1: "i2", 3: "i4", 4: "f4", 5: "f8"}
    h = sm.MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-02-29T12:34:56.789000Z", 0, 20.0, byteorder=1 if order == ">" else 0, actFlag=1, ioFlag=0x20, qualFlag=0x80, dataquality="R")
    h.recordLengthExp, h.recordLength = exp, 1 << exp
    if enc in dt:
        data = np.array(vals, dtype=order + dt[enc])
    else:
        data = sm.EncodedDataSegment(enc, payload_of(enc, ">", vals), n, False)
    r = sm.MiniseedRecord(h, data)
    r.blockettes = [{"1000": r.createB1000, "1001": r.createB1001, "100": r.createB100}[b]() for b in blks]
    rec.state("made", enc, order, exp, n, tuple(blks))
    rec.step()
    out = bytes(sm.mseed2to3(r).pack())
    f = dict(nsamp=n, act=1, io=0x20, qual=0x80, quality="R", sta="ABC", tenth=7890)
    check3(ms3ref.parse(out), f, [("1001", 0, 0, 0)], enc, vals, "made: ", Fraction(20))


def made_all(rec, enc):
    for order in "<>":
        for exp, n in itertools.product((8, 9, 12), range(1, 40)):
            for blks in (["1000"], ["1000", "1001"], ["100", "1000"], ["1001", "100", "1000"]):
                if enc in (10, 11) and order == "<":
                    continue
                rec.case("case_made", enc, order, exp, n, blks)
                if rec.stop:
                    return


def shards(tier):
    q = tier == "quick"
    out = [("b100_all", ()), ("long_all", ()), ("corr_all", ()), ("cli_all", (0, None))]
    for a, b in (("act", "io"), ("io", "qual"), ("qual", "act")):
        if q:
            out.append(("flags_all", (a, b, [0, 255])))
        else:
            out += [("flags_all", (a, b, list(range(k, 256, 16)))) for k in range(16)]
    for act in (0, 1, 2, 4, 8, 0x20, 0x80, 0xFF):
        out.append(("flags_bits", (act,)))
    for k in QUALS:
        out += [("quality_all", (k, "<")), ("quality_all", (k, ">"))]
    out += [("rates_all", (k, q)) for k in range(8)]
    out += [("days_all", (y,)) for y in ([1801, 2000, 2023, 2024] if q else sorted(set(range(1801, 2055, 10)) | {1900, 2000, 2023, 2024, 2054, 1999}))]
    out += [("codes_all", (n,)) for n in ("X", "XX", "CO", "9A", "1", "ZZ")]
    for enc in (0, 1, 3, 4, 5, 10, 11):
        out += [("data_all", (enc, exp)) for exp in ((7, 8, 9) if q else range(7, 12))]
        if enc:
            out.append(("made_all", (enc,)))
            out.append(("big_all", (enc, 20)))
    for first in CAN:
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            out.append(("seqs_all", (n, first)))
        for n in (1, 2) if q else (1, 2, 3):
            out.append(("cli_all", (n, first)))
    return out
