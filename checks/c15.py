"""C15: sample rate, period and end time of miniSEED 3 agree."""
import datetime as D
import itertools
import math
from fractions import Fraction

import numpy as np

import simplemseed as sm
import ms3ref
from vlib import req

PROP = "C15"
LEVEL = "model_checking"
RULE = "every rate and period of the set x way to set it x sample count x start; distinct by stored value, count and start"
BOUNDS = {
    "quick": "rates and periods: integers 1..600, k/128 and k/100 to 6, k*10^e for e -6..6, 1/k, neighbouring doubles: 2 ways to set, all pairs of 24 "
             "settings in a row; end time with 14 counts to 2^32-1 x 3 starts; records of 5 encodings",
    "thorough": "integers 1..10000, k/128 and k/1000 to 20, k*10^e for e -9..9 with k to 399, neighbours of every seventh; end time with 26 counts x 6 starts",
}
ASSUME = ["rates and periods are positive normal doubles (zero: no rate); reference arithmetic is exact (fractions)",
          "start and end are in years 1 to 9999", "end time of a record without samples is only required not to raise"]
EPOCH = D.datetime(1, 1, 1, tzinfo=D.timezone.utc)
US = D.timedelta(microseconds=1)
LASTUS = (D.datetime(9999, 12, 31, 23, 59, 59, tzinfo=D.timezone.utc) - EPOCH) // US
STARTS = ["2024-01-01T00:00:00Z", "1999-12-31T23:59:59.999999Z", "1970-06-30T12:00:00.000001Z", "1700-01-01T00:00:00.5Z",
          "2000-02-29T23:59:59.123456Z", "9000-12-31T00:00:00.1Z"]
COUNTS = [0, 1, 2, 3, 4, 10, 101, 3601, 65537, 8640001, 2**24 + 1, 2**31 - 1, 2**31, 2**32 - 1]
COUNTS_T = sorted(set(COUNTS) | {5, 7, 100, 1000, 12345, 86400, 86401, 999999, 1000001, 2**16, 10**9, 2**32 - 2})


def values(tier):
    q = tier == "quick"
    v = set()
    for k in range(1, 601 if q else 10001):
        v.add(float(k))
    for k in range(1, 769 if q else 5001):
        v.add(k / 128)
    for k in range(1, 601 if q else 20001):
        v.add(k / (100 if q else 1000))
        v.add(1.0 / k)
    for e in range(-6, 7) if q else range(-9, 10):
        for k in range(1, 100 if q else 400):
            v.add(float(f"{k}e{e}"))
    base = sorted(x for x in v)
    for x in base[::7]:
        v.add(math.nextafter(x, math.inf))
        v.add(math.nextafter(x, 0))
    return sorted(v)


def near(a, b, ulps=2):
    """a is within a few ulp of the exact b"""
    return abs(Fraction(a) - b) <= ulps * Fraction(math.ulp(float(b)))


def check_rate(h, kind, v, what):
    """kind: rate or period was set to v"""
    f = Fraction(v)
    rate, period = h.sampleRate, h.samplePeriod
    if v == 0:
        req(rate == 0 and period == 0, lambda: f"{what}: rate {rate} period {period}")
        return
    if kind == "rate":
        req(rate == v, lambda: f"{what}: rate reads {rate!r}")
        req(near(period, 1 / f), lambda: f"{what}: period reads {period!r}")
    else:
        req(period == v, lambda: f"{what}: period reads {period!r}")
        req(near(rate, 1 / f), lambda: f"{what}: rate reads {rate!r}")
    s = h.sampleRatePeriod
    req((s == rate and s > 0) or (s == -period and s < 0), lambda: f"{what}: stored value {s!r}")


def setval(h, kind, v):
    if kind == "rate":
        h.sampleRate = v
    elif kind == "period":
        h.samplePeriod = v
    elif kind == "srate":
        h.sampleRatePeriod = v
    else:
        h.sampleRatePeriod = -v


def exact(h):
    s = h.sampleRatePeriod
    return Fraction(0) if s == 0 else 1 / Fraction(s) if s > 0 else -Fraction(s)


def check_end(obj, h, what):
    n = h.numSamples
    end = obj.endtime
    if n == 0:
        return
    dur = exact(h) * (n - 1)
    start = (h.starttime - EPOCH) // US
    want = start + dur * 1_000_000
    got = (end - EPOCH) // US
    req(abs(got - want) <= 1 + dur * 1_000_000 * Fraction(6, 10**16),
        lambda: f"{what}: end {end!r} is {float(got - want)} us off, {n} samples from {h.starttime!r}")
    req(end.utcoffset() == D.timedelta(0), "end not UTC")


def case_rates(rec, kind, vals, counts, starts):
    base = "period" if kind in ("period", "speriod") else "rate"
    for v in vals:
        h = sm.MSeed3Header()
        h.encoding = 3
        setval(h, kind, v)
        what = f"{kind} {v!r}"
        check_rate(h, base, v, what)
        c = h.clone()
        check_rate(c, base, v, what + " cloned")
        b = bytes(h.pack())
        req(ms3ref.parse(b[:36] + b"\0\0\0\0")["sampleRatePeriod"] == h.sampleRatePeriod, "packed field")
        u = sm.unpackMSeed3FixedHeader(b)
        check_rate(u, base, v, what + " packed")
        rec.step()
        for st in starts:
            h.starttime = st
            s = (h.starttime - EPOCH) // US
            for n in counts:
                if s + exact(h) * n * 1_000_000 > LASTUS or s < exact(h) * 1_000_000:
                    continue
                h.numSamples = n
                check_end(h, h, what)
                rec.step()
    rec.state(kind, vals[0], tuple(counts), tuple(starts))


def rates_all(rec, tier, part, parts, counts, starts):
    vals = values(tier)[part::parts]
    for kind in ("rate", "period", "srate", "speriod"):
        for i in range(0, len(vals), 50):
            rec.case("case_rates", kind, vals[i : i + 50], counts if kind in ("rate", "period") else counts[:4], starts)
            if rec.stop:
                return


SEQ = [("rate", 20.0), ("period", 20.0), ("rate", 0.05), ("period", 0.05), ("rate", 0.0), ("rate", 1.0), ("period", 1.0), ("rate", 100), ("period", 3),
       ("rate", 1e-9), ("period", 1e-9), ("rate", 1 / 3), ("period", 1 / 3), ("period", 86400), ("rate", 2.5e6), ("period", 0),
       ("srate", 40.0), ("speriod", 40.0), ("rate", 0.1), ("period", 0.1), ("rate", 4000), ("period", 4000.5), ("srate", 0.0), ("rate", 1.5)]


def case_seq(rec, seq):
    h = sm.MSeed3Header()
    h.encoding = 3
    h.numSamples = 7
    for k, (kind, v) in enumerate(seq):
        setval(h, kind, v)
        check_rate(h, "period" if kind in ("period", "speriod") else "rate", v, f"{seq[:k + 1]!r}")
        check_end(h, h, f"{seq[:k + 1]!r}")
        rec.step()
    rec.state(repr(seq))


def seq_all(rec, n):
    for seq in itertools.product(SEQ, repeat=n):
        rec.case("case_seq", [list(x) for x in seq])
        if rec.stop:
            return


def case_record(rec, kind, v, n, enc, start):
    """records, as made, cloned, read and decompressed"""
    h = sm.MSeed3Header()
    setval(h, kind, v)
    h.starttime = start
    data = [7] * n
    if enc in (10, 11):
        h.encoding = enc
        if n == 0:
            return
        data = bytes((sm.encodeSteim1 if enc == 10 else sm.encodeSteim2)(np.array(data, dtype=np.int32)))
        h.numSamples = n
    elif enc is None:
        data = None
        h.encoding = 0
    else:
        data = np.array(data, dtype={1: "int16", 3: "int32", 4: "float32", 5: "float64"}[enc])
    s = (h.starttime - EPOCH) // US
    if s + exact(h) * n * 1_000_000 > LASTUS or s < exact(h) * 1_000_000:
        return
    r = sm.MSeed3Record(h, "FDSN:XX_S__B_H_Z", data)
    base = "period" if kind in ("period", "speriod") else "rate"
    packed = bytes(r.pack())
    rs = [r, r.clone(), sm.unpackMSeed3Record(packed)]
    if enc is not None:
        rs += [r.decompressedRecord(), rs[1].decompressedRecord()]
    for q in rs:
        check_rate(q.header, base, v, f"record {kind} {v}")
        check_end(q, q.header, f"record {kind} {v}")
        req(q.header.numSamples == (n if enc is not None else 0), "sample count")
        s = q.summary()
        req(str(q) == s and "FDSN:XX_S__B_H_Z" in s and f"({q.header.numSamples} pts)" in s, lambda: f"summary {s!r}")
        req("FDSN:XX_S__B_H_Z" in q.details(), "details")
        rec.step()
    rec.state("rec", kind, v, n, enc, start)


def record_all(rec, starts):
    for kind, v in SEQ:
        for n in (0, 1, 2, 100):
            for enc in (1, 3, 4, 5, 10, 11, None):
                for st in starts:
                    rec.case("case_record", kind, v, n, enc, st)
                    if rec.stop:
                        return


def shards(tier):
    q = tier == "quick"
    parts = 16 if q else 128
    out = [("rates_all", (tier, p, parts, COUNTS if q else COUNTS_T, STARTS[:3] if q else STARTS)) for p in range(parts)]
    out += [("seq_all", (2,)), ("record_all", (STARTS[:3] if q else STARTS,))]
    if not q:
        out.append(("seq_all", (3,)))
    return out
