"""C17: miniSEED 2 start and end times are kept."""
import datetime as D
import itertools
from fractions import Fraction

import numpy as np

import simplemseed as sm
from simplemseed import miniseed
import ms2ref
from checks.c14 import EPOCH, US, OFFS, YEARS as _Y, fields, leap, micros, make, month_day
from vlib import raises, req, Violation

PROP = "C17"
LEVEL = "model_checking"
RULE = "every day x time x way to set it x blockettes x byte order, each read and packed three times; distinct by those"
BOUNDS = {
    "quick": "every day of 6 years (1801..2054) x 4 times of day x 9 forms x 5 offsets; every microsecond of 20 ms; every blockette 1001 byte x 20 header "
             "times x 4 blockette orders x 2 byte orders, packed and read 3 times, start time changed and packed; second 60; end times of 2,000 rates x 8 counts; 14 values that are no time",
    "thorough": "every day of every third year from 1801 to 2054 x 4 times of day, every microsecond of a second, every blockette 1001 byte x 200 header times, 20,000 rates",
}
ASSUME = ["years 1801 to 2054, which is where the byte order of a header can be told from its year",
          "the SEED manual defines the microseconds of blockette 1001 as signed"]
YEARS = [1801, 1900, 1999, 2000, 2016, 2054]
TIMES = [(0, 0, 0, 0), (23, 59, 59, 999999), (12, 34, 56, 789012), (1, 59, 0, 99)]
FORMS = ["naive", "utc", "aware", "shift", "iso", "isoZ", "isooff", "isoplain", "date"]
LO, HI = micros(1801, 2, 0, 0, 0, 0), micros(2054, 364, 0, 0, 0, 0)


def usof(t):
    req(t.utcoffset() == D.timedelta(0), lambda: f"{t!r} is not UTC")
    return (t - EPOCH) // US


def record(arg, nsamp=2, rate=20.0, order=1, blk=()):
    h = sm.MiniseedHeader("XX", "STA", "00", "BHZ", arg, 0, rate, byteorder=order)
    r = sm.MiniseedRecord(h, np.zeros(nsamp, dtype=">i4" if order else "<i4"))
    for b in blk:
        r.blockettes.append({"1000": r.createB1000, "1001": r.createB1001, "100": r.createB100}[b]())
    return r


def btime_us(p):
    return micros(p["year"], p["yday"], p["hour"], p["minute"], p["sec"], 0) + p["tenth"] * 100


def signed(b):
    return b - 256 if b > 127 else b


def packed_us(p):
    """start time of a packed record, as this library writes it: microseconds 0 to 99"""
    us = btime_us(p)
    for b in p["blockettes"]:
        if b[0] == "1001":
            us += signed(b[2])
    return us


def roundtrip(r, us, exact, what, times=3):
    """pack and read three times"""
    for k in range(times):
        b = bytes(r.pack())
        p = ms2ref.parse(b)
        got = packed_us(p)
        if k == 0 and not exact:
            req(abs(got - us) < 100, lambda: f"{what}: packed {got - us} us off")
            us = got
        want = us
        req(got == want, lambda: f"{what}: packed {got - us} us off after {k} reads")
        r = sm.unpackMiniseedRecord(b)
        got = usof(r.starttime())
        req(got == want, lambda: f"{what}: read {got - us} us off after {k} reads")
        req(usof(r.header.starttime) == got, "header start time")
    return r


def case_days(rec, year, form, off, times, b1001):
    for doy in range(1, 367 if leap(year) else 366):
        for t in times:
            a = make(form, year, doy, tuple(t), off)
            if a is None:
                continue
            us = micros(year, doy, *t) - off * 1_000_000
            if not LO <= us <= HI:
                continue
            rec.step()
            r = record(a[0], blk=("1001",) if b1001 else ())
            req(usof(r.starttime()) == us, lambda: f"{a[0]!r} reads {r.starttime()!r}")
            roundtrip(r, us, b1001, f"{a[0]!r}", 2 if doy % 30 == 0 else 1)
    rec.state(year, form, off, b1001)


def days_all(rec, years, offs, forms):
    for year in years:
        for form in forms:
            for off in offs if form in ("aware", "shift", "isooff", "isoplain") else [0]:
                rec.case("case_days", year, form, off, TIMES, True)
                if form in ("aware", "isoZ"):
                    rec.case("case_days", year, form, off, TIMES, False)
                if rec.stop:
                    return


def case_micros(rec, lo, hi, order):
    base = micros(2024, 366, 23, 59, 59, 0)
    r = None
    for us in range(lo, hi):
        t = D.datetime(2024, 12, 31, 23, 59, 59, us)
        blk = (("1001",), ("1000", "1001"), ("1001", "1000"), ("100", "1001"))[us % 4]
        a = record(t, order=order, blk=blk)
        req(usof(a.starttime()) == base + us, "start time")
        roundtrip(a, base + us, True, f"{t!r}")
        # a record that is read, given another time and packed
        if r is not None:
            r.header.setStartTime(t)
            roundtrip(r, base + us, True, f"{t!r} set in a record read")
        r = sm.unpackMiniseedRecord(a.pack())
        r.header.setStartTime(D.datetime(1999, 1, 1, 1, 1, 1, (us * 7919) % 1000000))
        roundtrip(r, micros(1999, 1, 1, 1, 1, (us * 7919) % 1000000), True, "set again")
        rec.step(3)
    rec.state(lo, order)


def micros_all(rec, lo, hi):
    for a in range(lo, hi, 250):
        rec.case("case_micros", a, a + 250, a // 250 % 2)
        if rec.stop:
            return


def header_times(n):
    out = [(2024, 60, 12, 34, 56, 7890), (2024, 1, 0, 0, 0, 0), (2023, 365, 23, 59, 59, 9999), (2016, 366, 23, 59, 60, 0), (2016, 366, 23, 59, 60, 9999),
           (1801, 2, 0, 0, 0, 1), (2054, 364, 5, 6, 7, 8), (2000, 60, 0, 0, 0, 0), (1972, 182, 23, 59, 60, 1)]
    for k in range(n - len(out)):
        out.append((1802 + k * 37 % 250, 1 + k * 61 % 365, k * 7 % 24, k * 11 % 60, k * 13 % 60, k * 977 % 10000))
    return out


ORDERS = [["1000", "1001"], ["1001", "1000"], ["1000", "100", "1001", "raw"], ["raw", "1001", "1000"]]


def case_b1001(rec, time, byte, border, order, data):
    """a record as found in a file"""
    y = dict(zip(("year", "yday", "hour", "minute", "sec", "tenth"), time))
    blk = [{"1000": ("1000",), "100": ("100", 20.0), "1001": ("1001", 77, byte, 6), "raw": ("raw", 500, b"abcdefgh")}[x] for x in ORDERS[border]]
    b = ms2ref.build(dict(y, nsamp=3), header=order, data=data, payload=ms2ref.primitive(3, data, [1, 2, 3]), blockettes=blk)
    base = btime_us(ms2ref.parse(b))
    r = sm.unpackMiniseedRecord(b)
    rec.step()
    rec.state(tuple(time), byte, border, order, data)
    got = usof(r.starttime()) - base
    # the date and time fields are those of the start, a leap second stays one
    total = base + got
    if time[4] == 60 and time[5] * 100 + got < 1_000_000:
        want = (y["year"], y["yday"], y["hour"], y["minute"], 60, (time[5] * 100 + got) // 100)
    else:
        f = fields(total)
        want = f[:5] + (f[5] // 100,)
    req(tuple(r.header.btime) == want, lambda: f"time fields {tuple(r.header.btime)} not {want}")
    # another start time changes only the microseconds of the blockette
    if byte % 8 == 0:
        e = sm.unpackMiniseedRecord(b)
        e.header.setStartTime("2001-02-03T04:05:06.123456Z")
        p, p0 = ms2ref.parse(bytes(e.pack())), ms2ref.parse(b)
        req(packed_us(p) == micros(2001, 34, 4, 5, 6, 123456), "start set in a record read")
        req([x[:2] + x[3:] if x[0] == "1001" else x for x in p["blockettes"]] == [x[:2] + x[3:] if x[0] == "1001" else x for x in p0["blockettes"]],
            lambda: f"setting the start changed {p0['blockettes']} to {p['blockettes']}")
    # the same start however often it is packed and read
    q = r
    for k in range(3):
        c = bytes(q.pack())
        req(c == b or time[4] == 60, lambda: f"blockette 1001 of {signed(byte)} us: record {k} packed differs at {[i for i in range(len(b)) if b[i] != c[i]][:8]}")
        q = sm.unpackMiniseedRecord(c)
        req(usof(q.starttime()) - base == got, lambda: f"start moves when packed and read {k} times")
    req(usof(r.clone().starttime()) - base == got, "clone start")
    # end times
    for n, t in ((2, r.endtime()), (3, r.next_starttime())):
        req(abs(usof(t) - base - got - n * 50000) <= 1, lambda: f"time of sample {n} is {t!r}")
    if got != signed(byte):
        raise Violation(f"blockette 1001 of {signed(byte)} us moves the start by {got} us",
                        "b1001-negative-offset" if byte > 127 and got == byte else None)


def b1001_all(rec, times):
    for time in times:
        for byte in range(256):
            for border in range(len(ORDERS)):
                for order, data in ((">", ">"), ("<", "<")) if border else ((">", "<"), ("<", ">")):
                    rec.case("case_b1001", time, byte, border, order, data)
                    if rec.stop:
                        return


def case_second(rec, year, yday):
    """headers with any second to 60, without blockette 1001"""
    for sec in range(61):
        for hour, minute in ((23, 59), (0, 0), (12, 30)):
            for tenth in (0, 1, 9999):
                b = ms2ref.build(dict(year=year, yday=yday, hour=hour, minute=minute, sec=sec, tenth=tenth, nsamp=1),
                                 payload=ms2ref.primitive(3, ">", [9]))
                want = micros(year, yday, hour, minute, 0, 0) + sec * 1_000_000 + tenth * 100
                r = sm.unpackMiniseedRecord(b)
                req(usof(r.starttime()) == want and usof(r.endtime()) == want, lambda: f"{year} {yday} {hour}:{minute}:{sec}.{tenth} reads {r.starttime()!r}")
                b2 = bytes(r.pack())
                req(packed_us(ms2ref.parse(b2)) == want, "packed start")
                bt = miniseed.BTime(year, yday, hour, minute, sec, tenth)
                req(usof(record(bt).starttime()) == want, lambda: f"{bt!r} given reads {record(bt).starttime()!r}")
                roundtrip(record(bt, blk=("1001",)), want, True, f"{bt!r}")
                rec.step()
    rec.state(year, yday)


def second_all(rec, year):
    for yday in (1, 31, 59, 60, 61, 181, 182, 365) + ((366,) if leap(year) else ()):
        rec.case("case_second", year, yday)
        if rec.stop:
            return


def case_end(rec, rates, counts, how):
    start = micros(2024, 60, 1, 2, 3, 456789)
    t = "2024-02-29T01:02:03.456789Z"
    for rt in rates:
        if how == "set":
            r = record(t, rate=rt)
            r.header.setSampleRate(7.0)
            r.header.setSampleRate(rt)
        else:
            r = record(t, rate=rt)
        for n in counts:
            if (n + 1) / rt > 9e10:
                continue
            r.header.numSamples = n
            for k, x in ((n - 1, r.endtime()), (n, r.next_starttime())):
                want = start + Fraction(k) / Fraction(rt) * 1_000_000
                dur = abs(want - start)
                req(abs(usof(x) - want) <= 1 + dur * Fraction(6, 10**16),
                    lambda: f"rate {rt!r}: sample {k} is at {x!r}, {float(usof(x) - want)} us off")
            rec.step()
    rec.state("end", rates[0], how)


def end_all(rec, n, part, parts):
    rates = [10.0 ** (-6 + 12 * k / n) for k in range(n)] + [k + 0.0 for k in range(1, 201)] + [1 / k for k in range(1, 201)] + [k / 100 for k in range(1, 401)]
    rates = rates[part::parts]
    for i in range(0, len(rates), 50):
        rec.case("case_end", rates[i : i + 50], [1, 2, 3, 100, 3601, 32767, 65534, 65535], "set" if i // 50 % 2 else "new")
        if rec.stop:
            return


NOTIMES = [None, 5, 1.5, "", "now", "2024-13-01T00:00:00Z", "2024-02-30T00:00:00Z", "2023-02-29", "2024-01-01T00:60:00", b"2024-01-01", [2024, 1, 1], (2024, 1), D.timedelta(1), {}]


def case_notime(rec, k):
    """what is no time is refused, when made and when set"""
    rec.step()
    rec.state("notime", k)
    v = NOTIMES[k]
    req(raises(lambda: sm.MiniseedHeader("XX", "ABC", "00", "BHZ", v, 3, 20.0)), f"{v!r} was taken")
    r = record("2024-02-29T01:02:03.456700Z")
    before = bytes(r.pack())
    req(raises(lambda: r.header.setStartTime(v)), f"{v!r} was taken")
    req(bytes(r.pack()) == before, f"refusing {v!r} changed the record")


def notime_all(rec):
    for k in range(len(NOTIMES)):
        rec.case("case_notime", k)


def shards(tier):
    q = tier == "quick"
    out = [("notime_all", ())]
    for y in YEARS if q else sorted(set(YEARS) | set(range(1801, 2055, 3))):
        for k in range(3):
            out.append(("days_all", ([y], OFFS[:5], FORMS[k::3])))
    for a in (0, 495000, 990000) if q else range(0, 1000000, 10000):
        for k in (0, 1):
            m = 3333 if q else 5000
            out.append(("micros_all", (a + k * m, a + k * m + m)))
    ht = header_times(20 if q else 200)
    for k in range(0, len(ht), 2):
        out.append(("b1001_all", (ht[k : k + 2],)))
    for y in (1972, 2016, 2023) if q else (1801, 1900, 1972, 2000, 2016, 2023, 2054):
        out.append(("second_all", (y,)))
    P = 4 if q else 16
    out += [("end_all", (2000 if q else 20000, p, P)) for p in range(P)]
    return out
