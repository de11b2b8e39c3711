"""C14: miniSEED 3 start times are kept exactly, in UTC."""
import datetime as D
import itertools

import simplemseed as sm
import ms3ref
from vlib import req, raises

PROP = "C14"
LEVEL = "model_checking"
RULE = "every day of the years x times of day x ways to write the time x UTC offset; distinct by instant, form and offset"
BOUNDS = {
    "quick": "every day of 11 years (1..9998) x 6 times of day x 11 forms x 9 offsets; every second of a leap and a year end day; every "
             "microsecond value in 3 ranges of 5,000; every day x second 0..60 of headers; pairs of settings in a row; 18 values that are no time; sanity of fields at and over their ends",
    "thorough": "every day of every 50th year from 1 to 9998 and of 1900..2110 x 6 times of day x 11 forms x 9 offsets (25 offsets for 11 years); every microsecond of a "
                "second; every second of 6 days",
}
ASSUME = ["the instant is computed by an independent proleptic Gregorian calendar in integer microseconds"]

YEARS = [1, 1600, 1900, 1970, 1999, 2000, 2023, 2024, 2038, 2100, 9998]
TIMES = [(0, 0, 0, 0), (23, 59, 59, 999999), (12, 34, 56, 789012), (0, 0, 0, 1), (23, 0, 5, 100000), (1, 59, 0, 999000)]
# offset in seconds
OFFS = [0, 3600, -3600, 19800, -43200, 50400, 86340, -86340, -12600]
OFFS_T = sorted(set(OFFS) | {s * k for s in (1, -1) for k in (60, 1800, 7200, 18000, 20700, 34200, 43199, 45900, 85500, 1, 59)})


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def daynum(y, doy):
    """days since 0001-01-01"""
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400 + doy - 1


ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def month_day(y, doy):
    for m, n in enumerate(ML):
        n += 1 if m == 1 and leap(y) else 0
        if doy <= n:
            return m + 1, doy
        doy -= n


def micros(y, doy, h, m, s, us):
    return ((daynum(y, doy) * 24 + h) * 60 + m) * 60_000_000 + s * 1_000_000 + us


def fields(us):
    """year, dayOfYear, hour, minute, second, microsecond"""
    us, f = divmod(us, 1_000_000)
    d, s = divmod(us, 86400)
    y = d * 400 // 146097 + 1
    while daynum(y, 1) > d:
        y -= 1
    while daynum(y + 1, 1) <= d:
        y += 1
    return y, d - daynum(y, 1) + 1, s // 3600, s // 60 % 60, s % 60, f


FIRST, LAST = micros(1, 1, 0, 0, 0, 0), micros(9999, 365, 23, 59, 59, 999999)


class Shift(D.tzinfo):
    """an offset that depends on the local date, as daylight saving does"""

    def __init__(self, sec):
        self.sec = sec

    def utcoffset(self, dt):
        return D.timedelta(seconds=self.sec)

    def dst(self, dt):
        return D.timedelta(0)


def offtext(sec, colon=True):
    sign = "-" if sec < 0 else "+"
    a = abs(sec)
    t = f"{sign}{a // 3600:02}{':' if colon else ''}{a // 60 % 60:02}"
    if a % 60:
        t += f"{':' if colon else ''}{a % 60:02}"
    return t


def make(form, y, doy, t, off):
    """(argument, has an offset) or None if the form cannot say it"""
    mo, d = month_day(y, doy)
    h, mi, s, us = t
    if form == "naive":
        return (D.datetime(y, mo, d, h, mi, s, us), False) if off == 0 else None
    if form == "utc":
        return (D.datetime(y, mo, d, h, mi, s, us, tzinfo=D.timezone.utc), True) if off == 0 else None
    if form == "aware":
        return D.datetime(y, mo, d, h, mi, s, us, tzinfo=D.timezone(D.timedelta(seconds=off))), True
    if form == "shift":
        return D.datetime(y, mo, d, h, mi, s, us, tzinfo=Shift(off), fold=1), True
    date = f"{y:04}-{mo:02}-{d:02}"
    full = f"{h:02}:{mi:02}:{s:02}.{us:06}"
    if form == "iso":
        return (f"{date}T{full}", False) if off == 0 else None
    if form == "isoZ":
        return (f"{date}T{full}Z", True) if off == 0 else None
    if form == "isooff":
        return f"{date}T{full}{offtext(off)}", True
    if form == "isoplain":
        # no fraction if there is none
        if us == 0:
            return f"{date}T{h:02}:{mi:02}:{s:02}" + ("Z" if off == 0 else offtext(off)), True
        return None
    if form == "space":
        return f"{date} {full}{offtext(off)}", True
    if form == "milli":
        return (f"{date}T{h:02}:{mi:02}:{s:02}.{us // 1000:03}{offtext(off)}", True) if us % 1000 == 0 else None
    if form == "date":
        return (date, False) if t == (0, 0, 0, 0) and off == 0 else None
    raise AssertionError(form)


FORMS = ["naive", "utc", "aware", "shift", "iso", "isoZ", "isooff", "isoplain", "space", "milli", "date"]
EPOCH = D.datetime(1, 1, 1, tzinfo=D.timezone.utc)
US = D.timedelta(microseconds=1)


def check_header(h, us, what):
    y, doy, hh, mi, s, f = fields(us)
    got = (h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond)
    req(got == (y, doy, hh, mi, s, f * 1000), lambda: f"{what}: fields {got} not {(y, doy, hh, mi, s, f * 1000)}")
    st = h.starttime
    req(st.utcoffset() is not None and st.utcoffset() == D.timedelta(0), lambda: f"{what}: start {st!r} is not UTC")
    req((st - EPOCH) // US == us, lambda: f"{what}: reads {st!r}")


def head():
    h = sm.MSeed3Header()
    h.encoding = 3
    return h


def one(h, arg, us, what):
    # nothing of the time before is left over
    h.nanosecond, h.second = 123_456_789, 60
    h.starttime = arg
    check_header(h, us, what)
    b = bytes(h.pack())
    y, doy, hh, mi, s, f = fields(us)
    p = ms3ref.parse(b)
    got = (p["year"], p["dayOfYear"], p["hour"], p["minute"], p["second"], p["nanosecond"])
    req(got == (y, doy, hh, mi, s, f * 1000), lambda: f"{what}: packed {got}")
    st = sm.unpackMSeed3FixedHeader(b).starttime
    req((st - EPOCH) // US == us and st.utcoffset() == D.timedelta(0), lambda: f"{what}: reads {st!r} after packing")


def case_days(rec, year, form, off, times):
    h = head()
    for doy in range(1, 367 if leap(year) else 366):
        for t in times:
            a = make(form, year, doy, tuple(t), off)
            if a is None:
                continue
            arg, aware = a
            us = micros(year, doy, *t) - off * 1_000_000
            if not FIRST <= us <= LAST:
                continue
            rec.step()
            one(h, arg, us, f"{arg!r}")
    rec.state(year, form, off)


def days_all(rec, years, offs):
    for year in years:
        for form in FORMS:
            for off in offs if form in ("aware", "shift", "isooff", "isoplain", "space", "milli") else [0]:
                rec.case("case_days", year, form, off, TIMES)
                if rec.stop:
                    return


def case_seconds(rec, year, doy, form, off, hour):
    h = head()
    for m, s in itertools.product(range(60), range(60)):
        arg, _ = make(form, year, doy, (hour, m, s, 0), off)
        one(h, arg, micros(year, doy, hour, m, s, 0) - off * 1_000_000, f"{arg!r}")
        rec.step()
    rec.state(year, doy, form, off, hour)


def seconds_all(rec, year, doy):
    for hour in range(24):
        for form, off in (("naive", 0), ("isoZ", 0), ("isooff", -30600)):
            rec.case("case_seconds", year, doy, form, off, hour)
            if rec.stop:
                return


def case_micros(rec, form, lo, hi):
    h = head()
    for us in range(lo, hi):
        arg, _ = make(form, 2024, 366, (23, 59, 59, us), 0)
        one(h, arg, micros(2024, 366, 23, 59, 59, us), f"{arg!r}")
        rec.step()
    rec.state(form, lo)


def micros_all(rec, lo, hi):
    for form in ("utc", "isoZ"):
        for a in range(lo, hi, 1000):
            rec.case("case_micros", form, a, a + 1000)
            if rec.stop:
                return


NANOS = [0, 1, 999, 1000, 1001, 500_000_000, 123_456_789, 999_999_000, 999_999_499, 999_999_500, 999_999_999]


def case_fields(rec, year, sec):
    """headers as found in files: any second to 60, any nanosecond"""
    for doy in range(1, 367 if leap(year) else 366):
        for hh, mi in ((23, 59), (0, 0), (11, 59)):
            for ns in NANOS if doy in (1, 60, 181, 365, 366) else (0, 999_999_999):
                h = head()
                h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond = year, doy, hh, mi, sec, ns
                h.numSamples = 1
                want = micros(year, doy, hh, mi, 0, 0) * 1000 + sec * 1_000_000_000 + ns
                for hd in (h, h.clone(), sm.unpackMSeed3FixedHeader(bytes(h.pack()))):
                    st = hd.starttime
                    got = (st - EPOCH) // US * 1000
                    req(abs(got - want) < 1000, lambda: f"{year} {doy} {hh}:{mi}:{sec}.{ns:09} reads {st!r}")
                    req(st.utcoffset() == D.timedelta(0), "not UTC")
                    req(hd.nanosecond == ns and hd.second == sec, "stored fields changed")
                rec.step()
    rec.state("fields", year, sec)


def fields_all(rec, year, secs):
    for sec in secs:
        rec.case("case_fields", year, sec)
        if rec.stop:
            return


def case_record(rec, texts):
    """start times set one after another, in a record that is packed, cloned and read"""
    for a, b in itertools.product(texts, repeat=2):
        h = sm.MSeed3Header()
        h.sampleRatePeriod = 20
        r = sm.MSeed3Record(h, "FDSN:XX_S__B_H_Z", [1, 2, 3])
        for form, y, doy, t, off in (a, b):
            arg, _ = make(form, y, doy, tuple(t), off)
            us = micros(y, doy, *t) - off * 1_000_000
            r.header.starttime = arg
            check_header(r.header, us, f"record {arg!r}")
            req((r.starttime - EPOCH) // US == us, "record start time")
            data = bytes(r.pack())
            for q in (sm.unpackMSeed3Record(data), r.clone(), r):
                check_header(q.header, us, f"packed record {arg!r}")
                req((q.starttime - EPOCH) // US == us, "record start time")
            rec.step()
        rec.state("pair", repr((a, b)))


PAIRS = [("naive", 2024, 366, (23, 59, 59, 999999), 0), ("isoZ", 1970, 1, (0, 0, 0, 0), 0), ("aware", 2000, 60, (1, 2, 3, 4), 19800),
         ("isooff", 2023, 1, (0, 0, 0, 100000), 50400), ("shift", 1999, 365, (23, 59, 59, 0), -43200), ("date", 2016, 366, (0, 0, 0, 0), 0)]


def record_all(rec):
    rec.case("case_record", PAIRS)


NOTIMES = [None, 5, 1.5, "", "now", "2024", "2024-13-01T00:00:00Z", "2024-02-30T00:00:00Z", "2023-02-29", "2024-01-01T24:30:00Z", "2024-01-01T00:60:00", b"2024-01-01", [2024, 1, 1], (2024, 1),
           {"year": 2024}, D.timedelta(1), D.time(1), True]


def case_notime(rec, k):
    """what is no time is refused and changes nothing"""
    rec.step()
    rec.state("notime", k)
    h = head()
    h.starttime = "2020-02-29T01:02:03.000004Z"
    before = bytes(h.pack())

    def assign():
        h.starttime = NOTIMES[k]

    ok = False
    if NOTIMES[k] == "2024":
        # a year alone may be a time
        try:
            assign()
            ok = True
        except Exception:
            pass
        if ok:
            check_header(h, micros(2024, 1, 0, 0, 0, 0), "2024")
            return
    else:
        req(raises(assign), lambda: f"{NOTIMES[k]!r} was taken as {h.starttime}")
    req(bytes(h.pack()) == before, lambda: f"refusing {NOTIMES[k]!r} changed the header")


def case_sane(rec, doy):
    """the sanity check of the fields"""
    for hh, mi, s in [(a, b, c) for a in (0, 1, 12, 23, 24, 25, 255) for b in (0, 30, 59, 60, 255) for c in (0, 59, 60, 61, 255)]:
        for year in (1900, 1970, 2024, 2025, 2999):
            rec.step()
            h = head()
            h.year, h.dayOfYear, h.hour, h.minute, h.second = year, doy, hh, mi, s
            want = 1 <= doy <= 366 and hh < 24 and mi < 60 and s <= 60
            if doy == 366 and not leap(year):
                continue
            req(bool(h.sanityCheck()) == want, lambda: f"year {year} day {doy} {hh}:{mi}:{s} sane: {h.sanityCheck()}")
    rec.state("sane", doy)


def other_all(rec):
    for k in range(len(NOTIMES)):
        rec.case("case_notime", k)
    for doy in (0, 1, 2, 59, 60, 365, 366, 367, 999, 65535):
        rec.case("case_sane", doy)


def shards(tier):
    q = tier == "quick"
    out = [("record_all", ()), ("other_all", ())]
    if q:
        for y in YEARS:
            out.append(("days_all", ([y], OFFS)))
    else:
        ys = sorted((set(range(1, 9999, 50)) | set(range(1900, 2111))) - set(YEARS))
        for i in range(64):
            out.append(("days_all", (ys[i::64], OFFS)))
        for y in YEARS:
            out.append(("days_all", ([y], OFFS_T)))
    for y, d in ((2024, 60), (2024, 366)) if q else ((2024, 60), (2024, 366), (2023, 365), (2000, 1), (1972, 182), (2100, 59)):
        out.append(("seconds_all", (y, d)))
    for lo, hi in ((0, 5000), (497000, 502000), (995000, 1000000)) if q else [(k * 50000, (k + 1) * 50000) for k in range(20)]:
        out.append(("micros_all", (lo, hi)))
    for y in (1972, 2016, 2023, 2100) if q else (1, 1972, 2016, 2023, 2024, 2100, 9998):
        out.append(("fields_all", (y, (0, 1, 30, 59, 60) if q else tuple(range(61)))))
    return out
