"""C10: merging never loses, repeats, reorders or misdates samples."""
import array
import contextlib
import copy
import io
import itertools
import json
import re
from datetime import datetime, timedelta, timezone

import numpy as np

import simplemseed as sm
from simplemseed.mseed3 import mseed3merge as merge
import ms3ref
import cli
from vlib import req, raises, Violation

PROP = "C10"
LEVEL = "model_checking"
RULE = ("every sequence of steps (contiguous, shifted, or deviating in one or two attributes) to the depth from every base record, "
        "merged directly, by the reader and on the command line; distinct by the input stream")
BOUNDS = {
    "quick": "pairs: 17 base records x all single and pairs of 50 deviations, each direct, reader and file order; sequences of 3 steps over 16 "
             "step kinds from 2 bases by fold and reader; sequences of 2 steps through the command; records of 2 to 30,000 (2 rates: 65535) samples at 14 rates x 7 offsets; records made in memory from 6 containers and both "
             "kinds of identifier, 8 deviations; 10 spellings of extra headers",
    "thorough": "sequences of 4 steps from 4 bases; command line to 3 steps; records to 300,000 samples",
}
ASSUME = ["rates given once as a rate and once as the equal period, and offsets of exactly half a period (to 2 microseconds), are left open"]
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
W = {1: ("<i2", 2), 3: ("<i4", 4), 4: ("<f4", 4), 5: ("<f8", 8)}


def period_us(rp):
    return 0 if rp == 0 else (1e6 / rp if rp > 0 else -rp * 1e6)


class M:
    """model record: start in microseconds since the epoch"""

    def __init__(self, start, samples, rp=20.0, enc=3, ident="FDSN:XX_A__B_H_Z", pub=1, eh=None, flags=0, pad=0):
        self.__dict__.update(start=start, samples=list(samples), rp=rp, enc=enc, ident=ident, pub=pub, eh=eh, flags=flags, pad=pad)

    def copy(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        return M(**d)

    def bytes(self):
        t = EPOCH + timedelta(microseconds=self.start)
        tt = t.timetuple()
        n = len(self.samples)
        if self.enc in W:
            pay = np.array(self.samples, dtype=W[self.enc][0]).tobytes()
        elif self.enc == 10:
            pay = bytes(sm.encodeSteim1(self.samples)) if n else b""
        elif self.enc == 11:
            pay = bytes(sm.encodeSteim2(self.samples)) if n else b""
        else:
            pay = bytes(self.samples)
        return ms3ref.build(dict(nanosecond=t.microsecond * 1000, year=tt.tm_year, dayOfYear=tt.tm_yday, hour=tt.tm_hour,
                                 minute=tt.tm_min, second=tt.tm_sec, encoding=self.enc, sampleRatePeriod=self.rp, numSamples=n,
                                 publicationVersion=self.pub, flags=self.flags),
                            self.ident.encode(), self.ehtext(), pay + bytes((64 if self.pad else 0) if self.enc in (10, 11) else self.pad))

    def ehtext(self):
        """text given as is, or a dict"""
        if self.eh is None:
            return b""
        return (self.eh if isinstance(self.eh, str) else json.dumps(self.eh)).encode()

    def memory(self, idkind, kind):
        """The same record made in memory instead of read"""
        t = EPOCH + timedelta(microseconds=self.start)
        h = sm.MSeed3Header()
        h.starttime = t
        h.sampleRatePeriod, h.publicationVersion, h.flags, h.encoding = self.rp, self.pub, self.flags, self.enc
        if kind == "array":
            data = array.array({1: "h", 3: "i", 4: "f", 5: "d"}[self.enc], self.samples)
        elif kind == "numpy":
            data = np.array(self.samples, dtype=W[self.enc][0])
        elif kind == "bigendian":
            data = np.array(self.samples, dtype=W[self.enc][0].replace("<", ">"))
        elif kind == "segment":
            data = sm.seedcodec.EncodedDataSegment(self.enc, np.array(self.samples, dtype=W[self.enc][0].replace("<", ">")).tobytes(), len(self.samples), False)
        elif kind == "bytes":
            data = np.array(self.samples, dtype=W[self.enc][0]).tobytes()
            h.numSamples = len(self.samples)
        else:
            data = list(self.samples)
        ident = sm.FDSNSourceId.parse(self.ident) if idkind == "object" else self.ident
        return sm.MSeed3Record(h, ident, data, self.eh if isinstance(self.eh, str) else copy.deepcopy(self.eh))

    def joins(self, o):
        """True, False or None when left open"""
        if self.enc not in W or self.enc != o.enc or self.ident != o.ident or self.pub != o.pub:
            return False
        if self.rp != o.rp:
            a, b = period_us(self.rp), period_us(o.rp)
            if a and abs(a - b) <= 1e-9 * a:
                return None
            return False
        p = period_us(self.rp)
        if p == 0:
            return False
        dev = abs(o.start - (self.start + p * len(self.samples)))
        if abs(dev - p / 2) <= 2:
            return None
        return dev < p / 2


def fold(ms):
    """expected output, or None if left open"""
    out = []
    for m in ms:
        if out:
            j = out[-1].joins(m)
            if j is None:
                return None
            if j:
                out[-1] = out[-1].copy(samples=out[-1].samples + m.samples, pad=0)
                continue
        out.append(m)
    return out


def check_out(r, m, what, exact=None, joined=False):
    d = ms3ref.parse(bytes(r.pack()))
    check_dict(d, m, what)
    got = [x for x in r.decompress()] if m.samples and m.enc in (1, 3, 4, 5, 10, 11) else []
    req([float(x) for x in got] == [float(np.float32(x)) if m.enc == 4 else float(x) for x in m.samples] if got else True, f"{what}: samples {got[:12]}")


def check_dict(d, m, what):
    req(d["crcok"], f"{what}: CRC")
    req(d["ident"] == m.ident.encode(), f"{what}: identifier {d['ident']} not {m.ident}")
    st = datetime(d["year"], 1, 1, tzinfo=timezone.utc) + timedelta(
        days=d["dayOfYear"] - 1, hours=d["hour"], minutes=d["minute"], seconds=d["second"], microseconds=d["nanosecond"] / 1000)
    want = EPOCH + timedelta(microseconds=m.start)
    req(st == want, f"{what}: start {st} not {want}")
    req(d["sampleRatePeriod"] == m.rp and d["publicationVersion"] == m.pub, f"{what}: rate or version {d}")
    req(d["encoding"] == m.enc, f"{what}: encoding {d['encoding']} not {m.enc}")
    req(d["numSamples"] == len(m.samples), f"{what}: {d['numSamples']} samples not {len(m.samples)}")
    meh = json.loads(m.eh) if isinstance(m.eh, str) and m.eh else m.eh
    req((ms3ref.ehval(d["eh"]) or None) == (meh or None), f"{what}: extra headers {d['eh']} not {m.eh}")
    if m.enc in W:
        f, w = W[m.enc]
        n = len(m.samples)
        got = np.frombuffer(d["payload"][: n * w], dtype=f).tolist()
        req(got == np.array(m.samples, dtype=f).tolist(), f"{what}: stored samples {got[:12]} not {m.samples[:12]}")


def expanded(m):
    """what the reader turns it into before merging"""
    if m.enc in (10, 11) and m.samples:
        return m.copy(enc=3)
    if m.enc in (10, 11):
        return m.copy(enc=3)
    return m


def case_pair(rec, ms):
    """direct merge of two records"""
    a, b = [M(**m) for m in ms]
    ra, rb = sm.unpackMSeed3Record(a.bytes()), sm.unpackMSeed3Record(b.bytes())
    ba, bb = bytes(ra.pack()), bytes(rb.pack())
    j = a.joins(b)
    rec.step()
    out = merge(ra, rb)
    rec.state("pair", ba, bb)
    if j is None:
        req(len(out) in (1, 2), "neither one nor two records")
        return
    if j:
        req(len(out) == 1, "not joined")
        check_out(out[0], a.copy(samples=a.samples + b.samples, pad=0), "joined")
        back = sm.unpackMSeed3Record(out[0].pack())
        check_out(back, a.copy(samples=a.samples + b.samples, pad=0), "joined and packed")
    else:
        req(len(out) == 2, f"joined {a.__dict__} and {b.__dict__}")
        req(bytes(out[0].pack()) == ba and bytes(out[1].pack()) == bb, "changed although not joined")


def case_memory(rec, ms, idkinds, kinds):
    """direct merge of two records that were made, not read"""
    a, b = [M(**m) for m in ms]
    ra, rb = a.memory(idkinds[0], kinds[0]), b.memory(idkinds[1], kinds[1])
    j = a.joins(b)
    rec.step()
    rec.state("memory", a.bytes(), b.bytes(), kinds)
    out = merge(ra, rb)
    if j is None or j and idkinds[0] != idkinds[1]:
        # the same identifier as text and as an object: left open
        j = len(out) == 1
    if j:
        req(len(out) == 1, "not joined")
        want = a.copy(samples=a.samples + b.samples, pad=0)
        check_out(out[0], want, "joined")
        check_out(sm.unpackMSeed3Record(out[0].pack()), want, "joined and packed")
    else:
        req(len(out) == 2, f"joined {a.__dict__} and {b.__dict__}")
    for r, m in ((ra, a), (rb, b)):
        check_out(r, m, "merged record")


KINDS = ["list", "numpy", "bigendian", "array", "segment", "bytes"]


def memory_all(rec):
    for base in (M(T0, [1, -2, 3], eh={"a": {"b": 1}}), M(T0 + 123456, [5, 6], rp=-3.0, enc=1), M(T0, [1.5, -2.25], rp=100.0, enc=4, eh=' { "x":"é" }'),
                 M(T0 + 999999, [1.5, -2.25e300], rp=7.0, enc=5, pub=0)):
        for names in (["none"], ["gap0.45"], ["gap0.55"], ["id"], ["idcase"], ["pub"], ["rate2"], ["eh"]):
            o = nextrec(base, names)
            for kinds in itertools.product(KINDS, repeat=2):
                for ids in itertools.product(("text", "object"), repeat=2):
                    if "idcase" in names and "object" in ids:
                        continue  # lower case is not FDSN:
                    rec.case("case_memory", [base.__dict__, o.__dict__], ids, kinds)
                    if rec.stop:
                        return


EHTEXTS = [' {"a": 1}', '{ "a" : 1\n}', '\n{"FDSN":{"x":[1, 2]}}\t', "{}", "{ }", " {} ", '{"":0}', '{"a":null}', '{"\\u00e9":"é\U0001F600"}', "{\n}"]


def ehtext_all(rec):
    """extra headers as others may write them"""
    for text in EHTEXTS:
        for enc in (3, 1, 10, 11):
            for pad in (0, 7):
                m = M(T0, [7, 8, 9, 10, 11], enc=enc, eh=text, pad=pad)
                for other in (text, None, {"z": 1}, "{}"):
                    for names in (["none"], ["gap2.0"], ["id"]):
                        ms = [m, nextrec(m, names).copy(eh=other)]
                        for x in (ms, ms[::-1], ms + [nextrec(ms[1], ["none"])]):
                            for how in ("fold", "reader"):
                                rec.case("case_stream", [y.__dict__ for y in x], how)
                            if len(x) == 2 and enc in W:
                                rec.case("case_pair", [y.__dict__ for y in x])
                        if rec.stop:
                            return


def case_stream(rec, ms, how):
    ms = [M(**m) for m in ms]
    data = b"".join(m.bytes() for m in ms)
    rec.step(len(ms))
    rec.state("stream", data, how)
    if how == "fold":
        src = ms
        want = fold(src)
        out = []
        for r in sm.readMSeed3Records(io.BytesIO(data)):
            prev = out.pop() if out else None
            out += merge(prev, r)
        res = [ms3ref.parse(bytes(r.pack())) for r in out]
    else:
        src = [expanded(m) for m in ms]
        want = fold(src)
        if how in ("reader", "match"):
            kw = {}
            if how == "match":
                # as if the other records were not there
                pat = "^" + re.escape(ms[0].ident) + "$"
                kw = dict(matchsid=pat, check_crc=len(ms) % 2 == 0)
                ms = [m for m in ms if re.search(pat, m.ident)]
                src = [expanded(m) for m in ms]
                want = fold(src)
            with contextlib.redirect_stdout(io.StringIO()):
                recs = list(sm.readMSeed3Records(io.BytesIO(data), merge=True, verbose=len(data) % 2 == 0, **kw))
            res = [ms3ref.parse(bytes(r.pack())) for r in recs]
        else:
            with cli.Scratch() as d:
                argv = ["-o", d.path("out"), d.put("in", data)] + (["--decomp"] if how == "cli2" else []) + (["-v"] if len(ms) % 2 else [])
                if how == "process":
                    rc, so = cli.process("mseed3merge", argv)
                    se = exc = None
                else:
                    rc, so, se, exc = cli.run("mseed3merge", argv)
                if exc is not None:
                    raise exc
                req(rc == 0, f"command returned {rc}: {se}")
                req(d.get("in") == data, "input file changed")
                req(d.ls() == ["in", "out"], f"files {d.ls()}")
                res = ms3ref.parse_all(d.get("out"))
    # invariants that need no joining rule
    total = sum(len(m.samples) for m in ms)
    req(sum(x["numSamples"] for x in res) == total, f"{sum(x['numSamples'] for x in res)} samples out, {total} in")
    check_times(res, src)
    if want is None:
        return
    req(len(res) == len(want), f"{len(res)} records not {len(want)}")
    for i, (x, m) in enumerate(zip(res, want)):
        check_dict(x, m, f"record {i}")
        if m in src and m.enc not in W:
            req(x["raw" if "raw" in x else "payload"] is not None and x["payload"] == ms3ref.parse(m.bytes())["payload"], "payload changed")


def check_times(res, src):
    """every input record's samples come out once, in order, near their time"""
    k = off = 0
    for i, m in enumerate(src):
        n = len(m.samples)
        if n == 0:
            continue
        while k < len(res) and off >= res[k]["numSamples"]:
            k += 1
            off = 0
        req(k < len(res), "samples missing")
        x = res[k]
        st = (datetime(x["year"], 1, 1, tzinfo=timezone.utc) + timedelta(
            days=x["dayOfYear"] - 1, hours=x["hour"], minutes=x["minute"], seconds=x["second"], microseconds=x["nanosecond"] / 1000)
            - EPOCH) / timedelta(microseconds=1)
        p = period_us(m.rp)
        req(x["ident"] == m.ident.encode() and x["publicationVersion"] == m.pub, f"samples of record {i} are in another stream's record")
        req(period_us(x["sampleRatePeriod"]) == p or abs(period_us(x["sampleRatePeriod"]) - p) < 1e-9 * p, f"samples of record {i} have another rate")
        req(abs(st + off * p - m.start) <= p / 2 + 2, f"samples of record {i} moved by {st + off * p - m.start} us, period {p}")
        if m.enc in W:
            f, w = W[m.enc]
            got = x["payload"][off * w: (off + n) * w]
            req(x["encoding"] == m.enc and got == np.array(m.samples, dtype=f).tobytes(), f"samples of record {i} differ")
        off += n


T0 = 1704067200_000000  # 2024-01-01


def bases():
    day = 86400_000000
    return [
        M(T0, [1, -2, 3]),
        M(T0 + day - 150000, [1, -2, 3], eh={"a": 1}, flags=4),  # ends at midnight
        M(T0 + 366 * day - 100000, [100000, 2, -100000], rp=20.0),  # across the year end
        M(T0 + 123456, [5], rp=3.0, enc=1),
        M(T0, [1.5, -2.25, 3.0, 2.0**100], rp=100.0, enc=4),
        M(T0 + 999999, [1.5, -2.25e300], rp=-10.0, enc=5, pub=0),
        M(T0, [7, 8], rp=-86400.0, enc=3),
        M(T0, [7, 8, 9], rp=0.0, enc=3),
        M(T0, [7, 8, 9, 10, 11], enc=10),
        M(T0, [7, 8, 9, 10, 11], enc=11, eh={"x": "é"}),
        M(T0, [7, 8, 9], pad=5),
        M(T0, [], eh={"event": 1}),
        M(T0 + 1, list(range(300)), rp=250.0, ident="XFDSN:any"),
        M(T0, [65, 66, 67], enc=0),
        M(T0, [1, 2, 3], rp=40.0, enc=1),
        M(T0, [1, 2, 3], rp=0.015625),
        M(T0, [1, 2, 3], rp=-0.03125),
    ]


def gap(f):
    return lambda m, p: m.copy(start=round(m.start + f * p))


DEV = [("none", lambda m, p: m)]
for _f in (0.3, 0.45, 0.49, 0.51, 0.55, 0.9, 1.0, 1.1, 2.0, 1000.0, -0.3, -0.45, -0.49, -0.51, -0.55, -0.9, -1.0, -1.5, -2.0, -1000.0):
    DEV.append((f"gap{_f}", gap(_f)))
DEV += [
    ("1us", lambda m, p: m.copy(start=m.start + 1)),
    ("half+3us", lambda m, p: m.copy(start=round(m.start + p / 2 + 3))),
    ("half-3us", lambda m, p: m.copy(start=round(m.start + p / 2 - 3))),
    ("-half-3us", lambda m, p: m.copy(start=round(m.start - p / 2 - 3))),
    ("-half+3us", lambda m, p: m.copy(start=round(m.start - p / 2 + 3))),
    ("id", lambda m, p: m.copy(ident=m.ident + "2")),
    ("idcase", lambda m, p: m.copy(ident=m.ident.lower())),
    ("rate2", lambda m, p: m.copy(rp=m.rp * 2)),
    ("rate1e-3", lambda m, p: m.copy(rp=m.rp * 1.001)),
    ("rate1e-6", lambda m, p: m.copy(rp=m.rp * 1.000001)),
    ("rateneg", lambda m, p: m.copy(rp=-m.rp)),
    ("rate0", lambda m, p: m.copy(rp=0.0)),
    ("enc1", lambda m, p: m.copy(enc=1, samples=[int(abs(x)) % 100 for x in m.samples])),
    ("enc3", lambda m, p: m.copy(enc=3, samples=[int(abs(x)) % 100 for x in m.samples])),
    ("enc4", lambda m, p: m.copy(enc=4, samples=[int(abs(x)) % 100 for x in m.samples])),
    ("enc5", lambda m, p: m.copy(enc=5)),
    ("steim1", lambda m, p: m.copy(enc=10, samples=[int(abs(x)) % 100 for x in m.samples] or [1])),
    ("steim2", lambda m, p: m.copy(enc=11, samples=[int(abs(x)) % 100 for x in m.samples] or [1])),
    ("text", lambda m, p: m.copy(enc=0, samples=[65, 66])),
    ("opaque", lambda m, p: m.copy(enc=100, samples=[1, 2, 3, 4])),
    ("pub", lambda m, p: m.copy(pub=m.pub + 1)),
    ("pub0", lambda m, p: m.copy(pub=0)),
    ("pub255", lambda m, p: m.copy(pub=255)),
    ("eh", lambda m, p: m.copy(eh={"b": [2]})),
    ("noeh", lambda m, p: m.copy(eh=None)),
    ("flags", lambda m, p: m.copy(flags=7)),
    ("pad", lambda m, p: m.copy(pad=9)),
    ("one", lambda m, p: m.copy(samples=m.samples[:1])),
    ("long", lambda m, p: m.copy(samples=(m.samples or [1]) * 20)),
    ("empty", lambda m, p: m.copy(samples=[])),
]
DEVD = dict(DEV)
SKIPPAIR = {"text", "opaque"}


def nextrec(m, names):
    """the record that continues m exactly, then deviates"""
    p = period_us(m.rp)
    enc = m.enc
    o = m.copy(start=round(m.start + p * len(m.samples)), samples=[x + 1 if enc < 100 else x for x in m.samples], pad=0)
    for n in names:
        o = DEVD[n](o, p or 1e6)
    return o


def pair_all(rec, i):
    m = bases()[i]
    names = [n for n, _ in DEV]
    combos = [(n,) for n in names] + [c for c in itertools.combinations(names[1:], 2) if not (set(c) & SKIPPAIR)]
    for c in combos:
        o = nextrec(m, c)
        try:
            ms = [m.__dict__, o.__dict__]
            m.bytes(), o.bytes()
        except (OverflowError, ValueError):
            continue
        rec.case("case_pair", ms)
        if len(c) == 1:
            rec.case("case_pair", ms[::-1])
            rec.case("case_stream", ms[::-1], "reader")
        rec.case("case_stream", ms, "reader")
        if rec.stop:
            return


STEPS = ["none", "gap0.45", "gap-0.45", "gap1.0", "gap-1.0", "gap-2.0", "id", "rate2", "enc5", "pub", "pub0", "eh", "steim2", "empty", "text", "long"]


def sequence(m, steps):
    out = [m]
    for s in steps:
        # continue the stream of the last record of the base kind
        last = out[-1]
        ref = last if last.enc in W or last.enc in (10, 11) else m.copy(start=last.start)
        out.append(nextrec(ref, (s,)))
    return out


def seq_all(rec, i, first, length, how):
    m = bases()[i]
    for rest in itertools.product(STEPS, repeat=length - 1):
        ms = sequence(m, (first,) + rest)
        rec.case("case_stream", [x.__dict__ for x in ms], how)
        if rec.stop:
            return


def interleaved_all(rec, i, first, n):
    """records of two streams in turn, read with a pattern for one of them"""
    m = bases()[i]
    for steps in itertools.product(("none", "gap0.45", "gap2.0", "steim2", "eh", "empty"), repeat=n - 1):
        own = sequence(m, (first,) + steps)
        other = [x.copy(ident="YY" + x.ident[2:]) for x in own]
        for order in itertools.product((0, 1), repeat=n + 1):
            ms = []
            for a, b, o in zip(own, other, order):
                ms += [b, a] if o and ms else [a, b] if o else [a]
            for how in ("match", "reader"):
                rec.case("case_stream", [x.__dict__ for x in ms], how)
        if rec.stop:
            return


def drift_all(rec, i, f, n):
    """records that are each a little late or early: the sum may not grow"""
    m = bases()[i]
    ms = [m]
    for k in range(n):
        ms.append(nextrec(ms[-1], (f,)))
        for how in ("fold", "reader"):
            rec.case("case_stream", [x.__dict__ for x in ms], how)


def case_none(rec, which):
    a = sm.unpackMSeed3Record(bases()[which].bytes())
    b = bytes(a.pack())
    rec.step(3)
    for out in (merge(None, a), merge(a, None)):
        req(len(out) == 1 and bytes(out[0].pack()) == b, "merge with nothing changes the record")
    rec.state("none", which)


def none_all(rec):
    for i in range(len(bases())):
        rec.case("case_none", i)
    for how in ("fold", "reader", "cli", "process"):
        rec.case("case_stream", [], how)
    m = bases()[0]
    for ms in ([m], sequence(m, ["none"]), sequence(m, ["gap2.0"]), sequence(m, ["none", "id", "none"])):
        rec.case("case_stream", [x.__dict__ for x in ms], "process")


def case_count(rec, rp, n, names, how, enc):
    """a long record, so the period times the count matters"""
    m = M(T0 + 333333, [(k * 37) % 199 for k in range(n)], rp=rp, enc=enc)
    o = nextrec(m, tuple(names)).copy(samples=[7, 8])
    ms = [m.__dict__, o.__dict__]
    if how == "pair":
        case_pair(rec, ms)
    else:
        case_stream(rec, ms + [nextrec(o, tuple(names)).__dict__], how)


RATES = [6000.0, 300.0, 7000.0, 44100.0, 3.0, 0.7, -0.3, 20.0, -7.7, 99999.0, 1000000.0 / 3, -86400.0, 128.0, -1e-5]


def count_all(rec, rp, counts):
    for n in counts:
        for names in (["none"], ["gap0.45"], ["gap-0.45"], ["gap0.55"], ["gap-0.55"], ["gap1.0"], ["gap-1.0"]):
            for how in ("pair", "reader"):
                rec.case("case_count", rp, n, names, how, 1)
        rec.case("case_count", rp, n, ["none"], "reader", 11)


def shards(tier):
    q = tier == "quick"
    out = [("none_all", ()), ("memory_all", ()), ("ehtext_all", ())]
    for rp in RATES:
        out.append(("count_all", (rp, [2, 10, 100, 999, 6000, 30000])))
        if q and rp in (20.0, -7.7):
            out += [("count_all", (rp, [n])) for n in (32767, 65534, 65535)]
        if not q:
            for n in (65536, 100000, 300000):
                out.append(("count_all", (rp, [n])))
    nb = len(bases())
    for i in range(nb):
        out.append(("pair_all", (i,)))
    for i in (0, 3) if q else (0, 1, 3, 8):
        for s in STEPS:
            out.append(("seq_all", (i, s, 2, "fold")))
            out.append(("seq_all", (i, s, 2, "cli" if i else "cli2")))
            out.append(("seq_all", (i, s, 3, "reader")))
            out.append(("seq_all", (i, s, 3, "fold")))
            if not q:
                out.append(("seq_all", (i, s, 4, "reader")))
                out.append(("seq_all", (i, s, 3, "cli")))
    for i in (0, 3, 8):
        for s in ("none", "gap0.45", "gap2.0", "id"):
            out.append(("interleaved_all", (i, s, 3 if q else 4)))
    for i in (0, 3, 5, 8):
        for f in ("none", "gap0.3", "gap-0.3", "gap0.45", "gap-0.45", "1us"):
            out.append(("drift_all", (i, f, 8 if q else 20)))
    return out
