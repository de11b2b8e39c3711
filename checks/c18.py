"""C18: miniSEED 2 stream reading yields every matching record, in order."""
import io
import itertools
import os
import re

import numpy as np

import cli
import simplemseed as sm
import ms2ref
from vlib import req, raises

PROP = "C18"
LEVEL = "model_checking"
RULE = "every sequence of record shapes to the depth x pattern; every cut of every sequence; distinct by sequence, pattern and cut"
BOUNDS = {
    "quick": "18 record shapes (lengths 128 to 4096, both byte orders of header and data, 6 encodings, 0 to 6 blockettes in one piece or with gaps, no data, text): every sequence "
             "to length 3 x 7 patterns; every cut of every single shape and cuts of every pair at all bytes of the second "
             "header and blockettes and every 16th after; every sequence to length 4 of 4 records of which 3 have the same codes when put together x 7 patterns; "
             "records of 2^9 to 2^20 bytes and to 65535 samples between others",
    "thorough": "every sequence to length 4, every cut of every pair, cuts of the third record of every triple",
}
ASSUME = ["streams are seekable or complete reads are returned", "years 1801 to 2054"]

S1 = [5, 6, 7, -8, 9, 1000, -70000, 3, 3, 3, 4]
S2 = [1, 2, 3, 4, 5, 6, 7, 200, -30000, 15, 16, 17, 18, 19, 20, 21, 22, 23]


def shape(i):
    """(bytes, expected)"""
    P = ms2ref.primitive
    f, kw, vals = [
        (dict(nsamp=4), dict(encoding=3, exp=7), [1, -2, 2**31 - 1, 4]),
        (dict(nsamp=5, sta="BB", seq=2, loc=""), dict(header="<", data="<", encoding=1, exp=8), [1, -2, 300, 32767, -32768]),
        (dict(nsamp=11, net="YY", chan="LHN", factor=-10, mult=1, act=1, qual=128), dict(header="<", data=">", encoding=10, exp=8,
         blockettes=[("1000",), ("1001", 99, 55, 3)]), S1),
        (dict(nsamp=18, sta="LONGE", io=32, corr=-5), dict(encoding=11, exp=9, blockettes=[("1001", 0, 0, 0), ("raw", 500, b"r" * 196), ("1000",)]), S2),
        (dict(nsamp=3, chan="BHE", quality="R"), dict(header=">", data="<", encoding=5, exp=8, blockettes=[("100", 20.5), ("1000",)]), [1.5, -2e200, 0.0]),
        # no data
        (dict(nsamp=0, chan="ACE", factor=0, mult=0, seq=999999), dict(encoding=0, exp=7, dataoff=0), None),
        # no blockette 1000: 512 bytes, encoding not known
        (dict(nsamp=0, factor=0, mult=0, chan="LCQ"), dict(encoding=0, exp=9, blockettes=[], dataoff=0), None),
        (dict(nsamp=12, chan="LOG", factor=0, mult=1, net="9Z"), dict(encoding=0, exp=8), b"hello log\r\n "),
        (dict(nsamp=2, sta="A", loc="10", quality="M"), dict(header="<", data="<", encoding=4, exp=12, dataoff=256,
         blockettes=[("raw", 200, b"x" * 48), ("1000",), ("raw", 201, b""), ("100", 0.1), ("1001", 1, 99, 255), ("raw", 30000, b"\x07\xe8" * 20)]), [1.25, -3e38]),
        (dict(nsamp=1, year=1999, yday=365, tenth=9999), dict(encoding=3, exp=7, blockettes=[("1000",), ("100", 40.0)]), [7]),
        (dict(nsamp=16, chan="HHZ", factor=100), dict(encoding=3, exp=7, dataoff=64), list(range(16))),
        (dict(nsamp=0, chan="VMZ", factor=0, mult=0), dict(header="<", data="<", encoding=3, exp=7, blockettes=[("1000",), ("100", 0.0)]), []),
        (dict(nsamp=7, net="A", sta="Z", year=2054), dict(header="<", data=">", encoding=1, exp=10, blockettes=[("1000",), ("raw", 1, b"\0" * 4)]), [1, 2, 3, 4, 5, 6, 7]),
        (dict(nsamp=11, chan="BH1", factor=1, mult=-10), dict(encoding=10, exp=9), S1),
        # data, but no blockettes
        (dict(nsamp=5, chan="LOG", factor=1, mult=0), dict(encoding=0, exp=9, blockettes=[], dataoff=64), b"ABCDE"),
        (dict(nsamp=6, chan="LOG", factor=0, mult=0, loc="99"), dict(header="<", data="<", encoding=0, exp=9, blockettes=[], dataoff=48), b"FGHIJK"),
        # three channels whose codes put together are the same, and one of a short channel code
        (dict(nsamp=1, sta="AB1", loc="", seq=3), dict(encoding=3, exp=7), [11]),
        (dict(nsamp=2, sta="AB", loc="1", seq=4), dict(encoding=3, exp=7), [12, 13]),
        (dict(nsamp=3, net="X", sta="XAB", loc="1", seq=5), dict(header="<", data="<", encoding=3, exp=7), [14, 15, 16]),
        # blockettes that are neither right after the fixed header nor right after one another
        (dict(nsamp=9, chan="EHZ", seq=6), dict(encoding=3, exp=8, first=64), [21, -22, 23, 24, 25, 26, 27, 28, 29]),
        (dict(nsamp=11, net="YY", sta="GAP", loc="10", seq=7), dict(header="<", data="<", encoding=10, exp=8, first=52, gap=4,
         blockettes=[("1001", 7, 21, 1), ("100", 31.25), ("1000",)]), S1),
    ][i]
    enc = kw["encoding"]
    order = kw.get("data", ">")
    if vals is None:
        payload = b""
    elif isinstance(vals, bytes):
        payload = vals
    elif enc in (10, 11):
        payload = bytes((sm.encodeSteim1 if enc == 10 else sm.encodeSteim2)(np.array(vals, dtype=np.int32)))
    else:
        payload = P(enc, order, vals)
    b = ms2ref.build(f, payload=payload, **kw)
    d = dict(ms2ref.DEFAULT)
    d.update(f)
    blk = kw.get("blockettes", [("1000",)])
    ch = d["chan"]
    e = dict(d, sid=f"FDSN:{d['net']}_{d['sta']}_{d['loc']}_{ch[0]}_{ch[1]}_{ch[2]}", enc=enc, order=order, exp=kw["exp"], vals=vals, blk=blk, b=b,
             payload=payload, dtype={1: "i2", 3: "i4", 4: "f4", 5: "f8", 10: "i4", 11: "i4"}.get(enc))
    e["head"] = kw.get("dataoff") or kw.get("first", 48) + kw.get("gap", 0) * (len(blk) - 1) + sum({"1000": 8, "100": 12, "1001": 8}.get(x[0]) or 4 + len(x[2]) for x in blk)
    e["b1000"] = any(x[0] == "1000" for x in blk)
    r = [x[1] for x in blk if x[0] == "100"]
    e["rate"] = float(np.float32(r[-1])) if r else float(ms2ref.rate(d["factor"], d["mult"]))
    return e


SHAPES = [shape(i) for i in range(21)]
BASIC = list(range(16)) + [19, 20]
ALIKE = [16, 17, 18, 0]
PATS = [None, "YY", "^FDSN:XX_ABC_00_B_H_Z$", "_10_", "ACE|L_O_G", "nomatch", "A_C_E|9Z_|__"]


PATS_ALIKE = [None, "XX_AB_1_", "XX_AB1__B", "FDSN:X_", "AB_1_B_H", "^FDSN:XX_", "AB1"]


def matching(seq, pat):
    return [i for i in seq if pat is None or re.search(pat, SHAPES[i]["sid"])]


def check_samples(r, e, what):
    if e["vals"] is None or isinstance(e["vals"], bytes):
        return
    want = np.array(e["vals"], dtype=e["dtype"])
    d = np.asarray(r.decompress())
    req(len(d) == len(want) and d.astype(want.dtype).tobytes() == want.tobytes() and (len(want) == 0 or d.dtype.itemsize == want.dtype.itemsize),
        lambda: f"{what}: samples {d[:20]} not {want[:20]}")


def check_record(r, e, what):
    h = r.header
    got = dict(seq=h.sequence_number, quality=h.dataquality, sta=h.station.strip(), loc=h.location.strip(), chan=h.channel.strip(),
               net=h.network.strip(), act=h.actFlag, io=h.ioFlag, qual=h.qualFlag, corr=h.timeCorr, nsamp=h.numSamples)
    for k in got:
        req(got[k] == e[k], lambda: f"{what}: {k} is {got[k]!r} not {e[k]!r}")
    req(abs(h.sampleRate - e["rate"]) <= 1e-14 * e["rate"], lambda: f"{what}: rate {h.sampleRate!r} not {e['rate']!r}")
    req(str(r.identifier) == e["sid"] or e["sid"].endswith("__"), lambda: f"{what}: id {r.identifier}")
    if e["b1000"]:
        req((h.encoding, h.byteorder, h.recordLength) == (e["enc"], 1 if e["order"] == ">" else 0, 1 << e["exp"]),
            lambda: f"{what}: encoding, order, length {(h.encoding, h.byteorder, h.recordLength)}")
    us = sum(x[2] for x in e["blk"] if x[0] == "1001")
    st = h.starttime
    got = (st.year, st.timetuple().tm_yday, st.hour, st.minute, st.second, st.microsecond)
    req(got == (e["year"], e["yday"], e["hour"], e["minute"], e["sec"], e["tenth"] * 100 + us), lambda: f"{what}: start {st!r}")
    bl = []
    for b in r.blockettes:
        n = b.blocketteNum
        if n == 1000:
            bl.append(("1000",))
            req((b.encoding, b.byteorder, b.recLength) == (e["enc"], 1 if e["order"] == ">" else 0, e["exp"]), lambda: f"{what}: {b}")
        elif n == 100:
            bl.append(("100", b.sampleRate))
        elif n == 1001:
            bl.append(("1001", b.timeQuality, b.microseconds, b.frameCount))
        else:
            bl.append(("raw", n, bytes(b.rawBytes[4:])))
    want = [("100", float(np.float32(x[1]))) if x[0] == "100" else x for x in e["blk"]]
    # the last blockette may include what is between it and the data
    if bl and want and bl[-1][0] == "raw" and want[-1][0] == "raw" and bl[-1][2].startswith(want[-1][2]) and not any(bl[-1][2][len(want[-1][2]):]):
        bl[-1] = ("raw", bl[-1][1], want[-1][2])
    req(bl == want, lambda: f"{what}: blockettes {bl} not {want}")
    if isinstance(e["vals"], bytes):
        req(bytes(r.encodedDataBytes[: len(e["vals"])]) == e["vals"], lambda: f"{what}: text {r.encodedDataBytes[:20]!r}")
    check_samples(r, e, what)


def case_seq(rec, seq, pat, how="bytes"):
    data = b"".join(SHAPES[i]["b"] for i in seq)
    want = matching(seq, pat)
    rec.step()
    rec.state(tuple(seq), pat)
    if how == "file":
        with cli.Scratch() as d:
            d.put("f", data)
            with open(d.path("f"), "rb") as f:
                got = list(sm.readMiniseed2Records(f, matchsid=pat))
    else:
        got = []
        for r in sm.readMiniseed2Records(io.BytesIO(data), pat):
            if how == "lazy":
                # used before the next is read
                r.decompress() if r.header.encoding > 0 and r.header.numSamples else None
                r.summary()
            got.append(r)
    req(len(got) == len(want), lambda: f"{len(got)} records of {len(want)}")
    for k, (r, i) in enumerate(zip(got, want)):
        check_record(r, SHAPES[i], f"record {k} (shape {i})")


def seqs_all(rec, n, first, every):
    k = 0
    for rest in itertools.product(BASIC, repeat=n - 1):
        seq = [first] + list(rest)
        for j, pat in enumerate(PATS):
            k += 1
            if k % every == 0 or pat is None:
                rec.case("case_seq", seq, pat, "lazy" if k % 2 else "bytes")
                if rec.stop:
                    return


def alike_all(rec, n):
    """channels that are easily taken for one another"""
    for seq in itertools.product(ALIKE, repeat=n):
        for pat in PATS_ALIKE:
            rec.case("case_seq", list(seq), pat, "lazy")
            if rec.stop:
                return


def files_all(rec):
    for seq in itertools.product(range(len(SHAPES)), repeat=2):
        rec.case("case_seq", list(seq), None, "file")
    rec.case("case_seq", [], None, "file")
    rec.case("case_seq", list(range(16)) * 20, None, "file")
    for p in PATS:
        rec.case("case_seq", list(range(16)) * 20, p, "lazy")


def big_shape(enc, exp, n, order):
    vals = [(k * 7919) % 65536 - 32768 for k in range(n)]
    f = dict(nsamp=n, sta="BIG", seq=77)
    d = dict(ms2ref.DEFAULT)
    d.update(f)
    b = ms2ref.build(f, payload=ms2ref.primitive(enc, order, vals), header=order, data=order, encoding=enc, exp=exp, blockettes=[("raw", 500, b"r" * 196), ("1000",)])
    return dict(d, sid=f"FDSN:{d['net']}_BIG_{d['loc']}_{'_'.join(d['chan'])}", enc=enc, order=order, exp=exp, vals=vals,
                blk=[("raw", 500, b"r" * 196), ("1000",)], b=b, dtype={1: "i2", 3: "i4", 5: "f8"}[enc], b1000=True,
                rate=float(ms2ref.rate(d["factor"], d["mult"])))


def case_big(rec, enc, exp, n, order, pat):
    """a long record between others, matching or not"""
    e = big_shape(enc, exp, n, order)
    seq = [SHAPES[0], e, SHAPES[2], e, SHAPES[3]]
    want = [s for s in seq if pat is None or re.search(pat, s["sid"])]
    rec.step()
    rec.state("big", enc, exp, n, order, pat)
    got = list(sm.readMiniseed2Records(io.BytesIO(b"".join(s["b"] for s in seq)), matchsid=pat))
    req(len(got) == len(want), lambda: f"{len(got)} records of {len(want)}")
    for k, (r, s) in enumerate(zip(got, want)):
        check_record(r, s, f"record {k}")


def big_all(rec, exp):
    for enc, size in ((1, 2), (3, 4), (5, 8)):
        most = min(65535, ((1 << exp) - 256) // size)
        for order in "<>":
            for n in sorted({1, most, min(most, 32767), min(most, 32768)}):
                for pat in (None, "BIG", "YY|LONGE"):
                    rec.case("case_big", enc, exp, n, order, pat)
                    if rec.stop:
                        return


def case_cut(rec, seq, cuts, pat):
    data = b"".join(SHAPES[i]["b"] for i in seq)
    ends = list(itertools.accumulate(len(SHAPES[i]["b"]) for i in seq))
    for cut in cuts:
        done = [i for i, e in zip(seq, ends) if e <= cut]
        rest = seq[len(done):]
        want = matching(done, pat)
        got = []
        rec.step()
        rec.state("cut", tuple(seq), cut, pat)
        if cut < 48 and len(seq) == 1:
            for f in (sm.unpackMiniseedRecord, sm.unpackMiniseedHeader):
                req(raises(lambda: f(data[:cut])), lambda: f"{f.__name__} of {cut} bytes")
        try:
            for r in sm.readMiniseed2Records(io.BytesIO(data[:cut]), matchsid=pat):
                got.append(r)
                req(len(got) <= len(want) + 1, lambda: f"cut at {cut}: too many records")
        except Exception:
            pass
        req(len(got) >= len(want), lambda: f"cut at {cut}: {len(got)} records of {len(want)} before the cut")
        for r, i in zip(got, want):
            if pat is None and cut not in (ends[0], ends[0] + 1):
                check_samples(r, SHAPES[i], f"cut at {cut}, shape {i}")
                req(r.header.sequence_number == SHAPES[i]["seq"], "other record")
            else:
                check_record(r, SHAPES[i], f"cut at {cut}, shape {i}")
        if len(got) > len(want):
            e = SHAPES[rest[0]]
            r = got[-1]
            if e["vals"] is not None and not isinstance(e["vals"], bytes) and not raises(r.decompress):
                d = r.decompress()
                if d is not None:
                    check_samples(r, e, f"cut record at {cut}")


def cut_all(rec, seq, q):
    n0 = sum(len(SHAPES[i]["b"]) for i in seq[:-1])
    e = SHAPES[seq[-1]]
    n = n0 + len(e["b"])
    lo = 0 if len(seq) == 1 else n0
    tail = min(n, n0 + e["head"] + 16)
    cuts = [c for c in range(lo, n + 1) if not q or len(seq) == 1 or c <= tail or c % 16 == 0 or c > n - 3]
    for i in range(0, len(cuts), 64):
        rec.case("case_cut", seq, cuts[i : i + 64], None)
        if len(seq) > 1 and i == 0:
            rec.case("case_cut", seq, cuts[i : i + 64], PATS[1 + sum(seq) % 4])
        if rec.stop:
            return


def cuts_all(rec, first, q):
    cut_all(rec, [first], q)
    for second in BASIC:
        cut_all(rec, [first, second], q)


def cuts3_all(rec, first):
    for second, third in itertools.product(BASIC, repeat=2):
        cut_all(rec, [first, second, third], True)


def shards(tier):
    q = tier == "quick"
    out = [("files_all", ())] + [("alike_all", (n,)) for n in ((2, 3, 4) if q else (2, 3, 4, 5))]
    out += [("big_all", (exp,)) for exp in range(9, 21 if q else 25)]
    for first in BASIC:
        out += [("cuts_all", (first, q)), ("seqs_all", (1, first, 1)), ("seqs_all", (2, first, 1)), ("seqs_all", (3, first, 1))]
        if not q:
            out += [("seqs_all", (4, first, 1)), ("cuts3_all", (first,))]
    return out
