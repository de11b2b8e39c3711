"""C09: miniSEED 3 stream reading yields every matching record, in order."""
import contextlib
import io
import itertools
import re
import tempfile

import numpy as np

import simplemseed as sm
import ms3ref
from vlib import req, raises, Violation

PROP = "C09"
LEVEL = "model_checking"
RULE = "every sequence of record shapes to the depth, with every pattern, source kind and cut; distinct by (stream, pattern, cut)"
BOUNDS = {
    "quick": "all sequences of 9 record shapes to length 4 x 13 patterns, to length 3 x CRC on/off and merge off; every cut of every "
             "sequence of 6 shapes to length 3 and of 9 shapes to length 2, every pattern at length 2; sources starting at or after their beginning; a second reader going on after the first at every point of every sequence to length 3; "
             "records with parts to the largest lengths of the header (data to 2^18, skipped data to 2^27) between others; streams of 1000 records",
    "thorough": "all sequences to length 5 x 13 patterns; every cut of every sequence of 9 shapes to length 3 x patterns",
}
ASSUME = ["the source returns the bytes asked for when it has them (files and buffered streams)"]


def shape(i):
    p = np.array([5, -6, 7], dtype="<i4").tobytes()
    return [
        ms3ref.build(dict(numSamples=3), b"FDSN:XX_AAA__B_H_Z", b"", p),
        ms3ref.build(dict(numSamples=3, second=1), b"FDSN:XX_BBB_00_B_H_Z", b'{"a":[1,2]}', p),
        ms3ref.build(dict(numSamples=0, second=2), b"FDSN:XX_AAA__L_O_G", b'{"event":"x"}', b""),
        ms3ref.build(dict(numSamples=9, second=3, encoding=11, sampleRatePeriod=-1.0), b"FDSN:YY_CCC_10_L_H_N",
                     b"", bytes(sm.encodeSteim2([1, 2, 3, -400, 5, 6, 7, 8, 100000]))),
        ms3ref.build(dict(numSamples=0, second=4), b"", b"", b""),
        ms3ref.build(dict(numSamples=0, second=5, encoding=100), b"XFDSN:other/AAA", b"{ }", b"MS\x03" + bytes(61)),
        ms3ref.build(dict(numSamples=2, second=6, encoding=5), "FDSN:é_AAA".encode(), '{"é":"ü"}'.encode(), np.array([1.5, -2]).tobytes()),
        ms3ref.build(dict(numSamples=3, publicationVersion=2), b"FDSN:XX_AAA__B_H_Z", b"", p),
        ms3ref.build(dict(numSamples=70, encoding=1), b"FDSN:XX_AAA__B_H_Z2 \t", b' {"x":"' + b"y" * 300 + b'"}\n', bytes(140)),
    ][i]


SHAPES = [shape(i) for i in range(9)]
PATTERNS = [None, ".", "", "AAA", "^FDSN:XX_AAA__B_H_Z$", "XX_.*B_H_Z", "^XF", "YY|BBB", "é", "nomatch", "^$", "[ABC]{3}_(00|10)?_L", r"\s$"]


SOURCES = ["bytes", "file", "unbuffered", "buffered", "offset", "fileoffset", "verbose"]


def expected(seq, pat):
    out = []
    for s in seq:
        d = ms3ref.parse(SHAPES[s])
        if pat is None or re.compile(pat).search(d["ident"].decode("utf-8")):
            out.append(SHAPES[s])
    return out


def case_seq(rec, seq, pat, source, crc):
    data = b"".join(SHAPES[s] for s in seq)
    want = expected(seq, pat)
    if source in ("bytes", "verbose"):
        f = io.BytesIO(data)
    elif source == "file":
        f = tempfile.TemporaryFile()
        f.write(data)
        f.seek(0)
    elif source == "unbuffered":
        f = tempfile.TemporaryFile(buffering=0)
        f.write(data)
        f.seek(0)
    elif source == "offset":
        # records start in the middle of the source
        f = io.BytesIO(b"MS\x03 other" + data)
        f.seek(9)
    elif source == "fileoffset":
        f = tempfile.TemporaryFile()
        f.write(SHAPES[1][:-1] + data)
        f.seek(len(SHAPES[1]) - 1)
    else:
        f = io.BufferedReader(io.BytesIO(data), buffer_size=16)
    kw = {} if pat is None and crc is None else dict(matchsid=pat)
    if crc is not None:
        kw["check_crc"] = crc
    rec.step(len(seq))
    if source == "verbose":
        kw["verbose"] = True
        with contextlib.redirect_stdout(io.StringIO()):
            recs = list(sm.readMSeed3Records(f, **kw))
    else:
        recs = list(sm.readMSeed3Records(f, **kw))
    f.close()
    req(len(recs) == len(want), f"read {len(recs)} records not {len(want)}")
    for r, w in zip(recs, want):
        d = ms3ref.parse(w)
        req(r.identifier == d["ident"].decode("utf-8"), f"identifier {r.identifier}")
        req(bytes(r.encodedDataBytes()) == d["payload"], "payload")
        req(bytes(r.pack()) == w, f"record {r.identifier} differs")
    for r, w in zip(recs, want):
        d = ms3ref.parse(w)
        req((r.eh or None) == (ms3ref.ehval(d["eh"]) or None), "extra headers")
        if d["numSamples"] and d["encoding"] != 100:
            req(len(r.decompress()) == d["numSamples"], "samples")
    rec.state(tuple(seq), pat)


def seq_all(rec, first, length, pats, sources, crcs):
    for rest in itertools.product(range(len(SHAPES)), repeat=length - len(first)):
        for p in pats:
            for s in sources:
                for c in crcs:
                    rec.case("case_seq", list(first) + list(rest), p, s, c)
        if rec.stop:
            return


def case_cut(rec, seq, cut, pat):
    """CRC on: only complete records, then an exception or the end"""
    data = b"".join(SHAPES[s] for s in seq)
    want = []
    off = 0
    for s in seq:
        off += len(SHAPES[s])
        if off <= cut:
            want.append(s)
    allowed = expected(want, pat)
    got = []
    rec.step()
    err = None
    try:
        for r in sm.readMSeed3Records(io.BytesIO(data[:cut]), matchsid=pat):
            got.append(r)
    except Exception as e:
        err = e
    req(len(got) == len(allowed), f"{len(got)} records before a cut at {cut}, {len(allowed)} are complete ({err!r})")
    for r, w in zip(got, allowed):
        req(bytes(r.pack()) == w, "record before the cut differs")
    if cut == sum(len(SHAPES[s]) for s in want):
        req(err is None, f"raised {err!r} at the end of a record")
    rec.state("cut", data[:cut], pat)


def cut_all(rec, first, length, shapes, pats):
    for rest in itertools.product(shapes, repeat=length - 1):
        seq = [first] + list(rest)
        n = sum(len(SHAPES[s]) for s in seq)
        last = len(SHAPES[seq[-1]])
        # cuts of the earlier records are those of shorter sequences
        for cut in range(n - last, n + 1):
            for p in pats:
                rec.case("case_cut", seq, cut, p)
        if rec.stop:
            return


def case_incremental(rec, seq, pat):
    """records are yielded one at a time and stay valid while reading goes on"""
    data = b"".join(SHAPES[s] for s in seq)
    want = expected(seq, pat)
    it = sm.readMSeed3Records(io.BytesIO(data), matchsid=pat)
    held = []
    for w in want:
        rec.step()
        held.append(next(it))
        for h, x in zip(held, want):
            req(bytes(h.pack()) == x, "record held while reading changed")
    req(next(it, None) is None, "record after the last")
    rec.state("inc", tuple(seq), pat)


def case_resume(rec, seq, k, pat1, pat2):
    """a second reader goes on where the first was left"""
    f = io.BytesIO(b"".join(SHAPES[s] for s in seq))
    first = sm.readMSeed3Records(f, matchsid=pat1)
    want1 = expected(seq, pat1)[:k]
    got = [bytes(next(first).pack()) for _ in want1]
    req(got == want1, "first records")
    # the records up to the last one yielded are used up
    n = used = 0
    for i, s in enumerate(seq):
        if n < len(want1) and expected([s], pat1):
            n += 1
            used = i + 1
    rest = [bytes(r.pack()) for r in sm.readMSeed3Records(f, matchsid=pat2)]
    rec.step(len(seq))
    req(rest == expected(seq[used:], pat2), f"{len(rest)} records after {used} were used")
    rec.state("resume", tuple(seq), k, pat1, pat2)


def resume_all(rec, first, length):
    for n in range(length):
        for rest in itertools.product(range(len(SHAPES)), repeat=n):
            for k in range(n + 2):
                for p1, p2 in ((None, None), ("AAA", None), (None, "AAA"), ("AAA", "XX")):
                    rec.case("case_resume", [first] + list(rest), k, p1, p2)
            if rec.stop:
                return


def inc_all(rec, first, length):
    for rest in itertools.product(range(len(SHAPES)), repeat=length - 1):
        for p in (None, "AAA", "^XF"):
            rec.case("case_incremental", [first] + list(rest), p)


def case_prefix(rec, junk, n):
    """anything that is not a record is not returned as one"""
    data = SHAPES[0] * n + junk
    got = []
    rec.step()
    try:
        for r in sm.readMSeed3Records(io.BytesIO(data)):
            got.append(bytes(r.pack()))
    except Exception:
        req(len(junk) > 0, "raised without junk")
    req(got == [SHAPES[0]] * n, f"{len(got)} records not {n}")
    rec.state("junk", junk, n)


def junk_all(rec):
    bad = [ms3ref.build(dict(numSamples=1), i, e, bytes(4)) for i, e in ((b"FDSN:\xff", b""), (b"X", b'{"a":"\xe9"}'), (b"X", b'{"a":1}\xc3'), (b"X\xc3", b"\xa9"))]
    js = bad + [b"", b"\0", b"M", b"MS", b"MS\x03", b"MS\x02" + bytes(60), b"\n", bytes(39), bytes(40), bytes(64), b"MS\x03" + bytes(36), b"SM\x03" + bytes(37),
          b"MX\x03" + SHAPES[0][3:], b"XS\x03" + SHAPES[0][3:], b"MS\x04" + SHAPES[0][3:], b"ms\x03" + SHAPES[0][3:], SHAPES[0][1:], SHAPES[0][:-1]]
    for j in js:
        for n in range(0, 4):
            rec.case("case_prefix", j, n)


def case_big(rec, idlen, ehlen, datalen, pat, crc):
    """a record with large parts between others, matching or skipped"""
    ident = b"BIG" + b"x" * (idlen - 3)
    eh = b'{"k":"' + b"v" * (ehlen - 8) + b'"}' if ehlen else b""
    big = ms3ref.build(dict(numSamples=datalen // 4, encoding=3), ident, eh, bytes(k * 31 % 251 for k in range(datalen)))
    seq = [SHAPES[0], big, SHAPES[3], big, SHAPES[1]]
    rec.step(5)
    rec.state("big", idlen, ehlen, datalen, pat, crc)
    kw = {} if crc is None else dict(check_crc=crc)
    got = [bytes(r.pack()) for r in sm.readMSeed3Records(io.BytesIO(b"".join(seq)), matchsid=pat, **kw)]
    want = [s for s in seq if pat is None or re.search(pat, ms3ref.parse(s)["ident"].decode())]
    req(got == want, lambda: f"{len(got)} of {len(want)} records, or changed")


def big_all(rec, idlen, ehlen, top):
    for datalen in [0] + [(1 << k) + x for k in range(12, top) for x in (-4, 0, 4)]:
        for pat in (None, "BIG", "FDSN"):
            for crc in (None, False):
                rec.case("case_big", idlen, ehlen, datalen, pat, crc)
                if rec.stop:
                    return


def case_huge(rec, datalen):
    """a large record is skipped: a sparse file, as the record skipped is not looked into"""
    import os
    import tempfile

    big = bytearray(ms3ref.build(dict(numSamples=datalen // 4, encoding=3), b"BIG", b'{"a":1}', b""))
    big[36:40] = datalen.to_bytes(4, "little")
    rec.step(4)
    rec.state("huge", datalen)
    with tempfile.TemporaryFile() as f:
        f.write(SHAPES[0] + big)
        f.seek(datalen, os.SEEK_CUR)
        f.write(SHAPES[3] + SHAPES[0])
        f.seek(0)
        got = [bytes(r.pack()) for r in sm.readMSeed3Records(f, matchsid="FDSN")]
    want = [x for x in (SHAPES[0], SHAPES[3], SHAPES[0]) if re.search("FDSN", ms3ref.parse(x)["ident"].decode())]
    req(got == want, lambda: f"{len(got)} of {len(want)} records, or changed")


def huge_all(rec, top):
    for k in range(19, top):
        for x in (-1, 0, 4):
            rec.case("case_huge", (1 << k) + x)


def case_many(rec, n, pat):
    rec.step(n)
    rec.state("many", n, pat)
    seq = [SHAPES[(k * 7 + k // 9) % 9] for k in range(n)]
    got = [bytes(r.pack()) for r in sm.readMSeed3Records(io.BytesIO(b"".join(seq)), matchsid=pat)]
    want = [s for s in seq if pat is None or re.search(pat, ms3ref.parse(s)["ident"].decode())]
    req(got == want, lambda: f"{len(got)} of {len(want)} records, or changed")


def many_all(rec, ns):
    for n in ns:
        for pat in PATTERNS:
            rec.case("case_many", n, pat)


def shards(tier):
    q = tier == "quick"
    n = len(SHAPES)
    out = [("junk_all", ()), ("many_all", ([10, 100, 1000] if q else [10, 100, 1000, 10000, 70000],))]
    out.append(("huge_all", (28 if q else 31,)))
    for idlen, ehlen in ((3, 0), (255, 65535), (128, 32768), (127, 32767), (200, 300)):
        out.append(("big_all", (idlen, ehlen, 19 if q else 24)))
    out.append(("seq_all", ((), 0, PATTERNS, ["bytes", "file"], [None, True, False])))
    for a in range(n):
        out.append(("seq_all", ((a,), 1, PATTERNS, SOURCES, [None, True, False])))
        out.append(("seq_all", ((a,), 2, PATTERNS, SOURCES, [None, True, False])))
        out.append(("seq_all", ((a,), 3, PATTERNS, ["bytes", "offset"], [None, False])))
        for b in range(n):
            out.append(("seq_all", ((a, b), 4, PATTERNS if not q else [None, "AAA", "YY|BBB", "^$"], ["bytes"], [None])))
            if not q:
                out.append(("seq_all", ((a, b), 5, PATTERNS, ["bytes"], [None])))
        out.append(("inc_all", (a, 3 if q else 4)))
        out.append(("resume_all", (a, 3 if q else 4)))
        out.append(("cut_all", (a, 1, range(n), PATTERNS)))
        out.append(("cut_all", (a, 2, range(n), PATTERNS if not q else [None, "AAA", "^XF", "nomatch"])))
        out.append(("cut_all", (a, 3, [0, 1, 2, 3, 4, 5] if q else range(n), [None, "AAA"] if q else PATTERNS)))
    return out
