"""C28: the miniSEED 2 details tool reports exactly what is in the files."""
import datetime
import itertools
import os
import re
from fractions import Fraction

import numpy as np

import cli
import ms2ref
from checks import c18
from checks.c18 import SHAPES, PATS
from vlib import req

PROP = "C28"
LEVEL = "model_checking"
RULE = "every list of files of record shapes to the depth x pattern x mode, every value of each header field; distinct by files, pattern and arguments"
BOUNDS = {
    "quick": "one file of every pair of 21 shapes (record lengths 128 to 4096, both byte orders of header and data, 6 encodings, 0 to 6 blockettes in one piece or with gaps, no data, text), two and three files of "
             "every pair of shapes x 7 patterns x 3 display modes; records with all 256 values of each flag byte, 366 days, 9 qualities, 0 to 41 and to 10,001 samples x 6 encodings, 15 rates, times and codes; 3 files given in every order of up to 3, repeated or not; all lists of display options",
    "thorough": "every sequence of 3 shapes, in one and in two files",
}
ASSUME = ["labels of the details are those of the current output, spacing is free", "text records are displayed without --data",
          "years 1801 to 2054"]
MODES = [["--summary"], [], ["--data"], ["--summary", "-v"]]
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)


def micros(text):
    d = datetime.datetime.fromisoformat(text.replace("Z", "+00:00"))
    req(d.tzinfo is not None, f"time {text} has no time zone")
    return (d - EPOCH) // datetime.timedelta(microseconds=1)


def times(e):
    d0 = (datetime.date(e["year"], 1, 1) - datetime.date(1970, 1, 1)).days + e["yday"] - 1
    s = (((d0 * 24 + e["hour"]) * 60 + e["minute"]) * 60 + e["sec"]) * 10**6 + e["tenth"] * 100 + sum(x[2] for x in e["blk"] if x[0] == "1001")
    r = [x[1] for x in e["blk"] if x[0] == "100"]
    rate = Fraction(float(np.float32(r[-1]))) if r else Fraction(ms2ref.rate(e["factor"], e["mult"]))
    return s, Fraction(10**6) / rate if rate else Fraction(0)


def is_text(e):
    return isinstance(e["vals"], bytes)


def codes(e):
    return f"{e['net']}.{e['sta']}.{e['loc']}.{e['chan']}"


def judge_blockette(x, text, e):
    """values shown by name are those stored"""
    want = {"1000": dict(encoding=e["enc"], recLength=e["exp"]), "1001": dict(zip(("timeQuality", "microseconds", "frameCount"), x[1:])),
            "100": dict(sampleRate=float(np.float32(x[1])) if x[0] == "100" else 0)}.get(x[0], {})
    for k, v in want.items():
        m = re.search(r"\b" + k + r"=([^,)\s]+)", text)
        req(m is not None, lambda: f"blockette {text!r} has no {k}")
        req(float(m[1]) == v or (k == "microseconds" and int(m[1]) % 256 == v % 256), lambda: f"{k} of {text!r} is not {v}")


def check_display(out, want, mode):
    total = f"Total {sum(e['nsamp'] for e in want)} samples in {len(want)} records"
    lines = out.rstrip("\n").split("\n")
    req(lines[-1] == total, lambda: f"last line {lines[-1]!r} not {total!r}")
    if "--summary" in mode:
        req(len(lines) == len(want) + 1, lambda: f"{len(lines) - 1} lines for {len(want)} records")
        for line, e in zip(lines, want):
            m = re.fullmatch(r"(\S+) (\S+[ T]\S+|\S+) (\S+[ T]\S+|\S+) \((\d+) pts\)", line)
            req(m is not None, lambda: f"summary {line!r}")
            req(m[1] == codes(e) and int(m[4]) == e["nsamp"], lambda: f"summary {line!r} of {codes(e)} with {e['nsamp']} samples")
            s, p = times(e)
            req(micros(m[2]) == s, lambda: f"start time {m[2]}")
            ok = [s + (e["nsamp"] - 1) * p] + ([s] if e["nsamp"] == 0 else [])
            req(any(abs(micros(m[3]) - x) <= 2 for x in ok), lambda: f"end time {m[3]}")
        return
    rest = "\n".join(lines[:-1])
    for k, e in enumerate(want):
        m = re.match(r"\s*(\S*), quality (.), (\S+) bytes \(format: 2\)\n", rest)
        req(m is not None, lambda: f"details of record {k}: {rest[:100]!r}")
        req((m[1], m[2], m[3]) == (e["sid"], e["quality"], str(1 << e["exp"])), lambda: f"record {k} {e['sid']} of {1 << e['exp']} bytes, quality {e['quality']}: {m[0]!r}")
        rest = rest[m.end():]

        def label(name, pat):
            nonlocal rest
            m = re.match(r"\s*" + re.escape(name) + r":[ \t]*" + pat, rest)
            req(m is not None, lambda: f"record {k}, {name}: {rest[:80]!r}")
            rest = rest[m.end():]
            return m

        m = label("start time", r"(\S+) \((\d{3})\)")
        req(micros(m[1]) == times(e)[0], lambda: f"start time {m[1]}")
        req(int(m[2]) == e["yday"], lambda: f"day of year {m[2]}")
        m = label("number of samples", r"(\d+)")
        req(int(m[1]) == e["nsamp"], lambda: f"number of samples {m[1]} not {e['nsamp']}")
        m = label("sample rate (Hz)", r"(\S+)")
        p = times(e)[1]
        req(abs(Fraction(m[1]) * p - 10**6) <= 10**6 * Fraction(1, 10**12) if p else float(m[1]) == 0, lambda: f"sample rate {m[1]}, period {float(p)} us")
        for f in ("act", "io", "qual"):
            m = label("flags", r"\[([01]{8})\] 8 bits")
            req(int(m[1], 2) == e[f], lambda: f"{f} flags {m[1]} of {e[f]}")
        m = label("payload encoding", r"([^\n]*)\(val: (-?\d+)\)[^\n]*")
        enc = e["enc"] if e["b1000"] else -1
        req(int(m[2]) == enc and cli.encoding_named(m[1], enc), lambda: f"encoding {m[1]} {m[2]} of {enc}")
        blk = []
        while True:
            m = re.match(r"\s*Blockette(\w+)\(blocketteNum=(\d+)[^\n]*", rest)
            if m is None:
                break
            blk.append((int(m[2]), m[0]))
            rest = rest[m.end():]
        w = [x[1] if x[0] == "raw" else int(x[0]) for x in e["blk"]]
        req([x[0] for x in blk] == w, lambda: f"blockettes {blk} not {w}")
        for x, (_, text) in zip(e["blk"], blk):
            judge_blockette(x, text, e)
        rest = rest.lstrip()
        if "--data" in mode:
            m = re.match(r"data:((?:[ \n]+[-+]?(?:[0-9][-+.0-9e]*|inf|nan))*)[ \n]*(?=\S*, quality |$)", rest)
            req(m is not None, lambda: f"record {k}: data shown as {rest[:80]!r}")
            got = [float(x) for x in m[1].split()]
            w = e["vals"] or []
            dt = e["dtype"] if e["dtype"] in ("f4", "f8") else "f8"
            req(len(got) == len(w) and np.array(got, dtype=dt).tobytes() == np.array(w, dtype=dt).tobytes(), lambda: f"record {k}: data {got} not {w}")
            rest = rest[m.end():]
    req(rest.strip() == "", lambda: f"more output: {rest[:100]!r}")


def show(files, es, pat, mode):
    with cli.Scratch() as d:
        names = [f"f{k}.ms2" for k in range(len(files))]
        for n, b in zip(names, files):
            d.put(n, b)
        rc, out, err, exc = cli.run("mseed2details", list(mode) + (["--match", pat] if pat is not None else []) + [d.path(n) for n in names])
        if exc is not None:
            raise exc
        req(rc == 0, lambda: f"returned {rc}: {err}")
        for n, b in zip(names, files):
            req(d.get(n) == b, lambda: f"{n} was changed")
        req(d.ls() == sorted(names), lambda: f"files {d.ls()}")
    check_display(out, es, mode)


ARGNAMES = ["z.ms2", "dir/a b", "m.mseed"]


def case_order(rec, order, flags):
    """files in any order and more than once, of any name; any of the display options together"""
    rec.step()
    rec.state("order", tuple(order), tuple(flags))
    ok = [i for i in range(len(SHAPES)) if not is_text(SHAPES[i])]
    files = [ok[:2], ok[2:3], ok[3:6]]
    with cli.Scratch() as d:
        os.makedirs(d.path("dir"))
        for n, f in zip(ARGNAMES, files):
            d.put(n, b"".join(SHAPES[i]["b"] for i in f))
        rc, out, err, exc = cli.run("mseed2details", list(flags) + [d.path(ARGNAMES[k]) for k in order])
        req(exc is None and rc == 0, lambda: f"{order} {flags} returned {rc} {exc!r}: {err}")
        for n, f in zip(ARGNAMES, files):
            req(d.get(n) == b"".join(SHAPES[i]["b"] for i in f), lambda: f"{n} was changed")
    check_display(out, [SHAPES[i] for k in order for i in files[k]], flags)


def case_process(rec, mode, times, closed):
    """the command in a process of its own; if nobody reads the output it ends and fails"""
    rec.step()
    rec.state("process", tuple(mode), times, closed)
    es = [e for e in SHAPES if not is_text(e)] * times
    with cli.Scratch() as d:
        data = b"".join(e["b"] for e in es)
        d.put("f", data)
        rc, out = cli.process("mseed2details", list(mode) + [d.path("f")], closed)
        req(d.get("f") == data and d.ls() == ["f"], "files changed")
        req(rc not in (0, "never") if closed else rc == 0, lambda: f"{'closed output' if closed else 'process'}: exit status {rc}")
    if not closed:
        check_display(out, es, mode)


def process_all(rec):
    for mode in MODES:
        for closed in (False, True):
            for times in (1, 10):
                rec.case("case_process", mode, times, closed)


def order_all(rec, first):
    for n in range(3):
        for rest in itertools.product(range(3), repeat=n):
            for flags in ([], ["--summary"]):
                rec.case("case_order", [first] + list(rest), flags)
    for k in range(4):
        for flags in itertools.permutations(("--summary", "--data", "-v"), k):
            rec.case("case_order", [first, 2 - first], list(flags))


def case_show(rec, files, pat, mode):
    rec.step()
    rec.state("show", tuple(map(tuple, files)), pat, tuple(mode))
    es = [SHAPES[i] for f in files for i in c18.matching(f, pat)]
    if "--data" in mode and any(is_text(e) for e in es):
        return
    show([b"".join(SHAPES[i]["b"] for i in f) for f in files], es, pat, mode)


def seqs_all(rec, n, first):
    k = 0
    for rest in itertools.product(range(len(SHAPES)), repeat=n - 1):
        s = [first] + list(rest)
        for pat in PATS:
            k += 1
            if n == 2:
                for mode in MODES[:3]:
                    rec.case("case_show", [s], pat, mode)
                rec.case("case_show", [[first], list(rest)], pat, MODES[k % 3])
                rec.case("case_show", [[], [first], [], list(rest)], pat, MODES[(k + 1) % 3])
            else:
                rec.case("case_show", [s], pat, MODES[k % 4])
                rec.case("case_show", [[first], list(rest)], pat, MODES[(k + 1) % 4])
            if rec.stop:
                return


def single_all(rec):
    rec.case("case_show", [[]], None, [])
    for i in range(len(SHAPES)):
        for pat in PATS:
            for mode in MODES:
                rec.case("case_show", [[i]], pat, mode)
    for mode in MODES[:3]:
        rec.case("case_show", [[i for i in range(16) if not is_text(SHAPES[i])] * 10], None, mode)


def expected(f, kw, vals):
    d = dict(ms2ref.DEFAULT)
    d.update(f)
    ch = d["chan"]
    enc, order = kw["encoding"], kw.get("data", ">")
    if enc in (10, 11):
        payload = bytes((c18.sm.encodeSteim1 if enc == 10 else c18.sm.encodeSteim2)(vals)) if vals else b""
    else:
        payload = ms2ref.primitive(enc, order, vals)
    return dict(d, sid=f"FDSN:{d['net']}_{d['sta']}_{d['loc']}_{ch[0]}_{ch[1]}_{ch[2]}", enc=enc, order=order, exp=kw["exp"], vals=vals, blk=kw.get("blockettes", [("1000",)]), b1000=True,
                b=ms2ref.build(f, payload=payload, **kw), dtype={1: "i2", 3: "i4", 4: "f4", 5: "f8", 10: "i4", 11: "i4"}[enc])


def case_fields(rec, specs):
    es = []
    for f, kw, n in specs:
        kw = dict(dict(encoding=3, exp=9), **kw)
        kw["blockettes"] = [tuple(x) for x in kw.get("blockettes", [("1000",)])]
        vals = [(7 * k * k - 300 * k) % 60000 - 30000 for k in range(n)]
        if kw["encoding"] in (4, 5):
            vals = [float(np.float32(v / 8)) for v in vals]
        es.append(expected(dict(f, nsamp=n), kw, vals))
        rec.step()
        rec.state("field", repr(sorted(f.items())), repr(kw), n)
    for mode in MODES[:3]:
        show([b"".join(e["b"] for e in es)], es, None, mode)


def fields_all(rec, what):
    if what in ("act", "io", "qual"):
        g = [({what: k}, {}, 2) for k in range(256)]
    elif what == "day":
        g = [(dict(yday=k, year=2024, hour=k % 24, minute=k % 60, sec=k % 59), {}, 2) for k in range(1, 367)]
        g += [(dict(yday=365, year=y), {}, 2) for y in (1801, 1970, 1999, 2000, 2023, 2054)]
    elif what == "counts":
        g = [({}, dict(encoding=e, exp=10, header=o, data=o), n) for n in range(42) for e in (1, 3, 4, 5, 10, 11) for o in "<>" if e < 10 or o == ">"]
    elif what == "rates":
        g = [(dict(factor=a, mult=b), {}, n) for a, b in ((20, 1), (1, 1), (-10, 1), (100, 1), (-1, 1), (1, -10), (-3, -1), (3, 7), (-32767, -32767), (32767, 32767), (0, 0), (0, 1), (0, -1), (5, 0), (-5, 0)) for n in (0, 1, 2, 40)]
        g += [({}, dict(blockettes=[["100", r], ["1000"]]), n) for r in (20.0, 0.1, 3.7, 1e5, 1e-3, 0.0) for n in (0, 1, 2, 40)]
    elif what == "long":
        g = [({}, dict(encoding=e, exp=16), n) for e in (3, 10, 11, 4) for n in (99, 100, 999, 1000, 1001, 1002, 4097, 10001)]
    elif what == "times":
        g = [(dict(tenth=t, hour=h, sec=s), dict(blockettes=[["1000"], ["1001", 3, us, 2]]), 2) for t in (0, 1, 9999, 5000) for h in (0, 23) for s in (0, 59) for us in (0, 1, 50, 99)]
    elif what == "codes":
        g = [(dict(net=n, sta=s, loc=l, chan=c, quality=q), {}, 1) for n in ("XX", "A", "9Z") for s in ("A", "ABC", "ABCDE") for l in ("", "00", "9") for c in ("BHZ", "LOG", "ACE") for q in "DRQM"]
    for k in range(0, len(g), 16):
        rec.case("case_fields", [[dict(a), dict(b), c] for a, b, c in g[k : k + 16]])
        if rec.stop:
            return


def shards(tier):
    out = [("single_all", ())]
    for i in range(len(SHAPES)):
        out.append(("seqs_all", (2, i)))
        if tier != "quick":
            out.append(("seqs_all", (3, i)))
    for what in ("act", "io", "qual", "day", "counts", "long", "rates", "times", "codes"):
        out.append(("fields_all", (what,)))
    for first in range(3):
        out.append(("order_all", (first,)))
    out.append(("process_all", ()))
    return out
