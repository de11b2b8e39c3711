"""C27: the miniSEED 3 details tool reports exactly what is in the files."""
import datetime
import itertools
import json
import os
import re
import struct
from fractions import Fraction

import numpy as np

import simplemseed as sm
import cli
import ehfiles
import ms3ref
import steimref
from ehfiles import SHAPES, PARSED
from vlib import req

PROP = "C27"
LEVEL = "model_checking"
RULE = "every list of files of record shapes to the depth x pattern x mode x options, every value of each header field; distinct by files, pattern and arguments"
BOUNDS = {
    "quick": "one file of every sequence of 6 shapes to length 3, two files to total 3, three files to total 2 x 5 patterns x 4 display modes, and x get and getall x 3 outputs; "
             "every pair of shapes x 23 pointers x get and getall x 3 outputs; records with all 256 flags, 256 versions, 366 days, 0 to 41 and to 10,001 samples x 6 encodings, 12 rates, 9 times, 11 other encodings; 3 files given in every order of up to 3, repeated or not; all lists of display options",
    "thorough": "one file to length 4, two and three files to total 4",
}
ASSUME = ["labels of the details are those of the current output, spacing is free", "text records are displayed without --data"]
PATS = [None, "AAA", "^FDSN:XX_AAA__B_H_Z$", "nomatch", "YY|event"]
MODES = [["--summary"], [], ["--eh"], ["--data"], ["--eh", "--data", "-v"]]
POINTERS = ["", "/", "/a", "/b", "/b/c", "/b/d", "/arr", "/arr/0", "/arr/1", "/arr/2", "/arr/-", "/arr/01", "/arr/x", "/a/0", "/a/1", "/a/b", "/b/c/d", "/b/c/0", "/b/d/e",
            "/é", "/é/0", "/a~1b", "/nope"]
BIT = {0: "(?i)calibration", 1: "(?i)questionable", 2: "(?i)lock"}
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)


def micros(text):
    d = datetime.datetime.fromisoformat(text.replace("Z", "+00:00"))
    req(d.tzinfo is not None, f"time {text} has no time zone")
    return (d - EPOCH) // datetime.timedelta(microseconds=1)


def times(p):
    """exact start and end as Fractions of microseconds"""
    d0 = (datetime.date(p["year"], 1, 1) - datetime.date(1970, 1, 1)).days + p["dayOfYear"] - 1
    start = Fraction(((d0 * 24 + p["hour"]) * 60 + p["minute"]) * 60 + p["second"]) * 10**6 + Fraction(p["nanosecond"], 1000)
    r = Fraction(p["sampleRatePeriod"])
    period = 0 if r == 0 else (1 / r if r > 0 else -r)
    return start, start + max(p["numSamples"] - 1, 0) * period * 10**6


def values(p):
    if p["numSamples"] == 0:
        return []
    if p["encoding"] in (10, 11):
        return [float(x) for x in steimref.decode(p["payload"], p["encoding"] - 9, p["numSamples"])]
    a = np.frombuffer(p["payload"], dtype={1: "<i2", 3: "<i4", 4: "<f4", 5: "<f8"}[p["encoding"]])
    return [float(x) for x in a]


def check_times(p, start, end=None):
    s, e = times(p)
    req(abs(micros(start) - s) < 1, lambda: f"start time {start}")
    if end is not None:
        # of no samples: the start time, or one period before it
        ok = [e] if p["numSamples"] else [s, 2 * s - times(dict(p, numSamples=2))[1]]
        req(any(abs(micros(end) - x) <= 2 for x in ok), lambda: f"end time {end}")


def check_display(out, want, mode):
    """want: the parsed records in order"""
    total = f"Total {sum(p['numSamples'] for p in want)} samples in {len(want)} records"
    lines = out.rstrip("\n").split("\n")
    req(lines[-1] == total, lambda: f"last line {lines[-1]!r} not {total!r}")
    if "--summary" in mode:
        req(len(lines) == len(want) + 1, lambda: f"{len(lines) - 1} lines for {len(want)} records")
        for line, p in zip(lines, want):
            m = re.fullmatch(r"(\S*) (\S+) (\S+) \((\d+) pts\)", line)
            req(m is not None, lambda: f"summary {line!r}")
            req(m[1] == p["ident"].decode("utf-8") and int(m[4]) == p["numSamples"], lambda: f"summary {line!r} of {p['ident']!r} with {p['numSamples']} samples")
            check_times(p, m[2], m[3])
        return
    rest = "\n".join(lines[:-1])
    for k, p in enumerate(want):
        m = re.match(r"\s*(\S*), version (\d+), (\S+) bytes \(format: 3\)\n", rest)
        req(m is not None, lambda: f"details of record {k}: {rest[:100]!r}")
        ident = p["ident"].decode("utf-8")
        req((m[1], m[2], m[3]) == (ident, str(p["publicationVersion"]), str(p["size"])), lambda: f"record {k} {ident} of {p['size']} bytes, version {p['publicationVersion']}: {m[0]!r}")
        rest = rest[m.end():]

        def label(name, pat):
            nonlocal rest
            m = re.match(r"\s*" + re.escape(name) + r":[ \t]*" + pat, rest)
            req(m is not None, lambda: f"record {k}, {name}: {rest[:80]!r}")
            rest = rest[m.end():]
            return m

        m = label("start time", r"(\S+) \((\d{3})\)")
        check_times(p, m[1])
        req(int(m[2]) == p["dayOfYear"], lambda: f"day of year {m[2]}")
        m = label("number of samples", r"(\d+)")
        req(int(m[1]) == p["numSamples"], lambda: f"number of samples {m[1]} not {p['numSamples']}")
        m = label("sample rate (Hz)", r"(\S+)")
        r = p["sampleRatePeriod"]
        req(float(m[1]) == (r if r >= 0 else -1 / r), lambda: f"sample rate {m[1]} of {r}")
        m = label("flags", r"\[([01]{8})\] 8 bits((?:\s*\[Bit \d\][^\n\[]*)*)")
        req(int(m[1], 2) == p["flags"], lambda: f"flags {m[1]} of {p['flags']}")
        told = dict(re.findall(r"\[Bit (\d)\]([^\n]*)", m[2]))
        req(all(re.search(BIT.get(int(b), "(?i)undefined|reserved|unknown"), s) for b, s in told.items()), lambda: f"bits {m[2]!r}")
        req([int(x) for x in re.findall(r"\[Bit (\d)\]", m[2])] == [b for b in range(8) if p["flags"] >> b & 1], lambda: f"bits {m[2]!r} of flags {p['flags']}")
        m = label("CRC", r"0x([0-9A-Fa-f]{8})\n")
        req(int(m[1], 16) == p["crc"], lambda: f"CRC {m[1]}")
        m = label("extra header length", r"(\d+) bytes")
        req(int(m[1]) == len(p["eh"]), lambda: f"extra header length {m[1]}")
        m = label("data payload length", r"(\d+) bytes")
        req(int(m[1]) == len(p["payload"]), lambda: f"payload length {m[1]}")
        m = label("payload encoding", r"([^\n]*)\(val: (\d+)\)")
        req(int(m[2]) == p["encoding"] and cli.encoding_named(m[1], p["encoding"]), lambda: f"encoding {m[1]} {m[2]} of {p['encoding']}")
        label("extra headers", r"\s*")
        eh = ms3ref.ehval(p["eh"])
        if "--eh" in mode and eh:
            try:
                v, n = json.JSONDecoder().raw_decode(rest)
            except ValueError:
                req(False, lambda: f"record {k}: extra headers shown as {rest[:80]!r}")
            req(v == eh and json.dumps(v, sort_keys=True) == json.dumps(eh, sort_keys=True), lambda: f"record {k}: extra headers {v!r} not {eh!r}")
            rest = rest[n:]
        elif "--eh" in mode and rest.startswith("{}"):
            rest = rest[2:]
        rest = rest.lstrip()
        if "--data" in mode:
            m = re.match(r"data:((?:[ \n]+[-+]?(?:[0-9][-+.0-9e]*|inf|nan))*)[ \n]*(?=\S*, version |$)", rest)
            req(m is not None, lambda: f"record {k}: data shown as {rest[:80]!r}")
            got = [float(x) for x in m[1].split()]
            w = values(p)
            dt = "<f4" if p["encoding"] == 4 else "<f8"
            req(len(got) == len(w) and np.array(got, dtype=dt).tobytes() == np.array(w, dtype=dt).tobytes(), lambda: f"record {k}: data {got} not {w}")
            rest = rest[m.end():]
    req(rest.strip() == "", lambda: f"more output: {rest[:100]!r}")


def run(files, argv, extra=()):
    """output and output file after running on files of bytes, which must stay as they are"""
    with cli.Scratch() as d:
        names = [f"f{k}.ms3" for k in range(len(files))]
        for n, b in zip(names, files):
            d.put(n, b)
        argv = [d.path("out") if a == "@out" else a for a in argv]
        rc, out, err, exc = cli.run("mseed3details", argv + [d.path(n) for n in names])
        if exc is not None:
            raise exc
        req(rc == 0, lambda: f"{argv} returned {rc}: {err}")
        for n, b in zip(names, files):
            req(d.get(n) == b, lambda: f"{n} was changed")
        req(set(d.ls()) == set(names) | ({"out"} if "-o" in argv and "-" not in argv else set()), lambda: f"files {d.ls()}")
        return out, (d.get("out").decode("utf-8") if "out" in d.ls() else None)


def bytes_of(files):
    return [b"".join(SHAPES[i] for i in f) for f in files]


def selected(files, pat):
    return [i for f in files for i in f if ehfiles.matches(i, pat)]


def case_show(rec, files, pat, mode):
    rec.step()
    rec.state("show", tuple(map(tuple, files)), pat, tuple(mode))
    argv = list(mode) + (["--match", pat] if pat is not None else [])
    out, _ = run(bytes_of(files), argv)
    check_display(out, [PARSED[i] for i in selected(files, pat)], mode)


ARGNAMES = ["z.ms3", "dir/a b", "m.mseed"]


def case_order(rec, order, flags, cmd):
    """files in any order and more than once, of any name; any of the display options together"""
    rec.step()
    rec.state("order", tuple(order), tuple(flags), cmd)
    files = [[0, 1], [2], [3, 4, 0]]
    with cli.Scratch() as d:
        os.makedirs(d.path("dir"))
        for n, f in zip(ARGNAMES, files):
            d.put(n, b"".join(SHAPES[i] for i in f))
        rc, out, err, exc = cli.run("mseed3details", list(flags) + ([cmd, "/a"] if cmd else []) + [d.path(ARGNAMES[k]) for k in order])
        req(exc is None and rc == 0, lambda: f"{order} {flags} {cmd} returned {rc} {exc!r}: {err}")
        for n, f in zip(ARGNAMES, files):
            req(d.get(n) == b"".join(SHAPES[i] for i in f), lambda: f"{n} was changed")
    want = [i for k in order for i in files[k]]
    if not cmd:
        check_display(out, [PARSED[i] for i in want], flags)
        return
    want = want[:1] if cmd == "--get" else want
    lines = out.split("\n")[:-1]
    req(len(lines) == len(want), lambda: f"{len(lines)} lines {lines} for {len(want)} records")
    for line, i in zip(lines, want):
        check_got(line.strip(), i, "/a", False)


def case_process(rec, mode, files, closed):
    """the command in a process of its own; if nobody reads the output it ends and fails"""
    rec.step()
    rec.state("process", tuple(mode), tuple(files), closed)
    with cli.Scratch() as d:
        data = b"".join(SHAPES[i] for i in files)
        d.put("f", data)
        rc, out = cli.process("mseed3details", list(mode) + [d.path("f")], closed)
        req(d.get("f") == data and d.ls() == ["f"], "files changed")
        req(rc not in (0, "never") if closed else rc == 0, lambda: f"{'closed output' if closed else 'process'}: exit status {rc}")
    if not closed:
        check_display(out, [PARSED[i] for i in files], mode)


def process_all(rec):
    for mode in MODES:
        for closed in (False, True):
            for files in ([0, 1, 2], [0, 3] * 100):
                rec.case("case_process", mode, files, closed)


def order_all(rec, first):
    for n in range(3):
        for rest in itertools.product(range(3), repeat=n):
            for cmd in (None, "--get", "--getall"):
                rec.case("case_order", [first] + list(rest), [] if cmd else ["--summary"] if n else [], cmd)
    for k in range(5):
        for flags in itertools.permutations(("--summary", "--eh", "--data", "-v"), k):
            rec.case("case_order", [first, 2 - first], list(flags), None)


NONE = object()


def lookup(i, ptr):
    try:
        return ehfiles.getptr(ehfiles.ehof(i), ptr)
    except (KeyError, IndexError, ValueError, TypeError):
        return NONE


def check_got(line, i, ptr, tofile):
    w = lookup(i, ptr)
    try:
        v = json.loads(line)
    except ValueError:
        v = NONE
    if tofile and v is NONE:
        req(line == "", lambda: f"output line {line!r}")
    noeh = not PARSED[i]["eh"]
    if noeh and w is not NONE:
        # the whole of the extra headers of a record without any: {} or a blank line
        req(v is NONE or v == {}, lambda: f"{ptr!r} of a record without extra headers gave {line!r}")
    elif w is NONE:
        req(v is NONE, lambda: f"{ptr!r} is not in {ehfiles.ehof(i)!r} but gave {line!r}")
    else:
        req(v is not NONE and json.dumps(v, sort_keys=True) == json.dumps(w, sort_keys=True), lambda: f"{ptr!r} in {ehfiles.ehof(i)!r} gave {line!r}")


def case_get(rec, files, pat, cmd, ptr, outs):
    want = selected(files, pat)
    if cmd == "--get":
        want = want[:1]
    for out in outs:
        rec.step()
        rec.state("get", tuple(map(tuple, files)), pat, cmd, ptr, out)
        argv = {"": [], "file": ["-o", "@out"], "dash": ["-o", "-"], "v": ["-v"], "vfile": ["-v", "--outfile", "@out"]}[out] + (["--match", pat] if pat is not None else []) + [cmd, ptr]
        text, got = run(bytes_of(files), ["-o" if a == "--outfile" else a for a in argv])
        if out in ("file", "vfile"):
            req(got is not None and (got == "" or got.endswith("\n")), lambda: f"output file {got!r}")
            req(out == "vfile" or text == "", lambda: f"also printed {text!r}")
            lines = got.split("\n")[:-1]
        else:
            lines = text.split("\n")[:-1]
            if out == "v":
                lines = [x for x in lines if x.startswith("  ")]
            lines = [x.strip() for x in lines]
        req(len(lines) == len(want), lambda: f"{len(lines)} lines {lines} for {len(want)} records")
        for line, i in zip(lines, want):
            check_got(line, i, ptr, out in ("file", "vfile"))


def lists(total, nfiles):
    for n in range(total + 1):
        for seq in itertools.product(range(len(SHAPES)), repeat=n):
            for cuts in itertools.combinations_with_replacement(range(n + 1), nfiles - 1):
                c = (0,) + cuts + (n,)
                yield [list(seq[a:b]) for a, b in zip(c, c[1:])]


def files_all(rec, total, nfiles, pat, part, parts):
    for k, files in enumerate(lists(total, nfiles)):
        if k % parts != part:
            continue
        for mode in MODES if nfiles == 1 else MODES[k % 5 :: 3]:
            rec.case("case_show", files, pat, mode)
        for cmd in ("--get", "--getall"):
            rec.case("case_get", files, pat, cmd, ["/a", "", "/b", "/b/c"][k % 4], [["", "file"], ["dash"], ["v", "vfile"]][(k + nfiles) % 3])
        if rec.stop:
            return


def pointers_all(rec, ptr):
    n = len(SHAPES)
    for files in [[[i]] for i in range(n)] + [[[i, j]] for i in range(n) for j in range(n)] + [[[i], [], [j]] for i in range(n) for j in range(n)]:
        for cmd in ("--get", "--getall"):
            rec.case("case_get", files, None, cmd, ptr, ["", "file", "dash", "v", "vfile"] if len(files) == 1 else ["", "file"])
        if rec.stop:
            return


def payload(enc, n):
    if enc not in (1, 3, 4, 5, 10, 11):
        return bytes(65 + k % 26 for k in range(n))
    vals = [(7 * k * k - 300 * k) % 60000 - 30000 for k in range(n)]
    if enc in (10, 11):
        return bytes((sm.encodeSteim1 if enc == 10 else sm.encodeSteim2)(vals)) if n else b""
    if enc in (4, 5):
        vals = [v / 7 for v in vals]
    return np.array(vals, dtype={1: "<i2", 3: "<i4", 4: "<f4", 5: "<f8"}[enc]).tobytes()


def case_fields(rec, fields):
    """records with these header fields, in one file, all display modes"""
    recs = []
    for f in fields:
        f = dict(f)
        n, enc = f.get("numSamples", 2), f.get("encoding", 3)
        f["numSamples"], f["encoding"] = n, enc
        ident = f.pop("ident", "FDSN:XX_ABC__B_H_Z").encode("utf-8")
        eh = f.pop("eh", "").encode("utf-8")
        recs.append(ms3ref.build(f, ident, eh, payload(enc, n)))
        rec.step()
        rec.state("field", repr(sorted(f.items())), ident, eh)
    want = [ms3ref.parse(b) for b in recs]
    for mode in MODES:
        if "--data" in mode and any(p["encoding"] not in (1, 3, 4, 5, 10, 11) for p in want):
            continue
        out, _ = run([b"".join(recs)], mode)
        check_display(out, want, mode)


def case_floats(rec, enc, hexes):
    """data values as they are: floats by their bits"""
    rec.step()
    rec.state("floats", enc, tuple(hexes))
    pay = b"".join(bytes.fromhex(h)[::-1] for h in hexes)
    b = ms3ref.build(dict(numSamples=len(hexes), encoding=enc), b"FDSN:XX_ABC__B_H_Z", b"", pay)
    out, _ = run([b], ["--data"])
    check_display(out, [ms3ref.parse(b)], ["--data"])


def fields_all(rec, what):
    if what == "flags":
        g = [dict(flags=k) for k in range(256)]
    elif what == "version":
        g = [dict(publicationVersion=k) for k in range(256)]
    elif what == "day":
        g = [dict(dayOfYear=k, year=2024, hour=k % 24, minute=k % 60, second=k % 59) for k in range(1, 367)] + [dict(dayOfYear=365, year=y) for y in (1970, 1999, 2000, 2023, 2100, 1700, 9998)]
    elif what == "counts":
        g = [dict(numSamples=n, encoding=e) for n in range(42) for e in (1, 3, 4, 5, 10, 11)]
    elif what == "rates":
        g = [dict(sampleRatePeriod=r, numSamples=n) for r in (0.0, 1.0, -1.0, 20.0, 100.0, 0.1, -10.0, -3.0, 1e6, 3.7, 1e-3, -86400.0) for n in (0, 1, 2, 40)]
    elif what == "times":
        g = [dict(nanosecond=ns, hour=h, minute=59, second=s) for ns in (0, 999, 1000, 1500, 999999000, 999999999, 500000000) for h in (0, 23) for s in (0, 59, 60)]
    elif what == "opaque":
        g = [dict(numSamples=n, encoding=e) for e in (0, 2, 6, 12, 16, 19, 30, 32, 100, 101, 255) for n in (0, 1, 2, 40)] + [dict(numSamples=n, encoding=3) for n in (1, 2)]
    elif what == "long":
        g = [dict(numSamples=n, encoding=e) for e in (3, 10, 11, 4) for n in (99, 100, 999, 1000, 1001, 1002, 4097, 10001)]
    elif what == "ident":
        g = [dict(ident=i, eh=e) for i in ("FDSN:XX_ABC__B_H_Z", "FDSN:A_B__C_D_E", "X", "FDSN:é", "a" * 255) for e in ("", "{}", '{"a":"b"}', '{"x":{"y":[1,{"z":null}]},"e":"\\n}{é"}', '{ "data:" : "version" }')]
    for k in range(0, len(g), 16):
        rec.case("case_fields", g[k : k + 16])
        if rec.stop:
            return


def floats_all(rec, enc):
    w = 4 if enc == 4 else 8
    emax, mant = (255, 23) if w == 4 else (2047, 52)
    out = []
    for s in (0, 1):
        for e in [0, 1, 2, emax // 2 - 1, emax // 2, emax // 2 + 1, emax // 2 + mant, emax - 2, emax - 1]:
            for m in (0, 1, (1 << mant) - 1, 1 << (mant - 1), 0x55555 % (1 << mant)):
                out.append(((s << (w * 8 - 1)) | (e << mant) | m).to_bytes(w, "big").hex())
        out.append(((s << (w * 8 - 1)) | (emax << mant)).to_bytes(w, "big").hex())
    for h in out:
        rec.case("case_floats", enc, [h])
    for k in range(0, len(out), 23):
        rec.case("case_floats", enc, out[k : k + 23])


def shards(tier):
    q = tier == "quick"
    out = []
    for pat in PATS:
        parts = 4 if q else 16
        for part in range(parts):
            out.append(("files_all", (3 if q else 4, 1, pat, part, parts)))
            out.append(("files_all", (3 if q else 4, 2, pat, part, parts)))
            out.append(("files_all", (2 if q else 4, 3, pat, part, parts)))
    for ptr in POINTERS:
        out.append(("pointers_all", (ptr,)))
    for what in ("flags", "version", "day", "counts", "rates", "times", "ident", "opaque", "long"):
        out.append(("fields_all", (what,)))
    for enc in (4, 5):
        out.append(("floats_all", (enc,)))
    for first in range(3):
        out.append(("order_all", (first,)))
    out.append(("process_all", ()))
    return out
