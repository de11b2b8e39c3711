"""C11: extra headers read back as last set, in any order of operations."""
import copy
import datetime
import io
import itertools
import json

import numpy as np

import simplemseed as sm
from simplemseed.mseed3 import mseed3merge
import ms3ref
from vlib import req, raises, Violation

PROP = "C11"
LEVEL = "model_checking"
RULE = "every sequence of operations to the depth from every initial record, against a dictionary model; distinct by (initial record, operations)"
BOUNDS = {
    "quick": "26 operations to length 3 from 9 initial records and to length 4 from 2, observed at the end and (length 3) after every step, with copies, decompressed and merged records changed and kept; size known after every set",
    "thorough": "26 operations to length 4 from 9 initial records, 14 operations to length 5 from 2",
}
ASSUME = ["JSON text set is valid; text of an empty object with blanks inside is left open for has-extra-headers"]
A = {"a": 1}
B = {"FDSN": {"Time": {"Quality": 100}, "x": [1, {"y": None}]}, "z": 2.5}
S1 = '{"é": "ü€\U0001F30B", "n": [1, 2]}'
S3 = ' \n{"a": {"w": [ ]}}\t '
S2 = '{ "b" :\n {"c": "\\u00e9"} }'
LONG = {"l": "é" * 130}
PAY = np.array([4, -5, 6], dtype="<i4")


class State:
    """real record and the model value (None or a dict)"""

    def __init__(self, init):
        fields = dict(numSamples=3, flags=2, dayOfYear=366, nanosecond=5000, publicationVersion=3, sampleRatePeriod=-4.0)
        h = sm.MSeed3Header()
        for k, v in dict(ms3ref.DEFAULT, **fields).items():
            setattr(h, k, v)
        self.fields = dict(ms3ref.DEFAULT, **fields)
        ehs = {"none": None, "dict": copy.deepcopy(A), "str": S1, "empty": "", "braces": "{}", "nested": copy.deepcopy(B), "blanks": S3}
        if init in ehs:
            self.r = sm.MSeed3Record(h, "FDSN:XX_A__B_H_Z", PAY.copy(), ehs[init])
            v = ehs[init]
            self.m = (json.loads(v) if v else None) if isinstance(v, str) else copy.deepcopy(v)
        elif init == "read0":
            self.r = sm.unpackMSeed3Record(ms3ref.build(fields, b"FDSN:XX_A__B_H_Z", b"", PAY.tobytes()))
            self.m = None
        else:
            self.r = sm.unpackMSeed3Record(ms3ref.build(fields, b"FDSN:XX_A__B_H_Z", S2.encode(), PAY.tobytes()))
            self.m = json.loads(S2)
        self.kept = []

    def others(self):
        """records made from this one"""
        h = self.r.header.clone()
        h.starttime = self.r.starttime + datetime.timedelta(seconds=12)
        after = sm.MSeed3Record(h, "FDSN:XX_A__B_H_Z", PAY.copy(), {"after": 1})
        merged = mseed3merge(self.r, after)
        req(len(merged) == 1, "records were not merged")
        return [self.r.clone(), self.r.decompressedRecord(), merged[0]]


INITS = ["none", "dict", "str", "empty", "braces", "nested", "blanks", "read0", "read1"]


def same(a, b):
    return (a or None) == (b or None)


def verify_bytes(s, b):
    d = ms3ref.parse(b)
    req(d["size"] == len(b) and d["crcok"], f"packed record length or CRC wrong ({len(b)} bytes, declared {d['size']})")
    try:
        v = ms3ref.ehval(d["eh"])
    except ValueError:
        raise Violation(f"packed extra headers are not JSON: {d['eh']!r}")
    req(same(v, s.m), f"packed extra headers {d['eh']!r}, set {s.m!r}")
    for k in ms3ref.FIELDS:
        req(d[k] == s.fields[k], f"{k} changed to {d[k]!r}")
    req(d["ident"] == b"FDSN:XX_A__B_H_Z" and d["payload"] == PAY.tobytes(), "identifier or samples changed")
    h = s.r.header
    req(h.extraHeadersLength == len(d["eh"]) and h.crc == d["crc"], f"header says {h.extraHeadersLength} bytes of extra headers, {len(d['eh'])} packed")


def apply(s, op):
    r = s.r
    if op == "setA":
        r.eh = copy.deepcopy(A)
        s.m = copy.deepcopy(A)
    elif op == "setB":
        r.eh = copy.deepcopy(B)
        s.m = copy.deepcopy(B)
    elif op == "setLong":
        r.eh = copy.deepcopy(LONG)
        s.m = copy.deepcopy(LONG)
    elif op == "setS1":
        r.eh = S1
        s.m = json.loads(S1)
    elif op == "setS2":
        r.eh = S2
        s.m = json.loads(S2)
    elif op == "setS3":
        r.eh = S3
        s.m = json.loads(S3)
    elif op == "setEmptyDict":
        r.eh = {}
        s.m = {}
    elif op == "setEmptyStr":
        r.eh = ""
        s.m = {}
    elif op == "setBraces":
        r.eh = "{}"
        s.m = {}
    elif op == "setNone":
        r.eh = None
        s.m = None
    elif op == "del":
        del r.eh
        s.m = None
    elif op == "edit":
        if s.m is not None and r.eh is not None:
            r.eh["k"] = "é"
            s.m["k"] = "é"
    elif op == "editnum":
        if s.m is not None and r.eh is not None and not isinstance(s.m.get("num"), dict):
            r.eh["num"] = r.eh.get("num", 0) + 1
            s.m["num"] = s.m.get("num", 0) + 1
    elif op == "nested":
        if s.m and "FDSN" in s.m:
            r.eh["FDSN"]["Time"]["Quality"] = 7
            s.m["FDSN"]["Time"]["Quality"] = 7
        elif s.m:
            k = sorted(s.m)[0]
            r.eh[k] = {"deep": [r.eh[k]]}
            s.m[k] = {"deep": [s.m[k]]}
    elif op == "delkey":
        if s.m:
            k = sorted(s.m)[0]
            del r.eh[k]
            del s.m[k]
    elif op == "read":
        req(same(r.eh, s.m), f"read {r.eh!r}, set {s.m!r}")
    elif op == "has":
        req(r.hasExtraHeaders() == bool(s.m), f"has extra headers says {r.hasExtraHeaders()}, set {s.m!r}")
    elif op == "pack":
        verify_bytes(s, bytes(r.pack()))
    elif op == "clone":
        s.r = r.clone()
        req(s.r is not r, "clone is the same record")
    elif op == "cloneedit":
        c = r.clone()
        c.eh = {"other": 1}
        for c in s.others():
            if c.eh:
                k = sorted(c.eh)[0]
                if isinstance(c.eh[k], dict):
                    c.eh[k]["other"] = 2
                c.eh["other"] = 2
        s.kept = [(c, copy.deepcopy(s.m)) for c in s.others()]
    elif op == "unpack":
        s.r = sm.unpackMSeed3Record(r.pack())
    elif op == "stream":
        (s.r,) = list(sm.readMSeed3Records(io.BytesIO(bytes(r.pack()))))
    elif op == "details":
        t = r.details(showExtraHeaders=True)
        for k in s.m or {}:
            req(json.dumps(k)[1:-1] in t or k in t, f"{k!r} not shown in details")
    elif op == "decomp":
        s.r = r.decompressedRecord()
    elif op == "samples":
        req([int(x) for x in r.decompress()] == [4, -5, 6], "samples changed")
    elif op == "size":
        n = r.getSize()
        b = len(r.pack())
        req(r.getSize() == b, f"size {r.getSize()} of {b} bytes packed")
    else:
        raise AssertionError(op)


OPS = ["setA", "setB", "setLong", "setS1", "setS2", "setS3", "setEmptyDict", "setEmptyStr", "setBraces", "setNone", "del", "edit", "editnum", "nested",
       "delkey", "read", "has", "pack", "clone", "cloneedit", "unpack", "stream", "details", "decomp", "samples", "size"]
SETS = ["setA", "setB", "setLong", "setS1", "setS2", "setS3", "setEmptyDict", "setEmptyStr", "setBraces", "setNone", "del"]
SHORT = ["setA", "setS1", "setEmptyStr", "setNone", "del", "edit", "nested", "delkey", "read", "has", "pack", "clone", "unpack", "decomp"]


def case_ops(rec, init, ops, observe):
    s = State(init)
    rec.step(len(ops))
    for op in ops:
        apply(s, op)
        if observe:
            observe_all(s, observe)
    observe_all(s, "all")
    for c, m in s.kept:
        req(same(c.eh, m), f"a copy, decompressed or merged record has {c.eh!r}, had {m!r} when made")
    rec.state(init, tuple(ops))


def case_known(rec, init, ops):
    """what the record says of its size after a value is set, before it is packed"""
    s = State(init)
    s.r.pack()
    rec.step(len(ops))
    for op in ops:
        apply(s, op)
    size, n = s.r.getSize(), s.r.header.extraHeadersLength
    b = bytes(copy.deepcopy(s.r).pack())
    d = ms3ref.parse(b)
    req(n is None or n == len(d["eh"]), f"header says {n} bytes of extra headers, {len(d['eh'])} are packed")
    req(size is None or size == len(b), f"size {size} of {len(b)} bytes packed")
    rec.state("known", init, tuple(ops))


def known_all(rec, init):
    for a in SETS:
        rec.case("case_known", init, [a])
        for b in OPS:
            rec.case("case_known", init, [b, a])
            if rec.stop:
                return


def observe_all(s, how):
    if how == "has":
        apply(s, "has")
        return
    if how == "packed":
        verify_bytes(s, bytes(s.r.pack()))
        return
    apply(s, "has")
    verify_bytes(s, bytes(s.r.pack()))
    apply(s, "has")
    apply(s, "read")
    verify_bytes(s, bytes(s.r.pack()))
    back = sm.unpackMSeed3Record(s.r.pack())
    req(same(back.eh, s.m), f"unpacked extra headers {back.eh!r}, set {s.m!r}")
    req([int(x) for x in back.decompress()] == [4, -5, 6], "samples changed")
    req(str(s.r.identifier) == "FDSN:XX_A__B_H_Z" and [int(x) for x in s.r.decompress()] == [4, -5, 6], "record changed")


def ops_all(rec, init, first, length, ops, observe):
    for rest in itertools.product(ops, repeat=length - len(first)):
        rec.case("case_ops", init, list(first) + list(rest), observe)
        if rec.stop:
            return


def case_value(rec, i, how):
    """values of every JSON shape, as object and as text"""
    v = VALUES[i]
    rec.step(2)
    s = State("dict")
    s.r.eh = copy.deepcopy(v) if how == "dict" else json.dumps(v, ensure_ascii=how == "ascii")
    s.m = v
    observe_all(s, "all")
    s.r = s.r.clone()
    observe_all(s, "all")
    rec.state("value", i, how)


SCALARS = [0, -1, 1.5, 1e300, 2**53 + 1, 2**70, True, False, None, "", "x", "é", "\U0001F30B", "\u2028", "\x00", "\"\\/\b\f\n\r\t", " ", [], {}, [[]], {"": {}}]
VALUES = [{"k": v} for v in SCALARS] + [{k: 1} for k in ("", " ", "a/b", "~0", "é", "\n", "\"", "FDSN", "0")] + [
    {"a": {"b": {"c": {"d": [1, {"e": SCALARS[:12]}]}}}}, {str(i): i for i in range(300)}, {"x": "y" * 60000}, {"é" * 20: "é" * 5000}]


UNSTORABLE = [{("a", 1): 1, "b": 2}, {"a": {("x",): {}}}, {"a": b"bytes"}, {"a": {1, 2}}, {"a": 1j}, {"a": object()}, {"a": [np.array([1, 2])]},
              {"a": datetime.datetime(2024, 1, 1)}, {"x": "y" * 65528}, {"x": ["é"] * 8000}, {"x": "y" * 70000}]
UNSTORABLETEXT = ['{"x":"' + "y" * 65528 + '"}', '{"x":"' + "é" * 33000 + '"}', '{"x":"\ud800"}']


def case_unstorable(rec, i, text):
    """A value that is no JSON, or does not fit: never stored as something else, and the record stays usable"""
    s = State("nested")
    rec.step(2)
    rec.state("unstorable", i, text)

    def store():
        v = UNSTORABLETEXT[i] if text else UNSTORABLE[i]
        s.r.eh = v
        s.r.pack()

    req(raises(store), "packed extra headers that cannot be stored")
    for v in (A, None, S1, LONG, {"x": "y" * 65526}):
        s.r.eh = copy.deepcopy(v)
        s.m = json.loads(v) if isinstance(v, str) else v
        observe_all(s, "all")


def value_all(rec):
    for i in range(len(UNSTORABLE)):
        rec.case("case_unstorable", i, False)
    for i in range(len(UNSTORABLETEXT)):
        rec.case("case_unstorable", i, True)
    for i in range(len(VALUES)):
        for how in ("dict", "ascii", "utf8"):
            rec.case("case_value", i, how)


def shards(tier):
    q = tier == "quick"
    out = [("value_all", ())]
    for init in INITS:
        out.append(("known_all", (init,)))
        for n in (0, 1, 2):
            out.append(("ops_all", (init, (), n, OPS, "")))
        for a in OPS:
            for o in ("", "has", "packed", "all") if not q else ("", "packed" if init in ("none", "str") else "all"):
                out.append(("ops_all", (init, (a,), 3, OPS, o)))
            if not q:
                out += [("ops_all", (init, (a, b), 4, OPS, "")) for b in OPS]
    for init in ("str", "read1"):
        if q:
            out += [("ops_all", (init, (a, b), 4, SHORT, "")) for a in SHORT for b in SHORT]
        else:
            out += [("ops_all", (init, (a, b), 5, SHORT, "")) for a in SHORT for b in SHORT]
    return out
