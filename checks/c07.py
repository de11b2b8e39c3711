"""C07: miniSEED 3 records survive packing and unpacking unchanged."""
import array
import io
import itertools
import json
import os
import struct
import tempfile

import numpy as np

import simplemseed as sm
import ms3ref
from vlib import req, raises, Violation

PROP = "C07"
LEVEL = "model_checking"
RULE = ("every pair of boundary values of every pair of header fields, every identifier length, listed extra header and payload "
        "sizes and types, and every sequence of pack/unpack/clone/read to the depth; distinct by packed bytes")
BOUNDS = {
    "quick": "all pairs of fields x 4 to 11 boundary values; identifiers 0..255 bytes; extra headers 0..65535 bytes around 8 and 16 bit "
             "limits; payloads to 2^20 bytes around 16 bit limits; operation sequences to length 4 on 10 records; text that is no UTF-8; assignments of identifier and extra headers with pack, clone and read to length 3",
    "thorough": "the same with all triples of fields at 3 values and operation sequences to length 6 and assignments to length 4",
}
ASSUME = ["reference layout and CRC in lib/ms3ref.py written from the FDSN definition"]

U8 = [0, 1, 127, 128, 255]
U16 = [0, 1, 255, 256, 32767, 32768, 65535]
U32 = [0, 1, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1]
DBL = [1.0, -1.0, 0.0, -0.0, 0.1, -1 / 3, 1e-300, -1.7e308, 5e-324, float("inf"), 20.000000000000004]
VALUES = dict(flags=U8 + [2, 4, 8, 0x55, 0xAA], nanosecond=U32 + [999999999, 1000], year=U16 + [1970, 2024], dayOfYear=U16 + [365, 366],
              hour=U8 + [23, 24], minute=U8 + [59, 60], second=U8 + [59, 60], encoding=[0, 1, 3, 4, 5, 10, 11, 19, 100, 254, 255],
              sampleRatePeriod=DBL, numSamples=U32, publicationVersion=U8)


def ehtext(n):
    """json text of exactly n bytes"""
    if n == 0:
        return None
    return "{" + " " * (n - 2) + "}" if n < 8 else '{"x":"' + "x" * (n - 8) + '"}'


def header(fields):
    h = sm.MSeed3Header()
    for k, v in ms3ref.DEFAULT.items():
        setattr(h, k, v)
    for k, v in fields.items():
        setattr(h, k, v)
    return h


def check_header(h, fields, ident, ehlen, plen, what, crc=None):
    d = dict(ms3ref.DEFAULT)
    d.update(fields)
    for k in ms3ref.FIELDS:
        a, b = getattr(h, k), d[k]
        same = ms3ref.same_float(a, b) if k == "sampleRatePeriod" else a == b
        req(same, f"{what}: {k} is {a!r} not {b!r}")
    req(h.identifierLength == len(ident) and h.extraHeadersLength == ehlen and h.dataLength == plen,
        f"{what}: lengths {h.identifierLength} {h.extraHeadersLength} {h.dataLength}")
    req(h.recordSize() == 40 + len(ident) + ehlen + plen, f"{what}: size {h.recordSize()}")
    if crc is not None:
        req(h.crc == crc, f"{what}: crc {h.crc} not {crc}")


def check_record(rec, fields, ident, eh, payload, tmp=False):
    """raw payload bytes; eh None, dict or str"""
    idb = ident.encode("utf-8")
    h = header(fields)
    h.crc = 0x12345678  # stale
    r = sm.MSeed3Record(h, ident, payload, eh)
    rec.step(4)
    got = bytes(r.pack())
    d = ms3ref.parse(got)
    if eh is None or isinstance(eh, str):
        ehb = (eh or "").encode("utf-8")
    else:
        ehb = d["eh"]
        req(ms3ref.ehval(ehb) == eh, f"packed extra headers {ehb!r} not {eh!r}")
    want = ms3ref.build(fields, idb, ehb, payload)
    req(got == want, lambda: f"packed {first_diff(got, want)}")
    crc = int.from_bytes(want[28:32], "little")
    check_header(r.header, fields, idb, len(ehb), len(payload), "packed", crc)
    req(bytes(r.pack()) == got, "second pack differs")
    back = sm.unpackMSeed3Record(want)
    cl = back.clone()
    check_back(cl, fields, ident, eh, payload, want, "cloned")
    check_back(back, fields, ident, eh, payload, want, "unpacked")
    (one,) = list(sm.readMSeed3Records(io.BytesIO(want)))
    check_back(one, fields, ident, eh, payload, want, "read")
    fh = sm.unpackMSeed3FixedHeader(want[:40])
    check_header(fh, fields, idb, len(ehb), len(payload), "fixed header", crc)
    req(bytes(fh.pack()) == want[:40], "fixed header packs differently")
    ch = back.header.clone()
    check_header(ch, fields, idb, len(ehb), len(payload), "cloned header", crc)
    if tmp:
        with tempfile.TemporaryFile() as f:
            f.write(want)
            f.seek(0)
            (one,) = list(sm.readMSeed3Records(f))
        check_back(one, fields, ident, eh, payload, want, "file")
        for buf in (bytearray(want), want + b"MS junk"):
            check_back(sm.unpackMSeed3Record(buf), fields, ident, eh, payload, want, "unpacked")
    rec.state(crc, len(want))
    return r


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"byte {i} is {x:#x} not {y:#x} (lengths {len(a)} {len(b)})"
    return f"length {len(a)} not {len(b)}"


def check_back(r, fields, ident, eh, payload, raw, what):
    idb = ident.encode("utf-8")
    ehb = raw[40 + len(idb): len(raw) - len(payload)]
    check_header(r.header, fields, idb, len(ehb), len(payload), what, int.from_bytes(raw[28:32], "little"))
    req(str(r.identifier) == ident, f"{what}: identifier {r.identifier!r} not {ident!r}")
    req(bytes(r.encodedDataBytes()) == payload, f"{what}: payload differs")
    req(bytes(r.pack()) == raw, lambda: f"{what}: packs differently: {first_diff(bytes(r.pack()), raw)}")
    if isinstance(eh, str) and eh == "":
        eh = None
    want = json.loads(eh) if isinstance(eh, str) else eh
    got = r.eh
    req(got == want or (want is None and got in (None, {}, "")), f"{what}: extra headers {got!r} not {want!r}")


def case_fields(rec, fields, kind):
    payload = {"a": b"", "b": b"\x01\x02\x03\x04"}[kind]
    check_record(rec, fields, "FDSN:XX_STA_00_B_H_Z", None if kind == "a" else {"FDSN": {"A": 1}}, payload)


def pairs_all(rec, a, b):
    for x in VALUES[a]:
        for y in VALUES[b] if a != b else (None,):
            f = {a: x}
            if b != a:
                f[b] = y
            rec.case("case_fields", f, "a" if len(f) == 1 else "b")
            if rec.stop:
                return


def triples_all(rec, a, b, c):
    for x, y, z in itertools.product(VALUES[a][-3:], VALUES[b][-3:], VALUES[c][-3:]):
        rec.case("case_fields", {a: x, b: y, c: z}, "b")


def case_id(rec, n, kind, ehn):
    ident = {"ascii": "A" * n, "utf2": "é" * (n // 2), "utf4": "\U0001F30B" * (n // 4), "mixed": ("FDSN:X_" + "é" * 300)[: n // 2]}[kind]
    eh = ehtext(ehn)
    check_record(rec, {"numSamples": 1}, ident, eh, b"\1\2\3\4", tmp=True)


def id_all(rec, lo, hi):
    for n in range(lo, hi):
        for kind in ("ascii", "utf2", "utf4", "mixed"):
            rec.case("case_id", n, kind, 0)
            rec.case("case_id", n, kind, 5)


def case_toolong(rec, what, n):
    """sections that do not fit their length field are refused"""
    h = header({"numSamples": 1})
    rec.step()
    if what == "id":
        r = sm.MSeed3Record(h, "A" * n, b"\1\2\3\4", None)
    else:
        r = sm.MSeed3Record(h, "A", b"\1\2\3\4", ehtext(n))
    req(raises(r.pack), f"packed {what} of {n} bytes")
    rec.state("toolong", what, n)


EHN = [2, 3, 4, 127, 128, 254, 255, 256, 257, 511, 512, 4096, 32767, 32768, 65534, 65535]
DN = [0, 1, 2, 3, 4, 7, 8, 63, 64, 65, 127, 128, 255, 256, 257, 448, 4096, 32767, 32768, 65535, 65536, 65537, 70000]


def case_sizes(rec, ehn, dn, idn):
    eh = ehtext(ehn)
    payload = bytes((i * 7 + i // 256) & 255 for i in range(dn))
    check_record(rec, {"encoding": 100, "numSamples": 1}, "I" * idn, eh, payload, tmp=True)


def sizes_all(rec, ehn, idns):
    for dn in DN if ehn < 4096 else DN[::4]:
        for idn in idns:
            rec.case("case_sizes", ehn, dn, idn)


def case_big(rec, dn):
    payload = bytes(dn)
    h = header({"encoding": 3, "numSamples": dn // 4})
    r = sm.MSeed3Record(h, "FDSN:XX_STA_00_B_H_Z", np.arange(dn // 4, dtype="i4"), {"a": 1})
    b = bytes(r.pack())
    rec.step(3)
    req(int.from_bytes(b[36:40], "little") == dn, "declared payload length")
    back = sm.unpackMSeed3Record(b)
    req(np.array_equal(back.decompress(), np.arange(dn // 4)), "samples differ")
    (o,) = list(sm.readMSeed3Records(io.BytesIO(b)))
    req(np.array_equal(o.decompress(), np.arange(dn // 4)), "samples read differ")
    req(bytes(o.pack()) == b, "packs differently")
    rec.state("big", dn)


EHS = [None, "", "{}", {}, {"a": 1}, '{"a":1}', '{ "a" : 1 }', '{"b": [1, 2.5, null, true, "x"], "a": {"c": {}}}',
       {"é": "ü€\U0001F30B"}, '{"é": "ü€\U0001F30B"}', '{"\\u00e9": "\\ud83c\\udf0b"}', {"FDSN": {"Time": {"Quality": 100}}, "x": [{"y": "z"}]},
       {"": ""}, {"a\"b\\": "\n\t\u0001"}, '{"n": 1e3, "m": -0.0, "big": 12345678901234567890}', {"t": "x" * 300}, {"u": "é" * 200},
       ' {"a":1}', '{"a":1} ', '\n{"a":\t1}\r\n', '  {}', '{"a":"\u00a0 x "}', '{"a":1}' + " " * 70, '{"a":1,"a":2}', '{"z":1,"y":2,"a":{"c":1,"b":2}}']
IDS = ["FDSN:XX_STA_00_B_H_Z", "FDSN:XX_STA__B_H_Z", "", "X", "XFDSN:NET_STA/abc xyz", "FDSN:é", " X", "X ", "FDSN:XX_STA__B_H_Z \n", "X\x00", "\x00", "\ufeffX", "a\u0301", "\u00e1"]
BADUTF = [b"\xff", b"\x80", b"\xc3", b"\xc0\x80", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xf4\x90\x80\x80", b"X\xe9Y"]


def case_badutf(rec, i, where, crc):
    """bytes that are no UTF-8 are refused, or come back as they are"""
    ident, eh = b"FDSN:XX_S__B_H_Z", b'{"a":"x"}'
    if where == "ident":
        ident = b"FDSN:" + BADUTF[i]
    else:
        eh = {"in": b'{"a":"' + BADUTF[i] + b'"}', "after": b'{"a":1}' + BADUTF[i], "only": BADUTF[i]}[where]
    raw = ms3ref.build({"numSamples": 1}, ident, eh, b"\1\2\3\4")
    rec.step(3)
    rec.state("badutf", raw, crc)
    for how in ("unpack", "read", "match"):
        try:
            if how == "unpack":
                r = sm.unpackMSeed3Record(raw, check_crc=crc)
            else:
                (r,) = list(sm.readMSeed3Records(io.BytesIO(raw), check_crc=crc, matchsid="." if how == "match" else None))
        except Exception:
            continue
        req(bytes(r.pack()) == raw, f"{how}: record with {raw[40:-4]!r} was altered")


def badutf_all(rec):
    for i in range(len(BADUTF)):
        for where in ("ident", "in", "after", "only"):
            for crc in (True, False):
                rec.case("case_badutf", i, where, crc)


def case_eh(rec, i, ident, dn, tmp):
    check_record(rec, {"numSamples": dn // 4}, ident, EHS[i], bytes(range(dn)), tmp=tmp)


def eh_all(rec):
    for i in range(len(EHS)):
        for ident in IDS:
            for dn in (0, 4, 40):
                rec.case("case_eh", i, ident, dn, True)


# data of every type -------------------------------------------------------------
def data_variants(n):
    base = [((i * 37) % 200) - 100 for i in range(n)]
    out = {}
    for code, f in ((1, "i2"), (3, "i4"), (4, "f4"), (5, "f8")):
        out[f"np{f}"] = (code, np.array(base, dtype=f), base)
        out[f"np>{f}"] = (code, np.array(base, dtype=">" + f), base)
        out[f"seg<{code}"] = (code, sm.encode(np.array(base, dtype=f), littleEndian=True), base)
        out[f"seg>{code}"] = (code, sm.encode(np.array(base, dtype=f), littleEndian=False), base)
        out[f"arr{code}"] = (code, array.array({1: "h", 3: "i", 4: "f", 5: "d"}[code], base), base)
        out[f"bytes{code}"] = (code, np.array(base, dtype="<" + f).tobytes(), base)
        out[f"list{code}"] = (code, list(base), base)
    out["npi8"] = (3, np.array(base, dtype="i8"), base)
    if n:
        out["steim1"] = (10, sm.EncodedDataSegment(10, sm.encodeSteim1(base), n, False), base)
        out["steim2"] = (11, sm.EncodedDataSegment(11, sm.encodeSteim2(base), n, False), base)
        out["steim2b"] = (11, bytes(sm.encodeSteim2(base)), base)
    return out


def case_plain(rec, ident):
    """an identifier that is no source id is kept but not parsed"""
    rec.step()
    rec.state("plain", ident)
    for r in (sm.MSeed3Record(header({"encoding": 3, "numSamples": 0}), ident, [1, 2]), ):
        for x in (r, sm.unpackMSeed3Record(bytes(r.pack()))):
            req(x.identifier == ident, lambda: f"identifier {x.identifier!r} of {ident!r}")
            req(raises(x.parseIdentifier), lambda: f"{ident!r} was parsed as {x.parseIdentifier()}")


def case_object(rec, ident):
    """an identifier given as an object is stored as its text, letter for letter"""
    rec.step(3)
    rec.state("object", ident)
    for x in (sm.FDSNSourceId.parse(ident), sm.FDSNSourceId(*ident[5:].split("_"))):
        r = sm.MSeed3Record(header({"encoding": 3}), x, np.array([1, 2], dtype="<i4"))
        req(r.summary().startswith(ident + " "), lambda: r.summary())
        for b in (bytes(r.pack()), bytes(r.pack()), bytes(r.clone().pack())):
            d = ms3ref.parse(b)
            req(d["ident"] == ident.encode() and d["crcok"], lambda: f"identifier {d['ident']} not {ident}")
        req(str(r.parseIdentifier()) == str(sm.unpackMSeed3Record(b).parseIdentifier()) == ident, "parsed identifier")
        req(str(x) == ident, lambda: f"the object given is now {x}")


def plain_all(rec):
    for parts in itertools.product(("XX", "xx", "TEMP2024"), ("ABC", "abc", "A-1"), ("", "00", "--", "loc"), ("B", "b", ""), ("H", "hH"), ("Z", "z", "", "z1")):
        rec.case("case_object", "FDSN:" + "_".join(parts))
    for ident in ("", "X", "FDSN", "XX_ABC_00_B_H_Z", "fdsn:XX_ABC_00_B_H_Z", " FDSN:XX_ABC_00_B_H_Z", "XFDSN:XX_ABC_00_B_H_Z", "FDSN:XX_ABC_00_B", "FDSN:XX_ABC_00_B_H_Z_1", "SMI:local/x", "\u00e9"):
        rec.case("case_plain", ident)


def case_data(rec, name, n, ehi, useid, setn):
    code, data, base = data_variants(n)[name]
    h = header({"encoding": code, "numSamples": n if setn or "bytes" in name or name == "steim2b" else 0, "sampleRatePeriod": -2.5})
    ident = sm.FDSNSourceId.parse(IDS[0]) if useid else IDS[0]
    r = sm.MSeed3Record(h, ident, data, EHS[ehi])
    rec.step(4)
    req([float(x) for x in np.asarray(r.decompress())] == base if n else True, "samples before packing")
    req(str(r.parseIdentifier()) == IDS[0] and r.parseIdentifier() == sm.FDSNSourceId.parse(IDS[0]), "parsed identifier")
    payload = bytes(r.encodedDataBytes())
    b = bytes(r.pack())
    req(payload == ms3ref.parse(b)["payload"] == bytes(r.encodedDataBytes()), "encoded data bytes are not those packed")
    req(str(r.parseIdentifier()) == IDS[0], "parsed identifier after packing")
    d = ms3ref.parse(b)
    req(d["crcok"] and d["encoding"] == code and d["numSamples"] == n and d["size"] == len(b), f"packed header {d}")
    req(d["ident"] == IDS[0].encode(), f"identifier {d['ident']}")
    if code < 10:
        f = {1: "h", 3: "i", 4: "f", 5: "d"}[code]
        req(d["payload"] == struct.pack(f"<{n}{f}", *base), "payload is not little endian samples")
    for back in (sm.unpackMSeed3Record(b), next(sm.readMSeed3Records(io.BytesIO(b))), r.clone(), sm.unpackMSeed3Record(b).clone()):
        req(len(back.decompress()) == n and [float(x) for x in back.decompress()] == base, "samples differ")
        req(bytes(back.pack()) == b, "packs differently")
        dr = back.decompressedRecord()
        req([float(x) for x in dr.decompress()] == base, "decompressed record samples")
        db = ms3ref.parse(bytes(dr.pack()))
        req(db["crcok"] and db["numSamples"] == n and db["ident"] == d["ident"] and ms3ref.ehval(db["eh"]) == ms3ref.ehval(d["eh"]),
            "decompressed record header")
        req(len(db["payload"]) == n * {1: 2, 3: 4, 4: 4, 5: 8}[db["encoding"]], "decompressed payload")
        for k in ("flags", "year", "sampleRatePeriod", "publicationVersion"):
            req(db[k] == d[k], f"decompressed record {k}")
        req(bytes(back.pack()) == b, "packs differently after decompressing")
    req(bytes(r.pack()) == b, "packs differently the second time")
    rec.state(b)


def data_all(rec, n):
    for name in data_variants(n):
        for ehi in (0, 4, 5, 8) if n < 1000 else (4,):
            for useid in (False, True) if n < 1000 else (True,):
                for setn in (False, True):
                    rec.case("case_data", name, n, ehi, useid, setn)


# operation sequences -------------------------------------------------------------
OPS = ["pack", "clone", "unpack", "read", "decompress", "eh", "summary", "size", "details", "parse"]


def case_ops(rec, which, ops):
    """none of these operations changes what is packed"""
    names = ["npi2", "seg>3", "npf8", "steim1", "bytes3", "list4", "arr1", "steim2b", "np>f4", "npi8"]
    code, data, base = data_variants(5)[names[which]]
    eh = EHS[[0, 4, 5, 8, 9, 2, 3, 1, 11, 7][which]]
    h = header({"encoding": code, "numSamples": 5, "flags": 5, "dayOfYear": 366, "nanosecond": 123456000, "publicationVersion": 9})
    r = sm.MSeed3Record(h, IDS[which % 2], data, eh)
    ref = last = None
    for op in list(ops) + ["pack"]:
        rec.step()
        if op == "pack":
            b = bytes(r.pack())
            req(ref is None or same_record(b, ref), "packed record changed")
            ref = b
            last = len(b)
        elif op == "clone":
            last = len(r.pack())
            r = r.clone()
        elif op == "unpack":
            b = r.pack()
            last = len(b)
            r = sm.unpackMSeed3Record(b)
        elif op == "read":
            b = bytes(r.pack())
            last = len(b)
            (r,) = list(sm.readMSeed3Records(io.BytesIO(b)))
        elif op == "decompress":
            req([float(x) for x in r.decompress()] == base, "samples")
        elif op == "eh":
            want = json.loads(eh) if isinstance(eh, str) and eh else (eh or None)
            req((r.eh or None) == (want or None), f"extra headers {r.eh!r}")
        elif op == "summary":
            req("5 pts" in r.summary(), r.summary())
        elif op == "size":
            if last is not None:
                req(r.getSize() in (None, last), f"size {r.getSize()} not {last}")
        elif op == "details":
            r.details(True, True)
        elif op == "parse":
            req(str(r.parseIdentifier()) == IDS[which % 2], "identifier")
    d = ms3ref.parse(ref)
    f = {"flags": 5, "dayOfYear": 366, "nanosecond": 123456000, "publicationVersion": 9, "encoding": code, "numSamples": 5}
    check_header(r.header, f, IDS[which % 2].encode(), len(d["eh"]), len(d["payload"]), "final", d["crc"])
    rec.state(which, tuple(ops))


def same_record(a, b):
    """same bytes except that the JSON text of extra headers may be rewritten after it was parsed"""
    if a == b:
        return True
    x, y = ms3ref.parse(a), ms3ref.parse(b)
    if not (x["crcok"] and y["crcok"]):
        return False
    if (ms3ref.ehval(x["eh"]) or None) != (ms3ref.ehval(y["eh"]) or None):
        return False
    return all(ms3ref.same_float(x[k], y[k]) if k == "sampleRatePeriod" else x[k] == y[k]
               for k in ms3ref.FIELDS + ["ident", "payload"])


def ops_all(rec, which, length):
    for n in range(length + 1):
        for ops in itertools.product(OPS, repeat=n):
            rec.case("case_ops", which, list(ops))
            if rec.stop:
                return


NAMES = ["A", "FDSN:XX_LONGERSTATION_00_B_H_Z", "", "FDSN:é", "FDSN:YY_B__L_H_N"]
EDITS = ["id0", "id1", "id2", "id3", "id4", "sid", "ehA", "ehB", "pack", "clone", "unpack", "stream", "decomp"]


def case_edit(rec, start, ops):
    """identifier and extra headers assigned at any time: the record packed has the last ones"""
    pay = np.array([4, -5, 6], dtype="<i4")
    fields = {"numSamples": 3, "encoding": 3}
    if start == "new":
        r = sm.MSeed3Record(header(dict(fields, numSamples=0)), IDS[0], pay.copy(), {"a": 1})
        eh = b'{"a":1}'
    else:
        eh = b'{"long":"' + b"x" * 300 + b'"}'
        r = sm.unpackMSeed3Record(ms3ref.build(fields, IDS[0].encode(), eh, pay.tobytes()))
    ident, eh = IDS[0], json.loads(eh)
    for op in list(ops) + ["pack"]:
        rec.step()
        if op[:2] == "id":
            r.identifier = ident = NAMES[int(op[2])]
        elif op == "sid":
            ident = IDS[1]
            r.identifier = sm.FDSNSourceId.parse(ident)
        elif op == "ehA":
            r.eh = {"x": "é"}
            eh = {"x": "é"}
        elif op == "ehB":
            r.eh = '{"y": [1, 2, 3]}'
            eh = {"y": [1, 2, 3]}
        elif op == "clone":
            r = r.clone()
        elif op == "decomp":
            r = r.decompressedRecord()
        elif op == "unpack":
            r = sm.unpackMSeed3Record(r.pack())
        elif op == "stream":
            (r,) = list(sm.readMSeed3Records(io.BytesIO(bytes(r.pack()))))
        else:
            b = bytes(r.pack())
            d = ms3ref.parse(b)
            req(d["size"] == len(b) and d["crcok"], "declared lengths or CRC")
            req(d["ident"] == ident.encode("utf-8") and ms3ref.ehval(d["eh"]) == eh and d["payload"] == pay.tobytes(), "sections")
            check_header(r.header, fields, d["ident"], len(d["eh"]), 12, "after pack", d["crc"])
            req(r.getSize() == len(b), f"size {r.getSize()}")
    rec.state("edit", start, tuple(ops))


def edit_all(rec, start, first, length):
    for n in range(length):
        for ops in itertools.product(EDITS, repeat=n):
            rec.case("case_edit", start, [first] + list(ops))
            if rec.stop:
                return


def case_modify(rec, field, value):
    """changing one field of an unpacked record changes only it"""
    raw = ms3ref.build({"numSamples": 2}, b"FDSN:XX_STA_00_B_H_Z", b'{"a":1}', bytes(8))
    r = sm.unpackMSeed3Record(raw)
    setattr(r.header, field, value)
    want = ms3ref.build({"numSamples": 2, field: value}, b"FDSN:XX_STA_00_B_H_Z", b'{"a":1}', bytes(8))
    rec.step()
    req(bytes(r.pack()) == want, lambda: first_diff(bytes(r.pack()), want))
    c = r.clone() if field not in () else r
    req(bytes(c.pack()) == want, "clone differs")
    rec.state(field, value)


def modify_all(rec):
    for k, vs in VALUES.items():
        for v in vs:
            rec.case("case_modify", k, v)


def shards(tier):
    q = tier == "quick"
    names = ms3ref.FIELDS
    out = [("eh_all", ()), ("modify_all", ()), ("badutf_all", ()), ("plain_all", ())]
    for i, a in enumerate(names):
        for b in names[i:]:
            out.append(("pairs_all", (a, b)))
    if not q:
        out += [("triples_all", t) for t in itertools.combinations(names, 3)]
    for a in range(0, 256, 16):
        out.append(("id_all", (a, a + 16)))
    for ehn in [0] + EHN:
        out.append(("sizes_all", (ehn, (1, 20, 255) if ehn < 4096 else (20,))))
    for n in (0, 1, 2, 3, 100, 1500):
        out.append(("data_all", (n,)))
    out.append(("misc_all", ()))
    out += [("edit_all", (s, o, 3 if q else 4)) for s in ("new", "read") for o in EDITS]
    for w in range(10):
        out.append(("ops_all", (w, 3)))
        for a in OPS:
            out.append(("ops_from", (w, a, 4 if q else 6)))
    return out


def ops_from(rec, which, first, length):
    for ops in itertools.product(OPS, repeat=length - 1):
        rec.case("case_ops", which, [first] + list(ops))
        if rec.stop:
            return


def misc_all(rec):
    for n in (256, 257, 300, 511, 512):
        rec.case("case_toolong", "id", n)
    for n in (65536, 65537, 70000, 131072):
        rec.case("case_toolong", "eh", n)
    for dn in (2**16, 2**17, 2**18 + 4, 2**20, 2**20 + 4):
        rec.case("case_big", dn)
