"""C05: damaged or short payloads never give a wrong number of samples."""
import itertools
import struct

import numpy as np

import simplemseed as sm
from simplemseed import CodecException
import steimref
from steimref import from_diffs, wrap, sx
from vlib import req, Violation

PROP = "C05"
LEVEL = "model_checking"
RULE = ("every listed damage of every base payload and every declared sample count; distinct by (encoding, bytes, count) outcome")
BOUNDS = {
    "quick": "28 base payloads of 1 to 3 frames: every truncation x 16 counts, all control codes of any two words, all codes x decode "
             "nibbles of each word, every bit flip of each frame; primitives: every length to 40 bytes x count to 12; all 256 encodings; "
             "records of both formats with wrong counts and cut payloads",
    "thorough": "40 base payloads to 6 frames, every truncation x every count, every pair of bit flips in each control word, every "
                "three words' codes in the first frame",
}
ASSUME = ["payload words are independent of each other apart from the running sum"]
CODES = {"S1": 10, "S2": 11}
S2COUNT = {(2, 1): (1, 30), (2, 2): (2, 15), (2, 3): (3, 10), (3, 0): (5, 6), (3, 1): (6, 5), (3, 2): (7, 4)}


def lenient(data, version):
    """(X0, differences or None if some word is invalid)"""
    x0 = None
    out = []
    bad = False
    for f in range(len(data) // 64):
        w = struct.unpack(">16I", data[f * 64: f * 64 + 64])
        codes = [(w[0] >> (30 - 2 * i)) & 3 for i in range(16)]
        first = 1
        if f == 0:
            x0 = sx(w[1], 32)
            first = 3
        if any(codes[:first]):
            bad = True
        for i in range(first, 16):
            c, v = codes[i], w[i]
            if c == 0:
                continue
            if version == 1:
                out += {1: [sx(v >> s, 8) for s in (24, 16, 8, 0)], 2: [sx(v >> 16, 16), sx(v, 16)], 3: [sx(v, 32)]}[c]
            elif c == 1:
                out += [sx(v >> s, 8) for s in (24, 16, 8, 0)]
            elif (c, v >> 30) in S2COUNT:
                n, bits = S2COUNT[(c, v >> 30)]
                out += [sx(v >> (bits * (n - 1 - k)), bits) for k in range(n)]
            else:
                bad = True
    return x0, (None if bad else out)


def attempt(rec, code, data, n, little=False):
    """('ok', values) or ('raise', exception)"""
    rec.step()
    try:
        r = sm.decompress(code, data, n, little)
        return "ok", r
    except MemoryError:
        raise
    except Exception as e:
        return "raise", e


def judge_steim(rec, version, data, n):
    kind, r = attempt(rec, 9 + version, data, n)
    rec.state(version, bytes(data), n, kind)
    if kind == "ok":
        req(len(r) == n, f"returned {len(r)} samples for a declared count of {n}")
    if n == 0:
        return
    if n < 0:
        return
    if len(data) % 64:
        req(kind == "raise" and isinstance(r, CodecException), f"{len(data)} bytes are not whole frames: {kind} {r!r}")
        return
    x0, diffs = lenient(bytes(data), version)
    if diffs is None:
        return
    if len(diffs) < n:
        req(kind == "raise" and isinstance(r, CodecException),
            f"only {len(diffs)} of {n} samples encoded: {kind} {r!r}")
        return
    req(kind == "ok", f"{len(diffs)} samples encoded, {n} declared, but {r!r}")
    want = [x0]
    for d in diffs[1:n]:
        want.append(wrap(want[-1] + d))
    got = [int(x) for x in r]
    req(got == want, f"decoded {got[:10]} not {want[:10]}")


def case_steim(rec, version, data, n):
    judge_steim(rec, version, data, n)


def bases(version, thorough=False):
    """payloads as bytes with their sample count"""
    out = []
    enc = sm.encodeSteim1 if version == 1 else sm.encodeSteim2
    pats = [[1], [300, -1], [70000, 1], [5, 5, 5, 5, 300, 1, 70000]]
    if version == 2:
        pats += [[9], [20, -20], [500, 1, 1]]
    for p in pats:
        for n in (1, 2, 13, 30) + ((60, 100, 200) if thorough else ()):
            d = [p[i % len(p)] for i in range(n)]
            b = bytes(enc(from_diffs(d)))
            if len(b) <= (384 if thorough else 192):
                out.append((b, n))
    tab = steimref.S1 if version == 1 else steimref.S2
    allw = [(k, [(i % 3) - 1 for i in range(tab[k][2])]) for k in tab]
    for words in (allw, allw * 2, allw[::-1] * 3):
        b, s = steimref.build(words, version)
        out.append((b, len(s)))
    return out


_PICK = {}


def pick(version, i, thorough=False):
    if (version, thorough) not in _PICK:
        _PICK[version, thorough] = bases(version, thorough)
    return _PICK[version, thorough][i]


def counts(n, thorough):
    return sorted({0, 1, 2, n - 2, n - 1, n, n + 1, n + 2, n + 3, n + 4, n + 7, n + 64, 65535, 10**6} |
                  (set(range(n + 10)) if thorough else set()))


def trunc_all(rec, version, i, thorough):
    data, n = pick(version, i, thorough)
    for k in range(len(data) + 1):
        for c in counts(n, thorough and k % 64 == 0):
            rec.case("case_steim", version, data[:k], c)
            if rec.stop:
                return
    for extra in (b"\0" * 64, b"\0" * 63, b"\0", b"\xff" * 64):
        for c in counts(n, False):
            rec.case("case_steim", version, data + extra, c)


def codes_all(rec, version, i, frame, nwords, thorough):
    """all values of the control codes of any nwords words"""
    data, n = pick(version, i, thorough)
    (w0,) = struct.unpack(">I", data[frame * 64: frame * 64 + 4])
    for pos in itertools.combinations(range(16), nwords):
        for vals in itertools.product(range(4), repeat=nwords):
            w = w0
            for p, v in zip(pos, vals):
                w = w & ~(3 << (30 - 2 * p)) | (v << (30 - 2 * p))
            b = data[: frame * 64] + struct.pack(">I", w) + data[frame * 64 + 4:]
            for c in (n, n - 1, n + 1, 1):
                rec.case("case_steim", version, b, c)
            if rec.stop:
                return


def nib_all(rec, version, i, frame, thorough):
    """each word: every control code with every decode nibble and fill"""
    data, n = pick(version, i, thorough)
    for p in range(1, 16):
        for code in range(4):
            for nib in range(4):
                for fill in (0, 0x3FFFFFFF, 0x2AAAAAAA, 0x15555555):
                    b = bytearray(data)
                    (w0,) = struct.unpack_from(">I", b, frame * 64)
                    w0 = w0 & ~(3 << (30 - 2 * p)) | (code << (30 - 2 * p))
                    struct.pack_into(">I", b, frame * 64, w0)
                    struct.pack_into(">I", b, frame * 64 + 4 * p, (nib << 30) | fill)
                    for c in (n, n + 1, n + 3, n + 6, n - 1):
                        rec.case("case_steim", version, bytes(b), c)
                    if rec.stop:
                        return


def flips_all(rec, version, i, frame, pairs, thorough):
    data, n = pick(version, i, thorough)
    nb = 32 if pairs else 512
    for a in range(nb):
        for b in range(a, nb) if pairs else (a,):
            x = bytearray(data)
            for k in {a, b}:
                x[frame * 64 + k // 8] ^= 0x80 >> (k % 8)
            for c in (n, n + 1):
                rec.case("case_steim", version, bytes(x), c)
            if rec.stop:
                return


WIDTH = {1: (2, "h"), 3: (4, "i"), 4: (4, "f"), 5: (8, "d")}


def case_prim(rec, code, nbytes, n, little, container):
    data = bytes((17 * k + 3) % 251 for k in range(nbytes))
    buf = {"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview}[container](data)
    kind, r = attempt(rec, code, buf, n, little)
    rec.state(code, nbytes, n, kind)
    w, f = WIDTH[code]
    if nbytes < n * w:
        req(kind == "raise" and isinstance(r, CodecException), f"{nbytes} bytes for {n} samples of {w}: {kind} {r!r}")
    else:
        req(kind == "ok", f"raised {r!r}")
        want = struct.unpack(("<" if little else ">") + f"{n}{f}", data[: n * w])
        req(len(r) == n and tuple(r.tolist()) == want, f"{r} not {want}")


def prim_all(rec, code, maxbytes, maxcount):
    for nbytes in range(maxbytes + 1):
        for n in range(0, maxcount + 1):  # counts are unsigned in both formats
            for little in (True, False):
                for c in ("bytes", "bytearray", "memoryview"):
                    rec.case("case_prim", code, nbytes, n, little, c)
        if rec.stop:
            return
    for n in (2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**40):
        rec.case("case_prim", code, 16, n, True, "bytes")


SUPPORTED = (1, 3, 4, 5, 10, 11)


def case_unsupported(rec, code, nbytes, n):
    data = bytes(nbytes)
    for little in (True, False):
        rec.state(code, n)
        req(sm.canDecompress(code) == (code in SUPPORTED), f"canDecompress({code})")
        if code in SUPPORTED:
            return
        kind, r = attempt(rec, code, data, n, little)
        if n == 0:
            req(kind == "raise" or len(r) == 0, f"{len(r) if kind=='ok' else r} samples for none")
            continue
        if kind == "ok" and code == 32:  # DWWSSN is 16 bit integers
            req(len(r) == n, "count")
            continue
        req(kind == "raise" and isinstance(r, CodecException), f"unsupported encoding {code} for {n} samples: {kind} {r!r}")
        rec.step()
        try:
            sm.EncodedDataSegment(code, data, n, little).decode()
        except CodecException:
            continue
        except Exception as e:
            raise Violation(f"segment of unsupported encoding {code}: {e!r}")
        raise Violation(f"segment of unsupported encoding {code} decoded")


def unsupported_all(rec, lo, hi):
    for code in range(lo, hi):
        for nbytes in (0, 1, 64, 128):
            for n in (0, 1, 2, 16, 64):
                rec.case("case_unsupported", code, nbytes, n)


def case_record3(rec, code, payload, n, stored):
    """a miniSEED 3 record whose header declares n samples over this payload"""
    h = sm.MSeed3Header()
    h.encoding = code
    h.sampleRatePeriod = 20.0
    h.starttime = "2024-01-01T00:00:00Z"
    h.numSamples = n
    try:
        r = sm.MSeed3Record(h, "FDSN:XX_S__B_H_Z", sm.EncodedDataSegment(code, payload, n, True))
        packed = r.pack()
        back = sm.unpackMSeed3Record(packed)
    except Exception:
        rec.state("refused", code, len(payload), n)
        return
    rec.step(2)
    for x in (r, back):
        try:
            d = x.decompress()
        except CodecException:
            rec.state("raise", code, len(payload), n)
            req(n > stored or (code >= 10 and len(payload) % 64 != 0), f"{stored} samples stored, {n} declared, but refused")
            continue
        req(len(d) == n, f"{len(d)} samples for {n}")
        req(n <= stored, f"made up samples: {stored} stored, {n} declared")
        rec.state("ok", code, len(payload), n)


def case_record2(rec, code, payload, n, stored, little, cut):
    """a miniSEED 2 record read from bytes declaring n samples of a payload that
    holds only `stored`; the file may end early, at `cut`"""
    fmt = "<" if little else ">"
    hdr = b"000001D " + b"STA    BHZXX" + struct.pack(
        fmt + "HHBBBxHHhhBBBBiHH", 2024, 1, 0, 0, 0, 0, n, 20, 1, 0, 0, 0, 1, 0, 64, 48)
    b1000 = struct.pack(fmt + "HHBBBx", 1000, 0, code, 0 if little else 1, 8)
    raw = (hdr + b1000 + bytes(8) + payload)[:256]
    raw = (raw + bytes(256 - len(raw)))[:cut]
    rec.step(2)
    try:
        mr = sm.unpackMiniseedRecord(raw)
        d = mr.decompress()
    except CodecException:
        rec.state("raise", code, len(payload), n, cut)
        req(n > stored or (code >= 10 and cut % 64), f"{stored} samples stored, {n} declared, but refused")
        return
    except Exception:
        if cut < 64:
            return
        raise
    req(d is not None and len(d) == n, f"{d if d is None else len(d)} samples for {n}")
    req(n == 0 or n <= stored, f"made up samples: {stored} stored, {n} declared")
    rec.state("ok", code, len(payload), n, cut)


def records_all(rec, version, i, part):
    data, n = pick(version, i)
    for k in range(0, len(data) + 1, 64 if part else 16):
        for c in counts(n, False):
            if c >= 0:
                x0, diffs = lenient(data[: k - k % 64], version)
                rec.case("case_record3", 9 + version, data[:k], c, len(diffs) if diffs is not None else 10**9)


    for k in range(0, min(len(data), 192) + 1, 64):
        for cut in {256, 64 + k, 64 + max(0, k - 5), 255}:
            for c in counts(n, False):
                if 0 <= c < 65536:
                    body = (data[:k] + bytes(192))[: max(0, cut - 64)]
                    x0, diffs = lenient(body, version)
                    stored = len(diffs) if diffs is not None else 10**9
                    if cut % 64:
                        stored = 0
                    for little in (False, True):
                        rec.case("case_record2", 9 + version, data[:k], c, stored, little, cut)


def records_prim(rec, code):
    for cut in range(64, 257, 7):
        for n in (0, 1, 2, 5, 20, (cut - 64) // WIDTH[code][0], (cut - 64) // WIDTH[code][0] + 1, 300):
            for little in (False, True):
                rec.case("case_record2", code, bytes(192), n, (cut - 64) // WIDTH[code][0], little, cut)
    w, f = WIDTH[code]
    for nbytes in range(0, 34):
        for n in range(0, 12):
            rec.case("case_record3", code, bytes(nbytes), n, nbytes // w)


def shards(tier):
    q = tier == "quick"
    out = []
    for v in (1, 2):
        for i, (data, n) in enumerate(bases(v, not q)):
            out.append(("trunc_all", (v, i, not q)))
            for f in range(len(data) // 64):
                if q and len(data) > 128:
                    nw = 1
                else:
                    nw = 2
                out.append(("codes_all", (v, i, f, nw, not q)))
                out.append(("nib_all", (v, i, f, not q)))
                out.append(("flips_all", (v, i, f, False, not q)))
                if not q:
                    out.append(("flips_all", (v, i, f, True, True)))
                    if f == 0:
                        out.append(("codes_all", (v, i, f, 3, True)))
            out.append(("records_all", (v, i, 0)) if i < len(bases(v)) else ("unsupported_all", (0, 1)))
    for code in WIDTH:
        out.append(("prim_all", (code, 40 if q else 100, 12 if q else 30)))
        out.append(("records_prim", (code,)))
    for a in range(0, 256, 16):
        out.append(("unsupported_all", (a, a + 16)))
    return out
