"""Lossless round trip of Steim1 / Steim2, shared by C01 and C02."""
import array
import decimal
import fractions
import itertools

import numpy as np

import simplemseed as sm
from steimref import wrap, from_diffs
from vlib import req, raises, Violation

ENC = {1: sm.encodeSteim1, 2: sm.encodeSteim2}
DEC = {1: sm.decodeSteim1, 2: sm.decodeSteim2}
FB = {1: sm.encodeSteim1FrameBlock, 2: sm.encodeSteim2FrameBlock}
I32 = (-2**31, 2**31 - 1)

# one value on each side of every size boundary
EDGE1 = [0, 127, -128, 128, -129, 32767, -32768, 32768, -32769]
EDGE2 = [0, 7, -8, 8, -9, 15, -16, 16, -17, 31, -32, 32, -33, 127, -128, 128, -129,
         511, -512, 512, -513, 16383, -16384, 16384, -16385, 2**29 - 1, -2**29]
# one value per size class, positive and negative extreme
CLASS1 = [(127, -128), (32767, -32768), (2**31 - 1, -2**31)]
CLASS2 = [(7, -8), (15, -16), (31, -32), (127, -128), (511, -512), (16383, -16384), (2**29 - 1, -2**29)]


def fits(version, samples, prev):
    """Do all differences fit the format?  None if only modulo 2**32."""
    if version == 1:
        return True
    ok = modok = True
    for s in samples:
        d = s - prev
        if not -2**29 <= d < 2**29:
            ok = False
        if not -2**29 <= wrap(d) < 2**29:
            modok = False
        prev = s
    return True if ok else (None if modok else False)


def check_series(rec, version, data, samples, prev=0):
    """data is a container holding samples"""
    ok = fits(version, samples, prev)
    rec.step(2)
    try:
        enc = ENC[version](data, 0, prev) if prev else ENC[version](data)
    except Exception as e:
        if ok:
            raise Violation(f"steim{version} refused {samples[:20]} prev {prev}: {type(e).__name__} {e}")
        rec.state("refused", version, tuple(samples), prev)
        return None
    dec = DEC[version](enc, len(samples), prev) if prev else DEC[version](enc, len(samples))
    got = [int(x) for x in dec]
    if got != samples:
        bad = next((i for i, (a, b) in enumerate(zip(got, samples)) if a != b), min(len(got), len(samples)))
        raise Violation(f"steim{version} prev {prev}: sample {bad} of {len(samples)} decoded "
                        f"{got[bad:bad+3]} not {samples[bad:bad+3]}, {len(got)} decoded")
    rec.state(version, bytes(enc), prev)
    return enc


def case_diffs(rec, version, diffs, prev):
    samples = from_diffs(diffs, prev)
    a = check_series(rec, version, samples, samples, prev)
    b = check_series(rec, version, np.array(samples, dtype=np.int32), samples, prev)
    req((a is None) == (b is None) and (a is None or bytes(a) == bytes(b)),
        "list and int32 array encode differently")


def case_values(rec, version, samples, prev):
    check_series(rec, version, list(samples), list(samples), prev)


def diffs_all(rec, version, alphabet, first, length, prev):
    """every sequence of differences of this length that starts with first"""
    alphabet = [alphabet] if isinstance(alphabet, int) else alphabet
    for rest in itertools.product(alphabet, repeat=length - len(first)):
        if not rec.case("case_diffs", version, list(first) + list(rest), prev):
            if rec.stop:
                return


def values_all(rec, version, alphabet, first, length, prev):
    for rest in itertools.product(alphabet, repeat=length - 1):
        rec.case("case_values", version, [first] + list(rest), prev)
        if rec.stop:
            return


def mixed_all(rec, version, length, base, exceptions, alphabet):
    """all series of class base with up to `exceptions` positions of another size"""
    for n in range(exceptions + 1):
        for pos in itertools.combinations(range(length), n):
            for vals in itertools.product(alphabet, repeat=n):
                for sign in ((0, 1, 2) if n < 2 else (0, 1)):
                    d = [base[sign] if sign < 2 else base[i % 2] for i in range(length)]
                    for p, v in zip(pos, vals):
                        d[p] = v
                    rec.case("case_diffs", version, d, 0)
                    if rec.stop:
                        return


def phase_all(rec, version, prefix, alphabet, length, fill):
    """the same short sequences at every word position of the first frames, with a
    tail so that later words are affected by a wrong one"""
    for n in range(0, length + 1):
        for seq in itertools.product(alphabet, repeat=n):
            for tail in ((), (1, -1, 1, fill)):
                d = [fill if i % 2 else -fill for i in range(prefix)] + list(seq) + list(tail)
                if d:
                    rec.case("case_diffs", version, d, 0)
                if rec.stop:
                    return


def long_all(rec, version, pattern, lengths):
    """periodic series of every given length"""
    for n in lengths:
        d = [pattern[i % len(pattern)] for i in range(n)]
        rec.case("case_diffs", version, d, 0)
        if rec.stop:
            return


def tail_all(rec, version, d, lengths):
    """a long run of one difference, alone, at the end and at the start"""
    for n in lengths:
        run = [d] * n
        for x in ([], [300, -70000], [1, -1, 1]):
            rec.case("case_diffs", version, x + run, 0)
            if x and n < 6000:
                rec.case("case_diffs", version, run + x, 0)
        if rec.stop:
            return


DT = ["i1", "u1", "<i2", ">i2", "<u2", ">u2", "<i4", ">i4", "<u4", "<i8", ">i8", "<u8"]


def dt_values(dt):
    ii = np.iinfo(np.dtype(dt))
    lo, hi = max(ii.min, I32[0]), min(ii.max, I32[1])
    out = [lo, hi, 0, 1, lo + 1, hi - 1, hi // 2, 100]
    if lo < 0:
        out += [-1, lo // 2]
    return sorted(set(out))


def case_container(rec, version, kind, samples):
    before = None
    if kind == "list":
        data = list(samples)
    elif kind == "npints":
        data = [np.int32(x) for x in samples]
    elif kind == "npint64s":
        data = [np.int64(x) for x in samples]
    elif kind == "strided":
        big = np.zeros(2 * len(samples), dtype=np.int32)
        big[::2] = samples
        data = big[::2]
    elif kind == "reversed":
        data = np.array(samples[::-1], dtype=np.int32)[::-1]
    elif kind == "readonly":
        data = np.array(samples, dtype=np.int32)
        data.setflags(write=False)
    else:
        data = np.array(samples, dtype=np.dtype(kind))
    check_series(rec, version, data, list(samples), 0)
    req([int(x) for x in data] == list(samples), "input was modified")


def container_all(rec, version, kind, length):
    vals = dt_values(kind) if kind in DT else dt_values("<i4")
    for n in range(1, length + 1):
        for s in itertools.product(vals, repeat=n):
            rec.case("case_container", version, kind, list(s))
            if rec.stop:
                return


BAD = {
    "float64": lambda n, p: np.array([1.5 if i == p else 1.0 for i in range(n)]),
    "float32": lambda n, p: np.array([float(i == p) for i in range(n)], dtype=np.float32),
    "float16": lambda n, p: np.array([float(i == p) for i in range(n)], dtype=np.float16),
    "listfloat": lambda n, p: [1.5 if i == p else 1 for i in range(n)],
    "listnpfloat": lambda n, p: [np.float32(1.5) if i == p else 1 for i in range(n)],
    "listwholefloat": lambda n, p: [2.0 if i == p else 1 for i in range(n)],
    "big64": lambda n, p: np.array([2**31 if i == p else 1 for i in range(n)], dtype=np.int64),
    "bigneg64": lambda n, p: np.array([-2**31 - 1 if i == p else 1 for i in range(n)], dtype=np.int64),
    "huge64": lambda n, p: np.array([2**32 + 5 if i == p else 1 for i in range(n)], dtype=np.int64),
    "hugeneg64": lambda n, p: np.array([-2**40 if i == p else 1 for i in range(n)], dtype=">i8"),
    "bigu32": lambda n, p: np.array([2**32 - 1 if i == p else 1 for i in range(n)], dtype=np.uint32),
    "bigu64": lambda n, p: np.array([2**63 if i == p else 1 for i in range(n)], dtype=np.uint64),
    "biglist": lambda n, p: [2**31 if i == p else 1 for i in range(n)],
    "bigneglist": lambda n, p: [-2**31 - 1 if i == p else 1 for i in range(n)],
    "hugelist": lambda n, p: [2**40 if i == p else 1 for i in range(n)],
    "hugeneglist": lambda n, p: [-2**64 if i == p else 1 for i in range(n)],
    "nanlist": lambda n, p: [float("nan") if i == p else 1 for i in range(n)],
    "twod": lambda n, p: np.ones((n, p + 1), dtype=np.int32),
    "twodT": lambda n, p: np.ones((p + 1, n), dtype=np.int32),
    "empty": lambda n, p: [],
    "emptyarr": lambda n, p: np.array([], dtype=np.int32),
    "emptyarr64": lambda n, p: np.array([], dtype=np.int64),
    "strs": lambda n, p: ["a" if i == p else 1 for i in range(n)],
    "none": lambda n, p: [None if i == p else 1 for i in range(n)],
    "numtext": lambda n, p: ["5" if i == p else 1 for i in range(n)],
    "numbytes": lambda n, p: [b"5" if i == p else 1 for i in range(n)],
    "decimal": lambda n, p: [decimal.Decimal("1.5") if i == p else 1 for i in range(n)],
    "fraction": lambda n, p: [fractions.Fraction(3, 2) if i == p else 1 for i in range(n)],
    "objfloat": lambda n, p: np.array([1.5 if i == p else 1 for i in range(n)], dtype=object),
    "objbig": lambda n, p: np.array([2**40 if i == p else 1 for i in range(n)], dtype=object),
    "complex": lambda n, p: np.array([1j if i == p else 1 for i in range(n)]),
    "complexlist": lambda n, p: [1j if i == p else 1 for i in range(n)],
    "timedelta": lambda n, p: np.array([i == p for i in range(n)], dtype="m8[s]"),
    "datetime": lambda n, p: np.array([i == p for i in range(n)], dtype="M8[s]"),
    "bytesarr": lambda n, p: np.array([b"5" if i == p else b"1" for i in range(n)]),
    "textarr": lambda n, p: np.array(["5" if i == p else "1" for i in range(n)]),
    "arrayq": lambda n, p: array.array("q", [2**40 if i == p else 1 for i in range(n)]),
    "arrayd": lambda n, p: array.array("d", [1.5 if i == p else 1 for i in range(n)]),
    "objnone": lambda n, p: np.array([None if i == p else 1 for i in range(n)], dtype=object),
    "nested": lambda n, p: [[1, 2] for i in range(n)],
}


def case_refused(rec, version, kind, n, pos):
    rec.step()
    data = BAD[kind](n, pos)
    for f in (ENC[version], FB[version]):
        try:
            r = f(data)
        except Exception as e:
            rec.state("refused", kind, n, pos, type(e).__name__)
            continue
        raise Violation(f"steim{version} accepted {kind} {list(np.ravel(data))[:8]}")


def refused_all(rec, version, length):
    for kind in BAD:
        for n in range(1, length + 1):
            for pos in range(n):
                rec.case("case_refused", version, kind, n, pos)


def case_frames_negative(rec, version, frames):
    rec.step()
    req(raises(lambda: ENC[version]([1, 2, 3], frames)), f"negative frame count {frames} accepted")


def case_unfit(rec, diffs, prev):
    """Steim2: a difference that needs more than 30 bits must be refused or, if it fits
    modulo 2**32, be kept"""
    samples = from_diffs(diffs, prev)
    check_series(rec, 2, samples, samples, prev)
    check_series(rec, 2, np.array(samples, dtype=np.int32), samples, prev)


def unfit_all(rec, length, big):
    for n in range(1, length + 1):
        for pos in range(n):
            for small in (0, 7, -8, 127, -16384, 2**29 - 1):
                d = [small] * n
                d[pos] = big
                rec.case("case_unfit", d, 0)


def segment_cases(rec, version):
    """through the EncodedDataSegment and generic decompress entry points"""
    for n in (1, 2, 3, 4, 5, 13, 14, 60, 105, 106, 400):
        for pat in ([1], [-1, 1], [300, -2, 5], [2**20, -2**20]):
            rec.case("case_segment", version, n, pat)


def case_segment(rec, version, n, pat):
    d = [pat[i % len(pat)] for i in range(n)]
    samples = from_diffs(d)
    code = sm.STEIM1 if version == 1 else sm.STEIM2
    enc = ENC[version](samples)
    rec.step(3)
    rec.state(version, bytes(enc))
    for b in (bytes(enc), bytearray(enc)):
        for little in (False, True):
            seg = sm.EncodedDataSegment(code, b, n, little)
            req([int(x) for x in seg.decode()] == samples, "segment decode differs")
            req([int(x) for x in sm.decompress(code, b, n, little)] == samples, "decompress differs")
