"""C04: frame limited Steim encoding never drops or repeats samples."""
import itertools

from steimcheck import *
import steimref

PROP = "C04"
LEVEL = "model_checking"
RULE = ("every series of the stated shapes, every frame limit from 1 to enough, encoded in chunks until done; distinct by the "
        "bytes of the chunks")
BOUNDS = {
    "quick": "periodic and boundary-mixed series of every length 1..130 and to 400 by steps; limits 1..enough+1 and around 2^6 to 2^9; "
             "all 3 difference sequences at every word position around the first frame limits; chains of chunks to the end; 66001 samples in one block",
    "thorough": "every length 1..700, all 4 difference sequences (3 for Steim2) at every word position around the first three frame limits",
}
ASSUME = ["where Steim encoding has no offset parameter, the remaining samples are given as a slice"]


def encode_at(version, samples, frames, bias, offset):
    """frame block of samples[offset:] given the previous value"""
    if version == 1 and offset:
        return FB[1](samples, frames, bias, offset)
    return FB[version](samples[offset:] if offset else samples, frames, bias)


def check_block(rec, version, fb, samples, limit, bias, offset):
    """One limited block: at most limit frames, holding exactly the samples it says"""
    rec.step(2)
    n = fb.getNumSamples()
    raw = bytes(fb.pack())
    full = bytes(fb.getEncodedData())
    rest = samples[offset:]
    req(1 <= n <= len(rest), f"reports {n} samples of {len(rest)}")
    req(len(raw) % 64 == 0 and 64 <= len(raw), f"{len(raw)} bytes")
    if limit:
        req(len(raw) <= 64 * limit and len(full) <= 64 * limit and len(fb.getSteimFrames()) <= limit,
            f"{len(raw)//64}/{len(full)//64} frames for a limit of {limit}")
    req(len(full) == 64 * fb.getNumFrames(), lambda: f"{len(full)} bytes in {fb.getNumFrames()} frames")
    want = rest[:n]
    req(full[: len(raw)] == raw and not any(full[len(raw):]), "encoded data differs from packed frames")
    try:
        words = steimref.parse(raw, version)
    except ValueError as e:
        raise Violation(f"not valid steim{version}: {e}")
    nd = sum(len(w[3]) for w in words[2])
    # only the very last word may be partly used
    req(nd == n if n < len(rest) else n <= nd < n + len(words[2][-1][3]), f"holds {nd} differences but reports {n} samples")
    req(words[0] == want[0], f"X0 {words[0]} not {want[0]}")
    req(words[1] == want[-1], f"XN {words[1]} is not the last of its {n} samples, {want[-1]}")
    for b in (raw, full):
        for pv in {0, bias}:
            got = [int(x) for x in DEC[version](b, n, pv)]
            req(got == want, f"decoded {got[-8:]} not {want[-8:]} (previous value {pv})")
    if n < len(rest):
        req(raises(lambda: DEC[version](raw, n + 1)), "more samples can be decoded than it reports")
        # stopping early only because it is full
        req(limit > 0 and len(raw) == 64 * limit, f"stopped after {n} samples in {len(raw)//64} of {limit} frames")
    rec.state(version, raw, bias)
    return n


def case_chunks(rec, version, diffs, limit, kind):
    samples = from_diffs(diffs)
    data = samples if kind == "list" else np.array(samples, dtype=kind)
    whole = bytes(FB[version](data).pack())
    need = len(whole) // 64
    off = 0
    bias = 0
    blocks = []
    while off < len(samples):
        fb = encode_at(version, data, limit, bias, off)
        n = check_block(rec, version, fb, samples, limit, bias, off)
        if off == 0:
            rec.step()
            req(bytes(ENC[version](data, limit)) == bytes(fb.pack()), "encode and frame block differ")
            if limit == 0 or limit >= need:
                req(n == len(samples), f"{need} frames needed, limit {limit} but only {n} of {len(samples)} samples held")
                req(bytes(fb.pack()) == whole, "bytes differ from the unlimited encoding")
        blocks.append((bytes(fb.pack()), n, bias))
        off += n
        bias = samples[off - 1]
    cat = []
    for b, n, pv in blocks:
        cat += [int(x) for x in DEC[version](b, n, pv)]
    req(cat == samples, "concatenated chunks differ from the series")


def case_offset(rec, diffs, limit, off):
    """Steim1 offset: any start position, with and without the previous value"""
    samples = from_diffs(diffs)
    for data in (samples, np.array(samples, dtype=np.int32)):
        for bias in (0, samples[off - 1] if off else 0):
            a = FB[1](data, limit, bias, off)
            check_block(rec, 1, a, samples, limit, bias, off)
            b = FB[1](data[off:], limit, bias)
            req(bytes(a.pack()) == bytes(b.pack()), "offset and slice encode differently")
            req(bytes(ENC[1](data, limit, bias, off)) == bytes(a.pack()), "encode with offset differs from frame block")


def offset_all(rec, pattern, length):
    d = [pattern[i % len(pattern)] for i in range(length)]
    for off in range(length):
        for limit in (0, 1, 2):
            rec.case("case_offset", d, limit, off)
            if rec.stop:
                return
    rec.case("case_offset_bad", d)


def case_offset_bad(rec, diffs):
    samples = from_diffs(diffs)
    for off in (-1, -2, len(samples), len(samples) + 1, -len(samples)):
        rec.step()
        req(raises(lambda: FB[1](samples, 0, 0, off)), f"offset {off} of {len(samples)} accepted")


def chunks_all(rec, version, pattern, lengths):
    for n in lengths:
        d = [pattern[i % len(pattern)] for i in range(n)]
        need = len(bytes(FB[version](from_diffs(d)).pack())) // 64
        for limit in sorted({0, 1, 2, 3, need - 1, need, need + 1, 63} | (set(range(1, need)) if need < 8 else set())):
            if limit >= 0:
                rec.case("case_chunks", version, d, limit, "list")
                if rec.stop:
                    return
        rec.case("case_chunks", version, d, 1, "<i4")


def phase_chunks(rec, version, prefix, alphabet, length, fill, tails):
    for seq in itertools.product(alphabet, repeat=length):
        for tail in tails:
            d = [fill if i % 2 else -fill for i in range(prefix)] + list(seq) + list(tail)
            for limit in sorted({1, 2, max(1, (prefix + 2) // 15), (prefix + 2) // 15 + 1}):
                rec.case("case_chunks", version, d, limit, "list")
                if rec.stop:
                    return


def case_many(rec, version, pattern, n, limit):
    case_chunks(rec, version, [pattern[i % len(pattern)] for i in range(n)], limit, "list")


def many_one(rec, version, pattern, n, limit):
    rec.case("case_many", version, pattern, n, limit)


def many_all(rec, version, pattern, limits):
    """limits around powers of two, with series longer than fits"""
    for limit in limits:
        for n in (15 * limit - 2, 15 * limit - 1):
            rec.case("case_many", version, pattern, n, limit)
            if rec.stop:
                return


def shards(tier):
    q = tier == "quick"
    # more samples in one block than 16 bits can count
    out = [("many_one", (v, [1, -2, 3], 66001, limit)) for v, limit in ((1, 1095), (1, 0), (2, 630), (2, 0))]
    if not q:
        out += [("many_one", (v, [1, -2, 3], 140003, limit)) for v in (1, 2) for limit in (63, 1024, 1250, 2300)]
    lens = list(range(1, 131)) + [150, 181, 200, 256, 300, 399, 400] if q else list(range(1, 701))
    pats1 = [[c[0]] for c in CLASS1] + [list(c) for c in CLASS1] + [
        [1, 1, 1, 1, 1, 1, 300], [70000, 1, 1], [5, 300, 5, 70000, 5, 5], [0], [127, -129, 127, 127, 127],
        [2**31 - 1, 1, -2**31, 0, 0]]
    pats2 = [[c[0]] for c in CLASS2] + [list(c) for c in CLASS2] + [
        [1, 1, 1, 1, 1, 1, 300], [70000, 1, 1], [7, 15, 31, 127, 511, 16383, 2**29 - 1], [0],
        [31, 31, 31, 31, -33], [15, 15, 15, 15, 15, 16], [7, 7, 7, 7, 7, 7, 8], [511, 511, 512], [16383, 16384],
        [2**29 - 1, 1, 0, 1, 1 - 2**29, 5]]
    for v, pats in ((1, pats1), (2, pats2)):
        for p in pats:
            for part in range(0, len(lens), 40 if q else 50):
                out.append(("chunks_all", (v, p, lens[part: part + (40 if q else 50)])))
    pos = (list(range(8, 14)) + list(range(24, 29))) if q else (list(range(0, 14)) + list(range(20, 30)) + list(range(38, 44)))
    for p in pos:
        for fill in (70000, 300) if not q else (70000,):
            out.append(("phase_chunks", (1, p, EDGE1, 3 if q else 4, fill, ((), (1, 300, 1)))))
            al = [7, -9, 17, -33, 100, 300, -512, 9000, 40000, 2**29 - 1]
            out.append(("phase_chunks", (2, p, al, 2 if q else 3, fill, ((), (1,), (1, 1, 1, 1, 1), (1, 300, 1, 1, 1, 1, 1, 1)))))
    for v, pat in ((1, [70000]), (2, [2**29 - 1, 1 - 2**29])):
        for k in (6, 7, 8, 9) if q else range(5, 14):
            out += [("many_all", (v, pat, [2**k + x])) for x in (-1, 0, 1)]
    for pat in ([1], [300, -1], [70000, 1, 1, 1, 1, 5], [2**31 - 1, 1, 5]):
        for n in (1, 2, 3, 5, 14, 20, 60) if q else range(1, 80):
            out.append(("offset_all", (pat, n)))
    return out
