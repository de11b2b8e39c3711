"""C03: Steim bytes follow the published format in both directions."""
import itertools

from steimcheck import *
import steimref
from steimref import S1, S2, build

PROP = "C03"
LEVEL = "model_checking"
RULE = ("encoder: every series of the alphabets up to the depth is read by an independent decoder; decoder: every "
        "sequence of valid packed words up to the depth at every frame position; distinct by the encoded bytes")
BOUNDS = {
    "quick": "encoder: boundary value series to length 4 (Steim1) / 3 (Steim2), class sequences, periodic series to 130, all word "
             "positions; decoder: all sequences of 3 words of every packing, each value slot at its extremes, at every "
             "position of the first two frames and with unused words between",
    "thorough": "encoder: boundary value series to length 5 (Steim1) / 4 (Steim2), periodic series to 400; decoder: all sequences of "
                "4 words (5 for Steim1) of every packing, each value slot at its extremes, at every position of three frames",
}
ASSUME = ["reference decoder and encoder in lib/steimref.py written from the SEED manual"]


def case_enc(rec, version, diffs, prev, kind):
    samples = from_diffs(diffs, prev)
    data = samples if kind == "list" else np.array(samples, dtype=kind)
    rec.step()
    enc = bytes(ENC[version](data, 0, prev) if prev else ENC[version](data))
    rec.state(version, enc)
    req(len(enc) > 0 and len(enc) % 64 == 0, f"encoded length {len(enc)}")
    try:
        got = steimref.decode(enc, version, len(samples))
    except ValueError as e:
        raise Violation(f"not valid steim{version}: {e}")
    req(got == samples, f"independent decoder reads {got[:20]} not {samples[:20]}")
    x0, xn, words = steimref.parse(enc, version)
    req(words[0][3][0] == wrap(samples[0] - prev), f"first difference {words[0][3][0]} not {samples[0]-prev}")
    fb = FB[version](data, 0, prev)
    req(bytes(fb.pack()) == enc and bytes(fb.getEncodedData()) == enc, "frame block bytes differ")
    req(fb.getNumSamples() == len(samples) and fb.numSamples == len(samples), f"frame block reports {fb.numSamples}")
    req(fb.getNumFrames() == len(enc) // 64, f"frame block reports {fb.getNumFrames()} frames")
    req(fb.getSteimVersion() == version, "frame block version")


def enc_all(rec, version, alphabet, first, length, prev):
    for rest in itertools.product(alphabet, repeat=length - 1):
        rec.case("case_enc", version, [first] + list(rest), prev, "list")
        if rec.stop:
            return


def enc_mixed(rec, version, length, base, alphabet):
    for n in range(3):
        for pos in itertools.combinations(range(length), n):
            for vals in itertools.product(alphabet, repeat=n):
                d = [base[i % 2] for i in range(length)]
                for p, v in zip(pos, vals):
                    d[p] = v
                rec.case("case_enc", version, d, 0, "list")
                if rec.stop:
                    return


def enc_long(rec, version, pattern, lengths):
    for n in lengths:
        d = [pattern[i % len(pattern)] for i in range(n)]
        for k in ("list", "<i4") if n < 20 else ("list",):
            rec.case("case_enc", version, d, 0, k)
        if rec.stop:
            return


def enc_phase(rec, version, prefix, alphabet, length, fill):
    for n in range(length + 1):
        for seq in itertools.product(alphabet, repeat=n):
            d = [fill if i % 2 else -fill for i in range(prefix)] + list(seq)
            if d:
                rec.case("case_enc", version, d, 0, "list")
            if rec.stop:
                return


def enc_container(rec, version, kind):
    for n in range(1, 4):
        for s in itertools.product(dt_values(kind), repeat=n):
            d = [s[0]] + [wrap(b - a) for a, b in zip(s, s[1:])]
            if version == 1 or fits(2, list(s), 0) is True:
                rec.case("case_enc", version, d, 0, kind)
            if rec.stop:
                return


def word_variants(version, name):
    """each value slot at its extremes with quiet and with busy neighbours"""
    tab = S1 if version == 1 else S2
    code, nib, cnt, bits = tab[name]
    if cnt == 0:
        return [[]]
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    out = [[lo] * cnt, [hi] * cnt, [0] * cnt, [-1] * cnt, [(lo, hi)[i % 2] for i in range(cnt)], list(range(-1, cnt - 1))]
    for k in range(cnt):
        for v in (lo, hi, 1):
            for o in (0, -1):
                w = [o] * cnt
                w[k] = v
                out.append(w)
    return out


def short_variants(version, name):
    tab = S1 if version == 1 else S2
    code, nib, cnt, bits = tab[name]
    if cnt == 0:
        return [[]]
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return [[(hi, lo)[i % 2] for i in range(cnt)]]


def case_dec(rec, version, words, prev):
    data, samples = build(words, version, prev)
    n = len(samples)
    if n == 0:
        return
    rec.state(version, data, prev)
    for buf in (data, bytearray(data)):
        rec.step()
        dec = DEC[version](buf, n, prev) if prev else DEC[version](buf, n)
        got = [int(x) for x in dec]
        req(got == samples, f"decoded {got[-40:]} not {samples[-40:]}")
    # fewer samples than stored: a prefix
    for m in {1, n - 1, n // 2}:
        if 0 < m < n:
            rec.step()
            got = [int(x) for x in DEC[version](data, m)]
            req(got == samples[:m], f"first {m} decoded {got[-10:]} not {samples[:m][-10:]}")


def dec_words(rec, version, names, prefix, fill):
    """all value variants of one word in each position, the other words fixed"""
    pre = [(fill, v) for v in (short_variants(version, fill)[0],)] * prefix
    for i in range(len(names)):
        for v in word_variants(version, names[i]):
            words = [(n, short_variants(version, n)[0]) for n in names]
            words[i] = (names[i], v)
            rec.case("case_dec", version, pre + words, 0)
            if rec.stop:
                return


def dec_seq(rec, version, names0, length, prefixes, fill):
    tab = S1 if version == 1 else S2
    for rest in itertools.product(list(tab), repeat=length - len(names0)):
        names = list(names0) + list(rest)
        if all(n == "hole" for n in names):
            continue
        for p in prefixes:
            pre = [(fill, short_variants(version, fill)[0])] * p
            words = [(n, short_variants(version, n)[0]) for n in names]
            rec.case("case_dec", version, pre + words, 0)
            if rec.stop:
                return


def dec_prev(rec, version, prev):
    tab = S1 if version == 1 else S2
    for name in tab:
        if name == "hole":
            continue
        for v in word_variants(version, name):
            rec.case("case_dec", version, [(name, v)], prev)


def shards(tier):
    q = tier == "quick"
    out = []
    for n in range(1, (4 if q else 5) + 1):
        out += [("enc_all", (1, EDGE1, a, n, 0)) for a in EDGE1]
    for n in range(1, (3 if q else 4) + 1):
        out += [("enc_all", (2, EDGE2, a, n, 0)) for a in EDGE2]
    for n in range(4, 10):
        out += [("enc_mixed", (2, n, b, [c[0] for c in CLASS2])) for b in CLASS2[:: 2 if q else 1]]
        out += [("enc_mixed", (1, n, b, [c[0] for c in CLASS1])) for b in CLASS1]
    for v, edge in ((1, EDGE1), (2, EDGE2)):
        for prev in (7, -1000, 2**31 - 1, -2**31):
            out += [("enc_all", (v, edge[::2], a, 2, prev)) for a in edge[::2]]
        pats = [[a] for a in edge] + [[1, 1, 1, 1, 1, 1, 1, 300], [a for a in edge], [70000, 1, 1]]
        for p in pats:
            out.append(("enc_long", (v, p, list(range(1, 31)) + [100, 104, 105, 106, 130] if q else list(range(1, 401)))))
        for k in DT:
            out.append(("enc_container", (v, k)))
        for p in range(0, 30):
            al = [127, -129, 40000] if v == 1 else [7, -9, 20, 100, 400, 9000, 40000]
            out.append(("enc_phase", (v, p, al, (3 if v == 1 else 2) + (0 if q else 1), 70000)))
    for v, tab, fill in ((1, S1, "1x1"), (2, S2, "1")):
        names = list(tab)
        # word position: first frame has 13 words, then 15
        pos = list(range(0, 30)) if q else list(range(0, 46))
        for n in names:
            for p in pos:
                out.append(("dec_words", (v, (n,), p, fill)))
            for m in names:
                for p in (0, 11, 12, 13, 27) if q else pos:
                    out.append(("dec_words", (v, (n, m), p, fill)))
        L = 3 if q else (6 if v == 1 else 4)
        for n in names:
            if q:
                out.append(("dec_seq", (v, (n,), L, [0, 10, 11, 12, 13, 25, 26, 27, 28], fill)))
            else:
                out += [("dec_seq", (v, (n, m), L, [0, 10, 11, 12, 13, 25, 26, 27, 28], fill)) for m in names]
        for prev in (1, -1, 2**31 - 1, -2**31, 12345):
            out.append(("dec_prev", (v, prev)))
    return out
