"""C02: Steim2 is lossless or refuses, for every integer series."""
from steimcheck import *

PROP = "C02"
LEVEL = "model_checking"
RULE = ("every sequence of differences over the seven size classes up to the depth, with up to two deviating "
        "positions for longer ones, at every word position and container type; distinct by the encoded bytes")
BOUNDS = {
    "quick": "27 boundary values to length 3; 8 class representatives to length 5; series to length 9 with 2 deviating "
             "positions; length 2 sequences after 0..28 fill words; periodic series to length 200 and of 65537 (to 4370 frames); containers to length 3",
    "thorough": "27 boundary values to length 4; 7 class representatives to length 7; series to length 9 with 3 deviating "
                "positions; length 3 sequences after 0..30 fill words; periodic series to length 400; containers to length 4",
}
ASSUME = ["values outside the boundary alphabet behave like a value of the same size class and sign"]
VALS = [0, 1, -1, 2**29 - 1, -2**29, 2**29, 2**31 - 1, -2**31]
POS = [c[0] for c in CLASS2]
NEG = [c[1] for c in CLASS2]
BIGS = [2**29, -2**29 - 1, 2**30, -2**30, 2**31 - 1, -2**31]


def shards(tier):
    q = tier == "quick"
    out = []
    for n in range(1, (3 if q else 4) + 1):
        for a in EDGE2:
            out.append(("diffs_all", (2, EDGE2, (a,), n, 0)))
    for rep in (POS, NEG):
        for n in range(4, (5 if q else 7) + 1):
            if n < 6:
                out += [("diffs_all", (2, rep, (a,), n, 0)) for a in rep]
            else:
                out += [("diffs_all", (2, rep, (a, b), n, 0)) for a in rep for b in rep]
    for n in range(2, 10):
        for base in CLASS2:
            out.append(("mixed_all", (2, n, base, 1, EDGE2)))
            out.append(("mixed_all", (2, n, base, 2, POS + NEG if not q else POS)))
            if not q:
                out.append(("mixed_all", (2, n, base, 3, POS)))
    for prev in (1, -1, 1000, -40000, 2**31 - 1, -2**31):
        for n in range(1, 3 if q else 4):
            out += [("diffs_all", (2, EDGE2, (a,), n, prev)) for a in EDGE2[:: 4 if q else 1]]
    for n in range(1, (3 if q else 5) + 1):
        out += [("values_all", (2, VALS, v, n, 0)) for v in VALS]
        if n < 4:
            out += [("values_all", (2, VALS, v, n, p)) for v in VALS for p in (5, -2**31, 2**31 - 1)]
    for p in range(29 if q else 31):
        for fill in (70000, 300):
            out.append(("phase_all", (2, p, POS + [-8], 2 if q else 3, fill)))
    pats = [[a] for a in EDGE2] + [[a, b] for a in POS for b in NEG]
    for pat in pats:
        out.append(("long_all", (2, pat, list(range(10, 40)) + [90, 91, 92, 104, 105, 106, 107, 128, 200] if q else list(range(1, 400, 1)))))
    for d in EDGE2:
        # hundreds of equal words, the last ones of the block
        out.append(("tail_all", (2, d, [5000] if q else [300, 5000, 20000])))
    out.append(("long_all", (2, [1, -1, 300], [65537] if q else [4095, 4096, 32768, 65535, 65536, 70000])))
    for pat in ([2**29 - 1, 1 - 2**29], [70000], [20000, -16384]):
        # a word for each sample: more than 4096 frames
        out.append(("long_all", (2, pat, [65537] if q else [945, 946, 3825, 3826, 61441, 65537, 130000])))
    for k in DT + ["list", "npints", "npint64s", "strided", "reversed", "readonly"]:
        out.append(("container_all", (2, k, 3 if q else 4)))
    for b in BIGS:
        out.append(("unfit_all", (16 if q else 120, b)))
    out.append(("refused_all", (2, 6 if q else 20)))
    out.append(("neg_all", ()))
    out.append(("segment_cases", (2,)))
    return out


def neg_all(rec):
    for f in (-1, -2, -63, -2**31):
        rec.case("case_frames_negative", 2, f)
