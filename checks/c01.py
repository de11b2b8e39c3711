"""C01: Steim1 is lossless for every 32 bit integer series."""
from steimcheck import *  # the case functions

PROP = "C01"
LEVEL = "model_checking"
RULE = ("every sequence of differences over boundary values of the three word sizes up to the depth, at every "
        "word position, container type and previous value; distinct by the encoded bytes")
BOUNDS = {
    "quick": "difference sequences over 9 boundary values to length 5 and value sequences over 8 extremes to length 4; "
             "length 3 sequences after 0..28 fill words; periodic series to length 200 and of 65537 (to 4370 frames); containers to length 3",
    "thorough": "difference sequences over 9 boundary values to length 6 (prev 0), value sequences to length 6; length 4 "
                "sequences after 0..30 fill words; periodic series to length 400 and one of 70000; containers to length 4",
}
ASSUME = ["values outside the boundary alphabet behave like a value of the same size class and sign"]
VALS = [0, 1, -1, 2**31 - 1, -2**31, 2**30, -2**15, 40000]


def shards(tier):
    q = tier == "quick"
    out = []
    for n in range(1, (5 if q else 6) + 1):
        for a in EDGE1:
            if n < 5:
                out.append(("diffs_all", (1, EDGE1, (a,), n, 0)))
            else:
                out += [("diffs_all", (1, EDGE1, (a, b), n, 0)) for b in EDGE1]
    for prev in (1, -1, 127, -128, 1000, -40000, 2**31 - 1, -2**31):
        for n in range(1, (3 if q else 4) + 1):
            out += [("diffs_all", (1, EDGE1, (a,), n, prev)) for a in EDGE1[: 3 if q else 9]]
    for n in range(1, (4 if q else 6) + 1):
        out += [("values_all", (1, VALS, v, n, 0)) for v in VALS]
        if n < 4:
            out += [("values_all", (1, VALS, v, n, p)) for v in VALS for p in (5, -2**31)]
    for p in range(29 if q else 31):
        for fill in (70000, 300, 5):
            out.append(("phase_all", (1, p, [127, -129, -32768, 32768], 3 if q else 4, fill)))
    pats = [[a] for a in EDGE1] + [[a, b] for a in EDGE1[1::2] for b in EDGE1[2::2]] + [[1, 300, 1, 70000, 1], [5, 5, 5, 5, 300]]
    for pat in pats:
        out.append(("long_all", (1, pat, list(range(1, 65)) + [100, 127, 128, 200] if q else list(range(1, 400)))))
    for d in EDGE1:
        # hundreds of equal words, the last ones of the block
        out.append(("tail_all", (1, d, [5000] if q else [300, 5000, 20000])))
    out.append(("long_all", (1, [1, -1, 300], [65537] if q else [4095, 4096, 32768, 65535, 65536, 70000])))
    for pat in ([70000], [-70000, 70001], [2**31 - 1, 1]):
        # a word for each sample: more than 4096 frames
        out.append(("long_all", (1, pat, [65537] if q else [945, 946, 3825, 3826, 61441, 65537, 130000])))
    for k in DT + ["list", "npints", "npint64s", "strided", "reversed", "readonly"]:
        out.append(("container_all", (1, k, 3 if q else 4)))
    out.append(("refused_all", (1, 6 if q else 20)))
    out.append(("neg_all", ()))
    out.append(("segment_cases", (1,)))
    return out


def neg_all(rec):
    for f in (-1, -2, -63, -2**31):
        rec.case("case_frames_negative", 1, f)
