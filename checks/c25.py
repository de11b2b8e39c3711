"""C25: results do not depend on earlier calls and inputs are not modified."""
import itertools

import ops
from vlib import req

PROP = "C25"
LEVEL = "model_checking"
RULE = "every sequence of calls to the depth, on shared inputs; distinct by the sequence"
BOUNDS = {
    "quick": "38 calls (encoding, decoding, packing, unpacking, reading, merging, converting, parsing; 9 of them fail) and changing the earlier results, on inputs shared by the calls: every sequence of "
             "3 (59319), and of 2 on two sets of inputs of the same sizes (5929); results compared with those of a process of its own, all earlier results and all inputs compared after every sequence",
    "thorough": "every sequence of 4 (2313441), and of 3 on two sets of inputs (456533)",
}
ASSUME = ["packing a record may update that record's own lengths and CRC", "calls are from one thread, see C24"]


def case_seqs(rec, prefix, lasts):
    base = ops.baseline()
    for last in lasts:
        seq = prefix + [last]
        inputs = [ops.Inputs()]
        if any(n[-1] == "~" for n in seq):
            inputs.append(ops.Inputs(1))
        start = [base["enc1"][0], base["enc1~"][0]]
        kept = []
        for k, n in enumerate(seq):
            if n == "scribble":
                for _, m, r, _ in kept:
                    if m.rstrip("~") in ops.OWN:
                        ops.scribble(r)
                kept = [x for x in kept if x[1].rstrip("~") not in ops.OWN]
                continue
            r = ops.call(n, inputs[n[-1] == "~"])
            d = ops.digest(r)
            rec.step()
            req(d == base[n][1], lambda: f"after {seq[:k]}, {n} gives {ops.diff(d, base[n][1])}")
            kept.append((k, n, r, d))
        for k, n, r, d in kept:
            e = ops.digest(r)
            req(e == d, lambda: f"result of {n} was changed by {seq[k + 1:]}: {ops.diff(e, d)}")
        for i, was in zip(inputs, start):
            e = i.digest()
            if e != was:
                names = [a[0] for a, b in zip(e, was) if a != b]
                req(False, lambda: f"{seq} changed the inputs {names}: {ops.diff(e, was)}")
        rec.state(tuple(seq))


ALL = ops.NAMES + ["scribble"]
BOTH = ops.NAMES + ops.OTHER + ["scribble"]


def seqs_all(rec, depth, firsts, both=False):
    # every shorter sequence is the start of a longer one
    names = BOTH if both else ALL
    for prefix in itertools.product(names, repeat=depth - 1 - len(firsts)):
        rec.case("case_seqs", firsts + list(prefix), names)
        if rec.stop:
            return


def shards(tier):
    ops.baseline()
    if tier == "quick":
        return [("seqs_all", (2, [a], True)) for a in BOTH] + [("seqs_all", (3, [a])) for a in ALL]
    return [("seqs_all", (3, [a], True)) for a in BOTH] + [("seqs_all", (4, [a, b])) for a in ALL for b in ALL]
