"""Independent reference for Steim1 and Steim2, written from the SEED manual.

A packing is a list of words (code, values) in the order they are stored; code is
 Steim1: "1x4" four 8 bit, "1x2" two 16 bit, "1x1" one 32 bit
 Steim2: "4" four 8 bit, "1" one 30, "2" two 15, "3" three 10, "5" five 6, "6" six 5, "7" seven 4
 "hole": control code 00, no data
"""
import struct

# name -> (control code, decode nibble or None, number of values, bits)
S1 = {"1x4": (1, None, 4, 8), "1x2": (2, None, 2, 16), "1x1": (3, None, 1, 32), "hole": (0, None, 0, 0)}
S2 = {"4": (1, None, 4, 8), "1": (2, 1, 1, 30), "2": (2, 2, 2, 15), "3": (2, 3, 3, 10),
      "5": (3, 0, 5, 6), "6": (3, 1, 6, 5), "7": (3, 2, 7, 4), "hole": (0, None, 0, 0)}


def wrap(v):
    return (v + 2**31) % 2**32 - 2**31


def sx(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def parse(data, version):
    """bytes -> (x0, xn, list of (frame, word, code, diffs)); raises ValueError if not valid."""
    if len(data) == 0 or len(data) % 64:
        raise ValueError(f"not whole frames: {len(data)}")
    out = []
    x0 = xn = None
    for f in range(len(data) // 64):
        w = struct.unpack(">16I", bytes(data[f * 64: f * 64 + 64]))
        codes = [(w[0] >> (30 - 2 * i)) & 3 for i in range(16)]
        if codes[0] != 0:
            raise ValueError("control code of control word not 0")
        first = 1
        if f == 0:
            if codes[1] or codes[2]:
                raise ValueError("control code of X0/XN not 0")
            x0, xn = sx(w[1], 32), sx(w[2], 32)
            first = 3
        for i in range(first, 16):
            c, v = codes[i], w[i]
            if c == 0:
                if v:
                    raise ValueError(f"unused word {f},{i} not zero")
                continue
            if version == 1:
                d = {1: [sx(v >> s, 8) for s in (24, 16, 8, 0)],
                     2: [sx(v >> s, 16) for s in (16, 0)],
                     3: [sx(v, 32)]}[c]
            elif c == 1:
                d = [sx(v >> s, 8) for s in (24, 16, 8, 0)]
            else:
                n = v >> 30
                try:
                    cnt, bits = {2: {1: (1, 30), 2: (2, 15), 3: (3, 10)},
                                 3: {0: (5, 6), 1: (6, 5), 2: (7, 4)}}[c][n]
                except KeyError:
                    raise ValueError(f"invalid decode nibble {c},{n}")
                d = [sx(v >> (bits * (cnt - 1 - k)), bits) for k in range(cnt)]
            out.append((f, i, c, d))
    return x0, xn, out


def decode(data, version, n):
    """(samples, problems): independent decode of n samples."""
    x0, xn, words = parse(data, version)
    diffs = [d for w in words for d in w[3]]
    if len(diffs) < n:
        raise ValueError(f"only {len(diffs)} differences for {n} samples")
    if n == 0:
        return []
    last = len(words[-1][3]) if words else 0
    if len(diffs) - n >= max(last, 1):
        raise ValueError(f"{len(diffs)} differences for {n} samples")
    s = [x0]
    for i in range(1, n):
        s.append(wrap(s[-1] + diffs[i]))
    if s[-1] != xn:
        raise ValueError(f"last sample {s[-1]} is not XN {xn}")
    return s


def build(words, version, prev=0, xn=None):
    """list of (name, values) -> (bytes, samples); first sample is prev + first difference."""
    tab = S1 if version == 1 else S2
    cur = prev
    samples = []
    for name, vals in words:
        for v in vals:
            cur = wrap(cur + v)
            samples.append(cur)
    frames = []
    enc = []
    for name, vals in words:
        code, nib, cnt, bits = tab[name]
        assert len(vals) == cnt
        v = 0
        for x in vals:
            assert -(1 << (bits - 1)) <= x < (1 << (bits - 1))
            v = (v << bits) | (x & ((1 << bits) - 1))
        if nib is not None:
            v |= nib << 30
        enc.append((code, v))
    fr = [0] * 16
    pos = 3
    fr[1] = (samples[0] if samples else 0) & 0xFFFFFFFF
    fr[2] = (samples[-1] if samples else 0) & 0xFFFFFFFF
    for code, v in enc:
        if pos == 16:
            frames.append(fr)
            fr = [0] * 16
            pos = 1
        fr[pos] = v
        fr[0] |= code << (30 - 2 * pos)
        pos += 1
    frames.append(fr)
    return b"".join(struct.pack(">16I", *f) for f in frames), samples


def from_diffs(diffs, prev=0):
    out = []
    for d in diffs:
        prev = wrap(prev + d)
        out.append(prev)
    return out
