"""Independent miniSEED 2 layout, from the SEED 2.4 manual."""
import struct
from fractions import Fraction

DEFAULT = dict(seq=1, quality="D", net="XX", sta="ABC", loc="00", chan="BHZ", year=2024, yday=60, hour=12, minute=34, sec=56, tenth=7890,
               nsamp=0, factor=20, mult=1, act=0, io=0, qual=0, corr=0)


def build(f=None, header=">", data=">", exp=9, encoding=3, payload=b"", blockettes=None, dataoff=None, numblk=None, first=48, gap=0):
    """record bytes.

    header, data: byte orders; blockettes: list of ("1000",), ("100", rate), ("1001", quality, micros, frames),
    ("raw", number, body bytes) in order, default only a 1000; dataoff None means after the blockettes (64 multiples for
    Steim), 0 means no data; first: where the first blockette is; gap: bytes of no meaning after each of known size but the last
    """
    d = dict(DEFAULT)
    d.update(f or {})
    if blockettes is None:
        blockettes = [("1000",)]
    parts = []
    for b in blockettes:
        if b[0] == "1000":
            parts.append((1000, bytes([encoding, 1 if data == ">" else 0, exp, 0])))
        elif b[0] == "100":
            parts.append((100, struct.pack(header + "f", b[1]) + bytes(4)))
        elif b[0] == "1001":
            parts.append((1001, bytes([b[1], b[2] & 0xFF, 0, b[3]])))
        else:
            parts.append((b[1], bytes(b[2])))
    off = first
    chain = bytearray(b"\xee" * (first - 48))
    for k, (num, body) in enumerate(parts):
        pad = b"\xee" * (gap if k < len(parts) - 1 and num in (100, 1000, 1001) else 0)
        n = 4 + len(body) + len(pad)
        nxt = off + n if k < len(parts) - 1 else 0
        chain += struct.pack(header + "HH", num, nxt) + body + pad
        off += n
    if dataoff is None:
        dataoff = -(-off // (64 if encoding in (10, 11) else 1)) * (64 if encoding in (10, 11) else 1)
    out = bytearray(1 << exp)
    out[0:6] = b"%06d" % d["seq"]
    out[6:7] = d["quality"].encode()
    out[7:8] = b" "
    out[8:13] = d["sta"].ljust(5).encode()
    out[13:15] = d["loc"].ljust(2).encode()
    out[15:18] = d["chan"].ljust(3).encode()
    out[18:20] = d["net"].ljust(2).encode()
    struct.pack_into(header + "HHBBBBH", out, 20, d["year"], d["yday"], d["hour"], d["minute"], d["sec"], 0, d["tenth"])
    struct.pack_into(header + "HhhBBBBiHH", out, 30, d["nsamp"], d["factor"], d["mult"], d["act"], d["io"], d["qual"],
                     len(parts) if numblk is None else numblk, d["corr"], dataoff, first if parts else 0)
    out[48: 48 + len(chain)] = chain
    if dataoff:
        assert dataoff >= 48 + len(chain) and dataoff + len(payload) <= len(out), "does not fit"
        out[dataoff: dataoff + len(payload)] = payload
    return bytes(out)


def guess(b, off=0):
    """header byte order, years 1800 to 2054"""
    (y,) = struct.unpack_from(">H", b, off + 20)
    return ">" if 1800 <= y <= 2054 else "<"


def parse(b, off=0):
    """dict of the record at off; ValueError if its parts are not consistent"""
    if len(b) - off < 48:
        raise ValueError("short header")
    e = guess(b, off)
    d = dict(header=e)
    d["seq"] = bytes(b[off: off + 6])
    d["quality"] = bytes(b[off + 6: off + 7])
    d["reserved"] = bytes(b[off + 7: off + 8])
    d["sta"], d["loc"], d["chan"], d["net"] = (bytes(b[off + x: off + y]) for x, y in ((8, 13), (13, 15), (15, 18), (18, 20)))
    (d["year"], d["yday"], d["hour"], d["minute"], d["sec"], d["unused"], d["tenth"]) = struct.unpack_from(e + "HHBBBBH", b, off + 20)
    (d["nsamp"], d["factor"], d["mult"], d["act"], d["io"], d["qual"], d["numblk"], d["corr"], d["dataoff"],
     d["blkoff"]) = struct.unpack_from(e + "HhhBBBBiHH", b, off + 30)
    blk = []
    p = d["blkoff"]
    last = 48
    exp = None
    while p:
        if p < last:
            raise ValueError(f"blockette at {p} before {last}")
        num, nxt = struct.unpack_from(e + "HH", b, off + p)
        size = {1000: 8, 100: 12, 1001: 8}.get(num)
        end = nxt or (p + size if size else d["dataoff"] or (1 << exp if exp is not None else len(b)))
        if size is not None and end < p + size:
            raise ValueError(f"blockette {num} at {p} overlaps the next at {end}")
        if end < p + 4 and size is None:
            raise ValueError(f"blockette {num} at {p} of no size, next {nxt}")
        body = bytes(b[off + p + 4: off + (p + size if size else end)])
        if num == 1000:
            blk.append(("1000", body[0], body[1], body[2]))
            exp = body[2]
        elif num == 100:
            blk.append(("100", struct.unpack(e + "f", body[:4])[0]))
        elif num == 1001:
            blk.append(("1001", body[0], body[1], body[3]))
        else:
            blk.append(("raw", num, body))
        last = end
        if nxt and nxt <= p:
            raise ValueError("blockette chain goes back")
        p = nxt
    d["blockettes"] = blk
    d["blkend"] = last
    if len(blk) != d["numblk"]:
        raise ValueError(f"{d['numblk']} blockettes declared, {len(blk)} in the chain")
    if exp is None:
        raise ValueError("no blockette 1000")
    d["exp"] = exp
    d["size"] = 1 << exp
    if len(b) - off < d["size"]:
        raise ValueError(f"{len(b) - off} bytes, declares {d['size']}")
    if last > d["size"]:
        raise ValueError(f"blockettes end at {last}, record at {d['size']}")
    k = [x for x in blk if x[0] == "1000"][-1]
    d["encoding"], d["data"] = k[1], ">" if k[2] else "<"
    if d["dataoff"]:
        if d["dataoff"] < last or d["dataoff"] > d["size"]:
            raise ValueError(f"data at {d['dataoff']}, blockettes end at {last}")
        d["payload"] = bytes(b[off + d["dataoff"]: off + d["size"]])
    else:
        d["payload"] = b""
    return d


def rate(factor, mult):
    """exact nominal rate"""
    if factor == 0 or mult == 0:
        return Fraction(0)
    f = Fraction(factor) if factor > 0 else Fraction(-1, factor)
    return f * mult if mult > 0 else f / -mult


def primitive(encoding, order, vals):
    return struct.pack(order + str(len(vals)) + {1: "h", 3: "i", 4: "f", 5: "d"}[encoding], *vals)
