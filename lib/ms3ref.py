"""Independent miniSEED 3 layout, from the FDSN definition."""
import json
import struct

_T = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ (0x82F63B78 if _c & 1 else 0)
    _T.append(_c)


def crc32c(data):
    c = 0xFFFFFFFF
    for b in data:
        c = _T[(c ^ b) & 0xFF] ^ (c >> 8)
    return c ^ 0xFFFFFFFF


FIELDS = ["flags", "nanosecond", "year", "dayOfYear", "hour", "minute", "second", "encoding", "sampleRatePeriod",
          "numSamples", "publicationVersion"]
DEFAULT = dict(flags=0, nanosecond=0, year=2024, dayOfYear=1, hour=0, minute=0, second=0, encoding=3, sampleRatePeriod=20.0,
               numSamples=0, publicationVersion=1)


def build(f, ident, eh, payload):
    """f: dict of the header fields; ident, eh, payload: bytes"""
    d = dict(DEFAULT)
    d.update(f)
    out = bytearray()
    out += b"MS"
    out += bytes([3, d["flags"]])
    out += d["nanosecond"].to_bytes(4, "little")
    out += d["year"].to_bytes(2, "little")
    out += d["dayOfYear"].to_bytes(2, "little")
    out += bytes([d["hour"], d["minute"], d["second"], d["encoding"]])
    out += struct.pack("<d", d["sampleRatePeriod"])
    out += d["numSamples"].to_bytes(4, "little")
    out += bytes(4)
    out += bytes([d["publicationVersion"], len(ident)])
    out += len(eh).to_bytes(2, "little")
    out += len(payload).to_bytes(4, "little")
    assert len(out) == 40
    out += ident + eh + payload
    out[28:32] = crc32c(out).to_bytes(4, "little")
    return bytes(out)


def parse(b, off=0):
    """dict of everything in the record at off; raises ValueError"""
    if len(b) - off < 40:
        raise ValueError("short header")
    if b[off: off + 3] != b"MS\x03":
        raise ValueError("not a record")
    d = {}
    d["flags"] = b[off + 3]
    d["nanosecond"] = int.from_bytes(b[off + 4: off + 8], "little")
    d["year"] = int.from_bytes(b[off + 8: off + 10], "little")
    d["dayOfYear"] = int.from_bytes(b[off + 10: off + 12], "little")
    d["hour"], d["minute"], d["second"], d["encoding"] = b[off + 12: off + 16]
    (d["sampleRatePeriod"],) = struct.unpack("<d", b[off + 16: off + 24])
    d["numSamples"] = int.from_bytes(b[off + 24: off + 28], "little")
    d["crc"] = int.from_bytes(b[off + 28: off + 32], "little")
    d["publicationVersion"] = b[off + 32]
    i, e, p = b[off + 33], int.from_bytes(b[off + 34: off + 36], "little"), int.from_bytes(b[off + 36: off + 40], "little")
    end = off + 40 + i + e + p
    if end > len(b):
        raise ValueError("short record")
    d["ident"] = bytes(b[off + 40: off + 40 + i])
    d["eh"] = bytes(b[off + 40 + i: off + 40 + i + e])
    d["payload"] = bytes(b[off + 40 + i + e: end])
    d["size"] = end - off
    z = bytearray(b[off:end])
    z[28:32] = bytes(4)
    d["crcok"] = crc32c(z) == d["crc"]
    return d


def parse_all(b):
    out = []
    off = 0
    while off < len(b):
        d = parse(b, off)
        d["raw"] = bytes(b[off: off + d["size"]])
        out.append(d)
        off += d["size"]
    return out


def ehval(b):
    return json.loads(b.decode("utf-8")) if b else None


def same_float(a, b):
    return struct.pack("<d", a) == struct.pack("<d", b)
