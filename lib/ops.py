"""Calls of the library on given inputs, with what a user can observe of their results. Shared by C24 and C25."""
import copy
import io
import os
import pickle
import types

import numpy as np

import simplemseed as sm
from simplemseed.mseed3 import mseed3merge
import ms2ref
import ms3ref

def material(v):
    """records and encoded data passed in; two variants, of the same shapes and sizes, with other values"""
    m = types.SimpleNamespace()
    m.P3 = np.array([[5, -6, 7, 8], [-7, 11, 6, -9]][v], dtype="<i4").tobytes()
    day = dict(dayOfYear=1 + 100 * v, flags=2 * v, publicationVersion=1 + v)
    sid = [b"FDSN:XX_AAA__B_H_Z", b"FDSN:XX_CCC__B_N_E"][v]
    two = np.array([[1.5, -2.25], [-0.75, 1e10]][v]).tobytes()
    slow = dict(numSamples=2, encoding=5, sampleRatePeriod=-10.0 - v, flags=5 - v)
    sid2 = [b"FDSN:YY_BBB_10_L_H_N", b"FDSN:YY_DDD_00_L_N_Z"][v]
    m.REC_A = ms3ref.build(dict(numSamples=4, **day), sid, [b'{"a":1,"b":{"c":[2]}}', b'{"a":3,"x":{"d":[9]}}'][v], m.P3)
    m.REC_B = ms3ref.build(dict(numSamples=4, nanosecond=200000000, **day), sid, b"", m.P3)
    m.REC_C = ms3ref.build(slow, sid2, [b'{"x":"\xc3\xa9"}', b'{"y":"\xc3\xa8"}'][v], two)
    # as the library writes extra headers, so packing does not change lengths and CRC
    m.REC_D = ms3ref.build(slow, sid2, [b'{"x": "\\u00e9"}', b'{"z": "\\u00e8"}'][v], two)
    m.REC_BAD = bytes([*m.REC_A[:-1], m.REC_A[-1] ^ 1])
    f = dict(sec=56 - 9 * v, tenth=7890 + 11 * v, corr=1234 + v, act=3 - v, seq=321 * (v + 1))
    three = np.array([[1, -2, 300], [4, 500, -6]][v], dtype=">i2").tobytes()
    m.MS2_L = ms2ref.build(dict(nsamp=4, sta=["BB", "EE"][v], loc="", io=32, quality="MQ"[v], **f), header="<", data="<", exp=7, payload=m.P3,
                           blockettes=[("1000",), ("1001", 99 - v, 45 + v, 2 + v)])
    m.MS2_B = ms2ref.build(dict(nsamp=3, chan=["LHN", "LNZ"][v], factor=-10 - v, qual=128 >> v, **f), encoding=1, exp=8, payload=three, blockettes=[("1000",), ("100", 0.125 * (1 + v))])
    m.MS2_T = ms2ref.build(dict(nsamp=0, chan=["LOG", "OCF"][v], factor=0, mult=0, **f), encoding=0, exp=7, dataoff=0)
    # made by the reference rules: x0, xn, then four 1 byte differences in a word (nibble 1)
    m.S1_BYTES = bytes.fromhex(["01000000" "00000005" "0000000c" "05010204", "01000000" "00000009" "0000000e" "09030101"][v] + "00" * 48)
    m.REC_S = ms3ref.build(dict(numSamples=4, encoding=10, **day), sid2, b"", m.S1_BYTES)
    m.MS2_S = ms2ref.build(dict(nsamp=4, **f), encoding=10, exp=7, payload=m.S1_BYTES)
    m.S2_BAD = bytes.fromhex("02000000" "00000005" "0000000c" "05010204" + "00" * 48)  # nibble 2 with dnib 0
    return m


M = [material(0), material(1)]
REC_A, REC_B, REC_C, REC_BAD, MS2_L, MS2_B, MS2_T = (getattr(M[0], k) for k in ("REC_A", "REC_B", "REC_C", "REC_BAD", "MS2_L", "MS2_B", "MS2_T"))


class Inputs:
    """everything that is passed in; one per caller"""

    def __init__(self, v=0):
        m = M[v]
        self.v = v
        self.i32 = np.array([[1, 2, 4, 100000, -5, 6, 7, 8], [9, 8, -70000, 2, 1, 3, 3, -4]][v], dtype=np.int32)
        self.i16be = np.array([[1, -2, 300], [-500, 6, 7]][v], dtype=">i2")
        self.i64 = np.array([[9, -9, 70000], [4, 80000, -8]][v], dtype=np.int64)
        self.f32 = np.array([[0.5, -1.25], [3.5, 0.125]][v], dtype=np.float32)
        self.lst = [[3, 1, -4, 1, 5, -900, 2, 6, 50, 0, 0, 1], [1, 4, 800, 3, -5, 7, 2, 2, 0, -60, 1, 1]][v]
        self.flst = [[1.5, 2], [3, -0.25]][v]
        self.wide = [0, 2**30 + 5 + v, 0]
        self.buf = bytearray(m.REC_A)
        self.stream3 = m.REC_A + m.REC_C + m.REC_B
        self.stream2 = m.MS2_L + m.MS2_T + m.MS2_B
        self.eh = [{"a": {"b": [1, 2]}, "\u00e9": None}, {"a": {"k": [7, 2]}, "\u00e8": True}][v]
        self.recs = [sm.unpackMSeed3Record(b) for b in (m.REC_A, m.REC_B, m.REC_C)]
        self.r3 = sm.unpackMSeed3Record(m.REC_D)
        self.r2 = sm.unpackMiniseedRecord(m.MS2_L)
        self.r2b = sm.unpackMiniseedRecord(m.MS2_B)
        self.r3s = sm.unpackMSeed3Record(m.REC_S)
        self.r2s = sm.unpackMiniseedRecord(m.MS2_S)
        self.h3 = self.mk3(3)
        self.h2 = self.mk2()
        self.sid = sm.FDSNSourceId.parse(["FDSN:XX_AAA__B_H_Z", "FDSN:XX_CCC__B_N_E"][v])
        self.seg = sm.EncodedDataSegment(10, m.S1_BYTES, 4, False)

    @property
    def m(self):
        return M[self.v]

    @property
    def sidtext(self):
        return ["FDSN:XX_AAA__B_H_Z", "FDSN:XX_CCC__B_N_E"][self.v]

    def mk3(self, enc=-1):
        h = sm.MSeed3Header()
        h.starttime = ["2024-02-29T12:34:56.789012Z", "2023-11-03T01:14:36.280015Z"][self.v]
        h.sampleRate = 20.0 + self.v
        h.encoding = enc
        return h

    def mk2(self):
        if self.v:
            return sm.MiniseedHeader("YY", "CCC", "10", "BNE", "2023-11-03T01:14:36.280015Z", 3, 21.0)
        return sm.MiniseedHeader("XX", "AAA", "00", "BHZ", "2024-02-29T12:34:56.789012Z", 3, 20.0)

    def digest(self):
        return tuple((k, digest(v)) for k, v in sorted(vars(self).items()))


def digest(v):
    """what can be observed of a value, without touching it"""
    if v is None or isinstance(v, (bool, int, str)):
        return (type(v).__name__, v)
    if isinstance(v, float):
        return ("float", v.hex())
    if isinstance(v, np.generic):
        return (v.dtype.str, v.tobytes())
    if isinstance(v, np.ndarray):
        return ("array", v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, (bytes, bytearray, memoryview)):
        return ("bytes", bytes(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(digest(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((k, digest(x)) for k, x in v.items())
    if isinstance(v, BaseException):
        return ("raised", type(v).__name__)
    if isinstance(v, sm.MSeed3Record):
        v = copy.deepcopy(v)
        out = [str(v.identifier), v.header.flags, v.header.publicationVersion, v.header.numSamples, v.header.encoding, v.header.sampleRate, str(v.starttime)]
        out.append(digest(v.eh))
        try:
            out.append(digest(v.decompress()))
        except Exception as e:
            out.append(type(e).__name__)
        out.append(bytes(v.pack()))
        return ("ms3",) + tuple(out)
    if isinstance(v, sm.MiniseedRecord):
        v = copy.deepcopy(v)
        h = v.header
        out = [v.codes(), h.sequence_number, h.dataquality, h.numSamples, h.encoding, h.byteorder, h.sampleRate, str(v.starttime()), h.actFlag, h.ioFlag, h.qualFlag, h.timeCorr, h.recordLength]
        try:
            out.append(digest(v.decompress()))
        except Exception as e:
            out.append(type(e).__name__)
        out += [repr(b) for b in v.blockettes]
        try:
            out.append(bytes(v.pack()))
        except Exception as e:
            out.append(type(e).__name__)
        return ("ms2",) + tuple(out)
    if isinstance(v, sm.MSeed3Header):
        v = copy.deepcopy(v)
        return ("h3", bytes(v.pack()), str(v.starttime), v.sampleRate, v.numSamples, v.encoding)
    if isinstance(v, sm.MiniseedHeader):
        v = copy.deepcopy(v)
        return ("h2", bytes(v.pack()), str(v.starttime), v.sampleRate, v.numSamples, v.encoding)
    if isinstance(v, sm.EncodedDataSegment):
        return ("seg", v.compressionType, bytes(v.dataBytes), v.numSamples, v.littleEndian)
    if isinstance(v, sm.SteimFrameBlock):
        v = copy.deepcopy(v)
        return ("block", v.numSamples, bytes(v.pack()))
    return (type(v).__name__, str(v))


def _sids(i):
    if i.v:
        out = [sm.FDSNSourceId.parse("FDSN:YY_BBB_10_L_N_E"), sm.NetworkSourceId("Y2"), sm.FDSNSourceId.fromNslc("IU", "ANM", "", "LOG", 0), sm.FDSNSourceId.parse("FDSN:IU_ANM")]
    else:
        out = [sm.FDSNSourceId.parse("FDSN:XX_AAA_00_B_H_Z"), sm.NetworkSourceId("X1"), sm.FDSNSourceId.fromNslc("CO", "JSC", "", "HHZ", 0), sm.FDSNSourceId.parse("FDSN:CO_JSC")]
    return [str(x) for x in out] + [str(out[0].asNslc()), str(out[0].stationSourceId()), digest(out[2].validate())]


def _create3(i):
    return sm.MSeed3Record(i.mk3(), i.sidtext, i.i16be, extraHeaders=i.eh).pack()


def _pack2(i, data=None, length=None):
    h = i.mk2()
    if length:
        h.recordLengthExp, h.recordLength = length, 2**length
    data = i.i16be if data is None else data
    h.numSamples = len(data)
    return sm.MiniseedRecord(h, data).pack()


def _grow2(i):
    """records made without blockettes, which get some of their own"""
    out = []
    for _ in range(2):
        r = sm.MiniseedRecord(i.mk2(), i.i16be)
        out.append([repr(b) for b in r.blockettes])
        r.blockettes.append(r.createB1001())
        out.append(bytes(r.pack()))
        out.append([repr(b) for b in r.blockettes])
    return out


class Source(io.BytesIO):
    """a stream in whose reading other threads can run"""

    def read(self, *n):
        b = super().read(*n)
        return b

    def readinto(self, b):
        n = super().readinto(b)
        return n


SOURCE_CODE = (Source.read.__code__, Source.readinto.__code__)


def diff(a, b):
    while isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        x = [k for k in range(len(a)) if a[k] != b[k]]
        if not x:
            break
        a, b = a[x[0]], b[x[0]]
    return f"{a!r:.200} not {b!r:.200}"


OPS = {
    "enc1": lambda i: sm.encodeSteim1(i.i32),
    "enc1list": lambda i: sm.encodeSteim1(i.lst),
    "enc1part": lambda i: sm.encodeSteim1FrameBlock(i.lst * 4, 1),
    "enc2": lambda i: sm.encodeSteim2(i.i32),
    "enc2list": lambda i: sm.encodeSteim2FrameBlock(i.lst, 0),
    "enc2fail": lambda i: sm.encodeSteim2(i.wide),
    "encfloat": lambda i: sm.encodeSteim1(i.flst),
    "dec1": lambda i: sm.decodeSteim1(i.m.S1_BYTES, 4),
    "dec1fail": lambda i: sm.decodeSteim1(i.m.S1_BYTES, 9),
    "dec2": lambda i: sm.decodeSteim2(i.m.S1_BYTES, 4),
    "dec2fail": lambda i: sm.decodeSteim2(i.m.S2_BAD, 4),
    "codec": lambda i: [sm.encode(i.f32), sm.decompress(4, i.f32.tobytes(), 2, True), sm.encode(i.i16be, 1, False)],
    "codecfail": lambda i: sm.decompress(19, i.m.P3, 4, True),
    "unpack3": lambda i: sm.unpackMSeed3Record(i.buf),
    "unpack3fail": lambda i: sm.unpackMSeed3Record(i.m.REC_BAD, check_crc=True),
    "read3": lambda i: list(sm.readMSeed3Records(Source(i.stream3), matchsid="XX")),
    "create3": _create3,
    "create3seg": lambda i: sm.MSeed3Record(i.mk3(), i.sidtext, i.seg).pack(),
    "create3fail": lambda i: sm.MSeed3Record(i.mk3(5), i.sidtext, i.i32).pack(),
    "merge": lambda i: mseed3merge(i.recs[0], i.recs[1]),
    "mergenot": lambda i: mseed3merge(i.recs[0], i.recs[2]),
    "readmerge": lambda i: list(sm.readMSeed3Records(Source(i.m.REC_A + i.m.REC_B + i.m.REC_C), merge=True)),
    "use3": lambda i: [i.r3.decompress(), i.r3.summary(), i.r3.details(), i.r3.eh, i.r3.clone(), i.r3.decompressedRecord()],
    "use3steim": lambda i: [i.r3s.decompressedRecord(), i.r3s.decompress(), i.r3s.details(showData=True), i.r3s.clone(), i.r3s.pack()],
    "derived3": lambda i: [len(i.r3.eh), i.r3.decompressedRecord(), i.r3.clone(), len(i.recs[0].eh), i.recs[0].decompressedRecord()],
    "header3": lambda i: [i.h3.clone(), str(i.h3.endtime), i.h3.pack()],
    "convert": lambda i: [sm.mseed2to3(i.r2), sm.mseed2to3(i.r2b)],
    "unpack2": lambda i: sm.unpackMiniseedRecord(i.m.MS2_B),
    "unpack2fail": lambda i: sm.unpackMiniseedRecord(i.m.MS2_L[:70]),
    "read2": lambda i: list(sm.readMiniseed2Records(Source(i.stream2))),
    "pack2": _pack2,
    "pack2fail": lambda i: _pack2(i, i.i32, 6),
    "use2": lambda i: [i.r2.decompress(), i.r2.summary(), i.r2.details(), i.r2.pack(), i.r2.clone(), str(i.r2.endtime())],
    "derived2": lambda i: [i.r2.clone(), i.r2b.clone(), i.r2s.clone()],
    "use2steim": lambda i: [i.r2s.decompressed(), i.r2s.decompress(), i.r2s.details(showData=True), i.r2s.clone(), i.r2s.pack()],
    "grow2": _grow2,
    "sids": _sids,
    "sidfail": lambda i: sm.FDSNSourceId.parse("FDSN:A_B_C_D_E_F_G"),
    "bands": lambda i: [sm.bandCodeForRate(r * (2 if i.v else 1), lb) for r in (0.1, 1.0, 20.0, 100.0, -300.0, 5000.0) for lb in (None, 0.01, 20)]
    + [sm.bandCodeDescribe("BH"[i.v]), sm.sourceCodeDescribe("HN"[i.v]), sm.sourceCodeDescribe("QW"[i.v])],
}
NAMES = list(OPS)
OTHER = [n + "~" for n in NAMES]  # the same calls on the other variant of the inputs


def call(name, inputs):
    try:
        return OPS[name.rstrip("~")](inputs)
    except Exception as e:
        return e


_BASE = None


def baseline():
    """digest of every call, each made alone in a process of its own, and of the inputs before it"""
    global _BASE
    if _BASE is None:
        out = {}
        for n in NAMES + OTHER:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    i = Inputs(int(n[-1] == "~"))
                    b = i.digest()
                    d = digest(call(n, i))
                    with os.fdopen(w, "wb") as f:
                        pickle.dump((b, d), f)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            out[n] = pickle.loads(data)
        _BASE = out
    return _BASE


# calls whose results share nothing with what was passed in
OWN = ("enc1", "enc1list", "enc1part", "enc2", "enc2list", "dec1", "dec2", "codec", "unpack3", "read3", "readmerge", "create3", "create3seg", "header3", "grow2", "convert", "merge", "use3steim", "derived3", "derived2", "unpack2", "read2", "pack2", "sids",
       "bands")


def scribble(v):
    """change a result in every way a user could"""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size:
            v[...] = 77
    elif isinstance(v, bytearray):
        v[:] = b"\xee" * len(v)
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        v.clear()
    elif isinstance(v, dict):
        for x in v.values():
            scribble(x)
        v.clear()
    elif isinstance(v, sm.MSeed3Record):
        try:
            scribble(v.decompress())
        except Exception:
            pass
        if v.eh is not None:
            scribble(v.eh)
        v.eh = {"scribbled": 1}
        v.header.flags = 255
        v.header.starttime = "1999-01-01T00:00:00Z"
        v.header.sampleRate = 3
    elif isinstance(v, sm.MiniseedRecord):
        try:
            scribble(v.decompress())
        except Exception:
            pass
        v.blockettes.clear()
        v.header.actFlag = 255
        v.header.setStartTime("1999-01-01T00:00:00Z")
        v.header.setSampleRate(3)
    elif isinstance(v, sm.MSeed3Header):
        v.flags = 255
        v.starttime = "1999-01-01T00:00:00Z"
        v.sampleRate = 3
    elif isinstance(v, sm.EncodedDataSegment):
        scribble(v.dataBytes)
        v.compressionType = 19
    elif isinstance(v, sm.SteimFrameBlock):
        v.numSamples = 0
