"""Record shapes and a model of the extra header commands, shared by C12, C13 and C27."""
import copy
import json
import re

import numpy as np

import simplemseed as sm
import ms3ref

P3 = np.array([5, -6, 7], dtype="<i4").tobytes()


def shape(i):
    return [
        ms3ref.build(dict(numSamples=3), b"FDSN:XX_AAA__B_H_Z", b'{"a":1,"b":{"c":2},"arr":[1,2]}', P3),
        ms3ref.build(dict(numSamples=3, second=7, flags=4), b"FDSN:XX_BBB_00_B_H_Z", b'{ "a" : [1, 2] }', P3),
        ms3ref.build(dict(numSamples=3, second=8, publicationVersion=2), b"FDSN:XX_AAA__L_H_Z", b"", P3),
        ms3ref.build(dict(numSamples=9, second=3, encoding=11, sampleRatePeriod=-1.0), b"FDSN:YY_AAA_10_L_H_N",
                     '{"é":"ü","b":{"c":"\\u00e9","d":null}}'.encode(), bytes(sm.encodeSteim2([1, 2, 3, -400, 5, 6, 7, 8, 100000]))),
        ms3ref.build(dict(numSamples=0, encoding=0, sampleRatePeriod=0.0, second=60), b"XFDSN:event", b'{"a":"b","b":{}}', b""),
        ms3ref.build(dict(numSamples=2, encoding=5, nanosecond=999999999, dayOfYear=366), b"FDSN:XX_AAA__B_H_Z", b"{}",
                     np.array([1.5, -2e9]).tobytes()),
    ][i]


SHAPES = [shape(i) for i in range(6)]
PARSED = [ms3ref.parse(s) for s in SHAPES]


def setptr(doc, ptr, val):
    """JSON pointer set; raises KeyError if the parent does not exist"""
    if ptr in ("", "/"):
        return copy.deepcopy(val)
    doc = copy.deepcopy(doc)
    toks = [t.replace("~1", "/").replace("~0", "~") for t in ptr.split("/")[1:]]
    cur = doc
    for t in toks[:-1]:
        if isinstance(cur, list):
            cur = cur[int(t)]
        elif isinstance(cur, dict):
            cur = cur[t]
        else:
            raise KeyError(t)
    t = toks[-1]
    if isinstance(cur, list):
        if t != "-" and (not t.isdigit() or t != str(int(t))):
            raise KeyError(t)
        if t == "-":
            cur.append(val)
        elif int(t) <= len(cur) and int(t) >= 0:
            if int(t) == len(cur):
                cur.append(val)
            else:
                cur[int(t)] = val
        else:
            raise KeyError(t)
    elif isinstance(cur, dict):
        cur[t] = copy.deepcopy(val)
    else:
        raise KeyError(t)
    return doc


def getptr(doc, ptr):
    """JSON pointer get; raises KeyError, IndexError or ValueError if not there"""
    if ptr == "":
        return doc
    cur = doc
    for t in ptr.split("/")[1:]:
        t = t.replace("~1", "/").replace("~0", "~")
        if isinstance(cur, list):
            if not t.isdigit() or (t[0] == "0" and t != "0"):
                raise KeyError(t)
            cur = cur[int(t)]
        elif isinstance(cur, dict):
            cur = cur[t]
        else:
            raise KeyError(t)
    return cur


def ehof(i):
    return ms3ref.ehval(PARSED[i]["eh"]) or {}


def matches(i, pat):
    return pat is None or re.search(pat, PARSED[i]["ident"].decode("utf-8")) is not None


def model_set(files, ptr, val, pat, setall):
    """per file list of None (unchanged) or the new value for each record; KeyError if not settable"""
    out = []
    looking = True
    for f in files:
        o = []
        for i in f:
            if matches(i, pat) and (setall or looking):
                looking = False
                o.append(setptr(ehof(i), ptr, val))
            else:
                o.append(None)
        out.append(o)
    return out


def check_file(data, seq, news):
    """problem text or None"""
    try:
        recs = ms3ref.parse_all(data)
    except ValueError as e:
        return f"not whole records: {e}"
    if len(recs) != len(seq):
        return f"{len(recs)} records not {len(seq)}"
    for k, (d, i, new) in enumerate(zip(recs, seq, news)):
        if new is None:
            if d["raw"] != SHAPES[i]:
                return f"record {k} was not selected but changed"
            continue
        o = PARSED[i]
        if not d["crcok"]:
            return f"record {k}: CRC"
        for n in ms3ref.FIELDS + ["ident", "payload"]:
            if d[n] != o[n]:
                return f"record {k}: {n} is {d[n]!r} not {o[n]!r}"
        try:
            v = ms3ref.ehval(d["eh"])
        except ValueError:
            return f"record {k}: extra headers {d['eh']!r}"
        if (v or {}) != new:
            return f"record {k}: extra headers {v!r} not {new!r}"
    return None
