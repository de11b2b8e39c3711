"""C31: the source id command and the descriptions tell the published meaning."""
import itertools
import re

import cli
import simplemseed as sm
from checks import c23
from vlib import req, raises

PROP = "C31"
LEVEL = "model_checking"
RULE = "every code of one character of the alphabet, and every command line of the option set to the depth; distinct by arguments"
BOUNDS = {
    "quick": "descriptions of every character to U+017F and of every text of 2 letters; every command line of 1 to 3 of 18 options and ids in all orders (known and unknown codes, joined and "
             "separate), every source code x band code as id; --sps of 500 rates and periods",
    "thorough": "command lines of 1 to 4 options, --sps of 5000 rates and periods",
}
ASSUME = ["the wording of types is that of the published table, long texts and layout are free; an unknown code is refused by a failure, what was asked before it may or may not be shown"]

# FDSN source identifiers 1.0, band codes: type, rate, response period
BANDS = {
    "J": ("", "> 5000", ""), "F": ("", ">= 1000 to < 5000", ">= 10 sec"), "G": ("", ">= 1000 to < 5000", "< 10 sec"), "D": ("", ">= 250 to < 1000", "< 10 sec"),
    "C": ("", ">= 250 to < 1000", ">= 10 sec"), "E": ("Extremely Short Period", ">= 80 to < 250", "< 10 sec"), "S": ("Short Period", ">= 10 to < 80", "< 10 sec"),
    "H": ("High Broadband", ">= 80 to < 250", ">= 10 sec"), "B": ("Broadband", ">= 10 to < 80", ">= 10 sec"), "M": ("Mid Period", "> 1 to < 10", ""), "L": ("Long Period", "~ 1", ""),
    "V": ("Very Long Period", ">= 0.1 to < 1", ""), "U": ("Ultra Long Period", ">= 0.01 to < 0.1", ""), "W": ("Ultra-ultra Long Period", ">= 0.001 to < 0.01", ""),
    "R": ("Extremely Long Period", ">= 0.0001 to < 0.001", ""), "P": ("On order of 0.1 to 1 day", ">= 0.00001 to < 0.0001", ""),
    "T": ("On order of 1 to 10 days", ">= 0.000001 to < 0.00001", ""), "Q": ("Greater than 10 days", "< 0.000001", ""), "I": ("Irregularly sampled", "irregular", ""),
    "A": ("Administrative", None, ""), "O": ("Opaque", None, ""),
}
SOURCES = {
    "H": "High Gain Seismometer", "L": "Low Gain Seismometer", "M": "Mass Position Seismometer", "N": "Accelerometer", "P": "Geophone", "A": "Tilt Meter", "B": "Creep Meter",
    "C": "Calibration Input", "D": "Pressure", "E": "Electronic Test Point", "F": "Magnetometer", "I": "Humidity", "J": "Rotational Sensor", "K": "Temperature", "O": "Water Current",
    "G": "Gravimeter", "Q": "Electric Potential", "R": "Rainfall", "S": "Linear Strain", "T": "Tide", "U": "Bolometer", "V": "Volumetric Strain", "W": "Wind",
    "X": "Derived or generated channel", "Y": "Non-specific instruments", "Z": "Synthesized Beams",
}


def squeeze(t):
    return re.sub(r"\s+", " ", t).strip()


def is_band(text, c):
    """text describes band c"""
    typ, rate, resp = BANDS[c]
    t = squeeze(text)
    req(typ in t, lambda: f"{c}: {text!r} does not say {typ!r}")
    if not typ:
        req(not re.search(r"[A-Za-z]{3,}", t.replace("response period", "").replace("sec", "").replace(" to ", "")), lambda: f"{c}: {text!r} has a type")
    else:
        others = [x[0] for x in BANDS.values() if x[0] and typ in x[0] and x[0] != typ]
        req(not any(o in t for o in others), lambda: f"{c}: {text!r} is not {typ!r}")
    if rate is not None:
        rest = t.replace(typ, "", 1) if typ else t
        num = lambda s: [(op, float(x)) for op, x in re.findall(r"([<>~]=?)\s*([0-9.]+)", s)]
        want = num(rate) + num(resp)
        req(num(rest) == want and ("irregular" in rest.lower()) == (rate == "irregular"), lambda: f"{c}: {text!r} does not say {rate!r} {resp!r}")
    req(("response" in t) == bool(resp), lambda: f"{c}: {text!r}, response should be {resp!r}")


def is_source(text, c):
    t = squeeze(text)
    req(t.startswith(SOURCES[c]), lambda: f"{c}: {text!r} is not {SOURCES[c]!r}")


def case_describe(rec, codes):
    for c in codes:
        rec.step(2)
        rec.state("describe", c)
        if c in BANDS:
            is_band(sm.bandCodeDescribe(c), c)
        else:
            req(raises(lambda: sm.bandCodeDescribe(c)), lambda: f"band {c!r} is described as {sm.bandCodeDescribe(c)!r}")
        if c in SOURCES:
            is_source(sm.sourceCodeDescribe(c), c)
        else:
            req(raises(lambda: sm.sourceCodeDescribe(c)), lambda: f"source {c!r} is described as {sm.sourceCodeDescribe(c)!r}")


def describe_all(rec):
    for k in range(0, 0x180, 32):
        rec.case("case_describe", [chr(c) for c in range(k, k + 32)])
    U = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    for a in U:
        rec.case("case_describe", [a + b for b in U] + [a + " ", " " + a, a + a.lower(), a.lower() * 2])
    rec.case("case_describe", ["", "NaN", "None"])


OPTS = {
    "b1": ["-b", "H"], "b2": ["-b", "B", "S", "L"], "bj": ["--band", "EQ"], "bx": ["-b", "N"], "s1": ["-s", "N"], "s2": ["--source", "H", "Z", "D"], "sx": ["-s", "1"],
    "ab": ["--allbands"], "as": ["--allsources"], "p1": ["--sps", "100"], "p2": ["--sps", "0.5"], "p3": ["--sps", "-10"], "p0": ["--sps", "0"], "v": ["-v"],
    "i1": ["FDSN:CO_JSC_00_H_H_Z"], "i2": ["FDSN:XX_A__B_N_"], "ix": ["FDSN:CO_JSC_00_X_H_Z"], "iy": ["CO_JSC"],
}


def case_command(rec, names):
    rec.step()
    rec.state("command", tuple(names))
    argv = []
    for n in names:
        argv += OPTS[n]
        if n[0] in "bs":
            argv += ["--sps", "20"]  # ends the list of codes
    rates = [x for x in zip(argv, argv[1:]) if x[0] == "--sps"]
    rate = float(rates[-1][1]) if rates else None
    band = source = None
    ids = []
    for n in names:
        a = OPTS[n]
        if n[0] == "b":
            band = list("".join(a[1:]))
        if n[0] == "s":
            source = a[1:]
        if n[0] == "i":
            ids.append(a[0])
    rc, out, err, exc = cli.run("fdsnsourceid", argv)
    # argparse takes ids in one group only
    groups = len([k for k, n in enumerate(names) if n[0] == "i" and (k == 0 or names[k - 1][0] != "i")])
    bad = groups > 1 or "ix" in names or "iy" in names or (band and "N" in band) or (source and "1" in source)
    empty = rate is None and band is None and source is None and not ids and "ab" not in names and "as" not in names
    if bad or empty:
        req(rc != 0, lambda: f"{argv}: exit status {rc}, {out!r}")
        return
    req(rc == 0 and exc is None, lambda: f"{argv}: exit status {rc} {exc!r} {err}")
    lines = [re.fullmatch(r"\s*(Rate|Band|Source|Net|Sta|Loc|Subsource):(.*)", x) for x in out.split("\n")]
    lines = [(m[1], m[2].strip()) for m in lines if m]
    wantb, wants, wantr = [], [], []
    if rate is not None:
        r = None if rate == 0 else rate if rate > 0 else -1 / rate
        sets = [{"I"}] if r is None else [c23.model(r, 0.01), c23.model(r, 10)]
        wantr = sets[:1] if sets[0] == sets[-1] else sets
    if "ab" in names:
        wantb += sorted(BANDS)
    wantb2 = (band or []) + [x.split("_")[3] for x in ids]
    if "as" in names:
        wants += sorted(SOURCES)
    wants2 = (source or []) + [x.split("_")[4] for x in ids]

    def judge(label, first, then, check):
        got = [re.fullmatch(r"(\S) - (.*)", v) for k, v in lines if k == label]
        req(all(got), lambda: f"{argv}: {label} lines of {out!r}")
        c = [m[1] for m in got]
        req(sorted(c[: len(first)]) == first and c[len(first):] == then, lambda: f"{argv}: {label} codes {c}, should be {first} then {then}")
        for m in got:
            check(m[2], m[1])

    judge("Band", wantb, wantb2, is_band)
    judge("Source", wants, wants2, is_source)
    got = [re.fullmatch(r"(\S+) - (\S) - (.*)", v) for k, v in lines if k == "Rate"]
    req(len(got) == len(wantr) and all(m and float(m[1]) == rate and m[2] in w for m, w in zip(got, wantr)), lambda: f"{argv}: rates {out!r}")
    for m in got:
        is_band(m[3], m[2])
    for k, label in ((0, "Net"), (1, "Sta"), (2, "Loc"), (5, "Subsource")):
        v = [x for n, x in lines if n == label]
        w = [x.split(":")[1].split("_")[k] for x in ids]
        req(v == w, lambda: f"{argv}: {label} {v} not {w}")
    for x in ids:
        req(x in [y.strip() for y in out.split("\n")], lambda: f"{argv}: {x} not shown")


def commands_all(rec, n, first):
    for rest in itertools.product(OPTS, repeat=n - 1):
        rec.case("case_command", [first] + list(rest))
        if rec.stop:
            return


def case_id(rec, band):
    for s in SOURCES:
        rec.step()
        rec.state("id", band, s)
        rc, out, err, exc = cli.run("fdsnsourceid", [f"FDSN:CO_BIRD_00_{band}_{s}_1"])
        req(rc == 0, lambda: f"{band} {s}: exit status {rc} {exc!r}")
        m = re.search(r"Band: (\S) - (.*)", out)
        req(m and m[1] == band, lambda: f"{out!r}")
        is_band(m[2], band)
        m = re.search(r"Source: (\S) - (.*)", out)
        req(m and m[1] == s, lambda: f"{out!r}")
        is_source(m[2], s)


def case_process(rec, argv, ok):
    """the command in a process of its own"""
    rec.step()
    rec.state("process", tuple(argv))
    rc, out = cli.process("fdsnsourceid", argv)
    rc2, out2, err, exc = cli.run("fdsnsourceid", argv)
    req(out == out2 and rc == rc2 and (rc == 0) == ok, lambda: f"{argv}: exit status {rc} and {rc2}, {out!r} and {out2!r}")


def case_refused(rec, text):
    rec.step()
    rec.state("refused", text)
    rc, out, err, exc = cli.run("fdsnsourceid", [text])
    req(rc != 0, lambda: f"{text!r}: exit status {rc}, {out!r}")


def ids_all(rec):
    for text in ("", " FDSN:CO_BIRD_00_B_H_Z", "fdsn:CO_BIRD_00_B_H_Z", "CO_BIRD_00_B_H_Z", "FDSN:CO_BIRD_00_B_H", "FDSN:CO_BIRD_00_B_H_Z_", "FDSN:CO_BIRD_00_b_H_Z", "FDSN:CO_BIRD_00_B_h_Z", "CO.BIRD.00.BHZ",
                 "XFDSN:CO_BIRD_00_B_H_Z", "FDSN:CO_BIRD_00_BB_H_Z", "FDSN:CO_BIRD_00__H_Z", "FDSN:CO_BIRD_00_B__Z"):
        rec.case("case_refused", text)
    for argv, ok in ((["FDSN:CO_BIRD_00_B_H_Z"], True), (["-b", "BH", "-s", "H"], True), (["--sps", "20"], True), (["--allbands"], True), (["--allsources"], True), ([], False), (["FDSN:CO"], False), (["-b", "1"], False),
                     (["-s", "1"], False), (["--sps", "x"], False)):
        rec.case("case_process", argv, ok)
    for b in BANDS:
        rec.case("case_id", b)


def case_rates(rec, vals):
    for v in vals:
        rec.step()
        rec.state("sps", v)
        rc, out, err, exc = cli.run("fdsnsourceid", ["--sps", repr(v)] if v > 0 else [f"--sps={v!r}"])
        req(rc == 0, lambda: f"{v}: exit status {rc} {exc!r}")
        rate = v if v > 0 else -1.0 / v
        want = [c23.model(rate, 0.01), c23.model(rate, 10)]
        want = want[:1] if want[0] == want[1] else want
        got = re.findall(r"Rate: (\S+) - (\S) - (.*)", out)
        req(len(got) == len(want) and all(float(g[0]) == v and g[1] in w for g, w in zip(got, want)), lambda: f"{v}: {out!r}")
        for g in got:
            is_band(g[2], g[1])


def rates_all(rec, part, n):
    vals = []
    for e in range(-8, 5):
        vals += [round(k * 10.0**e / (n / 20), 12) for k in range(1, n // 4)]
    vals = sorted({v for v in vals if v > 0} | {79.99, 80.0, 80.01, 249.9, 250.0, 999.9, 1000.0, 4999.9, 5000.0, 5000.1, 9.99, 10.0, 1.0, 0.1, 0.01, 0.001})
    vals = vals[part::8]
    for k in range(0, len(vals), 50):
        rec.case("case_rates", vals[k: k + 50])
        rec.case("case_rates", [-v for v in vals[k: k + 50]])


def shards(tier):
    q = tier == "quick"
    out = [("describe_all", ()), ("ids_all", ())]
    out += [("rates_all", (p, 80 if q else 800)) for p in range(8)]
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        out += [("commands_all", (n, first)) for first in OPTS]
    return out
