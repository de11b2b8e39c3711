"""C22: source id validation accepts exactly the permitted codes."""
import itertools

import simplemseed as sm
from vlib import req

PROP = "C22"
LEVEL = "model_checking"
RULE = "every string over the alphabets to the length in each place, every single character of Unicode, every combination of representative codes; distinct by string and place"
BOUNDS = {
    "quick": "every character U+0000 to U+10FFFF alone and after a letter in 5 places; every string of 0 to 4 of 11 characters and 0 to 9 of 3 characters, and every "
             "replacement of one or two characters of codes of length 7 to 10, in 5 places; every combination of 11 networks, 11 stations, 12 locations, 6 sources, 7 subsources; "
             "temporary networks: every string of 0 to 6 of 7 characters and 0 to 9 of 3, every string of 1 and 2 of all 36 letters and digits",
    "thorough": "every character in 3 positions of codes of 2, 7 and 8, strings of 5 of 11 characters, 0 to 11 of 3, temporary networks of 8 of 6 characters",
}
ASSUME = ["any band code is used with valid ones only"]

UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIG = "0123456789"
PLACES = ["net", "sta", "loc", "src", "sub"]


def good(place, s):
    """permitted"""
    ok = UP + DIG + ("-" if place in ("sta", "loc") else "")
    for c in s:
        if c not in ok:
            return False
    n = len(s)
    if place in ("net", "sta"):
        return 1 <= n <= 8
    if place == "loc":
        return n <= 8 and s != "--"
    if place == "src":
        return n >= 1
    return True


def answer(x, want, what):
    r = x.validate()
    req(isinstance(r, tuple) and len(r) == 2, lambda: f"{what}: {r!r}")
    req(bool(r[0]) is want, lambda: f"{what}: {r!r}, should be {want}")
    if not want:
        req(isinstance(r[1], str) and r[1] != "", lambda: f"{what}: no reason, {r!r}")


def check(place, s, kinds=3):
    want = good(place, s)
    codes = dict(net="XX", sta="ABC", loc="00", src="H", sub="Z")
    codes[place] = s
    c = codes
    what = f"{place} {s!r}"
    answer(sm.FDSNSourceId(c["net"], c["sta"], c["loc"], "B", c["src"], c["sub"]), want, what)
    if kinds == 1:
        return
    if place == "net":
        answer(sm.NetworkSourceId(s), want, what + " network id")
    if place in ("net", "sta"):
        answer(sm.StationSourceId(c["net"], c["sta"]), want, what + " station id")
    if place in ("net", "sta", "loc"):
        answer(sm.LocationSourceId(c["net"], c["sta"], c["loc"]), want, what + " location id")


def case_chars(rec, place, lo, hi, before, after):
    for k in range(lo, hi):
        s = before + chr(k) + after
        rec.step()
        check(place, s, 1)
    rec.state("chars", place, lo, hi, before, after)


def chars_all(rec, place, lo, hi, q):
    for before, after in (("", ""), ("A", "")) if q else (("", ""), ("A", ""), ("", "A"), ("ABCDEF", ""), ("ABC", "1234"), ("1234567", "")):
        for k in range(lo, hi, 4096):
            rec.case("case_chars", place, k, min(hi, k + 4096), before, after)
            if rec.stop:
                return


def case_strings(rec, place, alphabet, n, first):
    for rest in itertools.product(alphabet, repeat=max(0, n - 1)):
        s = (first if n else "") + "".join(rest)
        rec.step()
        rec.state(place, s)
        check(place, s)
        if place == "net":
            check_temp(s)


def strings_all(rec, place, alphabet, n):
    for first in alphabet if n else alphabet[:1]:
        rec.case("case_strings", place, alphabet, n, first)
        if rec.stop:
            return


ODD = "a_ -.\n\u0661\u00c9\uff21\0"


def case_replace(rec, place, base):
    check(place, base)
    for i in range(len(base)):
        for c in ODD:
            s = base[:i] + c + base[i + 1 :]
            rec.step()
            rec.state(place, s)
            check(place, s)
            for j in range(i + 1, len(base)):
                for d in ODD:
                    check(place, s[:j] + d + s[j + 1 :])
                    rec.step()


def replace_all(rec, place):
    for n in range(1, 13):
        for base in ("ABCDEFGHIJKLM", "0123456789012", "Z9Z9Z9Z9Z9Z9Z"):
            rec.case("case_replace", place, base[:n])
    for n in (8, 9, 20, 100, 1000, 70000):
        rec.case("case_replace0", place, n)


def case_replace0(rec, place, n):
    for c in "A0-":
        rec.step()
        check(place, c * n)
        check(place, c * (n - 1) + "\n")


NETS = ["XX", "A", "12345678", "XD1994", "", "123456789", "xx", "A-", "A B", "X_X", "\u0661\u0661"]
STAS = ["ABC", "-", "A-B-C-D-", "--", "", "ABCDEFGHI", "abc", "A.B", "A_B", "AB\n", "\u00c9"]
LOCS = ["", "00", "-", "---", "12345678", "--", "123456789", "aa", "0.0", "_", "00\n", " "]
SRCS = ["H", "HH1", "", "h", "H-", "H\n"]
SUBS = ["", "Z", "Z12345678901", "z", "-", "Z\n", " "]


def case_combos(rec, net, sta):
    for loc, src, sub, band in itertools.product(LOCS, SRCS, SUBS, ["B", "", "H"]):
        want = good("net", net) and good("sta", sta) and good("loc", loc) and good("src", src) and good("sub", sub)
        rec.step()
        rec.state(net, sta, loc, src, sub, band)
        x = sm.FDSNSourceId(net, sta, loc, band, src, sub)
        answer(x, want, repr((net, sta, loc, band, src, sub)))
        if "_" not in net + sta + loc + src + sub:
            answer(sm.FDSNSourceId.parse(str(x)), want, "parsed " + repr((net, sta, loc, band, src, sub)))
    for loc in LOCS:
        answer(sm.LocationSourceId(net, sta, loc), good("net", net) and good("sta", sta) and good("loc", loc), repr((net, sta, loc)))
    answer(sm.StationSourceId(net, sta), good("net", net) and good("sta", sta), repr((net, sta)))
    answer(sm.NetworkSourceId(net), good("net", net), repr(net))


def combos_all(rec, net):
    for sta in STAS:
        rec.case("case_combos", net, sta)


def temporary(s):
    if any(c not in UP + DIG for c in s):
        return False
    if len(s) == 2:
        return s[0] in DIG + "XYZ" and s != "XX"
    return 5 <= len(s) <= 8 and all(c in DIG for c in s[-4:])


def check_temp(s):
    x = sm.NetworkSourceId(s)
    plain = all(c in UP + DIG for c in s)
    seed = plain and len(s) == 2 and s[0] in DIG + "XYZ" and s != "XX"
    req(bool(x.isSeedTempNet()) is seed, lambda: f"network {s!r} SEED style: {x.isSeedTempNet()}")
    year = plain and 5 <= len(s) <= 8 and all(c in DIG for c in s[-4:])
    req(bool(x.isTempNetConvention()) is year, lambda: f"network {s!r} with start year: {x.isTempNetConvention()}")
    hist = year and len(s) == 6 and s[0] in DIG + "XYZ" and s[:2] != "XX"
    req(bool(x.isTempNetHistorical()) is hist, lambda: f"network {s!r} mapped from SEED: {x.isTempNetHistorical()}")
    got = x.isTemporary()
    req(bool(got) is temporary(s), lambda: f"network {s!r} temporary: {got}")


def case_temp(rec, alphabet, n, first):
    for rest in itertools.product(alphabet, repeat=max(0, n - 1)):
        s = (first if n else "") + "".join(rest)
        rec.step()
        rec.state("temp", s)
        check_temp(s)


def temp_all(rec, alphabet, n):
    for first in alphabet if n else alphabet[:1]:
        rec.case("case_temp", alphabet, n, first)
        if rec.stop:
            return


def case_tempodd(rec, base):
    for i in range(len(base)):
        for c in ODD:
            s = base[:i] + c + base[i + 1 :]
            rec.step()
            rec.state("temp", s)
            check_temp(s)
            check_temp(base + c)
            check_temp(c + base)


def tempodd_all(rec):
    for base in ("XA", "9A", "XX", "Y1", "A2020", "AB2020", "ABC2020", "ABCD2020", "ABCDE2020", "XX2020", "12020", "12342020", "2020", "XD1994", "0000", "00000"):
        rec.case("case_tempodd", base)


def shards(tier):
    q = tier == "quick"
    out = [("tempodd_all", ())] + [("combos_all", (n,)) for n in NETS]
    for p in PLACES:
        out += [("chars_all", (p, k, k + 0x11000, q)) for k in range(0, 0x110000, 0x11000)]
        out += [("strings_all", (p, "A0-_a \n\u0661\u00c9.\uff21", n)) for n in range(5 if q else 6)]
        out += [("strings_all", (p, "A0-", n)) for n in range(5, 10 if q else 12)]
        out += [("replace_all", (p,))]
    out += [("temp_all", ("09AXYZW", n)) for n in range(7 if q else 8)]
    out += [("temp_all", ("09AXYZ", n)) for n in ([] if q else [8])]
    out += [("temp_all", ("0AX", n)) for n in range(7, 10)]
    out += [("temp_all", (UP + DIG, n)) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    return out
