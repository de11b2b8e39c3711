"""C21: source ids and NSLC codes parse and format without loss."""
import itertools

import cli
import simplemseed as sm
from vlib import req, raises

PROP = "C21"
LEVEL = "model_checking"
RULE = "every text over the alphabet to the length after the prefix; every combination of the codes; every pair of ids"
BOUNDS = {
    "quick": "every text of 0 to 8 of 5 characters after FDSN:, every text of 0 to 6 of 7 characters alone; every combination of 9 networks, 8 stations, 7 locations, "
             "6 bands, 6 sources, 6 subsources as 4 kinds of id; every pair of 900 ids, and of 25 spellings of one code; NSLC of each channel id, 4 separators, 40 networks x 12 start years, 12 that are none; command line for "
             "every pair of band and source code",
    "thorough": "texts to 10 and 7 characters, pairs of 3000 ids",
}
ASSUME = ["codes hold no separator; a channel id without band code has no SEED style channel code"]

CLS = {1: "NetworkSourceId", 2: "StationSourceId", 3: "LocationSourceId", 6: "FDSNSourceId"}
ATTR = ["networkCode", "stationCode", "locationCode", "bandCode", "sourceCode", "subsourceCode"]


def cls(n):
    return getattr(sm, CLS[n])


def make(codes):
    return cls(len(codes))(*codes)


def codes_of(x, n):
    return tuple(getattr(x, a) for a in ATTR[:n])


def check_id(x, codes, what=""):
    n = len(codes)
    req(type(x) is cls(n), lambda: f"{what}{type(x).__name__} for {codes}")
    got = codes_of(x, n)
    req(got == tuple(codes), lambda: f"{what}codes {got} not {codes}")
    text = "FDSN:" + "_".join(codes)
    req(str(x) == text, lambda: f"{what}text {x} not {text}")


def model_parse(text):
    if text[:5] != "FDSN:":
        return None
    codes = [""]
    for c in text[5:]:
        if c == "_":
            codes.append("")
        else:
            codes[-1] += c
    return tuple(codes) if len(codes) in CLS else None


def case_texts(rec, prefix, alphabet, n, first):
    for rest in itertools.product(alphabet, repeat=max(0, n - 1)):
        text = prefix + (first if n else "") + "".join(rest)
        want = model_parse(text)
        rec.step()
        rec.state(text)
        if want is None:
            try:
                got = sm.FDSNSourceId.parse(text)
            except Exception:
                continue
            req(False, f"{text!r} was not refused: {got!r}")
        x = sm.FDSNSourceId.parse(text)
        check_id(x, want, f"{text!r}: ")
        req(x == make(want) and not x != make(want), lambda: f"{text!r} is not equal to the id of its codes")


ODD = ["", "F", "FDSN", "FDSN:", "fdsn:XX_A_00_B_H_Z", "FDSN: XX", " FDSN:XX", "XFDSN:XX", "FDSNXX_A__B_H_Z", "XX_A__B_H_Z", "FDSN::", "FDSN:_", "FDSN:__", "FDSN:___", "FDSN:____",
       "FDSN:_____", "FDSN:______", "FDSN:_______", "FDSN:XX_A_00_B_H_Z_", "FDSN:_XX_A_00_B_H_Z", "FDSN:XX_A_00_B_H", "FDSN:XX_A_00_B", "FDSN:XX_A_00_", "FDSN:XX_é_00_B_H_Z",
       "FDSN:XX_A_00_B_H_Z\n", "FDSN:XX.A.00.B.H.Z", "FDSN:X X_A_ _B_H_Z", "FDSN:XX_A_00_B_H_Z_1_2", "FDSN:A_B_C_D_E_F_G_H_I_J_K_L", "XFDSN:event", "SMI:XX", "FDSN:FDSN:XX", "FDSN:xx_a-b_--_b_h_z",
       "FDSN;XX", "FDSN\uff1aXX"]


def case_odd(rec, text):
    want = model_parse(text)
    rec.step()
    rec.state(text)
    if want is None:
        req(raises(lambda: sm.FDSNSourceId.parse(text)), f"{text!r} was not refused")
    else:
        check_id(sm.FDSNSourceId.parse(text), want)


NET = ["XX", "X", "CO", "7A", "XD1994", "ABCD2025", "12345678", "Z9", "xx"]
STA = ["A", "ABC", "B-1", "12345", "ABCDEFGH", "-", "LONGER-1", "1"]
LOC = ["", "00", "--", "A", "12345678", "-", "0-0"]
BAND = ["B", "", "H", "L", "1", "BB"]
SRC = ["H", "HH", "1", "ABCDE", "N", ""]
SUB = ["Z", "", "12", "ABCDEFGHIJ", "1", "E"]


def fresh(codes):
    """same codes, new objects"""
    return make(tuple("".join(list(c)) for c in codes))


def check_enclosing(codes):
    n = len(codes)
    x = make(codes)
    if n >= 2:
        check_id(x.networkSourceId(), codes[:1], "network: ")
        req(x.networkSourceId() == make(codes[:1]), "network id not equal")
    if n >= 3:
        check_id(x.stationSourceId(), codes[:2], "station: ")
        req(x.stationSourceId() == make(codes[:2]), "station id not equal")
    if n >= 6:
        check_id(x.locationSourceId(), codes[:3], "location: ")
        req(x.locationSourceId() == make(codes[:3]), "location id not equal")
    # downwards
    if n >= 2:
        check_id(make(codes[:1]).createStationSourceId(codes[1]), codes[:2], "create: ")
    if n >= 3:
        check_id(make(codes[:2]).createLocationSourceId(codes[2]), codes[:3], "create: ")
    if n >= 6:
        check_id(make(codes[:3]).createFDSNSourceId(*codes[3:]), codes, "create: ")
    # a network id for the network code, no location
    if n >= 2:
        check_id(cls(n)(make(codes[:1]), *codes[1:]), codes, "network id given: ")
    if n >= 3 and codes[2] == "":
        check_id(cls(n)(codes[0], codes[1], None, *codes[3:]), codes, "no location: ")
    check_id(x, codes, "after: ")


def case_codes(rec, net, sta):
    sets = [(net,), (net, sta)] + [(net, sta, l) for l in LOC] + [(net, sta, *t) for t in itertools.product(LOC, BAND, SRC, SUB)]
    for codes in sets:
        rec.step()
        rec.state(codes)
        x = make(codes)
        check_id(x, codes)
        check_id(sm.FDSNSourceId.parse(str(x)), codes, "parsed: ")
        req(sm.FDSNSourceId.parse(str(x)) == x, "parsed is not equal")
        check_enclosing(codes)


def pairs_list(q):
    nets = ["XX", "X", "XD1994"] if q else ["XX", "X", "XD1994", "7A"]
    stas = ["A", "AB", "-"] if q else ["A", "AB", "-", "ABC"]
    locs = ["", "00", "A"]
    chans = list(itertools.product(["B", ""], ["H", "HZ", "1"], ["Z", "", "HZ", "1"] if q else ["Z", "", "HZ", "1", "2", "E", "N"]))
    out = [(n,) for n in nets] + [(n, s) for n in nets for s in stas] + [(n, s, l) for n in nets for s in stas for l in locs]
    out += [(n, s, l, *c) for n in nets for s in stas for l in locs for c in chans]
    return out


def case_pairs(rec, q, lo, hi):
    ids = pairs_list(q)
    objs = [make(c) for c in ids]
    for i in range(lo, min(hi, len(ids))):
        x = fresh(ids[i])
        for k, y in enumerate(objs):
            rec.step()
            same = ids[i] == ids[k]
            e, n = x == y, x != y
            if e is not same or n is same:
                req(False, f"{ids[i]} == {ids[k]} is {e}, != is {n}")
        rec.state(ids[i])
        for other in (None, str(x), 0, ids[i], list(ids[i])):
            req(not x == other and x != other, lambda: f"{x} equals {other!r}")
        nslc = sm.NslcId(*ids[i][:3], "BHZ") if len(ids[i]) == 6 else None
        req(nslc is None or (nslc != x and x != nslc and nslc == sm.NslcId(*ids[i][:3], "BHZ") and nslc != sm.NslcId(*ids[i][:3], "BHN")), "NSLC ids")


CASE = ["XX", "xx", "Xx", "xX", "XX ", " XX", "X X", "X\u0058\u0301", "\u1e8a", "X", "XXX", "00", "0", "0O", "", "-", "\u00e9", "e\u0301", "\u00c9", "\u00df", "ss", "SS", "\u0130", "i", "I"]


def case_alike(rec, n, k):
    """ids that differ in one code only, in upper and lower case, blanks or how a letter is written"""
    for base in (["XX", "ABC", "00", "B", "H", "Z"], ["xx", "abc", "", "b", "h", "z"]):
        ids = []
        for c in CASE:
            codes = list(base[:n])
            codes[k] = c
            ids.append(tuple(codes))
        objs = [make(c) for c in ids]
        for a in ids:
            x = fresh(a)
            check_id(x, a)
            for b, y in zip(ids, objs):
                rec.step()
                e, ne = x == y, x != y
                req(e is (a == b) and ne is not (a == b), lambda: f"{a} == {b} is {e}, != is {ne}")
        rec.state("alike", n, k, base[0])


def chan_model(b, s, ss):
    return b + s + ss if len(b) == len(s) == len(ss) == 1 else f"{b}_{s}_{ss}"


def case_nslc(rec, net, sta):
    for loc, b, s, ss in itertools.product(LOC, BAND, SRC, SUB):
        if len(b) != 1 or s == "":
            continue
        codes = (net, sta, loc, b, s, ss)
        rec.step()
        rec.state("nslc", codes)
        x = make(codes)
        chan = chan_model(b, s, ss)
        req(x.shortChannelCode() == chan, lambda: f"channel {x.shortChannelCode()} not {chan}")
        n = x.asNslc()
        got = (n.networkCode, n.stationCode, n.locationCode, n.channelCode)
        req(got == (net, sta, loc, chan), lambda: f"{codes} gives {got}")
        y = sm.FDSNSourceId.fromNslc(*got)
        check_id(y, codes, "from NSLC: ")
        req(y == x, "from NSLC is not equal")
        for sep in ".", "/", " ", "::":
            z = sm.FDSNSourceId.parseNslc(sep.join(got), sep=sep)
            check_id(z, codes, f"from NSLC text with {sep!r}: ")
        if len(chan) == 3 and "_" not in chan:
            check_id(sm.FDSNSourceId.parseNslc(str(n), sep="_"), codes, "from NSLC id text: ")
        check_id(sm.FDSNSourceId.parseNslc(".".join(got)), codes, "from NSLC text: ")


BADCHAN = ["", "B", "BH", "BHZZ", "B_H", "_H_Z", "B__Z", "BB_H_Z", "B_H_Z_X", "B_H_Z ", " B_H_Z", "B_H_Z\n", "BHZ_", "__Z", "B__", "___", "_____", "H_", "_HZ", "B_HZ", "BH_Z"]


def case_badchan(rec, chan):
    rec.step()
    rec.state("bad", chan)
    req(raises(lambda: sm.FDSNSourceId.fromNslc("XX", "ABC", "00", chan)), f"channel {chan!r} was not refused")
    for text in ("XX.ABC.00." + chan, "XX.ABC.00", "XX", "", "..."):
        req(raises(lambda: sm.FDSNSourceId.parseNslc(text)), f"{text!r} was not refused")


def temp(net):
    return len(net) == 2 and net[0] in "0123456789XYZ" and net[1] in "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" and net != "XX"


YEARS = [None, "1994", 1994, "2025", 2025, 1880, 2100, "0001", "9999", 2000, "1880", 1999]


def case_year(rec, first):
    alpha = "0159AMWXYZ"
    nets = [first] + [first + c for c in alpha] + [first + "A" + c for c in alpha] + [first + "X" + "1994", first + "A2020"]
    for net in nets:
        for y in YEARS:
            rec.step()
            rec.state("year", net, y)
            want = f"{net}{y}" if y is not None and temp(net) else net
            check_id(sm.NetworkSourceId(net, y), (want,), f"{net} {y!r}: ")
            check_id(sm.FDSNSourceId.fromNslc(net, "ABC", "00", "BHZ", startYear=y), (want, "ABC", "00", "B", "H", "Z"), f"{net} {y!r}: ")
            check_id(sm.FDSNSourceId.parseNslc(f"{net}.ABC..B_HH_", startYear=y), (want, "ABC", "", "B", "HH", ""), f"{net} {y!r}: ")
            check_id(sm.FDSNSourceId.parseNslc(f"{net}/ABC/00/LHE", "/", y), (want, "ABC", "00", "L", "H", "E"), f"{net} {y!r}: ")


def case_badyear(rec, net):
    """a start year that is no four digit year is refused for a temporary network and not used for others"""
    for y in ("", "94", "199", "19945", "20240", "  94  ", 0, 94, 1879, 2101, 19945, -1994):
        rec.step()
        rec.state("badyear", net, y)
        for f in (lambda: sm.NetworkSourceId(net, y), lambda: sm.FDSNSourceId.fromNslc(net, "ABC", "00", "BHZ", startYear=y), lambda: sm.FDSNSourceId.parseNslc(f"{net}.ABC.00.BHZ", startYear=y)):
            if temp(net):
                req(raises(f), lambda: f"{net} with start year {y!r} gives {f()}")
            else:
                req(f().networkCode == net if isinstance(f(), sm.FDSNSourceId) else str(f()) == f"FDSN:{net}", lambda: f"{net} with start year {y!r} gives {f()}")


def case_unknown(rec, rate, source, resp, net, sta, loc, sub):
    rec.step()
    rec.state("unknown", rate, source, resp, net, sta, loc, sub)
    x = sm.FDSNSourceId.createUnknown(rate, source, resp, net, sta, loc, sub)
    check_id(x, (net or "XX", sta or "ABC", loc, sm.bandCodeForRate(rate, resp), source, sub))
    x = sm.FDSNSourceId.createUnknown(sampRate=rate, sourceCode=source, subsourceCode=sub)
    check_id(x, ("XX", "ABC", "", sm.bandCodeForRate(rate), source, sub))


def case_cli(rec, band, sources):
    for s in sources:
        for loc, sub in (("", "Z"), ("00", "AB")):
            codes = ("CO", "BIRD", loc, band, s, sub)
            text = "FDSN:" + "_".join(codes)
            rec.step()
            rec.state("cli", codes)
            rc, out, err, exc = cli.run("fdsnsourceid", [text, "FDSN:XX_A__B_H_Z"])
            req(rc in (0, None) and exc is None, lambda: f"{text}: exit {rc} {exc!r} {err}")
            words = [l.split() for l in out.splitlines()]
            for t in (text, "FDSN:XX_A__B_H_Z"):
                req([t] in words, lambda: f"{t} is not in the output {out}")
            for name, c in zip(("Net:", "Sta:", "Loc:", "Band:", "Source:", "Subsource:"), codes):
                got = [w[1:] for w in words if w and w[0] == name]
                req(len(got) == 2 and (got[0][:1] == [c] if c else got[0] == []), lambda: f"{name} {got} not {c}")


def cli_all(rec, band):
    from simplemseed import fdsnsourceid

    rec.case("case_cli", band, sorted(fdsnsourceid.SOURCE_CODE_JSON))


def odd_all(rec):
    for n in CLS:
        for k in range(n):
            rec.case("case_alike", n, k)
    for t in ODD:
        rec.case("case_odd", t)
    for c in BADCHAN:
        rec.case("case_badchan", c)
    for first in "0159AMWXYZ":
        rec.case("case_year", first)
    for net in ("X1", "7A", "ZZ", "Y0", "XX", "CO", "IU", "A1", "X", "XD1994"):
        rec.case("case_badyear", net)
    for t in itertools.product([None, 0, 100, 0.5, -10], ["H", "N"], [None, 0.01, 1, -120], ["XX", "", "CO"], ["", "STA"], ["", "00"], ["U", "", "Z"]):
        rec.case("case_unknown", *t)


def texts_all(rec, prefix, alphabet, n, first):
    rec.case("case_texts", prefix, alphabet, n, first)


def codes_all(rec, net):
    for sta in STA:
        rec.case("case_codes", net, sta)
        rec.case("case_nslc", net, sta)


def pairs_all(rec, q, lo, hi):
    rec.case("case_pairs", q, lo, hi)


def shards(tier):
    q = tier == "quick"
    out = [("odd_all", ())]
    out += [("cli_all", (b,)) for b in "JFGDCESHBMLVUWRPTQIAO"]
    out += [("codes_all", (n,)) for n in NET]
    n = len(pairs_list(q))
    out += [("pairs_all", (q, k, k + 100)) for k in range(0, n, 100)]
    for k in range(9 if q else 11):
        out += [("texts_all", ("FDSN:", "_A0:-", k, c)) for c in ("_A0:-" if k else "_")]
    for k in range(7 if q else 8):
        out += [("texts_all", ("", "FDSN:_x", k, c)) for c in ("FDSN:_x" if k else "F")]
    return out
