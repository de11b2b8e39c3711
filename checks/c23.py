"""C23: band codes agree with the FDSN table for every rate."""
import math
import re
from fractions import Fraction

import numpy as np

import cli
import simplemseed as sm
from vlib import req, raises

PROP = "C23"
LEVEL = "model_checking"
RULE = "every rate of the set x every response bound of the set, each as rate and as period; distinct by rate and response"
BOUNDS = {
    "quick": "rates: 400 doubles on each side of each of the 16 boundaries, every power of two and of ten with 18 multiples, every 0.01 to 100, every integer to 6000; response bounds: 22, "
             "60 doubles on each side of 0.1 and -10; every rate also as the negative period, integer and numpy types",
    "thorough": "20000 doubles on each side of each boundary, 200 multiples, every 0.001 to 1000, all 65536 positive half precision and every 4096th single precision number",
}
ASSUME = ["about 1 per second is taken as 0.5 to 1.5: M or L is accepted from above 1 to 1.5, V or L from 0.5 to below 1; the table has no code for exactly 5000, J is expected"]

# FDSN source identifiers 1.0, band codes: low, high of the rate (>= to <), codes for response >= 10 s and < 10 s
TABLE = [
    (Fraction(5000), None, "J", "J"),
    (Fraction(1000), Fraction(5000), "F", "G"),
    (Fraction(250), Fraction(1000), "C", "D"),
    (Fraction(80), Fraction(250), "H", "E"),
    (Fraction(10), Fraction(80), "B", "S"),
    (Fraction(1), Fraction(10), "M", "M"),
    (Fraction(0.1), Fraction(1), "V", "V"),
    (Fraction(0.01), Fraction(0.1), "U", "U"),
    (Fraction(0.001), Fraction(0.01), "W", "W"),
    (Fraction(0.0001), Fraction(0.001), "R", "R"),
    (Fraction(0.00001), Fraction(0.0001), "P", "P"),
    (Fraction(0.000001), Fraction(0.00001), "T", "T"),
    (Fraction(0), Fraction(0.000001), "Q", "Q"),
]
NAMES = {"E": "Extremely Short Period", "S": "Short Period", "H": "High Broadband", "B": "Broadband", "M": "Mid Period", "L": "Long Period", "V": "Very Long Period",
         "U": "Ultra Long Period", "R": "Extremely Long Period"}


def model(rate, resp):
    """set of permitted codes for a positive rate, response in hertz or None"""
    if rate == 1:
        return {"L"}
    for lo, hi, broad, short in TABLE:
        if rate >= lo and (hi is None or rate < hi):
            c = broad if resp is not None and resp <= 0.1 else short
            if c == "M" and rate <= 1.5:
                return {"M", "L"}
            if c == "V" and rate >= 0.5:
                return {"V", "L"}
            return {c}
    raise AssertionError(rate)


def hertz(v):
    return v if v is None or v >= 0 else -1.0 / v


RESP = [None, 0.01, 0.1, 0.2, 1, 10, 100.0, -1, -5, -9.99, -10, -10.0, -11, -120, -0.1, 0.05, 0.099, 0.11, 1e-9, 1e9, -1e9, 0]


def one(rec, v, resp, same=True):
    rate = float(v) if v > 0 else -1.0 / float(v)
    want = model(rate, hertz(resp))
    got = sm.bandCodeForRate(v, resp)
    rec.step()
    req(got in want, lambda: f"rate {v!r} ({rate!r} per second) response {resp!r}: {got!r} not {'/'.join(sorted(want))}")
    if same and v > 0:
        p = -1.0 / float(v)
        r = -1.0 / p
        req(math.isinf(p) or sm.bandCodeForRate(p, resp) == sm.bandCodeForRate(r, resp), lambda: f"period {-p!r} is {sm.bandCodeForRate(p, resp)}, rate {r!r} is {sm.bandCodeForRate(r, resp)}")
    if resp is None:
        req(sm.bandCodeForRate(v) == got and sm.bandCodeForRate(v, response_lb=None) == got, "without response")
    elif resp > 0:
        q = -1.0 / float(resp)
        back = -1.0 / q
        req(sm.bandCodeForRate(v, q) == sm.bandCodeForRate(v, back), lambda: f"rate {v!r}: response {q!r} and {back!r} differ")
    d = sm.bandCodeDescribe(got)
    req(isinstance(d, str) and NAMES.get(got, "") in d and "Hz" in d, lambda: f"{got}: {d!r}")


def case_rates(rec, vals):
    for v in vals:
        for resp in RESP:
            one(rec, v, resp)
        rec.state(v)


def case_resp(rec, rate, resps):
    for r in resps:
        one(rec, rate, r)
        rec.state(rate, r)


def neighbours(b, n):
    out = [b]
    lo = hi = b
    for _ in range(n):
        lo, hi = math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf)
        out += [lo, hi]
    return out


BOUND = [5000.0, 1000.0, 250.0, 80.0, 10.0, 1.5, 1.0, 0.5, 0.1, 0.01, 0.001, 0.0001, 0.00001, 0.000001, 2.0, 100.0]


def in_parts(rec, fn, vals, *before):
    for i in range(0, len(vals), 64):
        rec.case(fn, *before, vals[i : i + 64])
        if rec.stop:
            return


def bounds_all(rec, b, n):
    in_parts(rec, "case_rates", neighbours(b, n))
    # as periods
    in_parts(rec, "case_rates", [-x for x in neighbours(1.0 / b, n)])


def grid_all(rec, part, q):
    vals = []
    m = [1, 1.1, 1.25, 1.3, 1.499, 1.5, 1.501, 1.75, 2, 2.5, 3, 4, 5, 6, 7, 8, 9, 9.999]
    if not q:
        m += [1 + k / 23 for k in range(1, 190)]
    for e in range(-12, 13):
        vals += [x * 10.0**e for x in m]
    for e in range(-100, 101):
        vals += [x * 2.0**e for x in m[:6]]
    vals += [5e-324, 1e-308, 2.2250738585072014e-308, 1e300, 1.7976931348623157e308]
    vals += [k / (100 if q else 1000) for k in range(1, 10001 if q else 1000001)]
    in_parts(rec, "case_rates", vals[part::16])
    in_parts(rec, "case_rates", [-v for v in vals[part::16] if 1e-300 < v < 1e300])


def ints_all(rec, part):
    in_parts(rec, "case_rates", [k for k in range(1 + part, 6001, 8)] + [10**part, 10 ** (part + 8)])
    in_parts(rec, "case_rates", [-k for k in range(1 + part, 6001, 8)] + [-(10**part)])


def resp_all(rec, n):
    resps = neighbours(0.1, n) + neighbours(-10.0, n) + neighbours(0.01, 3) + [k / 100 for k in range(1, 100)] + [-k / 4 for k in range(1, 200)] + list(range(-30, 30))
    for rate in (10.0, 20, 79.99, 80.0, 100, 249, 250.0, 500, 999.9, 1000.0, 4999, 5000.0, 6000, 5.0, 1.0, 0.7, 0.1, 0.01, 1e-9, -0.01, -0.05, -100, -0.0002):
        in_parts(rec, "case_resp", resps, rate)


def case_types(rec, name, vals):
    t = getattr(np, name)
    for v in vals:
        x = t(v)
        for resp in (None, 0.01, 0.2, -11, 10):
            one(rec, x, resp, False)
        if name != "float16" and x > 0:
            for rate in (20, 100.0):
                one(rec, rate, x, False)
        rec.state(name, v)


def types_all(rec, q):
    for name in ("float32", "float64", "int32", "int64", "int16"):
        vals = [1, 2, 9, 10, 11, 20, 79, 80, 81, 100, 249, 250, 251, 999, 1000, 1001, 4999, 5000, 5001, 30000, -1, -2, -10, -100, -10000]
        if "float" in name:
            vals += [0.25, 0.5, 1.5, 0.125, 3e-5, 3e-7, -0.5, -0.004, -0.0003, 0.03, 0.005]
        rec.case("case_types", name, vals)


def case_singles(rec, lo, hi, every):
    for v in np.arange(lo, hi, every, dtype=np.uint32).view(np.float32).tolist():
        for resp in (None, 0.1, 0.2):
            one(rec, v, resp)
    rec.state("f4", lo, hi)


def singles_all(rec, lo, hi):
    for k in range(lo, hi, 1 << 21):
        rec.case("case_singles", k, min(hi, k + (1 << 21)), 4096)


def case_halves(rec, lo, hi):
    for v in np.arange(lo, hi, dtype=np.uint16).view(np.float16).tolist():
        for resp in (None, 0.1, 0.2):
            one(rec, v, resp)
    rec.state("f2", lo, hi)


def halves_all(rec):
    for k in range(1, 0x7C00, 512):
        rec.case("case_halves", k, min(k + 512, 0x7C00))


def case_none(rec):
    for resp in RESP:
        for v in (None, 0, 0.0, -0.0, np.float32(0)):
            rec.step()
            rec.state("none", repr(v), resp)
            req(sm.bandCodeForRate(v, resp) == "I", lambda: f"rate {v!r}")
        for v in (math.nan, -math.nan, np.float32("nan"), "x", "20", [20], 1j):
            req(raises(lambda: sm.bandCodeForRate(v, resp)), lambda: f"rate {v!r} gives {sm.bandCodeForRate(v, resp)}")
    req(sm.bandCodeForRate() == "I", "no arguments")
    req("rregular" in sm.bandCodeDescribe("I"), "I")
    # the described range is the one of the table
    num = r"([0-9.]+)"
    for lo, hi, broad, short in TABLE:
        for c in {broad, short}:
            d = sm.bandCodeDescribe(c)
            x = [Fraction(float(t)) for t in re.findall(num, d.split(" Hz")[0].split(", ")[-1])]
            want = [t for t in (lo, hi) if t]
            req(x == want, lambda: f"{c}: {d!r} does not describe {[float(t) for t in want]}")
            rec.step()
            if broad != short:
                req((">= 10 sec" in d) is (c == broad) and ("< 10 sec" in d) is (c == short), lambda: f"{c}: {d!r}")


def none_all(rec):
    rec.case("case_none")


def case_cli(rec, vals):
    for v in vals:
        rec.step()
        rec.state("cli", v)
        rc, out, err, exc = cli.run("fdsnsourceid", ["--sps", repr(v)] if v > 0 else [f"--sps={v!r}"])
        req(exc is None and rc == 0, lambda: f"{v}: exit {rc} {exc!r} {err}")
        rate = v if v > 0 else -1.0 / v
        if v == 0:
            rate = None
        want = [{"I"}] if rate is None else [model(rate, 0.01), model(rate, 10)]
        if len(want) == 2 and want[0] == want[1]:
            want = want[:1]
        got = [re.match(r"\s*Rate: (\S+) - (\S) - ", l) for l in out.splitlines()]
        req(len(got) == len(want) and all(g and float(g[1]) == v and g[2] in w for g, w in zip(got, want)), lambda: f"{v}: {out!r}")


def cli_all(rec):
    rec.case("case_cli", [20.0, 100.0, 250.0, 1000.0, 5000.0, 4999.9, 10.0, 9.99, 1.0, 0.9, 0.1, 0.05, 0.001, 1e-6, 1e-7, -10.0, -100.0, -0.01, -0.05, -1.0, 79.999, 80.0])


def shards(tier):
    q = tier == "quick"
    out = [("none_all", ()), ("cli_all", ()), ("types_all", (q,)), ("resp_all", (60 if q else 2000,))]
    out += [("bounds_all", (b, 400 if q else 20000)) for b in BOUND]
    out += [("grid_all", (k, q)) for k in range(16)]
    out += [("ints_all", (k,)) for k in range(8)]
    if not q:
        out.append(("halves_all", ()))
        out += [("singles_all", (k, min(k + (1 << 26), 0x7F800000))) for k in range(1, 0x7F800000, 1 << 26)]
    return out
