"""C12: setting extra headers in files changes only the selected records."""
import itertools
import json
import os
import subprocess
import sys

import simplemseed as sm
import cli
import ehfiles
from ehfiles import SHAPES, model_set, check_file
from vlib import req, raises, Violation

PROP = "C12"
LEVEL = "model_checking"
RULE = "every list of files of record shapes to the depth x pointer x value x pattern x command; distinct by all of them"
BOUNDS = {
    "quick": "one file of every sequence of 6 shapes to length 3, two files to total length 3, three files to total 2 x 4 commands x 5 "
             "patterns; every pointer (15) x value (12) x shape x command; two commands in a row; 10 names of files and 21 names made from them, of files given too or not; UTF-8 and ASCII locale",
    "thorough": "one file to length 4, two and three files to total 4 x 4 commands x 5 patterns",
}
ASSUME = ["the command runs in process with its arguments; failing commands are the subject of C13"]
PATS = [None, "AAA", "^FDSN:XX_AAA__B_H_Z$", "nomatch", "YY|event"]
CMDS = ["set", "setall", "fset", "fsetall"]
POINTERS = ["", "/", "/a", "/b", "/new", "/b/c", "/b/new", "/arr/0", "/arr/-", "/a~1b", "/a~0b", "/é", "/b/c/d", "/ ", "/0", "/b/", "//", "//x", "/b//", "/arr/", "/arr/01", "/~01"]
VALUES = ['1', '"x"', '{"k":2}', '[1,[2]]', 'null', '"é\\u00fc"', 'true', '1.5e300', '{}', '""', ' { "k" : [ ] } ', '12345678901234567890']


def command(d, cmd, ptr, val, pat, names, extra=()):
    argv = list(extra)
    if pat is not None:
        argv += ["--match", pat]
    if cmd.startswith("f"):
        vf = d.put("value.json", val.encode("utf-8"))
        argv += ["--" + cmd, ptr, vf]
    else:
        argv += ["--" + cmd, ptr, val]
    return cli.run("mseed3details", argv + [d.path(n) for n in names])


def case_set(rec, files, cmd, ptr, val, pat, verbose=False):
    v = json.loads(val)
    root = ptr in ("", "/")
    rec.step()
    rec.state(tuple(map(tuple, files)), cmd, ptr, val, pat)
    try:
        want = model_set(files, ptr, v, pat, cmd.endswith("all"))
    except (KeyError, ValueError, IndexError):
        return  # not settable, see C13
    if root and not isinstance(v, dict):
        return
    with cli.Scratch() as d:
        names = [f"f{k}.ms3" for k in range(len(files))]
        for n, f in zip(names, files):
            d.put(n, b"".join(SHAPES[i] for i in f))
        before = set(d.ls()) | ({"value.json"} if cmd.startswith("f") else set())
        rc, out, err, exc = command(d, cmd, ptr, val, pat, names, ("-v",) if verbose else ())
        if exc is not None:
            raise exc
        req(rc == 0, f"command returned {rc}: {err}")
        for n, f, w in zip(names, files, want):
            p = check_file(d.get(n), f, w)
            req(p is None, lambda: f"{n}: {p}")
        req(set(d.ls()) == before, f"files left behind: {d.ls()}")


def lists(total, nfiles):
    """every way to spread a sequence of shapes over files"""
    for n in range(total + 1):
        for seq in itertools.product(range(len(SHAPES)), repeat=n):
            for cuts in itertools.combinations_with_replacement(range(n + 1), nfiles - 1):
                c = (0,) + cuts + (n,)
                yield [list(seq[a:b]) for a, b in zip(c, c[1:])]


def files_all(rec, total, nfiles, cmd, pat, part, parts):
    for k, files in enumerate(lists(total, nfiles)):
        if k % parts == part:
            ptr, val = [("/new", '{"k":"é"}'), ("", '{"k":2}'), ("/a", "null"), ("/", '{"x":[]}')][k % 4 if cmd.endswith("all") else (k // 2) % 4]
            rec.case("case_set", files, cmd, ptr, val, pat)
            if rec.stop:
                return


def values_all(rec, ptr, cmd):
    for val in VALUES:
        for i in range(len(SHAPES)):
            rec.case("case_set", [[i]], cmd, ptr, val, None)
            rec.case("case_set", [[2, i], [i, 1]], cmd, ptr, val, "XX" if i % 2 else None, True)
            if rec.stop:
                return


def case_twice(rec, seq, cmds):
    """commands one after another: the last value set at each place"""
    with cli.Scratch() as d:
        d.put("f", b"".join(SHAPES[i] for i in seq))
        vals = [ehfiles.ehof(i) for i in seq]
        touched = [False] * len(seq)
        for cmd, ptr, val, pat in cmds:
            rec.step()
            v = json.loads(val)
            looking = True
            for k, i in enumerate(seq):
                if ehfiles.matches(i, pat) and (looking or cmd.endswith("all")):
                    looking = False
                    vals[k] = ehfiles.setptr(vals[k], ptr, v)
                    touched[k] = True
            rc, out, err, exc = command(d, cmd, ptr, val, pat, ["f"])
            if exc is not None:
                raise exc
        p = check_file(d.get("f"), seq, [v if t else None for v, t in zip(vals, touched)])
        req(p is None, p)
        rec.state(tuple(seq), repr(cmds))


def twice_all(rec, seq):
    C = [("set", "/new", "1", None), ("setall", "/new", '"é"', None), ("setall", "", "{}", "AAA"), ("set", "/", '{"q":{}}', "BBB"),
         ("fsetall", "/q", "[1]", None), ("fset", "/n2", '{"a":1}', "AAA")]
    for n in (2, 3):
        for cmds in itertools.product(C, repeat=n):
            rec.case("case_twice", seq, [list(c) for c in cmds])
            if rec.stop:
                return


NAMES = ["a", "a.ms3", "a b.ms3", "{a}%s.ms3", "\u00e9.ms3", "a.b.ms3", "tmp", "dir/a", "dir/tmp/a.ms3", ".a"]
BESIDE = ["{}_tmp", "{}.tmp", "{}tmp", "{}~", "{}.bak", "{}.orig", "{}.new", "{}_new", "{}_old", "{}.old", "{}.swp", "{}.part", "{}_tmp0", "{}_tmp1", "tmp_{}", "tmp{}", ".{}.tmp", "#{}#", "{}.1", "{}.out", "new_{}"]
FIXED = ["tmp.ms3", "temp", "out", "out.ms3", "a", "b", "tmp", "new", "tmpfile", "_tmp", ".tmp"]


def names_run(d, given, beside, cmd, val):
    """given: (name, shapes) in order; nothing but these files may change"""
    others = {}
    for n, f in given:
        os.makedirs(os.path.dirname(d.path(n)) or d.dir, exist_ok=True)
        d.put(n, b"".join(SHAPES[i] for i in f))
    for k, n in enumerate(beside):
        if n not in dict(given) and not os.path.exists(d.path(n)):
            others[n] = SHAPES[k % 4] * (1 + k % 3) if k % 2 else b"not a record %d" % k
            d.put(n, others[n])
    files = [f for _, f in given]
    want = model_set(files, "/new", json.loads(val), "AAA", cmd.endswith("all"))
    tree = lambda: sorted(os.path.join(a, x) for a, _, fs in os.walk(d.dir) for x in fs)
    before = set(tree()) | ({d.path("value.json")} if cmd.startswith("f") else set())
    return others, want, before, tree


def case_names(rec, given, cmd, relative):
    """files of any name, next to files not given, or given later, with names made from theirs"""
    beside = [os.path.join(os.path.dirname(n), b.format(os.path.basename(n))) for n, _ in given for b in BESIDE] + FIXED
    val = '{"k":[1]}'
    rec.step()
    rec.state(repr(given), cmd, relative)
    with cli.Scratch() as d:
        others, want, before, tree = names_run(d, given, beside, cmd, val)
        argv = ["--match", "AAA"]
        argv += ["--" + cmd, "/new", d.put("value.json", val.encode()) if cmd.startswith("f") else val]
        was = os.getcwd()
        try:
            if relative:
                os.chdir(d.dir)
            rc, out, err, exc = cli.run("mseed3details", argv + [n if relative else d.path(n) for n, _ in given])
        finally:
            os.chdir(was)
        if exc is not None:
            raise exc
        req(rc == 0, f"command returned {rc}: {err}")
        for (n, f), w in zip(given, want):
            p = check_file(d.get(n), f, w)
            req(p is None, lambda: f"{n}: {p}")
        for n, b in others.items():
            req(os.path.exists(d.path(n)) and d.get(n) == b, f"{n} was not given and changed")
        req(set(tree()) == before, lambda: f"files left behind or gone: {sorted(set(tree()) ^ before)}")


def names_all(rec, relative):
    for k, n in enumerate(NAMES):
        for cmd in CMDS:
            rec.case("case_names", [[n, [0, 1]]], cmd, relative)
    for n in ("a", "dir/a.ms3"):
        for b in BESIDE:
            other = os.path.join(os.path.dirname(n), b.format(os.path.basename(n)))
            for pair in ([n, other], [other, n]):
                for cmd in CMDS:
                    rec.case("case_names", [[pair[0], [0, 1, 2]], [pair[1], [3, 2]]], cmd, relative)
                    rec.case("case_names", [[pair[0], [1]], [pair[1], [2]]], cmd, relative)
                    if rec.stop:
                        return
    # the same name in other directories
    for perm in itertools.permutations(["a", "dir/a", "dir/tmp/a"]):
        for cmd in CMDS:
            rec.case("case_names", [[perm[0], [0]], [perm[1], [2, 1]], [perm[2], [3]]], cmd, relative)


def case_locale(rec, loc, cmd, ptr, val, getptr):
    """the command in a process of its own with the character set of the system"""
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON"))}
    env.update(PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", LC_ALL=loc, PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
    rec.step()
    rec.state(loc, cmd, ptr, val, getptr)
    v = json.loads(val)
    want = model_set([[3, 0]], ptr, v, None, cmd.endswith("all"))
    with cli.Scratch() as d:
        f = d.put("f.ms3", SHAPES[3] + SHAPES[0])
        prog = [sys.executable, "-c", "import sys; from simplemseed.mseed3details import main; sys.exit(main())"]
        a = d.put("value.json", val.encode("utf-8")) if cmd.startswith("f") else val
        r = subprocess.run(prog + ["--" + cmd, ptr, a, f], env=env, capture_output=True, timeout=60, cwd=d.dir)
        req(r.returncode == 0, lambda: f"exit {r.returncode}: {r.stderr[-300:]!r}")
        p = check_file(d.get("f.ms3"), [3, 0], want[0])
        req(p is None, p)
        r = subprocess.run(prog + ["--getall", getptr, f], env=env, capture_output=True, timeout=60, cwd=d.dir)
        req(r.returncode == 0, lambda: f"get: exit {r.returncode}: {r.stderr[-300:]!r}")
        lines = [x for x in r.stdout.decode("latin-1").splitlines() if x.strip()]
        got = []
        for w, i in zip(want[0], (3, 0)):
            try:
                got.append(ehfiles.getptr(w if w is not None else ehfiles.ehof(i), getptr))
            except (KeyError, IndexError, ValueError):
                got.append("no such place")
        req(len(lines) == 2, lambda: f"output {lines}")
        for line, g in zip(lines, got):
            if g != "no such place":
                req(json.loads(line.strip().encode("latin-1").decode("utf-8")) == g, lambda: f"get says {line}, should be {g!r}")
        r = subprocess.run(prog + [f], env=env, capture_output=True, timeout=60, cwd=d.dir)
        req(r.returncode == 0, lambda: f"details: exit {r.returncode}: {r.stderr[-300:]!r}")


def locale_all(rec, cmd):
    for loc in ("POSIX", "C.UTF-8"):
        for ptr, val in (("/new", '{"k":"\u00fc\u20ac\U0001f30b"}'), ("/new", '"\\u00fc"'), ("", '{"\u00e9":1}')) if cmd.startswith("f") else (("/new", '"\\u00fc"'), ("", '{"\\u00e9":"x"}')):
            rec.case("case_locale", loc, cmd, ptr, val, ptr)


def shards(tier):
    q = tier == "quick"
    out = [("names_all", (True,)), ("names_all", (False,))] + [("locale_all", (c,)) for c in CMDS]
    for cmd in CMDS:
        for pat in PATS:
            parts = 4 if q else 16
            for part in range(parts):
                out.append(("files_all", (3 if q else 4, 1, cmd, pat, part, parts)))
                out.append(("files_all", (3 if q else 4, 2, cmd, pat, part, parts)))
                out.append(("files_all", (2 if q else 4, 3, cmd, pat, part, parts)))
        for ptr in POINTERS:
            out.append(("values_all", (ptr, cmd)))
    for seq in ([0, 1, 2], [2, 3], [5, 4, 0]):
        out.append(("twice_all", (seq,)))
    return out
