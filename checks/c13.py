"""C13: a failed or killed extra header update never damages the data file."""
import errno
import json
import os
import resource
import signal
import sys

import cli
import ehfiles
from ehfiles import SHAPES, model_set, check_file
from vlib import req, Violation

PROP = "C13"
LEVEL = "model_checking"
RULE = ("every crash point (line and C call of the command, in all python code it runs), every torn write length, every injected "
        "interrupt and I/O error, every damaged byte of the input; a state is the content of every file of the directory")
BOUNDS = {
    "quick": "11 commands on 1 to 3 files of 1 to 3 records (one of 9 kB): kill at every line and C call; interrupt at every line and I/O error "
             "at every C call (4 commands); writes failing or killed after every number of bytes; every bit 0 and 7 flip and every cut of the "
             "input; every unsettable request",
    "thorough": "11 commands, interrupt and I/O error at every line and C call for all of them, torn writes at every byte, every bit flip and cut",
}
ASSUME = ["a killed process leaves the data it has handed to write() in the file (no power failure, no lost page cache)",
          "temporary files may be left behind by a failure"]

BIG = json.dumps({"big": "x" * 9000})
# files, command, pointer, value, pattern
SCEN = [
    ([[0]], "set", "/a", "2", None),
    ([[0, 1]], "set", "/new", '{"k":"é"}', None),
    ([[0, 1, 3]], "setall", "/new", "[1,2]", None),
    ([[0], [1]], "setall", "", '{"k":2}', None),
    ([[2, 0], [1], [4]], "setall", "/b", '"x"', "AAA|event"),
    ([[0, 1]], "set", "/", "{}", "BBB"),
    ([[0, 1], [3]], "setall", "/a", BIG, None),
    ([[0], [1]], "fset", "/a", '{"k":2}', "BBB"),
    ([[5, 2]], "fsetall", "/q", '"longer than it was"', None),
    ([[1, 3, 0]], "set", "/a", "3", "YY"),
    ([[], [4, 4]], "setall", "/b", "null", None),
]


class Setup:
    def __init__(self, d, scen, verbose=False):
        files, cmd, ptr, val, pat = scen
        self.d = d
        self.names = [f"f{k}.ms3" for k in range(len(files))]
        self.files = files
        self.old = {n: b"".join(SHAPES[i] for i in f) for n, f in zip(self.names, files)}
        self.argv = ["-v"] if verbose else []
        if pat is not None:
            self.argv += ["--match", pat]
        if cmd.startswith("f"):
            val = d.put("value.json", val.encode("utf-8"))
        self.argv += ["--" + cmd, ptr, val] + [d.path(n) for n in self.names]
        self.new = None
        self.reset()

    def reset(self):
        for n in self.d.ls():
            if n not in self.old and n != "value.json":
                os.unlink(self.d.path(n))
        for n in self.old:
            self.d.put(n, self.old[n])

    def content(self):
        out = {}
        for n in self.names:
            try:
                out[n] = self.d.get(n)
            except FileNotFoundError:
                out[n] = None
        return out

    def run(self, call=None):
        return cli.run("mseed3details", self.argv, call)

    def good(self, what, want_all=False):
        """every file is complete, old or new (or all new)"""
        for n, c in self.content().items():
            if c == self.new[n] or (c == self.old[n] and not want_all):
                continue
            if c is None:
                raise Violation(f"{what}: {n} is gone")
            if c == self.old[n]:
                raise Violation(f"{what}: {n} was not updated, no error reported")
            raise Violation(f"{what}: {n} holds {len(c)} bytes that are neither the original ({len(self.old[n])}) nor the updated "
                            f"({len(self.new[n])}) records: {c[:80]!r}")

    def again(self, what):
        """a later run works"""
        rc, out, err, exc = self.run()
        req(rc == 0 and exc is None, lambda: f"{what}: a later run fails with {exc!r} {err}")
        self.good(what + ", later run", True)


def prepare(d, k, verbose=False):
    """scenario k, with the model checked result of an undisturbed run"""
    files, cmd, ptr, val, pat = scen = SCEN[k]
    s = Setup(d, scen, verbose)
    rc, out, err, exc = s.run()
    if exc is not None:
        raise exc
    req(rc == 0, f"undisturbed run returned {rc} {err}")
    want = model_set(files, ptr, json.loads(val), pat, cmd.endswith("all"))
    s.new = s.content()
    for n, f, w in zip(s.names, files, want):
        p = check_file(s.new[n], f, w)
        req(p is None, lambda: f"undisturbed run: {n}: {p}")
    s.reset()
    return s


SKIP = (cli.__file__, __file__)


class Tracer:
    """calls hook(kind) at every line and every C call of all python code run by the command"""

    def __init__(self, lines=None, calls=None):
        self.lines, self.calls = lines, calls

    def trace(self, frame, event, arg):
        return None if frame.f_code.co_filename in SKIP else self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.lines()
        return self.local

    def prof(self, frame, event, arg):
        if event == "c_call" and frame.f_code.co_filename not in SKIP:
            self.calls()

    def call(self, main):
        if self.calls:
            sys.setprofile(self.prof)
        if self.lines:
            sys.settrace(self.trace)
        try:
            return main()
        finally:
            sys.settrace(None)
            sys.setprofile(None)

    def run(self, s):
        return s.run(self.call)


def forked(fn):
    """exit status of fn in a child; 1000 + signal if killed"""
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            code = fn()
        finally:
            os._exit(code)
    st = os.waitpid(pid, 0)[1]
    return 1000 + os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)


def snapshot(d):
    out = []
    for n in d.ls():
        try:
            c = d.get(n)
        except FileNotFoundError:
            c = None
        out.append((n if "_tmp" not in n else "tmp", c))
    return tuple(sorted(out, key=lambda x: (x[0], x[1] or b"")))


def case_kill(rec, k):
    """the directory at every instant, and real kills at each distinct one"""
    with cli.Scratch() as d:
        s = prepare(d, k)
        first = {}
        count = [0]
        bad = []

        def look():
            count[0] += 1
            c = s.content()
            for n in s.names:
                if c[n] != s.old[n] and c[n] != s.new[n]:
                    bad.append((count[0], n, c[n]))
            key = tuple(c[n] == s.old[n] for n in s.names) + (tuple(sorted(len(x[1] or b"") for x in snapshot(d))),)
            first.setdefault(key, []).append(count[0])

        off = [False]

        def hook():
            if not off[0]:
                off[0] = True
                try:
                    look()
                finally:
                    off[0] = False

        # reading the directory in the hook is not traced: the hooks are off while they run
        rc, out, err, exc = Tracer(hook, hook).run(s)
        req(rc == 0 and exc is None, lambda: f"traced run fails: {exc!r}")
        for n, name, c in bad[:1]:
            raise Violation(f"killed at instant {n}: {name} " + ("is gone" if c is None else
                            f"holds {len(c)} bytes, neither the original nor the updated records: {c[:60]!r}"))
        rec.step(count[0])
        rec.count("instants", count[0])
        for key, at in first.items():
            rec.state(k, key)
        total = count[0]
        for key, at in first.items():
            for n in {at[0], at[-1]}:
                s.reset()
                i = [0]

                def kill():
                    i[0] += 1
                    if i[0] == n:
                        os.kill(os.getpid(), signal.SIGKILL)

                st = forked(lambda: (Tracer(kill, kill).run(s), 0)[1])
                req(st == 1000 + signal.SIGKILL, f"run to instant {n} of {total} not reproducible: {st}")
                rec.step()
                rec.count("kills")
                s.good(f"killed at instant {n} of {total}")
                s.again(f"killed at instant {n} of {total}")


def events(k, kind):
    n = [0]

    def hook():
        n[0] += 1

    with cli.Scratch() as d:
        s = prepare(d, k, kind == "call")
        Tracer(hook if kind == "line" else None, hook if kind == "call" else None).run(s)
    return n[0]


def inject_range(rec, k, kind, lo, hi):
    with cli.Scratch() as d:
        s = prepare(d, k, kind == "call")
        for n in range(lo, hi):
            s.reset()
            i = [0]

            def hook():
                i[0] += 1
                if i[0] == n:
                    raise KeyboardInterrupt() if kind == "line" else OSError(errno.EIO, "injected")

            try:
                rc, out, err, exc = Tracer(hook if kind == "line" else None, hook if kind == "call" else None).run(s)
                failed = rc != 0 or exc is not None
            except KeyboardInterrupt:
                failed = True
            exc = None
            what = f"{'interrupt at line' if kind == 'line' else 'I/O error at call'} event {n}"
            s.good(what, not failed)
            rec.step()
            rec.state(k, kind, n)
            if n % 16 == 0:
                s.again(what)


def case_inject(rec, k, kind, lo, hi):
    inject_range(rec, k, kind, lo, hi)


def inject_all(rec, k, kind, part, parts):
    T = events(k, kind)
    edges = [1 + T * i // (parts * 4) for i in range(parts * 4 + 1)]
    for j in range(part, parts * 4, parts):
        rec.case("case_inject", k, kind, edges[j], edges[j + 1])
        if rec.stop:
            return


def case_torn(rec, k, limits, mode):
    """the writing process may not make files longer than so many bytes"""
    with cli.Scratch() as d:
        s = prepare(d, k)
        for n in limits:
            s.reset()

            def child():
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if mode == "kill" else signal.SIG_IGN)
                rc, out, err, exc = s.run()
                return 0 if rc == 0 and exc is None else 1

            st = forked(child)
            what = f"write {'killed' if mode == 'kill' else 'failing'} after {n} bytes"
            req(st in (0, 1, 1000 + signal.SIGXFSZ), f"{what}: child status {st}")
            s.good(what, st == 0)
            rec.step()
            rec.state(k, mode, n)
            if n % 16 == 0 and st != 0:
                s.again(what)


def torn_all(rec, k, mode, q, part, parts):
    files = SCEN[k][0]
    with cli.Scratch() as d:
        s = prepare(d, k)
        top = max(len(x) for x in s.new.values()) + 2
        edges = {0, 4096, 8192, 16384}
        for data in list(s.new.values()) + list(s.old.values()):
            edges.add(len(data))
        near = {e + x for e in edges for x in (-1, 0, 1)}
    lims = [n for n in range(top + 1) if not q or top < 2000 or n in near or n % 64 == 0]
    lims = lims[part::parts]
    for i in range(0, len(lims), 40):
        rec.case("case_torn", k, lims[i : i + 40], mode)
        if rec.stop:
            return


def case_damage(rec, seq, cmd, ptr, val, pat, kind, lo, hi):
    """damaged input: reported, and the damaged file stays as it was; files before it are old or new"""
    whole = b"".join(SHAPES[i] for i in seq)
    bounds = {0}
    n = 0
    for i in seq:
        n += len(SHAPES[i])
        bounds.add(n)
    first = SHAPES[0]
    with cli.Scratch() as d:
        d.put("a.ms3", first)
        argv = ([] if pat is None else ["--match", pat]) + ["--" + cmd, ptr, val, d.path("a.ms3"), d.path("b.ms3")]
        for at in range(lo, hi):
            for v in (range(8) if kind == "bits" else (0, 7) if kind == "flip" else (0,)):
                if kind == "cut":
                    data = whole[:at]
                    if at in bounds:
                        continue
                else:
                    data = bytearray(whole)
                    data[at] ^= 1 << v
                    data = bytes(data)
                d.put("a.ms3", first)
                d.put("b.ms3", data)
                rc, out, err, exc = cli.run("mseed3details", argv)
                rec.step()
                rec.state(tuple(seq), cmd, kind, at, v)
                req(rc != 0 or exc is not None, f"{kind} at {at}: no error reported")
                req(d.get("b.ms3") == data, lambda: f"{kind} at {at}: the damaged file was changed from {len(data)} to {len(d.get('b.ms3'))} bytes")
                a = d.get("a.ms3")
                if a != first:
                    p = check_file(a, [0], model_set([[0]], ptr, json.loads(val), pat, True)[0])
                    req(p is None, lambda: f"{kind} at {at}: other file: {p}")


def damage_all(rec, seq, kind, part, parts):
    n = sum(len(SHAPES[i]) for i in seq)
    for cmd, ptr, val, pat in (("setall", "/q", "1", None), ("set", "/q", "1", "BBB|YY")):
        edges = [n * i // parts for i in range(parts + 1)]
        rec.case("case_damage", seq, cmd, ptr, val, pat, kind, edges[part], edges[part + 1])


def case_bad(rec, files, cmd, ptr, val, pat):
    """requests that cannot be done: reported; each file old or as the model says"""
    with cli.Scratch() as d:
        names = [f"f{k}.ms3" for k in range(len(files))]
        for n, f in zip(names, files):
            if f is not None:
                d.put(n, b"".join(SHAPES[i] for i in f))
        argv = ([] if pat is None else ["--match", pat])
        if cmd.startswith("f"):
            vf = d.path("value.json")
            if val is not None:
                d.put("value.json", val.encode("utf-8"))
            argv += ["--" + cmd, ptr, vf]
        else:
            argv += ["--" + cmd, ptr, val]
        rc, out, err, exc = cli.run("mseed3details", argv + [d.path(n) for n in names])
        rec.step()
        rec.state(repr((files, cmd, ptr, val, pat)))
        req(rc != 0 or exc is not None, "no error reported")
        try:
            v = json.loads(val)
        except (TypeError, ValueError):
            v = None
        looking = True
        for n, f in zip(names, files):
            if f is None:
                req(not os.path.exists(d.path(n)), f"{n} created")
                continue
            got = d.get(n)
            old = b"".join(SHAPES[i] for i in f)
            if got != old:
                try:
                    want = model_set([f], ptr, v, pat, True)[0]
                except (KeyError, ValueError, IndexError):
                    want = None
                req(want is not None and v is not None, f"{n} changed")
                p = check_file(got, f, want)
                req(p is None, lambda: f"{n}: {p}")


def bad_all(rec):
    for cmd in ("set", "setall", "fset", "fsetall"):
        for files in ([[0]], [[0, 1]], [[1], [0]], [[4, 0]], [[0], [1, 3]]):
            for val in ("", "{", "nul", "{'a':1}", "[1,", "é", "1 2"):
                for ptr in ("/a", "", "/"):
                    rec.case("case_bad", files, cmd, ptr, val, None)
            for val in ("1", "[1]", "null", '"x"'):
                for ptr in ("", "/"):
                    rec.case("case_bad", files, cmd, ptr, val, None)
            for ptr in ("a", "a/b", "/zz/y", "/a/b/c/d", "/b/c/d/e"):
                rec.case("case_bad", files, cmd, ptr, "1", None)
                rec.case("case_bad", files, cmd, ptr, '{"k":1}', None)
        # earlier files settable, later not
        for files, ptr in (([[0], [2]], "/b/new"), ([[0], [3], [1]], "/b/new"), ([[0, 2]], "/b/new"), ([[0], [0, 5, 0]], "/arr/1")):
            if cmd.endswith("all"):
                rec.case("case_bad", files, cmd, ptr, "1", None)
        rec.case("case_bad", [None], cmd, "/a", "1", None)
        if cmd.endswith("all"):
            rec.case("case_bad", [[0], None], cmd, "/a", "1", None)
        rec.case("case_bad", [None, [0]], cmd, "/a", "1", None)
        rec.case("case_bad", [[0]], cmd, "/a", "1", "(")
        if cmd.startswith("f"):
            rec.case("case_bad", [[0]], cmd, "/a", None, None)


def kill_one(rec, k):
    rec.case("case_kill", k)


def shards(tier):
    q = tier == "quick"
    out = []
    big = 6
    for k in range(len(SCEN)):
        out.append(("kill_one", (k,)))
        for kind in ("line", "call"):
            if not q or k in (0, 1, 3, 5):
                parts = 4
                for part in range(parts):
                    out.append(("inject_all", (k, kind, part, parts)))
        for mode in ("kill", "fail"):
            if not q or k in (1, 4, big):
                for part in range(4):
                    out.append(("torn_all", (k, mode, q, part, 4)))
    for seq in ([0, 1], [4, 3]) if q else ([0, 1], [4, 3], [2, 5, 1], [1, 0], [3, 3]):
        for kind in ("flip" if q else "bits", "cut"):
            for part in range(4):
                out.append(("damage_all", (seq, kind, part, 4)))
    out.append(("bad_all", ()))
    return out
