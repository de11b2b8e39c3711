"""Shared machinery: bounded exhaustive exploration of the real code.

A check is a module in /verif/checks with
    LEVEL, TECH (strings), BOUNDS (dict tier -> text), ASSUME (list of text)
    shards(tier)      -> list of (function name, args) : disjoint parts of the space
    <function>(rec, *args) : enumerates one shard; calls rec.case("case_fn", *args)
    <case_fn>(rec, *args)  : one execution of the real code, compared with the
                             reference model; raises Violation if they differ
Everything passed to rec.case is a python literal, so every violation is
replayable:  ./check replay FILE
"""
import ast
import faulthandler
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

CASE_CPU_SECONDS = 60


def setup_import():
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    sys.path.insert(0, SRC)
    import simplemseed

    where = os.path.realpath(simplemseed.__file__)
    if not where.startswith(os.path.realpath(SRC) + os.sep):
        raise SystemExit(f"simplemseed imported from {where}, not {SRC}")
    return simplemseed


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def req(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class CaseTimeout(BaseException):
    pass


_TICKS = [0, False]  # seconds of cpu time in this case, case running


def _on_timer(signum, frame):
    _TICKS[0] += 1
    if _TICKS[1] and _TICKS[0] > CASE_CPU_SECONDS:
        _TICKS[1] = False
        raise CaseTimeout()


def start_watchdog():
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, 1, 1)


class Rec:
    """Collects what one shard covered."""

    MAX_FAILS = 3
    MAX_STATES = 400000

    def __init__(self, module):
        self.module = module
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.fails = []
        self.known = {}
        self.knownkeys = known_keys(module.PROP)
        self.counters = {}

    def state(self, *key):
        """A distinct model state or outcome, by value."""
        if len(self.states) < self.MAX_STATES:
            self.states.add(hash(key))

    def step(self, n=1):
        """n calls of the implementation compared with the model."""
        self.transitions += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    @property
    def stop(self):
        return len(self.fails) >= self.MAX_FAILS

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text)[:300])

    def case(self, fn, *args):
        if self.stop:
            return False
        self.evals += 1
        if self.evals <= 1:
            self.sample(f"{fn}{args!r}")
        ok = False
        try:
            _TICKS[0] = 0
            _TICKS[1] = True
            try:
                getattr(self.module, fn)(self, *args)
            finally:
                _TICKS[1] = False
            ok = True
            self.traces += 1
        except Violation as v:
            if v.key is not None and v.key in self.knownkeys:
                self.known[v.key] = self.known.get(v.key, 0) + 1
                self.traces += 1
            else:
                self._fail(fn, args, str(v))
        except CaseTimeout:
            self._fail(fn, args, f"did not terminate in {CASE_CPU_SECONDS} s of cpu time")
        except MemoryError:
            self._fail(fn, args, "ran out of memory")
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
            self._fail(fn, args, f"unexpected {type(e).__name__}: {e} at {where}")
        return ok

    def _fail(self, fn, args, msg):
        self.fails.append((fn, repr(args), msg[:2000]))

    def result(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    evals=self.evals, samples=self.samples, fails=self.fails, known=self.known,
                    counters=self.counters)


def raises(f, *exc):
    """True if f raises (one of exc, default any Exception)."""
    try:
        f()
    except (exc or Exception):
        return True
    return False


_KNOWN = None


def known_keys(prop):
    """keys listed as findings for prop in known_findings.txt"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = line[len("finding:"):].strip().split(None, 2)
            d = dict(x.split("=", 1) for x in parts[:2])
            if d.get("property") == prop:
                out[d["key"]] = parts[2] if len(parts) > 2 else d["key"]
    return out


def limit_memory(gb=4):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except (ValueError, OSError):
        pass


def run_shard(arg):
    modname, fn, args = arg
    import importlib

    module = importlib.import_module(modname)
    limit_memory()
    faulthandler.enable()
    sys.stdout = open(os.devnull, "w")  # what the library prints is not of interest here
    start_watchdog()
    rec = Rec(module)
    t = time.time()
    getattr(module, fn)(rec, *args)
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    r = rec.result()
    r["shard"] = f"{fn}{args!r}"[:200]
    r["wall"] = time.time() - t
    return r


def run_check(prop, tier, seed):
    import importlib
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool
    import multiprocessing as mp

    t0 = time.time()
    modname = "checks." + prop.lower()
    module = importlib.import_module(modname)
    assert module.PROP == prop
    shards = module.shards(tier)
    nproc = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, os.cpu_count() or 1), max(1, len(shards)))
    states = set()
    tot = dict(transitions=0, traces=0, evals=0)
    samples, fails, known, counters, walls = [], [], {}, {}, []
    ctx = mp.get_context("fork")

    def take(r):
        nonlocal states, fails
        states |= r["states"]
        for k in tot:
            tot[k] += r[k]
        if len(samples) < 6:
            samples.extend(r["samples"][: 6 - len(samples)])
        fails += r["fails"]
        walls.append((round(r["wall"], 2), r["shard"]))
        for k, n in r["known"].items():
            known[k] = known.get(k, 0) + n
        for k, n in r["counters"].items():
            counters[k] = counters.get(k, 0) + n

    def explore(todo, procs):
        """shards not explored because a process died"""
        lost = []
        with ProcessPoolExecutor(procs, mp_context=ctx) as ex:
            futs = {ex.submit(run_shard, (modname, fn, args)): (fn, args) for fn, args in todo}
            for fu in as_completed(futs):
                try:
                    take(fu.result())
                except BrokenProcessPool:
                    lost.append(futs[fu])
        return lost

    lost = explore(shards, nproc)
    if lost and not fails:
        # the interpreter itself can fail: only what ends its process every time, alone, is reported
        counters["shards_repeated_after_a_process_died"] = len(lost)
        if len(lost) > nproc:
            lost = explore(lost, nproc)
        for sh in lost:
            if fails:
                break
            if explore([sh], 1) and explore([sh], 1):
                fails.append((sh[0], repr(sh[1]), "the process dies while exploring this"))
    wall = time.time() - t0
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    cov = dict(
        evaluations=tot["evals"],
        distinct_nontrivial=len(states),
        rule=module.RULE,
        samples=samples or ["none"],
        states=len(states),
        transitions=tot["transitions"],
        traces_validated_against_impl=tot["traces"],
        exhaustive=True,
        bounds=module.BOUNDS[tier],
        shards=len(shards),
        counters=counters,
        known_findings={k: n for k, n in known.items()},
    )
    if module.LEVEL == "model_checking":
        for k in ("evaluations", "distinct_nontrivial"):
            cov.pop(k)
    else:
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.pop(k)
    ev = dict(property=prop, tier=tier, seed=seed, level=module.LEVEL, coverage=cov,
              assumptions=list(module.ASSUME), wall_s=round(wall, 3), violations=len(fails))
    # few, smallest first
    fails.sort(key=lambda f: (len(f[1]), f[1]))
    with open(os.path.join(evdir, prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    kk = known_keys(prop)
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {k}: {kk[k]} ({known[k]} cases)")
    lab = "states" if module.LEVEL == "model_checking" else "distinct cases"
    print(f"{prop} {tier}: {len(states)} {lab}, {tot['transitions']} transitions, "
          f"{tot['traces']} traces compared with the implementation, {len(fails)} violations, {wall:.1f} s")
    if os.environ.get("VERIF_PROFILE"):
        for w in sorted(walls, reverse=True)[:8]:
            print("   ", *w)
    if fails:
        for i, (fn, args, msg) in enumerate(fails[:5]):
            path = os.path.join(evdir, f"replay-{prop}-{i}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump(dict(property=prop, function=fn, args=args, message=msg), f, indent=1)
            print(f"  {fn}{args[:300]}: {msg[:500]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def replay(path):
    import importlib

    d = json.load(open(path, encoding="utf-8"))
    module = importlib.import_module("checks." + d["property"].lower())
    start_watchdog()
    rec = Rec(module)
    rec.case(d["function"], *ast.literal_eval(d["args"]))
    for fn, args, msg in rec.fails:
        print(f"  {fn}{args[:1000]}: {msg}")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("replayed, no violation")
    return 0


def main(argv):
    setup_import()
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "selftest":
        import glob
        import importlib

        for f in sorted(glob.glob(os.path.join(VERIF, "checks", "c[0-9]*.py"))):
            m = importlib.import_module("checks." + os.path.basename(f)[:-3])
            assert m.shards("quick") and m.shards("thorough") and m.RULE and m.BOUNDS
        print("all check modules load")
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return run_check(prop, tier, seed)
