"""C24: concurrent and interleaved use on separate data does not interfere."""
import io
import itertools
import os
import sys
import threading

import simplemseed as sm
from simplemseed.mseed3 import mseed3merge

import ops
from vlib import req

PROP = "C24"
LEVEL = "model_checking"
RULE = "every pair of calls x every schedule of two threads within the preemption bound; every interleaving of stream readers; distinct by calls and schedule"
BOUNDS = {
    "quick": "38 calls, every ordered pair, one preemption of the first thread before every line of the library it executes (first execution of each line); two readers of each pair of 6 kinds, every interleaving of "
             "their steps",
    "thorough": "one preemption before every execution of every line, and before every bytecode instruction (first two executions of each); for each call with itself and with one other, "
                "two preemptions: every line of one thread x every line of the other (first execution of each); three readers",
}
ASSUME = ["threads are switched only within code of simplemseed and within reads of its sources: calls of numpy, struct and json are taken as one step", "each thread passes its own arguments, of the same sizes but other values, and keeps its own results"]
SRC = os.path.dirname(os.path.abspath(sm.__file__)) + os.sep
STUCK = 0.5  # seconds
HUNG = 60


class Worker:
    """a thread that makes calls, stopping before chosen steps of the library's code"""

    def __init__(self):
        # locks used as signals: each is released once for each acquire
        self.go = threading.Lock()
        self.out = threading.Lock()
        self.go.acquire()
        self.out.acquire()
        self.job = None
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        self.local = None
        self.opcodes = False

        def trace(frame, event, arg):
            if self.local is None or not (frame.f_code.co_filename.startswith(SRC) or frame.f_code in ops.SOURCE_CODE):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self.local

        # never taken away again: doing so while the other thread is stopped in its trace function can crash the interpreter
        sys.settrace(trace)
        while True:
            self.go.acquire()
            name, inputs, stops, mode, at = self.job
            self.steps = 0
            self.done = False
            if stops is None:
                r = ops.call(name, inputs)
            else:
                event_kind, most = mode
                opcodes = self.opcodes = event_kind == "opcode"
                visits = {}

                def local(frame, event, arg):
                    if event == event_kind:
                        key = (id(frame.f_code), frame.f_lasti if opcodes else frame.f_lineno)
                        n = visits[key] = visits.get(key, 0) + 1
                        if n <= most:
                            self.steps += 1
                            if self.steps == stops:
                                at(self)
                    return local

                if opcodes:
                    # else there are no opcode events
                    sys._getframe().f_trace_opcodes = True
                    sys.settrace(trace)
                self.local = local
                r = ops.call(name, inputs)
                self.local = None
            self.result = r
            self.done = True
            self.out.release()

    def start(self, name, inputs, stop, mode=None, at=None):
        """stop None: not traced; mode: (event, only so many executions of each line or instruction count as steps)"""
        self.job = (name, inputs, stop, mode, at)
        self.go.release()


def pause(worker):
    """in the worker: tell the controller and wait to go on"""
    worker.out.release()
    worker.go.acquire()


_W = []


def workers():
    if not _W or _W[0] != os.getpid():
        _W[:] = [os.getpid(), Worker(), Worker(), ops.Inputs(), ops.Inputs(1)]
    return _W[1:]


def need(w):
    if not w.out.acquire(timeout=HUNG):
        _W.clear()
        req(False, f"a call ({w.job[0]}) does not end")


def length(name, mode, v):
    """steps of a call alone"""
    a = workers()[0]
    a.start(name, ops.Inputs(v), 0, mode)
    need(a)
    return a.steps


def wait(w):
    """True if the worker stopped or ended, False if it waits for the other thread (a lock of the library)"""
    return w.out.acquire(timeout=STUCK)


def run_two(a, b, i, j, mode):
    """a runs to step i, b to step j (or its end if 0), a to its end, b to its end. results"""
    wa, wb, ia, ib = workers()
    wa.start(a, ia, i, mode, pause)
    need(wa)
    if wa.done:
        wb.start(b, ib, None)
        need(wb)
        return wa.result, wb.result, False
    wb.start(b, ib, j or None, mode, pause)
    if not wait(wb):
        # b needs something a holds: a goes on
        wa.go.release()
        need(wa)
        need(wb)
        if not wb.done:
            wb.go.release()
            need(wb)
        return wa.result, wb.result, True
    wa.go.release()
    if not wb.done:
        if not wait(wa):
            wb.go.release()
            need(wb)
            need(wa)
        else:
            wb.go.release()
            need(wb)
    else:
        need(wa)
    return wa.result, wb.result, True


def judge(a, b, ra, rb, how):
    base = ops.baseline()
    for n, r in ((a, ra), (b + "~", rb)):
        d = ops.digest(r)
        req(d == base[n][1], lambda: f"{a} and {b}, {how}: {n} gives {ops.diff(d, base[n][1])}")


def unchanged():
    for k in (0, 1):
        e = workers()[2 + k].digest()
        if e != ops.baseline()[("enc1", "enc1~")[k]][0]:
            _W[3:] = [ops.Inputs(), ops.Inputs(1)]
            req(False, "inputs were changed")


def case_pair(rec, a, b, mode):
    """every single preemption of a, b running in between"""
    i = 0
    more = True
    while more:
        i += 1
        ra, rb, more = run_two(a, b, i, 0, mode)
        rec.step()
        rec.state(a, b, i, mode[0])
        judge(a, b, ra, rb, f"{b} run before {mode[0]} step {i} of {a}")
    unchanged()


def case_pair2(rec, a, b, mode, i, lb):
    """a to step i, b to step j, rest of a, rest of b: every j"""
    for j in range(1, lb + 1):
        ra, rb, _ = run_two(a, b, i, j, mode)
        rec.step()
        rec.state(a, b, i, j)
        judge(a, b, ra, rb, f"{a} stopped before step {i}, {b} before step {j}")
    unchanged()


R3 = [ops.REC_A, ops.REC_B, ops.REC_C]
R2 = [ops.MS2_L, ops.MS2_T, ops.MS2_B]


def reader(kind):
    if kind == "3":
        return sm.readMSeed3Records(io.BytesIO(b"".join(R3)))
    if kind == "3match":
        return sm.readMSeed3Records(io.BytesIO(b"".join(R3 + R3[:1])), matchsid="XX")
    if kind == "3merge":
        return sm.readMSeed3Records(io.BytesIO(b"".join([R3[2]] + R3[:2] + [R3[2]])), merge=True)
    if kind == "2":
        return sm.readMiniseed2Records(io.BytesIO(b"".join(R2)))
    if kind == "2match":
        return sm.readMiniseed2Records(io.BytesIO(b"".join(R2 + R2[:1])), matchsid="XX_BB|LOG|L_O_G")
    if kind == "3bad":
        return sm.readMSeed3Records(io.BytesIO(R3[0] + ops.REC_BAD + R3[1]), check_crc=True)
    raise AssertionError(kind)


KINDS = ["3", "3match", "3merge", "2", "2match", "3bad"]


def advance(g):
    try:
        return ops.digest(next(g))
    except StopIteration:
        return "end"
    except Exception as e:
        return ("raised", type(e).__name__)


_ALONE = {}


def alone(kind):
    if kind not in _ALONE:
        g = reader(kind)
        _ALONE[kind] = [advance(g) for _ in range(5)]
    return _ALONE[kind]


def case_readers(rec, kinds, steps):
    """every interleaving of the steps of readers, started at their first step"""
    want = [alone(k) for k in kinds]
    for order in orders([steps] * len(kinds)):
        g = [None] * len(kinds)
        at = [0] * len(kinds)
        for k in order:
            if g[k] is None:
                g[k] = reader(kinds[k])
            d = advance(g[k])
            req(d == want[k][at[k]], lambda: f"readers {kinds} in order {order}: step {at[k]} of {k} gives {ops.diff(d, want[k][at[k]])}")
            at[k] += 1
            rec.step()
        rec.state("readers", tuple(kinds), order)


def orders(counts):
    if not any(counts):
        yield ()
        return
    for k in range(len(counts)):
        if counts[k]:
            c = list(counts)
            c[k] -= 1
            for rest in orders(c):
                yield (k,) + rest


def pairs_all(rec, a, mode, part):
    for b in ops.NAMES[part::4]:
        rec.case("case_pair", a, b, mode)
        if rec.stop:
            return


def readers_all(rec, n, first):
    for rest in itertools.product(KINDS, repeat=n - 1):
        rec.case("case_readers", [first] + list(rest), 4 if n == 2 else 3)
        if rec.stop:
            return


def pair2_all(rec, a, b, mode, part):
    la, lb = length(a, mode, 0), length(b, mode, 1)
    for i in range(1 + part, la + 1, 4):
        rec.case("case_pair2", a, b, mode, i, lb)
        if rec.stop:
            return


def shards(tier):
    ops.baseline()
    q = tier == "quick"
    ALL = 10**9
    names = sorted(ops.NAMES, key=lambda n: n not in ("use2", "read2", "readmerge", "use3", "enc2", "enc2list", "unpack2", "unpack2fail"))
    out = [("pairs_all", (a, ("line", 1 if q else ALL), p)) for a in names for p in range(4)]
    out += [("readers_all", (2, k)) for k in KINDS]
    if not q:
        out += [("pairs_all", (a, ("opcode", 2), p)) for a in names for p in range(4)]
        out += [("readers_all", (3, k)) for k in KINDS]
        m = ops.NAMES
        pairs = [(a, a) for a in m] + [(m[k], m[(k + s) % len(m)]) for s in (1,) for k in range(len(m))]
        out += [("pair2_all", (a, b, ("line", 1), p)) for a, b in pairs for p in range(4)]
    return out
