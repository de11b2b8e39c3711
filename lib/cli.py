"""Run the command line entry points in process, in a scratch directory."""
import contextlib
import importlib
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile


class Scratch:
    """a directory that is removed again"""

    def __enter__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="verif_", dir=base)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def put(self, name, data):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def get(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()

    def ls(self):
        return sorted(os.listdir(self.dir))


def run(module, argv, call=None):
    """(exit status, stdout, stderr, exception) of the command; call runs its main function if given"""
    m = importlib.import_module("simplemseed." + module)
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = [module] + [str(a) for a in argv]
    exc = None
    rc = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                r = call(m.main) if call else m.main()
                rc = 0 if r is None else r & 255 if isinstance(r, int) else 1
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except Exception as e:
                exc = e
                rc = 1
    finally:
        sys.argv = old
    return rc, out.getvalue(), err.getvalue(), exc


def process(module, argv, closed=False):
    """(exit status, output) of the command in a process of its own; closed: nobody reads its output"""
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=os.pathsep.join(p for p in sys.path if p), PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8")
    cmd = [sys.executable, "-B", "-W", "ignore", "-m", "simplemseed." + module] + [str(a) for a in argv]
    r, w = os.pipe()
    if closed:
        os.close(r)
    try:
        p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=w, stderr=subprocess.DEVNULL)
    finally:
        os.close(w)
    out = b""
    if not closed:
        with os.fdopen(r, "rb") as f:
            out = f.read()
    try:
        return p.wait(60), out.decode("utf-8")
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return "never", out.decode("utf-8")


# what the name of an encoding must say
ENCODING = {0: "text", 1: "16.*int", 3: "32.*int", 4: "32.*float", 5: "64.*float", 10: "steim.?1", 11: "steim.?2", 19: "steim.?3", 100: "opaque"}


def encoding_named(text, encoding):
    t = text.lower()
    if encoding in ENCODING:
        return re.search(ENCODING[encoding], t) is not None
    return not any(re.search(p, t) for p in ENCODING.values())
