"""Helpers shared by the drivers.  Drivers run under /opt/venv/bin/python with the repository and
its freshly built modules on sys.path, execute the real code, and write one JSON object per line."""
import json, os, sys, math, io, contextlib

BIG = 1 << 30
HOOK = None           # duo.py: called after every event
END = None            # duo.py: raised instead of ending the process


def quiet_stdout():
    """Send everything the code under test prints (Python and C++) to /dev/null."""
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.close(devnull)


def sc(v, k):
    """v*k as an int TLC can hold; NaN and huge values become a sentinel no expectation equals."""
    try:
        x = float(v) * k
    except Exception:
        return BIG
    if x != x or abs(x) > BIG - 2:
        return BIG
    return int(round(x))


def iv(v):
    try:
        i = int(v)
    except Exception:
        return BIG
    return i if abs(i) < BIG else BIG


class Trace:
    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0

    def put(self, **kw):
        self.f.write(json.dumps(kw, separators=(',', ':')) + '\n')
        self.n += 1
        if HOOK:
            HOOK()

    def flush(self):
        self.f.flush()

    def close(self):
        self.f.close()


def split_seed(s):
    """A seed 'a.b': sessions with the same a build the same objects, and then do what b says."""
    a, _, b = str(s).partition('.')
    return a, b


def describe(e):
    return ('%s: %s' % (type(e).__name__, e))[:300]


def done():
    """The driver got to its end.  (A C++ exit() inside the code under test leaves through exit handlers
    that may report success, so the exit status alone does not show that.)"""
    if END:
        raise END()
    if 'VERIF_DONE' in os.environ:
        open(os.environ['VERIF_DONE'], 'w').close()
    sys.stderr.flush()
    if 'VERIF_COVERAGE' in os.environ:        # gcov writes its counts in exit handlers
        sys.exit(0)
    os._exit(0)
