"""Recording of calls for all drivers: outcome, exception, input digests."""
import contextlib
import io
import json
import pickle
import random
import re
import signal
import warnings
import zlib

import numpy as np

from core import fx, fxm, fxv

CALL_LIMIT = 60        # seconds before a call is recorded as hanging


class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


def digest(x):
    """A number that changes when the data behind x changes (values, labels, order, type)."""
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        b = repr((list(map(repr, x.columns)), list(map(repr, x.index)), [str(t) for t in x.dtypes], repr(x.columns.names), repr(x.index.names))).encode() \
            + b"".join(repr(x.iloc[:, j].tolist()).encode() for j in range(x.shape[1]))
    elif isinstance(x, pd.Series):
        b = repr((list(map(repr, x.index)), str(x.dtype), x.name, x.tolist())).encode()
    elif isinstance(x, np.ndarray):
        b = repr((x.shape, str(x.dtype), x.tolist(), x.flags.writeable)).encode()
    elif isinstance(x, dict):
        b = repr((type(x).__name__, [(k, digest(v)) for k, v in x.items()])).encode()
    elif isinstance(x, (list, tuple)):
        b = repr((type(x).__name__, [digest(v) for v in x])).encode()
    else:
        b = repr(x).encode()
    return zlib.crc32(b) % 1000000007


class Recorder:
    def __init__(self, beh, seed):
        self.beh, self.seed = beh, seed
        self.rng = random.Random(seed)
        self.ev = []
        self.watched = []
        self.lastexc = ""
        self.lastcall = False

    def watch(self, *xs):
        """Data handed to the code under test: it must stay as it is."""
        for x in xs:
            if x is not None and not isinstance(x, (int, float, str, bool)):
                self.watched.append(x)
        return xs[0] if len(xs) == 1 else xs

    def call(self, fn):
        """(result, "ok"/"err", exception class, warning classes)"""
        self.lastcall = True
        self.pre = [digest(x) for x in self.watched]
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            old = signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(CALL_LIMIT)
            try:
                with contextlib.redirect_stdout(io.StringIO()) as so:
                    r = fn()
                out, exc = "ok", "none"
            except KeyboardInterrupt:
                raise
            except BaseException as e:      # recorded; the specification judges
                r, out, exc = None, "err", type(e).__name__
                self.lastexc = repr(e)[:300]
            finally:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
        self.stdout = so.getvalue()
        self.warned = [w.category.__name__ for w in ws]
        self.warnmsgs = [(w.category.__name__, str(w.message)) for w in ws]
        return r, out, exc

    def printed(self, verbose):
        """The figures a verbose call printed ("name: 12.3%"); nothing is said when one is not finite."""
        f = re.findall(r": (\S+?)(%?)$", self.stdout, re.M) if verbose else []
        f = [(num(x), int(p == "%")) for x, p in f]
        ok = bool(verbose) and all(x != [] for x, _ in f)
        return {"verb": int(ok), "loud": int(not verbose and bool(self.stdout.strip())), "shown": [{"v": x, "pct": p} for x, p in f] if ok else []}

    def emit(self, op, out="ok", exc="none", **kw):
        kw.update(op=op, out=out, exc=exc)
        if out == "err":
            kw["msg"] = self.lastexc
        pre = getattr(self, "pre", [])
        post = [digest(x) for x in self.watched]
        kw["pre"] = pre
        kw["post"] = post[:len(pre)]
        self.pre = post
        self.ev.append(kw)

    def do(self, name, *args):
        """One operation of the driver; an answer it cannot even log is itself an event."""
        try:
            getattr(self, name)(*args)
        except Exception as e:
            if not self.lastcall:
                raise       # nothing was called: a fault of the driver
            self.lastexc = repr(e)[:300]
            self.emit("malformed", "err", "malformed", what=name)
            return False
        return True

    def history(self):
        return {"id": self.seed, "ev": self.ev, "sym": self.beh}


def rnd(x, k=4):
    return round(float(x), k)


def num(x):
    """A logged number: limbs, or <<>> when it is missing or not finite."""
    try:
        f = float(x)
    except Exception:
        return []
    return fx(f) if np.isfinite(f) else []


def vec(v):
    return [num(x) for x in np.asarray(v, dtype=float).ravel()]


def mat(M):
    return [vec(r) for r in np.asarray(M, dtype=float)]


NAMES = [["AAA", "BBB", "CCC", "DDD", "EEE", "FFF", "GGG", "HHH"], ["ZZ", "MM", "QQ", "AA", "YY", "BB", "XX", "CC"],
         ["x1", "x10", "x2", "b", "x20", "a", "x3", "c"], ["T", "GE", "F", "IBM", "KO", "V", "MMM", "C"],
         [7, 3, 5, 1, 0, 2, 9, 4], [3, 2, 1, 0, 7, 6, 5, 4]]
# longer universes go on in the same style
NAMES = [v + (["%s%d" % (v[0], 30 + (7 * k) % 16) for k in range(16)] if isinstance(v[0], str) else [10 + (7 * k) % 16 for k in range(16)])
         for v in NAMES]


def rand_cov(rng, n, lo=8, hi=40, floor=0.002):
    while True:
        sd = np.array([rng.randint(lo, hi) / 100 for _ in range(n)])
        A = np.array([[rng.gauss(0, 1) for _ in range(n + 1)] for _ in range(n)])
        C = A @ A.T
        d = np.sqrt(np.diag(C))
        C = 0.7 * C / np.outer(d, d) + 0.3 * np.eye(n)
        S = np.round(C * np.outer(sd, sd), 4)
        S = (S + S.T) / 2
        if np.linalg.eigvalsh(S)[0] > floor:
            return S
