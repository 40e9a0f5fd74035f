"""Replays behaviours of hierarchical risk parity (spec/HrpGen) on the real class."""
import numpy as np
import pandas as pd

from core import fx, fxm, fxv
from rec import NAMES, Recorder, num, rand_cov, rnd, vec

RULES = ["single", "complete", "average", "weighted", "ward", "centroid", "median"]


class Replay(Recorder):
    def run(self):
        from pypfopt import HRPOpt
        rng, c = self.rng, self.beh["cfg"]
        self.obj = None
        n = self.n = c["n"]
        names = self.tick = list(rng.choice(NAMES)[:n])
        S = rand_cov(rng, n) / rng.choice([1, 1, 252])
        T = rng.randint(n + 3, max(14, n + 6))
        L = np.linalg.cholesky(S / (252 if S[0, 0] > .001 else 1))
        g = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(T)])
        X = np.round(g @ L.T + rng.choice([0, .001]), 5)
        inp = c["input"]
        idx = rng.choice([pd.RangeIndex(T), pd.date_range("2020-01-01", periods=T)])
        ro = self.watch(pd.DataFrame(X, columns=names, index=idx))
        so = self.watch(pd.DataFrame(S, index=names, columns=names))
        kw = {}
        if inp in ("returns", "both"):
            kw["returns"] = ro
        if inp in ("cov", "both"):
            kw["cov_matrix"] = so
        if c["bad"] == "none":
            kw = {}
        elif c["bad"] == "type":
            kw = {"returns": rng.choice([X, X.tolist()])}
        r, out, exc = self.call(lambda: HRPOpt(**kw))
        self.obj = r if c["bad"] == "ok" else None
        self.S, self.X, self.inp = S, X, "cov" if inp == "cov" else "returns"
        self.emit("new", out, exc, n=n, input=self.inp, X=fxm(X), S=fxm(S), bad=c["bad"])
        if self.obj is not None:
            for op in self.beh["ops"]:
                self.do("o_" + op)
        return self.history()

    def held(self):
        w = self.obj.weights
        return [] if w is None else vec(w)

    def byticker(self, r):
        return [num(r[t]) for t in self.tick] if r is not None and set(r) == set(self.tick) else []

    def o_opt(self, rule=None):
        r, out, exc = self.call(lambda: self.obj.optimize() if rule is None else self.obj.optimize(linkage_method=rule))
        self.emit("opt", out, exc, rule="single" if rule is None else rule, val=self.byticker(r), keys=int(r is not None and set(r) == set(self.tick)),
                  held=self.held())

    def o_optm(self):
        self.o_opt(self.rng.choice(RULES))

    def o_optbad(self):
        self.o_opt(self.rng.choice(["blah", "wards", ""]))

    def o_perf(self):
        rf = self.rng.choice([0.0, 0.0, .02])
        fr = self.rng.choice([None, 12, 52])
        kw = {}
        if rf:
            kw["risk_free_rate"] = rf
        if fr:
            kw["frequency"] = fr
        if self.rng.random() < .2:
            kw["verbose"] = True
        r, out, exc = self.call(lambda: self.obj.portfolio_performance(**kw))
        self.emit("perf", out, exc, val=[] if r is None else [num(x) for x in r], rf=fx(rf), freq=fx(fr or 252), held=self.held(), **self.printed(kw.get("verbose")))

    def o_setw(self):
        w = [rnd(self.rng.uniform(0, 1), 3) for _ in range(self.n)]
        it = list(zip(self.tick, w))
        self.rng.shuffle(it)
        d = self.watch(dict(it))
        r, out, exc = self.call(lambda: self.obj.set_weights(d))
        self.emit("setw", out, exc, w=fxv(w), held=self.held())

    def o_clean(self):
        r, out, exc = self.call(lambda: self.obj.clean_weights())
        self.emit("clean", out, exc, val=self.byticker(r), held=self.held())


def run_one(job):
    return Replay(*job).run()
