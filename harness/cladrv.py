"""Replays behaviours of the critical line algorithm (spec/ClaGen) on the real class."""
import numpy as np
import pandas as pd

from core import fx, fxm, fxv
from rec import NAMES, Recorder, mat, num, rand_cov, rnd, vec


class Replay(Recorder):
    def run(self):
        from pypfopt import CLA
        rng, c = self.rng, self.beh["cfg"]
        n = self.n = c["n"]
        names = list(rng.choice(NAMES)[:n])
        S = rand_cov(rng, n)
        if c["cov2"] == "eq":       # exchangeable assets: many ties
            a, r = rng.choice([.04, .09]), rng.choice([0, .25, .5])
            S = a * ((1 - r) * np.eye(n) + r * np.ones((n, n)))
        while True:
            lo = -.1 if c["means"] == "mixed" else 0.01
            hi = .3 if c["means"] != "wide" else 1.5
            mu = [rnd(rng.uniform(lo, hi), 3) for _ in range(n)]
            if c["cov2"] == "eq" and rng.random() < .5:     # evenly spaced means
                a, d = rng.randint(1, 10), rng.choice([1, 2, 4])
                mu = [(a + d * i) / 100 for i in range(n)]
                rng.shuffle(mu)
            if len(set(mu)) == n:
                break
        if c["scale"] != "year":
            S = S / 252
        if c["scale"] == "day":
            mu = [x / 252 for x in mu]
        # exactly two arrays of two would be two pairs: avoided
        form = c["form"]
        box = c["box"]
        if form == "def":
            box = "long"
        if form in ("arrs", "lists") and n == 2:
            form = "pairs"
        one = form in ("def", "pair")
        L, U = [0.0] * n, [1.0] * n
        if box == "capped":
            u = rng.choice([.5, .6, .75, 2 / 3, .4]) if n > 2 else rng.choice([.6, .75, .9])
            if n == 6 and rng.random() < .5:
                u = .25
            U = [u] * n
            if not one:
                U = [rng.choice([u, 1.0, .8]) for _ in range(n)]
        elif box == "short":
            L = [-1.0] * n if one or rng.random() < .5 else [rng.choice([-1.0, -.2, -.5]) for _ in range(n)]
            if not one and rng.random() < .5:
                U = [rng.choice([1.0, .7, 2.0]) for _ in range(n)]
        elif box == "floor":
            L = [rng.choice([.05, .1]) if one else None] * n
            if not one:
                L = [rng.choice([.02, .05, .1, 0.0]) for _ in range(n)]
        elif box == "mixed":
            if one:
                L, U = [-.25] * n, [.8] * n
            else:
                L = [rng.choice([-.5, -.1, 0.0, .05]) for _ in range(n)]
                U = [rng.choice([.35, .5, .8, 1.0]) for _ in range(n)]
                while sum(U) < 1.05:
                    U[rng.randrange(n)] = 1.0
        elif box == "tight":
            if one:
                L, U = [0.1] * n, [rnd(1 / n + .1, 2)] * n
            else:
                b = 1 / n
                L = [rnd(max(0, b - rng.choice([.05, .1])), 2) for _ in range(n)]
                U = [rnd(b + rng.choice([.05, .1]), 2) for _ in range(n)]
        elif box == "exact":        # a single portfolio
            if one:
                L, U = ([0.0] * n, [1 / n] * n) if rng.random() < .6 else ([1 / n] * n, [1.0] * n)
            else:
                w = [rnd(rng.uniform(.5, 1.5) / n, 2) for _ in range(n - 1)]
                w.append(1 - sum(w))
                if w[-1] <= .01:
                    w = [1 / n] * n
                L, U = ([0.0] * n, w) if rng.random() < .5 else (w, [1.0] * n)
        elif box == "none":         # no portfolio at all
            if rng.random() < .5:
                L, U = [0.0] * n, [rnd(.9 / n, 3)] * n
            else:
                L, U = [rnd(1.1 / n, 3)] * n, [1.0] * n
            if not one and rng.random() < .4:
                L, U = [0.0] * n, [1.0] * n
                L[rng.randrange(n)], U[rng.randrange(n)] = .6, .5
                k = rng.randrange(n)
                L[k], U[k] = .6, .5
        kw = {}
        if not one and rng.random() < .5:       # integers where they are whole numbers
            L = [int(x) if x == int(x) else x for x in L]
            U = [int(x) if x == int(x) else x for x in U]
        if form == "pair":
            kw["weight_bounds"] = (L[0], U[0])
            if L[0] in (0.0, -1.0) and U[0] == 1.0 and rng.random() < .5:
                kw["weight_bounds"] = (int(L[0]), 1)
        elif form == "arrs":
            kw["weight_bounds"] = (np.array(L), np.array(U))
        elif form == "lists":
            kw["weight_bounds"] = (list(L), list(U))
        elif form == "pairs":
            kw["weight_bounds"] = [(a, b) for a, b in zip(L, U)]
        elif form == "tuples":
            kw["weight_bounds"] = tuple((a, b) for a, b in zip(L, U))
        mo = {"series": lambda: pd.Series(mu, index=names), "arr": lambda: np.array(mu), "list": lambda: list(mu),
              "col": lambda: np.array(mu).reshape(-1, 1)}[c["mu"]]()
        so = pd.DataFrame(S, index=names, columns=names) if c["cov"] == "df" else S.copy()
        self.watch(mo, so, kw.get("weight_bounds"))
        self.tick = names if c["mu"] == "series" else list(range(n))
        self.obj, out, exc = self.call(lambda: CLA(mo, so, **kw))
        self.emit("new", out, exc, n=n, mu=fxv(mu), S=fxm(S), lo=fxv(L), hi=fxv(U), form=form, box=box)
        if self.obj is not None:
            for op in self.beh["ops"]:
                self.do("o_" + op)
        return self.history()

    def held(self):
        w = self.obj.weights
        return [] if w is None else vec(w)

    def solve(self, op, f):
        r, out, exc = self.call(f)
        self.emit(op, out, exc, val=[] if r is None else vec(list(r.values())), keys=int(r is not None and list(r.keys()) == self.tick),
                  held=self.held())

    def o_minvol(self):
        self.solve("minvol", lambda: self.obj.min_volatility())

    def o_maxsharpe(self):
        self.solve("maxsharpe", lambda: self.obj.max_sharpe())

    def o_frontier(self):
        pts = self.rng.choice([None, 40, 25, 60])
        r, out, exc = self.call(lambda: self.obj.efficient_frontier() if pts is None else self.obj.efficient_frontier(pts))
        if r is None:
            self.emit("frontier", out, exc, rets=[], vols=[], ws=[], held=self.held())
            return
        a, b, ws = r
        # every third point, first and last included, to bound the log
        N = len(ws)
        keep = sorted(set(range(0, N, 3)) | {max(N - 1, 0)} if N else []) if len(a) == len(b) == N else range(N)
        self.emit("frontier", out, exc, rets=[num(a[k]) for k in keep] if len(a) == N else vec(a),
                  vols=[num(b[k]) for k in keep] if len(b) == N else vec(b), ws=[vec(ws[k]) for k in keep], held=self.held())

    def o_perf(self):
        rf = self.rng.choice([0.0, 0.0, .02])
        kw = {"risk_free_rate": rf} if rf else {}
        if self.rng.random() < .2:
            kw["verbose"] = True
        r, out, exc = self.call(lambda: self.obj.portfolio_performance(**kw))
        self.emit("perf", out, exc, val=[] if r is None else [num(x) for x in r], rf=fx(rf), held=self.held(), **self.printed(kw.get("verbose")))

    def o_setw(self):
        r, out, exc = self.call(lambda: self.obj.set_weights(dict(zip(self.tick, [1 / self.n] * self.n))))
        self.emit("setw", out, exc, held=self.held())

    def o_clean(self):
        r, out, exc = self.call(lambda: self.obj.clean_weights())
        self.emit("clean", out, exc, val=[] if r is None else vec(list(r.values())), held=self.held())


def run_one(job):
    return Replay(*job).run()
