"""Replays behaviours of discrete allocation (spec/DaGen) on the real class."""
import collections
import itertools
import re

import numpy as np
import pandas as pd

from core import fx, fxv
from rec import NAMES, Recorder, num, rnd, vec


def candidate(w, p, V):
    """A good whole-share portfolio, found by brute force over a box below the ceilings."""
    f = [int(np.floor(a * V / b + 1e-9)) for a, b in zip(w, p)]
    rngs = [range(max(0, k - 3), k + 2) for k in f]
    best, arg = None, None
    for x in itertools.product(*rngs):
        c = sum(a * b for a, b in zip(x, p))
        if c > V:
            continue
        o = sum(abs(a * V - k * b) for a, b, k in zip(w, p, x)) + V - c
        if best is None or o < best - 1e-12:
            best, arg = o, x
    return list(arg) if arg is not None else []


class Replay(Recorder):
    def run(self):
        from pypfopt import discrete_allocation as da
        self.da = da
        rng, c = self.rng, self.beh["cfg"]
        self.obj = None
        n = self.n = c["n"]
        kind, bad = c["kind"], c["bad"]
        names = [str(x) for x in rng.choice(NAMES)]
        tick = self.tick = names[:n]
        lp = any(o.startswith("lp") for o in self.beh["ops"])
        # weights
        while True:
            g = np.array([rng.random() + .02 for _ in range(n)])
            w = g / g.sum()
            if kind == "partial":
                w = w * rng.choice([.5, .8, .95])
            if kind == "zeros" and n > 1:
                for i in rng.sample(range(n), rng.randint(1, n - 1)):
                    w[i] = 0
                w = w / w.sum()
            if kind == "equal":
                w = np.full(n, 1 / n)
            if kind == "mixed" and n > 1:
                for i in rng.sample(range(n), rng.randint(1, n - 1)):
                    w[i] = -w[i]
                s = w[w > 0].sum()
                if s < .05:
                    continue
                if rng.random() < .7:
                    w = w / s
            if kind == "fit":
                k = [rng.randint(1, 20) for _ in range(n)]
                w = np.array(k, dtype=float)
            if kind not in ("equal", "fit") and rng.random() < .7:
                d = rng.choice([2, 3, 5])
                w = np.floor(w * 10**d) / 10**d
            if kind == "mixed" and n > 1 and (w[w > 0].sum() < .05 or w[w < 0].sum() > -.02):
                continue
            if kind != "mixed" and (w.sum() > 1 + 1e-12 and kind != "fit" or w.sum() <= 0):
                continue
            break
        V = {"def": 10000, "small": rng.choice([100, 250, 500, 731.5]), "mid": rng.choice([2000, 5000, 12345.67, 20000]),
             "big": rng.choice([50000, 100000, 1e6]), "tiny": rng.choice([5, 20, 40.5])}[c["value"]]
        if lp and c["value"] in ("big",):
            V = 20000
        pr = c["price"]
        if pr == "whole":
            p = np.array([rng.randint(5, 400) for _ in range(n)])
            if rng.random() < .5:
                p = p.astype(float)
        elif pr == "nice":      # leftovers are often exactly the price of a share
            p = np.array([rng.choice([1, 2, 5, 10, 20, 25, 50]) * rng.choice([1, 1, 5]) for _ in range(n)])
            if rng.random() < .7:
                p = p.astype(float)
            V = rng.choice([1, 2, 4, 5, 10, 20]) * 100 + rng.choice([0, 0, 5, 10, 50])
        elif pr == "dear":
            p = np.array([rnd(rng.uniform(300, 3000), 2) for _ in range(n)])
        else:
            p = np.array([rnd(rng.uniform(3, 300), 2 if pr == "cents" else 3) for _ in range(n)])
            if pr == "oneDear":
                p[rng.randrange(n)] = rnd(rng.uniform(2000, 9000), 2)
            if pr == "fewCheap":       # most assets cost more than is left after the first round
                p = np.array([rng.choice([rnd(rng.uniform(200, 900), 2)] * 4 + [rnd(rng.uniform(3, 30), 2)]) for _ in range(n)])
        if V / p.min() > 400 and not lp:
            p = p * 10
        if kind == "fit":   # weights that buy whole numbers of shares exactly
            cost = w * p
            V = float(cost.sum()) + rng.choice([0, 0, 10])
            w = cost / V
            if w.sum() > 1:
                w = w * (1 - 2e-16)
        w = np.array([float(x) for x in w])
        if w.sum() > 1 and not (w < 0).any():
            w = w * (1 - 4e-16)
        it = list(zip(tick, [float(x) for x in w]))
        wd = rng.choice([dict, collections.OrderedDict])(it)
        ratio = None
        if c["ratio"] == "given":
            ratio = rng.choice([.3, .5, 1.0, .25])
        order = list(range(n))
        if c["order"] != "same":
            rng.shuffle(order)
        items = [(tick[i], p[i]) for i in order]
        if c["order"] == "superset":
            items.insert(rng.randint(0, n), ("other", p.dtype.type(rng.randint(10, 50))))
        ps = pd.Series([b for _, b in items], index=[a for a, _ in items])
        if bad == "weights":
            wd = rng.choice([list(wd.items()), pd.Series(wd), list(wd.values())])
        elif bad == "nanw":
            wd[tick[rng.randrange(n)]] = np.nan
        elif bad == "prices":
            ps = rng.choice([ps.to_dict(), ps.values, pd.DataFrame(ps)])
        elif bad == "nanp":
            ps = ps.astype(float)
            ps.iloc[rng.randrange(len(ps))] = np.nan
        elif bad == "value":
            V = rng.choice([0, -100, -.5])
        elif bad == "ratio":
            ratio = rng.choice([-.3, -1])
        elif bad == "missing":
            ps = ps.drop(tick[rng.randrange(n)])
        self.watch(wd, ps)
        kw = {}
        if c["value"] != "def" or V != 10000:
            kw["total_portfolio_value"] = V
        if ratio is not None:
            kw["short_ratio"] = ratio
        r, out, exc = self.call(lambda: da.DiscreteAllocation(wd, ps, **kw))
        self.w, self.p, self.V = w, p, V
        self.ratio = ratio
        self.obj = r
        self.emit("new", out, exc, n=n, w=fxv(w), p=fxv(p), V=fx(V), ratio=[] if ratio is None else fx(ratio), bad=bad)
        for op in self.beh["ops"]:
            if op == "latest":
                self.do("o_latest")
            elif self.obj is not None:
                self.do("o_" + op)
        return self.history()

    def o_greedy(self, method="greedy", reinvest=False, **kw):
        f = self.obj.greedy_portfolio if method == "greedy" else self.obj.lp_portfolio
        if reinvest:
            kw["reinvest"] = True
        cand = []
        if method == "lp":
            cand = self.candidates(reinvest)
            s = self.rng.choice([None, None, "SCIPY"])
            if s:
                kw["solver"] = s
        r, out, exc = self.call(lambda: f(**kw))
        if r is None:
            self.emit(method, out, exc, sh=[], left=[], nozero=1, keys=1, attr=1, reinvest=int(reinvest), cand=cand, solver=kw.get("solver") or "none", verb=0)
            return
        al, left = r
        self.emit(method, out, exc, sh=[num(al.get(t, 0)) for t in self.tick], left=num(left), nozero=int(all(v != 0 for v in al.values())),
                  keys=int(set(al) <= set(self.tick)), attr=int(dict(self.obj.allocation) == dict(al)), reinvest=int(reinvest), cand=cand, solver=kw.get("solver") or "none", **self.report(kw.get("verbose"), reinvest))

    def report(self, verbose, reinvest):
        """What a verbose allocation printed about a long portfolio."""
        if not verbose or (np.asarray(self.w) < 0).any() or reinvest:
            return {"verb": 0, "lines": [], "rmse": [], "rem": []}
        so = self.stdout
        at = {t: i + 1 for i, t in enumerate(self.tick)}
        lines = [[at.get(t, 0), num(a), num(b)] for t, a, b in re.findall(r"^(.*): allocated (\S+), desired (\S+)$", so, re.M)]
        one = lambda pat: (lambda f: num(f[0]) if len(f) == 1 else [])(re.findall(pat, so, re.M))
        return {"verb": 1, "lines": lines, "rmse": one(r"RMSE: (\S+)$"), "rem": one(r"Funds remaining: (\S+)$")}

    def candidates(self, reinvest):
        w, p, V = self.w, np.asarray(self.p, dtype=float), self.V
        if not (w < 0).any():
            return [candidate(w, p, V)]
        L, S = w >= 0, w < 0
        sv = (-w[S].sum() if self.ratio is None else self.ratio) * V
        lw = w[L].sum()
        return [candidate(w[L] / lw, p[L], V + sv * reinvest), candidate(-w[S] / -w[S].sum(), p[S], sv)]

    def o_greedyr(self):
        self.o_greedy(reinvest=True)

    def o_greedyv(self):
        self.o_greedy(verbose=True, reinvest=self.rng.random() < .3)

    def o_lp(self):
        self.o_greedy("lp")

    def o_lpr(self):
        self.o_greedy("lp", True)

    def o_lpv(self):
        self.o_greedy("lp", verbose=True)

    def o_latest(self):
        rng = self.rng
        k, T = rng.randint(1, 4), rng.randint(1, 6)
        X = np.array([[rnd(rng.uniform(1, 99), 2) if rng.random() < .75 else np.nan for _ in range(k)] for _ in range(T)])
        names = [str(x) for x in rng.choice(NAMES)[:k]]
        o = pd.DataFrame(X, columns=names, index=pd.date_range("2021-01-01", periods=T))
        inv = 0
        if rng.random() < .2:
            o, inv = rng.choice([X, o.iloc[:, 0], X.tolist()]), 1
        self.watch(o)
        r, out, exc = self.call(lambda: self.da.get_latest_prices(o))
        self.emit("latest", out, exc, cols=[vec(X[:, j]) for j in range(k)], val=[] if r is None else vec(r),
                  keys=int(r is not None and hasattr(r, "index") and list(r.index) == names), invalid=inv)


def run_one(job):
    return Replay(*job).run()
