"""Replays behaviours of the plotting functions (spec/PlotGen) and reads back what was drawn."""
import os
import shutil
import tempfile

os.environ["MPLBACKEND"] = "Agg"

import numpy as np
import pandas as pd

from core import fx, fxm, fxv
from rec import NAMES, Recorder, mat, num, rand_cov, rnd, vec

RULES = ["single", "complete", "average", "weighted", "ward", "centroid", "median"]


def xy(o):
    return [[num(a), num(b)] for a, b in np.asarray(o, dtype=float)]


MEANS = {"pos": (.02, .3), "mixed": (-.1, .3), "neg": (-.3, -.02)}


class Replay(Recorder):
    def run(self):
        import matplotlib.pyplot as plt
        from pypfopt import plotting
        self.plt, self.pl = plt, plotting
        rng, c = self.rng, self.beh["cfg"]
        n = self.n = c["n"]
        self.tick = list(rng.choice(NAMES)[:n])
        self.S = rand_cov(rng, n)
        self.obj, self.clean, self.used = None, True, ""
        self.dir = tempfile.mkdtemp(prefix="plot_")
        try:
            getattr(self, "k_" + c["kind"])(c)
            for op in self.beh["ops"]:
                plt.close("all")
                self.do("o_" + op)
        finally:
            plt.close("all")
            shutil.rmtree(self.dir)
        return self.history()

    # ---------------------------------------------------------------- drawing
    def canvas(self):
        """Axes to draw on: given, or left to be the current ones; others must stay empty."""
        fig, axs = self.plt.subplots(1, 2, figsize=(6, 3))
        self.axs = axs
        given = self.beh["cfg"]["where"] == "given"
        self.plt.sca(axs[1])
        self.target = axs[0] if given else axs[1]
        self.other = axs[1] if given else axs[0]
        return {"ax": axs[0]} if given else {}

    def io(self):
        if self.rng.random() < .1:
            self.fn = os.path.join(self.dir, "p%d.png" % len(self.ev))
            return {"filename": self.fn, "dpi": self.rng.choice([50, 60])}
        self.fn = None
        return {}

    def saved(self):
        return int(self.fn is None or (os.path.exists(self.fn) and open(self.fn, "rb").read(8) == b"\x89PNG\r\n\x1a\n"))

    def drawn(self, r):
        o = self.other
        return int(r is self.target and not o.lines and not o.collections and not o.patches and not o.images)

    # ---------------------------------------------------------------- set-ups
    def k_ef(self, c):
        rng, n = self.rng, self.n
        while True:
            self.mu = [rnd(rng.uniform(*MEANS[c["means"]]), 3) for _ in range(n)]
            if len(set(self.mu)) == n:
                break
        self.lo, self.hi = self.boxes(c["box"])
        self.l2 = rng.choice([.01, .05]) if c["extra"] == "l2" else 0
        self.cap = None
        b = (self.lo[0], self.hi[0])
        self.wb = b if rng.random() < .5 else [b] * n
        if c["extra"] in ("cap", "share"):     # a constraint on one asset: the same as a tighter bound
            i = rng.randrange(n)
            v = rnd(self.lo[i] + (self.hi[i] - self.lo[i]) * rng.choice([.5, .75, .9]), 3)
            if sum(self.hi) - self.hi[i] + v > 1.15:
                self.cap = (i, v)
                self.hi = list(self.hi)
                self.hi[i] = v
        self.obj, out, exc = self.call(self.fresh)
        self.emit("new", out, exc, kind="ef", n=n, mu=fxv(self.mu), S=fxm(self.S), lo=fxv(self.lo), hi=fxv(self.hi), l2=int(self.l2 > 0),
                  names=[str(t) for t in self.tick])

    def boxes(self, box):
        n, rng = self.n, self.rng
        return {"long": ([0.0] * n, [1.0] * n), "capped": ([0.0] * n, [.6 if n > 2 else .8] * n),
                "floor": ([.05] * n, [1.0] * n), "short": ([-.3] * n, [1.0] * n)}[box]

    def fresh(self, **kw):
        from pypfopt import EfficientFrontier, objective_functions
        ef = EfficientFrontier(pd.Series(self.mu, index=self.tick), pd.DataFrame(self.S, index=self.tick, columns=self.tick), weight_bounds=self.wb, **kw)
        if self.cap:
            i, v = self.cap
            ef.add_constraint(lambda w: w[i] <= v)
        if self.l2:
            ef.add_objective(objective_functions.L2_reg, gamma=self.l2)
        return ef

    def refs(self, kind, p):
        """What fresh optimizers answer at the parameter and next to it. Where the solver gives up on a
        problem that another one solves, the point may or may not be drawn."""
        rs = [self.ref(kind, p * f) for f in (1, 1.002, .998)]
        if rs == [None] * 3:
            rs[0] = self.ref(kind, p, solver="CLARABEL")
        return rs

    def ref(self, kind, p, **kw):
        """What a fresh optimizer answers: weights, or None when it refuses."""
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                ef = self.fresh(**kw)
                d = {"return": ef.efficient_return, "risk": ef.efficient_risk, "utility": ef.max_quadratic_utility}[kind](p)
                return [float(d[t]) for t in self.tick]
            except Exception:
                return None

    def minvol(self):
        d = self.fresh().min_volatility()
        return [float(d[t]) for t in self.tick]

    def top(self):
        rest = 1 - sum(self.lo)
        r = float(np.dot(self.lo, self.mu))
        for i in sorted(range(self.n), key=lambda i: -self.mu[i]):
            t = min(rest, self.hi[i] - self.lo[i])
            rest -= t
            r += t * self.mu[i]
        return r

    def k_cla(self, c):
        from pypfopt import CLA
        rng, n = self.rng, self.n
        while True:
            self.mu = [rnd(rng.uniform(*MEANS["mixed" if c["means"] == "neg" else c["means"]]), 3) for _ in range(n)]
            self.lo, self.hi = self.boxes(c["box"])
            if len(set(self.mu)) == n and self.top() > .02:
                break
        m, s, b = pd.Series(self.mu, index=self.tick), pd.DataFrame(self.S, index=self.tick, columns=self.tick), (self.lo[0], self.hi[0])
        self.mk = lambda: CLA(m, s, weight_bounds=b)
        self.obj, out, exc = self.call(self.mk)
        self.emit("new", out, exc, kind="cla", n=n, mu=fxv(self.mu), S=fxm(self.S), lo=fxv(self.lo), hi=fxv(self.hi), l2=0,
                  names=[str(t) for t in self.tick])
        self.fpts = 0

    def k_hrp(self, c):
        from pypfopt import HRPOpt
        rng, n = self.rng, self.n
        X = []
        if rng.random() < .5:
            T = rng.randint(n + 3, 14)
            L = np.linalg.cholesky(self.S / 252)
            X = np.round(np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(T)]) @ L.T, 5)
            self.obj, out, exc = self.call(lambda: HRPOpt(self.watch(pd.DataFrame(X, columns=self.tick))))
        else:
            self.obj, out, exc = self.call(lambda: HRPOpt(cov_matrix=self.watch(pd.DataFrame(self.S, index=self.tick, columns=self.tick))))
        self.emit("new", out, exc, kind="hrp", n=n, mu=[], S=fxm(self.S), lo=[], hi=[], X=fxm(X) if len(X) else [], l2=0,
                  names=[str(t) for t in self.tick])

    def k_cov(self, c):
        self.emit("new", kind="cov", n=self.n, mu=[], S=fxm(self.S), lo=[], hi=[], l2=0, names=[str(t) for t in self.tick])

    k_weights = k_cov

    # ---------------------------------------------------------------- frontiers
    def picture(self, r, web):
        """curve, assets, marked portfolio, ticker annotations of a frontier plot"""
        p = {"curve": [], "assets": [], "best": [], "notes": [], "axes": 0, "keyed": 0}
        if r is None:
            return p
        if web:
            for t in r.data:
                pts = xy(list(zip(t.x, t.y)))
                if t.mode == "lines":
                    p["curve"].append(pts)
                elif t.name == "Max Sharpe Portfolio":
                    p["best"].append(pts)
                else:
                    p["assets"].append(pts)
            p["axes"] = int(r.layout.xaxis.title.text == "Volatility" and r.layout.yaxis.title.text == "Return")
            p["keyed"] = 1
            return p
        for ln in r.lines:
            p["curve"].append(xy(np.column_stack([ln.get_xdata(), ln.get_ydata()])))
        for cl in r.collections:
            p["best" if cl.get_label() == "optimal" else "assets"].append(xy(cl.get_offsets()))
        p["notes"] = [[a.get_text(), num(a.xy[0]), num(a.xy[1])] for a in r.texts]
        p["axes"] = int(r.get_xlabel() == "Volatility" and r.get_ylabel() == "Return")
        lg = r.get_legend()
        p["keyed"] = int(lg is not None and len(lg.get_texts()) == len(r.lines) + len(r.collections))
        return p

    def frontier(self, op, kind, params, asked, points=None, known=True):
        rng = self.rng
        web = self.beh["cfg"]["look"] == "web"
        kw = {"interactive": True} if web else dict(self.canvas(), **self.io())
        if web:
            self.fn = None
        sa = rng.choice([None, True, False])
        st = rng.choice([None, True, False])
        if sa is not None:
            kw["show_assets"] = sa
        if st is not None:
            kw["show_tickers"] = st
        if kind is not None and (kind != "return" or rng.random() < .5):
            kw["ef_param"] = kind
        if asked is not None:
            kw["ef_param_range"] = asked
        if points is not None:
            kw["points"] = points
        r, out, exc = self.call(lambda: self.pl.plot_efficient_frontier(self.obj, **kw))
        e = self.picture(r, web)
        e.update(sa=int(sa is not False), st=int(bool(st) and not web), web=int(web), drawn=1 if web or r is None else self.drawn(r), saved=self.saved(),
                 fresh=int(self.clean), known=int(known))
        if kind is not None and known:
            e["params"] = fxv(params)
            e["kind"] = kind
            # around each parameter: does a fresh optimizer solve it?
            refs = [self.refs(kind, p) for p in params]
            e["ref"] = [[vec(w) if w is not None else [] for w in rs] for rs in refs]
        self.emit(op, out, exc, **e)
        if kind is not None:
            self.clean = False

    def ranged(self, op, kind, params):
        asked = self.rng.choice([list, np.array, np.array])(params)
        self.watch(asked)
        self.frontier(op, kind, params, asked)

    def span(self):
        w = np.array(self.minvol())
        return float(w @ self.mu), float(np.sqrt(w @ self.S @ w)), self.top()

    def o_ret(self, bad=False):
        rng = self.rng
        r0, s0, r1 = self.span()
        ps = [rnd(r0 + (r1 - r0) * rng.uniform(.05, .95), 4) for _ in range(rng.randint(1, 5))]
        if bad:
            for _ in range(rng.randint(1, 2)):
                ps.insert(rng.randint(0, len(ps)), rng.choice([rnd(r1 * 1.1 + .01, 4), rnd(max(self.mu) + .05, 4), 5.0]))
        elif rng.random() < .6:
            ps.sort()
        self.ranged("ef", "return", ps)

    def o_retbad(self):
        self.o_ret(True)

    def o_risk(self, bad=False):
        rng = self.rng
        r0, s0, r1 = self.span()
        ps = [rnd(s0 * rng.uniform(1.02, 1.8), 4) for _ in range(rng.randint(1, 5))]
        if bad:
            for _ in range(rng.randint(1, 2)):
                ps.insert(rng.randint(0, len(ps)), rng.choice([rnd(s0 * .7, 4), .001, -.1]))
        elif rng.random() < .6:
            ps.sort()
        self.ranged("ef", "risk", ps)

    def o_riskbad(self):
        self.o_risk(True)

    def o_util(self, bad=False):
        rng = self.rng
        ps = [rng.choice([.5, 1, 2, 3, 5, 8, 20, 1.5]) for _ in range(rng.randint(1, 5))]
        if bad:
            for _ in range(rng.randint(1, 2)):
                ps.insert(rng.randint(0, len(ps)), rng.choice([0, -1, -2.5]))
        elif rng.random() < .6:
            ps.sort()
        self.ranged("ef", "utility", ps)

    def o_utilbad(self):
        self.o_util(True)

    def o_def(self):
        pts = self.rng.choice([2, 3, 4, 5, 6])
        r0, s0, r1 = self.span()
        self.frontier("ef", "return", list(np.linspace(r0, r1 - .0001, pts)), None, points=pts)
        self.ev[-1]["op"] = "efdef"
        self.ev[-1]["points"] = pts

    def o_param(self):
        self.frontier("efparam", self.rng.choice(["ret", "sharpe", "vol"]), [], [.1, .2], known=False)

    def held(self):
        w = self.obj.weights
        return [] if w is None else vec(w)

    def o_minvol(self):
        r, out, exc = self.call(lambda: self.obj.min_volatility())
        self.emit("solve", out, exc, held=self.held())

    def o_maxsharpe(self):
        r, out, exc = self.call(lambda: self.obj.max_sharpe())
        self.emit("solve", out, exc, held=self.held())

    def o_frontier(self):
        k = self.rng.choice([15, 30])
        r, out, exc = self.call(lambda: self.obj.efficient_frontier(k))
        self.fpts = k
        self.emit("front", out, exc, pts=k)

    def o_plot(self):
        pts = self.rng.choice([12, 25, 40])
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ref = {k: list(zip(*self.mk().efficient_frontier(k)))
                   for k in {pts, self.fpts} if k}
        self.frontier("cla", None, None, None, points=pts)
        e = self.ev[-1]
        e["held"] = self.held()
        e["ref"] = [[[num(s), num(m), vec(w)] for m, s, w in v] for k, v in sorted(ref.items(), key=lambda kv: kv[0] != (self.fpts or pts))]
        self.fpts = self.fpts or pts

    # ---------------------------------------------------------------- dendrogram
    def o_opt(self, rule=None):
        r, out, exc = self.call(lambda: self.obj.optimize() if rule is None else self.obj.optimize(linkage_method=rule))
        self.emit("opt", out, exc, rule=rule or "single", held=self.held())

    def o_optm(self):
        self.o_opt(self.rng.choice(RULES))

    def o_setw(self):
        w = [rnd(self.rng.uniform(0, 1), 3) for _ in range(self.n)]
        r, out, exc = self.call(lambda: self.obj.set_weights(dict(zip(self.tick, w))))
        self.emit("setw", out, exc, held=self.held())

    def o_wrong(self):
        self.canvas()
        r, out, exc = self.call(lambda: self.pl.plot_efficient_frontier(self.obj))
        self.emit("wrong", out, exc)

    def o_dend(self):
        from matplotlib.collections import LineCollection
        kw = dict(self.canvas(), **self.io())
        st = self.rng.choice([None, True, False])
        if st is not None:
            kw["show_tickers"] = st
        r, out, exc = self.call(lambda: self.pl.plot_dendrogram(self.obj, **kw))
        hs, labels = [], []
        if r is not None:
            for cl in r.collections:
                if isinstance(cl, LineCollection):
                    hs += [float(s[1][1]) for s in cl.get_segments()]     # leg, bar, leg
            labels = [t.get_text() for _, t in sorted(zip(r.get_xticks(), r.get_xticklabels()), key=lambda a: a[0])]
        self.emit("dend", out, exc, heights=fxv(sorted(hs)), labels=labels, st=int(st is not False), held=self.held(),
                  drawn=0 if r is None else self.drawn(r), saved=self.saved(), warned=int("RuntimeWarning" in self.warned))

    # ---------------------------------------------------------------- matrices and bars
    def o_cov(self, corr=False):
        rng = self.rng
        frame = rng.random() < .6
        S = self.watch(pd.DataFrame(self.S, index=self.tick, columns=self.tick) if frame else self.S.copy())
        kw = self.io()
        st = rng.choice([None, True, False])
        if st is not None:
            kw["show_tickers"] = st
        if corr:
            kw["plot_correlation"] = True
        elif rng.random() < .3:
            kw["plot_correlation"] = False
        before = set(self.plt.get_fignums())
        r, out, exc = self.call(lambda: self.pl.plot_covariance(S, **kw))
        im, xl, yl = [], [], []
        if r is not None:
            a = np.asarray(r.images[0].get_array(), dtype=float)
            im = mat(a) if len(r.images) == 1 else []
            xl = self.ticks(r.get_xticks(), r.get_xticklabels()) if st is not False else []
            yl = self.ticks(r.get_yticks(), r.get_yticklabels()) if st is not False else []
        self.emit("cov", out, exc, corr=int(corr), st=int(st is not False), img=im, xl=xl, yl=yl, saved=self.saved(),
                  want=[str(t) for t in self.tick] if frame else [str(i) for i in range(self.n)])

    def ticks(self, pos, labels):
        """Labels by position 0..n-1; '?' when the positions are others."""
        p = sorted(zip([float(x) for x in pos], [t.get_text() for t in labels]))
        return [t for _, t in p] if [a for a, _ in p] == list(range(self.n)) else ["?"]

    def o_corr(self):
        self.o_cov(True)

    def o_bars(self):
        rng = self.rng
        w = [rng.choice([0.0, rnd(rng.uniform(0, 1), 4), rnd(rng.uniform(-.5, .5), 4), rnd(rng.uniform(0, .3), 2)]) for _ in range(self.n)]
        if rng.random() < .3:
            w[-1] = w[0]
        items = list(zip(self.tick, w))
        rng.shuffle(items)
        from collections import OrderedDict
        d = self.watch(rng.choice([dict, OrderedDict])(items))
        kw = dict(self.canvas(), **self.io())
        r, out, exc = self.call(lambda: self.pl.plot_weights(d, **kw))
        bars, labels, down = [], [], 0
        if r is not None:
            b = sorted((p.get_y() + p.get_height() / 2, p.get_x(), p.get_width()) for p in r.patches)
            ok = np.allclose([x[0] for x in b], range(self.n)) and len(b) == self.n
            bars = vec([x[1] + x[2] for x in b]) if ok else []
            labels = self.ticks(r.get_yticks(), r.get_yticklabels())
            a, z = r.get_ylim()
            down = int(a > z)
        self.emit("bars", out, exc, w=fxv(w), bars=bars, labels=labels, down=down, drawn=0 if r is None else self.drawn(r), saved=self.saved())


def run_one(job):
    return Replay(*job).run()
