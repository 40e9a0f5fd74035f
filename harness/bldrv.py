"""Replays Black-Litterman behaviours (spec/BLGen) on the real class."""
import numpy as np
import pandas as pd

from core import fx, fxm, fxv
from rec import NAMES, Recorder, mat, num, rand_cov, rnd, vec


# confidences, with the ends of [0, 1] and values near them
CONFS = [0, 1, .5, .5, .001, .01, .015, .03, .97, .99, .999]


class Replay(Recorder):
    def run(self):
        import pypfopt
        from pypfopt import black_litterman as bl
        self.bl = bl
        rng, c = self.rng, self.beh["cfg"]
        self.obj = None
        n = c["n"]
        self.n = n
        names = list(rng.choice(NAMES)[:n])
        self.names = names
        S = rand_cov(rng, n)
        if c["sing"] == "cov" and n > 2:
            i, j = rng.sample(range(n), 2)
            S[j, :] = S[i, :]
            S[:, j] = S[:, i]
            S[j, j] = S[i, i]
        self.S = S
        self.covobj = self.watch(pd.DataFrame(S, index=names, columns=names) if c["cov"] == "df" else S.copy())
        self.tick = names if c["cov"] == "df" else list(range(n))
        self.do("new", c)
        for op in self.beh["ops"]:
            if op in ("mkt", "ra", "defomega", "idz"):
                self.do("f_" + op)
            elif self.obj is not None:
                self.do("o_" + op)
        return self.history()

    def views(self, c):
        """random picking matrix and view values"""
        rng, n = self.rng, self.n
        k = {"one": 1, "some": rng.randint(1, n), "all": n}[c["k"]]
        while True:
            P = np.zeros((k, n))
            for r in range(k):
                t = rng.random()
                if t < .35:
                    P[r, rng.randrange(n)] = 1
                elif t < .5 and n > 1:      # any positions, geared or small
                    for i in rng.sample(range(n), rng.randint(1, min(n, 3))):
                        P[r, i] = rng.choice([2, -1, 1.5, -2.5, .05, .3])
                elif t < .8 and n > 1:
                    i, j = rng.sample(range(n), 2)
                    P[r, i], P[r, j] = 1, -1
                else:
                    i, j = rng.sample(range(n), 2)
                    P[r, i], P[r, j] = .5, .5
                    if n > 2:
                        q = rng.choice([x for x in range(n) if x not in (i, j)])
                        P[r, q] = -1
            if np.linalg.matrix_rank(P) == k and np.linalg.eigvalsh(P @ self.S @ P.T)[0] > 1e-3:
                break
            if rng.random() < .05 and k > 1:
                k -= 1
        Q = np.array([rnd(rng.uniform(-.2, .4), 3) for _ in range(k)])
        return P, Q, k

    def new(self, c):
        rng, n = self.rng, self.n
        bad = c["bad"]
        kw, log = {}, {"vidx": [], "vval": [], "Q": [], "P": [], "pival": [], "caps": [], "conf": [], "om": []}
        view = c["view"]
        if bad in ("ticker", "viewtype"):
            view = rng.choice(["dict", "series"])
        elif bad in ("pdim", "qtype", "ptype"):
            view = "qp"
        if view in ("dict", "series"):
            k = {"one": 1, "some": rng.randint(1, n), "all": n}[c["k"]]
            idx = rng.sample(range(n), k)
            if c["sing"] == "cov":
                idx = sorted(idx)
            vals = [rnd(rng.uniform(-.3, .4), 3) for _ in range(k)]
            tick = [self.tick[i] for i in idx]
            if bad == "ticker":
                tick[rng.randrange(k)] = "NOPE" if not isinstance(self.tick[0], int) or rng.random() < .5 else 99
            d = dict(zip(tick, vals))
            v = d if view == "dict" else pd.Series(vals, index=tick)
            if bad == "viewtype":
                v = rng.choice([list(vals), [(t, x) for t, x in d.items()], np.array(vals)])
            kw["absolute_views"] = self.watch(v)
            log.update(vidx=[i + 1 if t != "NOPE" and t != 99 else 0 for i, t in zip(idx, tick)], vval=fxv(vals))
            P = np.array([[1.0 if i == j else 0.0 for j in range(n)] for i in idx])
            Q = np.array(vals)
        else:
            P, Q, k = self.views(c)
            if view == "q1":       # no P: one view per asset
                k = n
                P, Q = np.eye(n), np.array([rnd(rng.uniform(-.2, .4), 3) for _ in range(n)])
                log["P"] = []
            else:
                log["P"] = fxm(P)
            log["Q"] = fxv(Q)
            q = {"qp": Q, "qpvec": Q.reshape(-1, 1), "qpdf": pd.DataFrame(Q) if rng.random() < .5 else pd.Series(Q), "q1": Q}[view]
            p = pd.DataFrame(P) if view == "qpdf" else P
            if bad == "pdim":
                p = rng.choice([np.vstack([P, P[:1]]), np.hstack([P, P[:, :1]])])
            if bad == "ptype":
                p = rng.choice([P.tolist(), "P"]) if k != n else "x"
                if k == n:
                    p = None
                    q = Q[:-1] if n > 1 else Q
            if bad == "qtype":
                q = rng.choice([list(Q), None, 0.2])
            kw["Q"] = self.watch(q)
            if not (view == "q1" and bad != "pdim"):
                kw["P"] = self.watch(p)
        self.P, self.k = P, len(Q)
        tau = {"def": .05, "low": rng.choice([.01, .001, .025]), "mid": rnd(rng.uniform(.1, .9), 2), "one": 1}[c["tau"]]
        if bad == "tau":
            tau = rng.choice([0, -.1, 1.01, 2, 1.5, -1, 1.0001, -1e-4])
        if c["tau"] != "def" or bad == "tau":
            kw["tau"] = tau
        ra = 1 if c["ra"] == "def" else rng.choice([.5, 2, 2.5, 4, .05, 12])
        if bad == "ra":
            ra = rng.choice([0, -1, -2.5, -1e-3])
        if c["ra"] != "def" or bad == "ra":
            kw["risk_aversion"] = ra
        # prior
        pi = c["pi"]
        if bad == "nocaps":
            pi = "market"
        elif bad in ("pidim", "pitype"):
            pi = "arr"
        elif pi == "marketarr" and c["cov"] == "df" and False:
            pi = "market"
        rf = 0.0
        pv = np.array([rnd(rng.uniform(-.05, .25), 3) for _ in range(n)])
        if pi in ("arr", "series", "df"):
            o = {"arr": rng.choice([pv, pv.reshape(-1, 1)]), "series": pd.Series(pv, index=self.tick),
                 "df": pd.DataFrame(pv, index=self.tick)}[pi]
            if bad == "pidim":
                o = rng.choice([np.append(pv, .1), pv[:-1]])
            if bad == "pitype":
                o = rng.choice([list(pv), 3.0, "markt"])
            kw["pi"] = self.watch(o)
            log["pival"] = fxv(pv)
        elif pi.startswith("market"):
            kw["pi"] = "market"
            caps = [float(rng.randint(1, 900)) * 1e9 / 10 ** rng.choice([0, 2, 9]) for _ in range(n)]
            if max(caps) / min(caps) > 1e5:
                caps = [float(rng.randint(1, 900)) for _ in range(n)]
            log["caps"] = fxv(caps)
            order = list(range(n))
            if c["cov"] == "df":
                rng.shuffle(order)
                if pi == "marketarr":
                    pi = "market"
            if pi == "market":
                o = pd.Series([caps[i] for i in order], index=[self.tick[i] for i in order])
            elif pi == "marketdict":
                o = {self.tick[i]: caps[i] for i in order}
            else:
                o = np.array(caps)
            if bad != "nocaps":
                kw["market_caps"] = self.watch(o)
            if rng.random() < .5:
                rf = rng.choice([.02, .01, .05])
                kw["risk_free_rate"] = rf
        elif pi == "equal":
            kw["pi"] = "equal"
        # uncertainty
        om = c["omega"]
        if bad in ("conf", "noconf", "conflen"):
            om = "idz"
        elif bad in ("omegadim", "omtype"):
            om = "arr"
        k = self.k
        if om == "default":
            kw["omega"] = "default"
        elif om in ("arr", "df", "full"):
            d = np.diag([rnd(rng.uniform(.001, .1), 4) for _ in range(k)])
            if om == "full" and k > 1:
                L = np.array([[rng.gauss(0, 1) for _ in range(k)] for _ in range(k)])
                d = np.round(d + .003 * (L @ L.T), 5)
                d = (d + d.T) / 2
            log["om"] = fxm(d)
            o = pd.DataFrame(d) if om == "df" else d
            if bad == "omegadim":
                o = np.eye(k + 1) * .01
            if bad == "omtype":
                o = rng.choice(["defualt", 0.3, d.tolist()])
            kw["omega"] = self.watch(o)
        elif om in ("idz", "idzlist"):
            kw["omega"] = "idzorek"
            conf = [rng.choice(CONFS + [rnd(rng.uniform(.05, .95), 2)] * 5) for _ in range(k)]
            if bad == "conf":
                conf[rng.randrange(k)] = rng.choice([-.1, 1.1, 2, -1, -1e-3, 1.001])
            log["conf"] = fxv(conf)
            o = np.array(conf, dtype=float) if om == "idz" else rng.choice([list, tuple, pd.Series])(conf)
            if rng.random() < .2 and om == "idz":
                o = o.reshape(-1, 1)
            if bad == "conflen":
                o = rng.choice([np.array, list])([.5] * (k + 1))
            if bad != "noconf":
                kw["view_confidences"] = self.watch(o)
        r, out, exc = self.call(lambda: self.bl.BlackLittermanModel(self.covobj, **kw))
        self.obj = r
        if r is not None:
            log.update(oQ=vec(r.Q), oP=mat(r.P), opi=vec(r.pi), oom=mat(r.omega))
            if bad != "ok":
                self.obj = None
        else:
            log.update(oQ=[], oP=[], opi=[], oom=[])
        self.emit("new", out, exc, n=n, S=fxm(self.S), view=view, pi=pi, omega=om, tau=fx(tau), ra=fx(ra), rf=fx(rf), bad=bad, **log)

    def held(self):
        w = self.obj.weights
        return [] if w is None else vec(w)

    def o_rets(self):
        r, out, exc = self.call(lambda: self.obj.bl_returns())
        self.emit("rets", out, exc, val=[] if r is None else vec(r), keys=int(r is not None and list(r.index) == self.tick), held=self.held())

    def o_cov(self):
        r, out, exc = self.call(lambda: self.obj.bl_cov())
        self.emit("cov", out, exc, val=[] if r is None else mat(r),
                  keys=int(r is not None and list(r.index) == self.tick and list(r.columns) == self.tick), held=self.held())

    def o_weights(self, name="weights"):
        ra = self.rng.choice([None, None, 2, 1.5])
        f = self.obj.bl_weights if name == "weights" else self.obj.optimize
        r, out, exc = self.call(lambda: f() if ra is None else f(ra))
        self.emit(name, out, exc, val=[] if r is None else vec(list(r.values())), keys=int(r is not None and list(r.keys()) == self.tick),
                  held=self.held())

    def o_opt(self):
        self.o_weights("opt")

    def o_perf(self):
        rf = self.rng.choice([0.0, 0.0, .02])
        kw = {"risk_free_rate": rf} if rf else {}
        if self.rng.random() < .2:
            kw["verbose"] = True
        r, out, exc = self.call(lambda: self.obj.portfolio_performance(**kw))
        self.emit("perf", out, exc, val=[] if r is None else [num(x) for x in r], rf=fx(rf), held=self.held(), **self.printed(kw.get("verbose")))

    def o_setw(self):
        w = [rnd(self.rng.uniform(-.3, 1), 3) for _ in range(self.n)]
        it = list(zip(self.tick, w))
        self.rng.shuffle(it)
        d = self.watch(dict(it))
        r, out, exc = self.call(lambda: self.obj.set_weights(d))
        self.emit("setw", out, exc, w=fxv(w), held=self.held())

    def o_clean(self):
        if self.obj.weights is None:
            return
        r, out, exc = self.call(lambda: self.obj.clean_weights())
        r2, out, exc = self.call(lambda: self.obj.bl_returns())
        self.emit("rets", out, exc, val=[] if r2 is None else vec(r2), keys=int(r2 is not None and list(r2.index) == self.tick), held=self.held())

    # free functions
    def f_mkt(self):
        rng, n = self.rng, self.n
        caps = [float(rng.randint(1, 900)) * rng.choice([1, 1e9]) for _ in range(n)]
        if max(caps) / min(caps) > 1e5:
            caps = [float(rng.randint(1, 900)) for _ in range(n)]
        df = isinstance(self.covobj, pd.DataFrame)
        order = list(range(n))
        if df:
            rng.shuffle(order)
        form = rng.choice(["series", "dict"] if df else ["series", "dict", "arr", "list"])
        o = {"series": lambda: pd.Series([caps[i] for i in order], index=[self.tick[i] for i in order]),
             "dict": lambda: {self.tick[i]: caps[i] for i in order}, "arr": lambda: np.array(caps), "list": lambda: list(caps)}[form]()
        self.watch(o)
        ra = rng.choice([1, 2, 2.5])
        rf = rng.choice([None, 0.0, .02])
        r, out, exc = self.call(lambda: self.bl.market_implied_prior_returns(o, ra, self.covobj) if rf is None
                                else self.bl.market_implied_prior_returns(o, ra, self.covobj, rf))
        keys = 1
        if df and r is not None:
            keys = int(isinstance(r, pd.Series) and list(r.index) == self.tick)
        self.emit("mkt", out, exc, caps=fxv(caps), ra=fx(ra), rf=fx(rf or 0.0), S=fxm(self.S), val=[] if r is None else vec(r), keys=keys, form=form)

    def f_ra(self):
        rng = self.rng
        T = rng.randint(4, 12)
        p = [100.0]
        for _ in range(T):
            p.append(rnd(p[-1] * (1 + rng.gauss(.01, .04)), 3))
        t = rng.random()
        inv = 0
        o = pd.Series(p) if t < .4 else pd.Series([np.nan, np.nan] + p) if t < .55 else pd.DataFrame({"SPY": p}) if t < .85 else None
        if o is None:
            o = rng.choice([list(p), np.array(p)])
            inv = 1
        self.watch(o)
        fr = rng.choice([None, 12, 52, 252])
        rf = rng.choice([None, .02])
        kw = {}
        if fr:
            kw["frequency"] = fr
        if rf:
            kw["risk_free_rate"] = rf
        r, out, exc = self.call(lambda: self.bl.market_implied_risk_aversion(o, **kw))
        self.emit("ra", out, exc, prices=fxv(p), freq=fx(fr or 252), rf=fx(rf or 0.0), val=num(r) if np.ndim(r) == 0 else [], invalid=inv)

    def f_defomega(self):
        tau = self.rng.choice([.05, .5, 1])
        r, out, exc = self.call(lambda: self.bl.BlackLittermanModel.default_omega(self.S, self.P, tau))
        self.emit("defomega", out, exc, P=fxm(self.P), S=fxm(self.S), tau=fx(tau), val=[] if r is None else mat(r))

    def f_idz(self):
        rng = self.rng
        tau = rng.choice([.05, .5, 1, .01, .002])
        k = len(self.P)
        conf = [rng.choice(CONFS + [rnd(rng.uniform(.05, .95), 2)] * 4) for _ in range(k)]
        if rng.random() < .25:
            conf[rng.randrange(k)] = rng.choice([1.2, -.3, -1e-3, 1.001])
        co = rng.choice([np.array(conf, dtype=float), list(conf), np.array(conf, dtype=float).reshape(-1, 1)])
        self.watch(co)
        Q = np.zeros((k, 1))
        r, out, exc = self.call(lambda: self.bl.BlackLittermanModel.idzorek_method(co, self.S, np.zeros((self.n, 1)), Q, self.P, tau))
        self.emit("idz", out, exc, P=fxm(self.P), S=fxm(self.S), tau=fx(tau), conf=fxv(conf), val=[] if r is None else mat(r))


def run_one(job):
    return Replay(*job).run()
