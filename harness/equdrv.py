"""Replays equivariance behaviours (spec/EquGen): one request on transformed inputs."""
import collections

import numpy as np
import pandas as pd

from rec import NAMES, Recorder, num, rand_cov, rnd


class View:
    """The data of one universe, in some order, under some names, in some container."""

    def __init__(self, d, perm, names, cont, shuffle, sys_):
        self.perm, self.names, self.cont, self.shuffle = perm, names, cont, shuffle
        for k, v in d.items():
            if k in ("mu", "lo", "hi", "w", "wprev", "bench", "prices", "caps", "sector", "conf_by", "mu2"):
                v = [v[i] for i in perm]
            elif k == "S":
                v = v[np.ix_(perm, perm)]
            elif k in ("R", "P", "dapr"):
                v = v[:, perm]
            elif k == "Pv":
                v = v[:, perm]
            setattr(self, k, v)
        if cont in ("arr", "list") or (cont == "mixed" and sys_.startswith("cla")) or (cont == "mixed2" and sys_.startswith("bl")):
            self.names = list(range(len(perm)))       # the class takes its tickers from the other argument
        self.n = len(perm)


class Replay(Recorder):
    def run(self):
        rng, c = self.rng, self.beh["cfg"]
        n = c["n"]
        sys_ = c["sys"]
        S = rand_cov(rng, n)
        T = rng.randint(n + 4, max(14, n + 7))
        L = np.linalg.cholesky(S / 252)
        R = np.round(np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(T)]) @ L.T + .0008, 5)
        mu = rng.sample([k / 200 for k in range(2, 60)], n)
        P = np.round(np.vstack([np.ones(n), np.cumprod(1 + R, axis=0)]) * [rng.uniform(20, 300) for _ in range(n)], 3)
        w = np.array([rng.uniform(.05, 1) for _ in range(n)])
        w = [float(x) for x in np.round(w / w.sum(), 6)]
        lo = [rng.choice([0, .02, .05]) for _ in range(n)]
        hi = [rng.choice([.6, .8, 1]) for _ in range(n)]
        if sum(hi) < 1.1:
            hi[rng.randrange(n)] = 1
        nsec = rng.randint(1, 2)
        sector = [rng.randrange(nsec) for _ in range(n)]
        k = rng.randint(1, n)
        Pv = np.array([[rng.choice([0, 0, 1, -1, .5]) for _ in range(n)] for _ in range(k)])
        for r in range(k):
            Pv[r, r] = 1
        self.D = {"mu": mu, "S": S, "R": R, "P": P, "w": w, "lo": lo, "hi": hi, "sector": sector, "wprev": [1 / n] * n,
                  "caps": [rnd(rng.uniform(1e3, 1e5), 1) for _ in range(n)], "bench": w, "Pv": Pv,
                  "Q": [rnd(rng.uniform(-.05, .2), 3) for _ in range(k)], "conf": [rnd(rng.uniform(.1, .9), 2) for _ in range(k)],
                  "prices": [rnd(rng.uniform(3, 300), 2) for _ in range(n)], "k": k,
                  "nviews": rng.sample(range(n), k), "mkt": np.cumprod(1 + R.mean(axis=1)) * 100}
        self.D["views"] = {i: q for i, q in zip(self.D["nviews"], self.D["Q"])}
        self.opts = {"tgt": rng.random(), "V": rng.choice([1000, 10000, 54321.5, 250000]), "rf": rng.choice([0, .01]),
                     "smax": rng.choice([.5, .7, .9]), "l2": rng.choice([0, 0, .1]), "ra": rng.choice([1, 2.5]),
                     "short": rng.random() < .3, "freq": rng.choice([252, 12]), "span": rng.choice([10, 60]),
                     "comp": rng.random() < .5, "log": rng.random() < .3, "rets": rng.random() < .5, "mkt": rng.random() < .5,
                     "rule": rng.choice(["single", "ward", "average"]), "pi": rng.choice(["none", "vec", "market", "equal"]), "beta": rng.choice([.8, .9])}
        names = list(rng.choice(NAMES)[:n])
        ident = list(range(n))
        self.cache = {}
        self.base = (ident, names, c["cont"], 0)
        self.request("base", "base", self.base)
        for op in self.beh["ops"]:
            p, nm, ct, sh = self.base
            if op in ("perm", "all"):
                if sys_.startswith("hrp") or sys_ == "lp":     # tie-breaking by position is part of these algorithms
                    p = ident
                else:
                    p = rng.sample(ident, n)
            if op in ("rename", "all"):
                nm = list(rng.choice([x for x in NAMES if x[:n] != names])[:n])
                if rng.random() < .5:
                    rng.shuffle(nm)
            nm = [nm[i] for i in p]
            if op in ("cont", "all"):
                ct = rng.choice([x for x in ("df", "arr", "mixed", "mixed2", "list") if x != ct])
            if op in ("order", "all"):
                sh = rng.randrange(1, 1000)
            self.request("variant", op, (p, nm, ct, sh))
        return self.history()

    def request(self, op, kind, key):
        p, nm, ct, sh = key
        c = self.beh["cfg"]
        V = View(self.D, p, nm, ct, sh, c["sys"])
        V.key = repr(key)
        self.lastcall = False
        r, out, exc = self.call(lambda: getattr(self, "s_" + c["sys"].split("_")[0])(V, c["sys"], c["opts"]))
        ans = {"s": [], "v": [], "M": []}
        try:
            if r is not None:
                ans = {"s": [num(x) for x in r.get("s", [])],
                       "v": [self.byname(x, V) for x in r.get("v", [])], "M": [self.mbyname(x, V) for x in r.get("M", [])]}
        except Exception as e:
            self.lastexc = repr(e)[:300]
            out, exc, ans = "err", "unreadable", {"s": [], "v": [], "M": []}
        self.emit(op, out, exc, sys=c["sys"], kind=kind, n=V.n, perm=[i + 1 for i in p], ans=ans)

    @staticmethod
    def byname(x, V):
        """A vector over the assets in the order of the request; keyed answers must have exactly the assets as keys."""
        if isinstance(x, pd.Series):
            x = x.to_dict()
        if isinstance(x, dict):
            return [num(x[t]) for t in V.names] if set(x) == set(V.names) and len(x) == V.n else []
        return [num(y) for y in np.asarray(x, dtype=float).ravel()]

    @staticmethod
    def mbyname(x, V):
        if isinstance(x, pd.DataFrame):
            if set(x.index) != set(V.names) or set(x.columns) != set(V.names):
                return []
            x = x.loc[V.names, V.names].values
        return [[num(y) for y in r] for r in np.asarray(x, dtype=float)]

    # ------------------------------------------------------------- containers
    def shared(self, V, what, make):
        """The same request is given the same objects again."""
        k = (V.key, what)
        if k not in self.cache:
            self.cache[k] = self.watch(make())
        return self.cache[k]

    def mu(self, V):
        return self.shared(V, "mu", lambda: pd.Series(V.mu, index=V.names) if V.cont in ("df", "mixed2") else np.array(V.mu) if V.cont != "list" else list(V.mu))

    def cov(self, V):
        return self.shared(V, "S", lambda: pd.DataFrame(V.S, index=V.names, columns=V.names) if V.cont in ("df", "mixed") else V.S.copy())

    def hist(self, V, X, what):
        df = V.cont in ("df", "mixed", "mixed2")
        return self.shared(V, what, lambda: pd.DataFrame(X, columns=V.names) if df else X.copy() if V.cont == "arr" else X.tolist())

    def frame(self, V, X, what):
        return self.shared(V, "F" + what, lambda: pd.DataFrame(X, columns=V.names))

    def rets(self, V):
        """Return history for the optimizers: frame or array."""
        return self.shared(V, "R", lambda: pd.DataFrame(V.R, columns=V.names) if V.cont in ("df", "mixed", "mixed2") else V.R.copy())

    def dic(self, V, vals, what, only=None):
        import random

        def make():
            it = [(V.names[i], vals[i]) for i in range(V.n) if only is None or i in only]
            if V.shuffle:
                random.Random(V.shuffle).shuffle(it)
            return dict(it)
        return self.shared(V, what, make)

    def bounds(self, V, opts):
        if opts in ("plain", "sector"):
            return (0, 1)
        if V.n != 2 and V.cont in ("arr", "mixed"):
            return self.shared(V, "bnd", lambda: (np.array(V.lo, dtype=float), np.array(V.hi, dtype=float)))
        return self.shared(V, "bnd", lambda: [(a, b) for a, b in zip(V.lo, V.hi)])

    # ---------------------------------------------------------------- systems
    def finish(self, ef, V, opts):
        if opts in ("sector", "both"):
            m = self.dic(V, ["s%d" % s for s in V.sector], "sec")
            ef.add_sector_constraints(m, {"s0": .05}, {"s0": self.opts["smax"] if len(set(V.sector)) > 1 else 1.0})
        return ef

    def ef(self, V, opts):
        import pypfopt
        return self.finish(pypfopt.EfficientFrontier(self.mu(V), self.cov(V), weight_bounds=self.bounds(V, opts), solver="CLARABEL"), V, opts)

    def s_ef(self, V, sys_, opts):
        from pypfopt import objective_functions as of
        ef = self.ef(V, opts)
        o = self.opts
        if o["l2"] and sys_ != "ef_sharpe":
            ef.add_objective(of.L2_reg, gamma=o["l2"])
        if sys_ == "ef_minvol":
            w = ef.min_volatility()
        elif sys_ == "ef_sharpe":
            w = ef.max_sharpe(o["rf"])
        elif sys_ == "ef_utility":
            w = ef.max_quadratic_utility(o["ra"])
        elif sys_ == "ef_erisk":
            w = ef.efficient_risk(round(float(np.sqrt(np.diag(V.S).min() + .3 * (np.diag(V.S).max() - np.diag(V.S).min()))), 4))
        else:
            a = sorted(V.mu)
            w = ef.efficient_return(round(a[0] + (.3 + .4 * o["tgt"]) * (a[-1] - a[0]), 4))
        return {"v": [w, ef.clean_weights(1e-3, 2)] if False else [w], "s": ef.portfolio_performance()}

    def s_cla(self, V, sys_, opts):
        import pypfopt
        c = pypfopt.CLA(self.mu(V), self.cov(V), weight_bounds=self.bounds(V, opts))
        w = c.min_volatility() if sys_ == "cla_minvol" else c.max_sharpe()
        return {"v": [w], "s": c.portfolio_performance()}

    def s_hrp(self, V, sys_, opts):
        import pypfopt
        V.cont = "df"
        V.names = [V.names[i] for i in range(V.n)]
        h = pypfopt.HRPOpt(cov_matrix=self.frame2(V)) if sys_ == "hrp_cov" else pypfopt.HRPOpt(self.frame(V, V.R, "R"))
        w = h.optimize(self.opts["rule"])
        return {"v": [w], "s": [x for x in h.portfolio_performance() if x is not None]}

    def frame2(self, V):
        return self.shared(V, "FS", lambda: pd.DataFrame(V.S, index=V.names, columns=V.names))

    def model(self, V, sys_):
        import pypfopt
        o = self.opts
        kw = {}
        form = o["pi"]
        if V.cont == "mixed2" and sys_ == "bl":
            form = o["pi"]
        if form == "vec":
            kw["pi"] = self.mu(V) if V.cont != "list" else self.shared(V, "pia", lambda: np.array(V.mu))
        elif form == "market":
            kw["pi"] = "market"
            kw["risk_aversion"] = 2.5
            if V.cont in ("df", "mixed"):
                kw["market_caps"] = self.dic(V, V.caps, "caps")
            else:
                kw["market_caps"] = self.shared(V, "capa", lambda: np.array(V.caps))
        elif form == "equal":
            kw["pi"] = "equal"
        cov = self.cov(V)
        if sys_ != "bl_idz" and V.cont in ("df", "mixed"):
            inv = {V.perm[i]: i for i in range(V.n)}
            kw["absolute_views"] = self.views(V, inv)
        else:
            kw["Q"] = self.shared(V, "Q", lambda: np.array(V.Q))
            kw["P"] = self.shared(V, "Pm", lambda: self.pick(V))
        if sys_ == "bl_idz":
            kw["omega"] = "idzorek"
            kw["view_confidences"] = self.shared(V, "conf", lambda: list(V.conf))
        return pypfopt.BlackLittermanModel(cov, **kw)

    def views(self, V, inv):
        import random

        def make():
            it = [(V.names[inv[i]], q) for i, q in V.views.items()]
            if V.shuffle:
                random.Random(V.shuffle).shuffle(it)
            return dict(it)
        return self.shared(V, "views", make)

    def pick(self, V):
        """The absolute views as a picking matrix (or the general one for Idzorek)."""
        if self.beh["cfg"]["sys"] == "bl_idz":
            return V.Pv.astype(float)
        inv = {V.perm[i]: i for i in range(V.n)}
        M = np.zeros((V.k, V.n))
        for r, (i, q) in enumerate(V.views.items()):
            M[r, inv[i]] = 1
        return M

    def s_bl(self, V, sys_, opts):
        b = self.model(V, sys_)
        if sys_ == "bl_weights":
            w = b.bl_weights(self.opts["ra"])
            return {"v": [w, b.bl_returns()], "s": b.portfolio_performance()}
        return {"v": [b.bl_returns()], "M": [b.bl_cov()]}

    def s_prior(self, V, sys_, opts):
        from pypfopt import black_litterman as bl
        if V.cont in ("df", "mixed"):
            caps = self.dic(V, V.caps, "caps") if V.cont == "df" else self.shared(V, "caps", lambda: pd.Series(self.dic(V, V.caps, "capd")))
        else:
            caps = self.shared(V, "caps", lambda: np.array(V.caps))
        return {"v": [bl.market_implied_prior_returns(caps, 2.5, self.cov(V), self.opts["rf"])]}

    def s_ravers(self, V, sys_, opts):
        from pypfopt import black_litterman as bl
        m = self.shared(V, "mkt", lambda: pd.Series(V.mkt) if V.cont in ("df", "arr", "list") else pd.DataFrame({V.names[0]: V.mkt}))
        return {"s": [bl.market_implied_risk_aversion(m, self.opts["freq"], self.opts["rf"])]}

    def down(self, cls, V, opts, **kw):
        return self.finish(cls(self.mu(V), self.rets(V), weight_bounds=self.bounds(V, opts), solver="CLARABEL", **kw), V, opts)

    def s_es(self, V, sys_, opts):
        import pypfopt
        ef = self.down(pypfopt.EfficientSemivariance, V, opts, frequency=self.opts["freq"])
        ef.min_semivariance()
        return {"s": [ef.portfolio_performance()[1]]}

    def s_cv(self, V, sys_, opts):
        import pypfopt
        ef = self.down(pypfopt.EfficientCVaR, V, opts, beta=self.opts["beta"])
        ef.min_cvar()
        return {"s": [ef.portfolio_performance()[1]]}

    def s_cd(self, V, sys_, opts):
        import pypfopt
        ef = self.down(pypfopt.EfficientCDaR, V, opts, beta=self.opts["beta"])
        ef.min_cdar()
        return {"s": [ef.portfolio_performance()[1]]}

    def alloc(self, V):
        import pypfopt
        import random
        w = list(V.w)
        if self.opts["short"]:
            j = V.perm.index(0)
            w[j] = -w[j]

        def prices():
            it = list(zip(V.names, V.prices))
            if V.shuffle:
                random.Random(V.shuffle + 1).shuffle(it)
            return pd.Series([b for _, b in it], index=[a for a, _ in it])
        return pypfopt.DiscreteAllocation(self.dic(V, w, "w"), self.shared(V, "pr", prices), total_portfolio_value=self.opts["V"])

    def s_greedy(self, V, sys_, opts):
        a, left = self.alloc(V).greedy_portfolio()
        return {"v": [{t: a.get(t, 0) for t in V.names}], "s": [left]} if set(a) <= set(V.names) else {"v": [[]]}

    def s_lp(self, V, sys_, opts):
        if V.shuffle:        # ties between optimal allocations are broken by order
            V.shuffle = 0
        a, left = self.alloc(V).lp_portfolio(solver="SCIPY")
        return {"v": [{t: a.get(t, 0) for t in V.names}], "s": [left]} if set(a) <= set(V.names) else {"v": [[]]}

    def s_latest(self, V, sys_, opts):
        import pypfopt

        def make():
            d = pd.DataFrame(V.P, columns=V.names)
            j = V.perm.index(0)
            d.iloc[-2:, j] = np.nan
            return d
        return {"v": [pypfopt.get_latest_prices(self.shared(V, "Pl", make))]}

    def est(self, V, f):
        from pypfopt import expected_returns, risk_models
        o = self.opts
        kw = {"frequency": o["freq"]}
        if o["rets"]:
            kw["returns_data"] = True
        elif o["log"]:
            kw["log_returns"] = True
        x = self.hist(V, V.R if o["rets"] else V.P, "X")
        return f(x, kw, expected_returns, risk_models)

    def s_mean(self, V, sys_, opts):
        return self.est(V, lambda x, kw, er, rm: {"v": [er.mean_historical_return(x, compounding=self.opts["comp"], **kw)]})

    def s_ema(self, V, sys_, opts):
        return self.est(V, lambda x, kw, er, rm: {"v": [er.ema_historical_return(x, compounding=self.opts["comp"], span=self.opts["span"], **kw)]})

    def s_capm(self, V, sys_, opts):
        o = self.opts
        extra = {}
        if o["mkt"]:
            full = V.R.mean(axis=1) if False else np.round(np.arange(len(V.R)) % 3 * .01 + V.mkt / 1e4 - .01, 5)
            m = full if o["rets"] else np.concatenate([[100], 100 * np.cumprod(1 + full)])
            extra["market_prices"] = self.shared(V, "mk", lambda: pd.DataFrame({"m": m}))
        return self.est(V, lambda x, kw, er, rm: {"v": [er.capm_return(x, risk_free_rate=o["rf"], compounding=o["comp"], **extra, **kw)]})

    def s_sample(self, V, sys_, opts):
        return self.est(V, lambda x, kw, er, rm: {"M": [rm.sample_cov(x, **kw)]})

    def s_semi(self, V, sys_, opts):
        return self.est(V, lambda x, kw, er, rm: {"M": [rm.semicovariance(x, benchmark=.002, **kw)]})

    def s_exp(self, V, sys_, opts):
        return self.est(V, lambda x, kw, er, rm: {"M": [rm.exp_cov(x, span=self.opts["span"], **kw)]})

    def s_lw(self, V, sys_, opts):
        t = {"lw": "constant_variance", "lw_sf": "single_factor", "lw_cc": "constant_correlation"}[sys_]
        return self.est(V, lambda x, kw, er, rm: {"M": [rm.CovarianceShrinkage(x, **kw).ledoit_wolf(t)]})

    def s_oas(self, V, sys_, opts):
        return self.est(V, lambda x, kw, er, rm: {"M": [rm.CovarianceShrinkage(x, **kw).oracle_approximating()]})

    def s_shrunk(self, V, sys_, opts):
        return self.est(V, lambda x, kw, er, rm: {"M": [rm.CovarianceShrinkage(x, **kw).shrunk_covariance(.3)]})

    def s_obj(self, V, sys_, opts):
        from pypfopt import objective_functions as of
        w = self.shared(V, "wv", lambda: np.array(V.w))
        mu = self.mu(V)
        S = self.cov(V)
        wp = self.shared(V, "wp", lambda: np.array(V.wprev) if V.cont != "df" else pd.Series(V.wprev, index=V.names).values)
        return {"s": [of.portfolio_variance(w, S), of.portfolio_return(w, mu), of.sharpe_ratio(w, mu, S, .01), of.L2_reg(w, 2),
                      of.quadratic_utility(w, mu, S, 2), of.transaction_cost(w, wp), of.ex_ante_tracking_error(w, S, wp)]}

    def s_perf(self, V, sys_, opts):
        from pypfopt import base_optimizer as bo
        if V.cont == "list":
            V.cont = "mixed2"
        if V.cont in ("df", "mixed", "mixed2") and (V.shuffle or self.opts["comp"]):
            if V.cont == "mixed2":
                V.names = list(V.names)
            w = self.dic(V, V.w, "wd")
        else:
            w = self.shared(V, "wl", lambda: list(V.w) if V.cont == "arr" else np.array(V.w))
        return {"s": bo.portfolio_performance(w, self.mu(V), self.cov(V), risk_free_rate=self.opts["rf"])}

    def s_clean(self, V, sys_, opts):
        from pypfopt.base_optimizer import BaseOptimizer
        b = BaseOptimizer(V.n, list(V.names))
        b.set_weights(self.dic(V, V.w, "w"))
        return {"v": [b.clean_weights(.1, 3)]}


def run_one(job):
    return Replay(*job).run()
