"""Replays behaviours of the estimators (spec/EstGen) on the real functions."""
import warnings

import numpy as np
import pandas as pd

from core import fx, fxm, fxv
from rec import NAMES, Recorder, num, rnd, vec

NAN = float("nan")


def hist(x):
    return [[num(v) for v in r] for r in np.asarray(x, dtype=float)]


class Replay(Recorder):
    def run(self):
        rng, c = self.rng, self.beh["cfg"]
        n = self.n = c["n"]
        T = {"short": rng.randint(4, 6), "mid": rng.randint(7, 10), "long": rng.randint(11, 16), "verylong": rng.randint(25, 45)}[c["T"]]
        names = list(rng.choice(NAMES + [["mkt", "SPY", "x", "y", "z", "w", "v", "u"]])[:n])
        vol = {"normal": .03, "small": .004, "big": .15}[c["size"]]
        load = [rng.uniform(-.3, 1) for _ in range(n)]

        def change(T):
            f = [rng.gauss(0, 1) for _ in range(T)]
            R = np.array([[max(-.6, vol * (.6 * f[t] * load[j] + .8 * rng.gauss(0, 1)) + .001) for j in range(n)] for t in range(T)])
            return np.round(R, rng.choice([4, 5])), f
        g, f = change(T - 1)
        start = np.array([rng.uniform(5, 400) for _ in range(n)])
        P = np.vstack([np.ones(n), np.cumprod(1 + g, axis=0)]) * start
        P = np.maximum(np.round(P), 1) if c["dtype"] == "int" else np.round(P, rng.choice([2, 3]))
        R, f2 = change(T)
        mkP = np.round(100 * np.cumprod([1] + [max(.3, 1 + vol * x) for x in f]), 2)
        mkR = np.round([max(-.6, vol * x) for x in f2], 5)
        inf = 0
        for X, isp in ((P, True), (R, False)):
            g = c["gaps"]
            if g == "lead":
                for j in rng.sample(range(n), rng.randint(1, n)):
                    X[:rng.randint(1, max(1, T // 3)), j] = NAN
            elif g == "holes":
                for _ in range(rng.randint(1, max(2, n))):
                    X[rng.randrange(T), rng.randrange(n)] = NAN
            elif g == "row":
                X[rng.randint(1, T - 2), :] = NAN
            elif g == "inf":
                X[rng.randint(1, T - 2), rng.randrange(n)] = 0 if isp else rng.choice([np.inf, -np.inf])
                inf = 1
        mkn = rng.random() < .15
        if mkn:
            mkP[rng.randrange(T)] = NAN
            mkR[rng.randrange(T)] = NAN
        self.cont = cont = c["cont"]
        idx = {"dates": pd.date_range("2021-03-01", periods=T), "range": pd.RangeIndex(T), "str": pd.Index(["d%02d" % i for i in range(T)])}[c["index"]]
        if cont != "df":
            idx, names = pd.RangeIndex(T), list(range(n))
        self.tick, self.idx = names, idx

        def wrap(X):
            if cont == "df":
                d = pd.DataFrame(X, index=idx, columns=names)
                return d.astype("int64") if c["dtype"] == "int" and X is P and not np.isnan(X).any() else d
            if cont == "arr":
                return X.copy()
            return X.tolist()
        self.obj = {"P": self.watch(wrap(P)), "R": self.watch(wrap(R))}
        keepP = sorted(rng.sample(range(T), T - 1)) if rng.random() < .3 and cont == "df" and T > 5 else list(range(T))
        keepR = sorted(rng.sample(range(T), T - 1)) if rng.random() < .3 and cont == "df" and T > 5 else list(range(T))
        mkn = rng.choice(["SPY", "mkt", "m", names[0]])

        def mwrap(v, keep):
            d = pd.DataFrame({mkn: v[keep]}, index=idx[keep])
            if cont != "df" and rng.random() < .5:
                return v.copy() if rng.random() < .5 else v.reshape(-1, 1).copy()
            return d if rng.random() < .8 or cont == "df" and rng.random() < .5 else d[mkn]
        self.mobj = {"P": self.watch(mwrap(mkP, keepP)), "R": self.watch(mwrap(mkR, keepR))}
        self.sh = None
        self.last = None
        self.emit("data", n=n, P=hist(P), R=hist(R), inf=inf,
                  mp=[{"d": k + 1, "v": num(mkP[k])} for k in keepP], mr=[{"d": k + 1, "v": num(mkR[k])} for k in keepR])
        for op in self.beh["ops"]:
            self.lastcall = False
            self.do("o_" + op)
        return self.history()

    # ---------------------------------------------------------------- options
    def common(self, kw, logs=True):
        """Chooses the input and the common options; the fields of the event."""
        rng = self.rng
        e = {"input": rng.choice(["P", "P", "R"]), "log": 0, "freq": 252}
        if e["input"] == "R":
            kw["returns_data"] = True
        elif logs and rng.random() < .35:
            e["log"] = 1
            kw["log_returns"] = True
        if rng.random() < .65:
            e["freq"] = kw["frequency"] = rng.choice([252, 12, 52, 1, 4, 365])
        e["freq"] = fx(e["freq"])
        return e

    def comp(self, kw, e):
        e["comp"] = 1
        if self.rng.random() < .6:
            v = self.rng.choice([True, False, False])
            kw["compounding"] = v
            e["comp"] = int(v)

    def again(self, f, conv):
        self.last = (f, conv)

    def vector(self, op, f, e):
        from pandas import Series
        r, out, exc = self.call(f)
        conv = lambda r: [] if r is None else vec(r)
        lab = int(isinstance(r, Series) and list(r.index) == self.tick)
        self.emit(op, out, exc, val=conv(r), labels=lab, warn=int("UserWarning" in self.warned), **e)
        self.again(f, conv)

    def matrix(self, op, f, e, after=None):
        r, out, exc = self.call(f)
        conv = lambda r: [] if r is None else hist(r)
        lab = int(isinstance(r, pd.DataFrame) and list(r.index) == self.tick and list(r.columns) == self.tick)
        if after:
            e.update(after())
        self.emit(op, out, exc, val=conv(r), labels=lab, **e)
        self.again(f, conv)

    def o_again(self):
        if self.last is None:
            return
        f, conv = self.last
        r, out, exc = self.call(f)
        self.emit("again", out, exc, val=conv(r))

    # ---------------------------------------------------------------- returns
    def frame(self, k):
        x = self.obj[k]
        return x if isinstance(x, pd.DataFrame) else self.watch(pd.DataFrame(x))

    def o_toret(self):
        from pypfopt import expected_returns as er
        P = self.frame("P")
        lg = self.rng.random() < .5
        f = (lambda: er.returns_from_prices(P, True)) if lg and self.rng.random() < .5 else (lambda: er.returns_from_prices(P, log_returns=True)) if lg else (lambda: er.returns_from_prices(P))
        r, out, exc = self.call(f)
        pos = {k: i + 1 for i, k in enumerate(P.index)}
        conv = lambda r: [] if r is None else hist(r)
        self.emit("toret", out, exc, log=int(lg), input="P", val=conv(r), dates=[] if r is None else [pos.get(k, 0) for k in r.index],
                  labels=int(r is not None and list(r.columns) == self.tick))
        self.again(f, conv)

    def o_toprice(self):
        from pypfopt import expected_returns as er
        R = self.frame("R")
        lg = self.rng.random() < .5
        f = (lambda: er.prices_from_returns(R, log_returns=True)) if lg else (lambda: er.prices_from_returns(R))
        r, out, exc = self.call(f)
        conv = lambda r: [] if r is None else hist(r)
        self.emit("toprice", out, exc, log=int(lg), input="R", val=conv(r), labels=int(r is not None and list(r.columns) == self.tick and list(r.index) == list(R.index)))
        self.again(f, conv)

    def o_there(self):
        from pypfopt import expected_returns as er
        P = self.frame("P")
        lg = self.rng.random() < .5
        f = lambda: er.prices_from_returns(er.returns_from_prices(P, log_returns=lg), log_returns=lg)
        r, out, exc = self.call(f)
        conv = lambda r: [] if r is None else hist(r)
        self.emit("there", out, exc, log=int(lg), input="P", val=conv(r))
        self.again(f, conv)

    def model(self, name, x, kw):
        """Directly or through the dispatcher."""
        from pypfopt import expected_returns as er
        g = getattr(er, name)
        if self.rng.random() < .4:
            if name == "mean_historical_return" and self.rng.random() < .5:
                return lambda: er.return_model(x, **kw)
            return lambda: er.return_model(x, method=name, **kw)
        return lambda: g(x, **kw)

    def o_mean(self):
        kw = {}
        e = self.common(kw)
        self.comp(kw, e)
        self.vector("mean", self.model("mean_historical_return", self.obj[e["input"]], kw), e)

    def o_ema(self):
        kw = {}
        e = self.common(kw)
        self.comp(kw, e)
        s = 500
        if self.rng.random() < .75:
            s = kw["span"] = self.rng.choice([2, 3.5, 5, 20, 60, 180, 500])
        e["span"] = fx(s)
        self.vector("ema", self.model("ema_historical_return", self.obj[e["input"]], kw), e)

    def o_capm(self):
        kw = {}
        e = self.common(kw)
        self.comp(kw, e)
        rf = 0.0
        if self.rng.random() < .6:
            rf = kw["risk_free_rate"] = self.rng.choice([.02, .05, .001, -.01])
        e["rf"] = fx(rf)
        e["market"] = int(self.rng.random() < .55)
        if e["market"]:
            kw["market_prices"] = self.mobj[e["input"]]
        self.vector("capm", self.model("capm_return", self.obj[e["input"]], kw), e)

    def o_badmodel(self):
        from pypfopt import expected_returns as er, risk_models as rm
        f = self.rng.choice([lambda: er.return_model(self.obj["P"], method=self.rng.choice(["mean", "capm", ""])),
                             lambda: rm.risk_matrix(self.obj["P"], method=self.rng.choice(["cov", "ledoit", "sample_covariance"]))])
        r, out, exc = self.call(f)
        self.emit("badmodel", out, exc, val=[])
        self.again(f, lambda r: [])

    # ------------------------------------------------------------ covariances
    def risk(self, name, x, kw):
        from pypfopt import risk_models as rm
        g = getattr(rm, name)
        if self.rng.random() < .4:
            if name == "sample_cov" and self.rng.random() < .5:
                return lambda: rm.risk_matrix(x, **kw)
            m = self.rng.choice(["semicovariance", "semivariance"]) if name == "semicovariance" else name
            return lambda: rm.risk_matrix(x, method=m, **kw)
        return lambda: g(x, **kw)

    def fixm(self, kw, e):
        e["fix"] = "spectral"
        if self.rng.random() < .5:
            e["fix"] = kw["fix_method"] = self.rng.choice(["spectral", "diag", "diag"])

    def o_sample(self):
        kw = {}
        e = self.common(kw)
        self.fixm(kw, e)
        self.matrix("sample", self.risk("sample_cov", self.obj[e["input"]], kw), e)

    def o_semi(self):
        kw = {}
        e = self.common(kw)
        self.fixm(kw, e)
        b = .000079
        if self.rng.random() < .65:
            b = kw["benchmark"] = self.rng.choice([0, .01, -.005, .03, .2, .001])
        e["bench"] = fx(b)
        self.matrix("semi", self.risk("semicovariance", self.obj[e["input"]], kw), e)

    def o_exp(self):
        kw = {}
        e = self.common(kw)
        self.fixm(kw, e)
        s = 180
        if self.rng.random() < .75:
            s = kw["span"] = self.rng.choice([2, 5, 9, 10, 20, 60, 180])
        e["span"] = fx(s)
        self.matrix("exp", self.risk("exp_cov", self.obj[e["input"]], kw), e)

    def o_mcd(self):
        """Deprecated, needs scikit-learn; the rows it keeps are proposed to the specification."""
        kw = {}
        e = self.common(kw)
        self.fixm(kw, e)
        seed = kw["random_state"] = self.rng.randrange(1000)
        from pypfopt import expected_returns as er, risk_models as rm
        e["keep"] = []
        try:
            from sklearn.covariance import fast_mcd
            x = pd.DataFrame(self.obj[e["input"]])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                X = x if e["input"] == "R" else er.returns_from_prices(x, bool(e["log"]))
                Y = X.dropna().values
                if len(Y) > 2 * self.n + 1 and np.isfinite(Y).all():
                    e["keep"] = [int(b) for b in fast_mcd(Y, random_state=seed)[2]]
        except Exception:
            pass
        if e["keep"]:
            x = self.obj[e["input"]]
            self.matrix("mcd", lambda: rm.min_cov_determinant(x, **kw), e)

    def symmetric(self, n, kind):
        """A symmetric matrix with a spectrum of the wanted kind."""
        rng = self.rng
        A = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)])
        Q, _ = np.linalg.qr(A)
        q = [rng.uniform(.05, 1) for _ in range(n)]
        if kind == "singular":
            k = rng.randint(1, max(1, n - 1))
            B = np.array([[rng.randint(-3, 3) for _ in range(k)] for _ in range(n)]) / 8
            return B @ B.T
        if kind == "zero":
            return np.zeros((n, n))
        if kind in ("mild", "strong"):
            for j in rng.sample(range(n), rng.randint(1, max(1, n - 1))):
                q[j] = -rng.choice([1e-3, 1e-2, 1e-5] if kind == "mild" else [.1, .7, 2])
        if kind == "negative":
            q = [-x for x in q]
        M = Q @ np.diag(q) @ Q.T
        M = (M + M.T) / 2
        M = np.round(M * rng.choice([1, 1, .04, 1e-4]), 10)
        return (M + M.T) / 2

    def o_fix(self, bad=False):
        from pypfopt import risk_models as rm
        rng = self.rng
        n = rng.randint(1, 6)
        kind = rng.choice(["pd", "pd", "singular", "zero", "mild", "mild", "mild", "strong", "strong", "negative"]) if not bad else "strong"
        M = self.symmetric(n, kind)
        names = list(rng.choice(NAMES)[:n])
        df = rng.random() < .6
        x = self.watch(pd.DataFrame(M, index=names, columns=names) if df else M.copy())
        kw, meth = {}, "spectral"
        if rng.random() < .65:
            meth = rng.choice(["spectral", "diag", "diag"])
            kw["fix_method"] = meth
        if bad:
            kw["fix_method"] = rng.choice(["clip", "", "Diag"])
        f = lambda: rm.fix_nonpositive_semidefinite(x, **kw)
        r, out, exc = self.call(f)
        if df:
            lab = isinstance(r, pd.DataFrame) and list(r.index) == names and list(r.columns) == names
        else:
            lab = isinstance(r, np.ndarray)
        conv = lambda r: [] if r is None else hist(r)
        self.emit("fix", out, exc, M=hist(M), val=conv(r), labels=int(lab), fix=meth, badmethod=int(bad), kind=kind)
        self.again(f, conv)

    def o_fixbad(self):
        self.o_fix(True)

    def o_corr(self):
        from pypfopt import risk_models as rm
        rng = self.rng
        n = rng.randint(1, 5)
        M = self.symmetric(n, "pd")
        if rng.random() < .5:
            M = M * rng.choice([.01, 4, 1e-3])
        names = list(rng.choice(NAMES)[:n]) if rng.random() < .7 else None
        x = self.watch(pd.DataFrame(M, index=names, columns=names) if names else rng.choice([M, M.tolist()]))
        self.conv_labels("corr", lambda: rm.cov_to_corr(x), names, n, M=fxm(M))

    def conv_labels(self, op, f, names, n, **e):
        r, out, exc = self.call(f)
        names = names or list(range(n))
        lab = isinstance(r, pd.DataFrame) and list(r.index) == names and list(r.columns) == names
        conv = lambda r: [] if r is None else hist(r)
        self.emit(op, out, exc, val=conv(r), labels=int(lab), **e)
        self.again(f, conv)

    def o_tocov(self):
        from pypfopt import risk_models as rm
        rng = self.rng
        n = rng.randint(1, 5)
        M = self.symmetric(n, "pd")
        d = np.sqrt(np.diag(M))
        M = np.round(M / np.outer(d, d), 6)
        sd = [rnd(rng.uniform(.05, .6), 3) for _ in range(n)]
        names = list(rng.choice(NAMES)[:n]) if rng.random() < .7 else None
        x = self.watch(pd.DataFrame(M, index=names, columns=names) if names else rng.choice([M, M.tolist()]))
        s = self.watch(rng.choice([list(sd), np.array(sd), pd.Series(sd, index=names or range(n)), tuple(sd)]))
        self.conv_labels("tocov", lambda: rm.corr_to_cov(x, s), names, n, M=fxm(M), sd=fxv(sd))

    # -------------------------------------------------------------- shrinkage
    def o_shnew(self):
        from pypfopt import risk_models as rm
        kw = {}
        e = self.common(kw)
        x = self.obj[e["input"]]
        r, out, exc = self.call(lambda: rm.CovarianceShrinkage(x, **kw))
        self.sh, self.freq = r, e["freq"]
        self.emit("shnew", out, exc, val=[], **e)
        self.last = None

    def state(self, o):
        d = getattr(o, "delta", None)
        return {"delta": num(d) if d is not None else [], "S": hist(o.S)}

    def shrink(self, op, f, e):
        if self.sh is None:
            self.o_shnew()
        if self.sh is None:
            return
        sh = self.sh
        e.update(freq=self.freq, fix="spectral")
        self.matrix(op, lambda: f(sh), e, lambda: self.state(sh))

    def o_shrunk(self):
        d = self.rng.choice([None, 0, .2, .5, 1, .37, 1.0, .05])
        self.shrink("shrunk", (lambda o: o.shrunk_covariance()) if d is None else (lambda o: o.shrunk_covariance(delta=d)),
                    {"kind": "manual", "given": fx(.2 if d is None else d)})

    def lw(self, kind, name):
        self.shrink("lw", (lambda o: o.ledoit_wolf()) if kind == "lwv" and self.rng.random() < .5 else (lambda o: o.ledoit_wolf(shrinkage_target=name))
                    if self.rng.random() < .5 else (lambda o: o.ledoit_wolf(name)), {"kind": kind})

    def o_lwv(self):
        self.lw("lwv", "constant_variance")

    def o_lwf(self):
        self.lw("lwf", "single_factor")

    def o_lwc(self):
        self.lw("lwc", "constant_correlation")

    def o_oas(self):
        self.shrink("lw", lambda o: o.oracle_approximating(), {"kind": "oas"})

    def o_badtarget(self):
        if self.sh is None:
            self.o_shnew()
        if self.sh is None:
            return
        sh = self.sh
        r, out, exc = self.call(lambda: sh.ledoit_wolf(shrinkage_target=self.rng.choice(["identity", "", "single-factor"])))
        self.emit("badtarget", out, exc, val=[])
        self.last = None

    def o_shmodel(self):
        from pypfopt import risk_models as rm
        kw = {}
        e = self.common(kw)
        x = self.obj[e["input"]]
        kind, m = self.rng.choice([("lwv", "ledoit_wolf"), ("lwv", "ledoit_wolf_constant_variance"), ("lwf", "ledoit_wolf_single_factor"),
                                   ("lwc", "ledoit_wolf_constant_correlation"), ("oas", "oracle_approximating")])
        e.update(kind=kind, fix="spectral")
        self.matrix("riskm", lambda: rm.risk_matrix(x, method=m, **kw), e)


def run_one(job):
    return Replay(*job).run()
