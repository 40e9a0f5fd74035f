"""Replays symbolic optimizer behaviours (from spec/OptimizerGen) on the real
classes and records what happened as a history for spec/OptimizerTrace.

The symbolic behaviour says which calls are made, in which order, with which
kind of argument.  This module draws the numbers (from the seed), makes the
calls, and logs; it judges nothing.
"""
import os
import random
import warnings

import numpy as np

import oracle
from core import fx, fxm, fxv
from rec import Recorder

warnings.simplefilter("ignore")
_P = {}


def pf():
    """The code under test, imported lazily so that each worker binds it once."""
    if not _P:
        import cvxpy as cp
        import pandas as pd
        import pypfopt
        from pypfopt import objective_functions as of
        from cvxpy.reductions.solvers.qp_solvers.osqp_qpif import OSQP as _O
        # OSQP picks its iteration interval from wall-clock time; pin it so that
        # a run is a function of the seed (same setting as the repository's own runner).
        orig = _O.solve_via_data

        def solve_via_data(self, data, warm_start, verbose, solver_opts, solver_cache=None):
            solver_opts = dict(solver_opts)
            solver_opts.setdefault("adaptive_rho_interval", 100)
            return orig(self, data, warm_start, verbose, solver_opts, solver_cache)

        _O.solve_via_data = solve_via_data
        _P.update(cp=cp, pd=pd, of=of, pp=pypfopt)
    return _P


# ------------------------------------------------------------------ universes
NAMES = [["AAA", "BBB", "CCC", "DDD", "EEE", "FFF", "GGG", "HHH"], ["ZZ", "MM", "QQ", "AA", "YY", "BB", "XX", "CC"],
         ["x1", "x10", "x2", "b", "x20", "a", "x3", "c"], ["T", "GE", "F", "IBM", "KO", "V", "MMM", "C"],
         [7, 3, 5, 1, 0, 2, 9, 4], [3, 2, 1, 0, 7, 6, 5, 4]]
NAMES = [v + (["%s%d" % (v[0], 30 + (7 * k) % 16) for k in range(16)] if isinstance(v[0], str) else [10 + (7 * k) % 16 for k in range(16)])
         for v in NAMES]


def rand_cov(rng, n):
    while True:
        sd = np.array([rng.randint(8, 40) / 100 for _ in range(n)])
        A = np.array([[rng.gauss(0, 1) for _ in range(n + 1)] for _ in range(n)])
        C = A @ A.T
        d = np.sqrt(np.diag(C))
        C = C / np.outer(d, d)
        C = 0.7 * C + 0.3 * np.eye(n)
        S = np.round(C * np.outer(sd, sd), 4)
        S = (S + S.T) / 2
        if np.linalg.eigvalsh(S)[0] > 0.002:
            return S


def singular_cov(rng, n, kind):
    """Positive semidefinite but singular: a riskless asset, the same asset twice,
    or fewer factors than assets."""
    if kind == "rank":
        B = np.array([[rng.randint(-20, 30) / 100 for _ in range(max(1, n - 1))] for _ in range(n)])
        return np.round(B @ B.T, 4)
    S = rand_cov(rng, n)
    i, j = rng.sample(range(n), 2)
    if kind == "cash":
        S[i, :] = S[:, i] = 0.0
    else:
        S[i, :] = S[j, :]; S[:, i] = S[:, j]
    return S


def rand_mu(rng, n, lo=-4, hi=60):
    ks = rng.sample(range(lo, hi + 1), n)
    if max(ks) < 12:
        ks[rng.randrange(n)] = rng.randint(20, hi)
    return np.array([k / 200 for k in ks])


def rand_returns(rng, n, T):
    m = [rng.gauss(0.01, 0.02) for _ in range(n)]
    return np.array([[round(m[j] + rng.gauss(0, 0.08), 3) for j in range(n)] for _ in range(T)])


def universe(rng, cls, n=None, mu=True):
    n = n or rng.choice([2, 2, 3, 3, 3, 3, 4, 4, 5, 6] * 2 + [8, 12])
    u = {"cls": cls, "n": n, "names": rng.choice(NAMES)[:n], "sing": None}
    u["mu"] = rand_mu(rng, n) if mu else None
    if cls == "EF":
        u["cov"], u["R"] = rand_cov(rng, n), None
        if rng.random() < .08:
            u["sing"] = rng.choice(["cash", "twin", "rank"])
            u["cov"] = singular_cov(rng, n, u["sing"])
    else:
        u["cov"], u["R"] = None, rand_returns(rng, n, rng.choice([6, 7, 8, 9, 10, 11] * 3 + [25, 40]))
    u["beta"] = rng.choice([0.5, 0.6, 0.7, 0.8, 0.85, 0.9, 0.95] * 3 + [0.1, 0.2, 0.99])
    u["bench"] = rng.choice([0.0, 0.0, 0.005, -0.01])
    u["freq"] = rng.choice([12, 12, 4, 52, 252])
    return u


# ------------------------------------------------------------------ bounds
def rand_bounds(rng, n, shorts=None, fmt=None):
    """(object passed to the code, lo list, hi list); None means unbounded."""
    if shorts is None:
        shorts = rng.random() < 0.35
    fmts = ["pair", "pair", "list", "list", "nparr", "pairNone", "tuples"]
    if n != 2:
        fmts += ["arrays", "arrnan"]
    fmt = fmt or rng.choice(fmts)
    while True:
        if fmt == "pairNone":
            lo, hi = rng.choice([(None, 1), (0, None), (None, None), (None, 0.8), (0.0, None), (-0.5, None)])
            if rng.random() < .3:
                lo, hi = (lo if lo is None else np.float64(lo)), (hi if hi is None else np.float64(hi))
            obj = rng.choice([tuple, list])([lo, hi])
            L = [-1 if lo is None else float(lo)] * n
            U = [1 if hi is None else float(hi)] * n
            if not shorts and L[0] < 0 and rng.random() < .7:
                continue
        elif fmt == "pair":
            lo, hi = (rng.choice([(-1, 1), (-0.3, 0.8), (-0.5, 1), (-1, 0.7), (-0.1, 0.9)]) if shorts
                      else (0, np.inf) if rng.random() < .08 else rng.choice([(0, 1), (0.0, 1.0), (0, 0.6), (0.05, 0.7), (0.02, 1), (0, 0.75), (0.1, 0.9)]))
            obj = (lo, hi)
            L, U = [float(lo)] * n, [None if hi == np.inf else float(hi)] * n
        else:
            L = [rng.choice([-1.0, -0.5, -0.2, -0.1, 0.0]) if shorts else rng.choice([0.0, 0.0, 0.05, 0.1, 0.15]) for _ in range(n)]
            U = [rng.choice([0.4, 0.5, 0.6, 0.8, 1.0]) for _ in range(n)]
            if fmt in ("list", "tuples"):
                side = rng.choice([0, 0, 0, 1, 2])
                pl, pu = list(L), list(U)
                if side == 1:
                    i = rng.randrange(n); pu[i] = None
                elif side == 2:
                    i = rng.randrange(n); pl[i] = None
                L, U = pl, pu
                obj = [(a, b) for a, b in zip(pl, pu)]
                if rng.random() < .3:
                    obj = [[a, b] for a, b in obj]
                if fmt == "tuples":
                    obj = tuple(tuple(b) for b in obj)
            elif fmt in ("nparr", "arrays"):
                a, b = np.array(L), np.array(U)
                if rng.random() < .15:
                    i = rng.randrange(n)
                    if rng.random() < .6:
                        U[i], b[i] = None, np.inf
                    else:
                        L[i], a[i] = None, -np.inf
                obj = np.array(list(zip(a, b))) if fmt == "nparr" else rng.choice([tuple, list])([a, b])
            else:
                a, b = np.array(L), np.array(U)
                for k in range(n):
                    if shorts and rng.random() < .3:
                        a[k] = np.nan; L[k] = -1.0
                    if rng.random() < .3:
                        b[k] = np.nan; U[k] = 1.0
                obj = (a, b)
        sl = sum(-2 if x is None else x for x in L)
        su = sum(2 if x is None else x for x in U)
        if sl < 0.85 and su > 1.15 and all(a is None or b is None or b - a > .2 for a, b in zip(L, U)):
            return obj, L, U, fmt


PARNAMES = ["cap", "limit", "p0", "risk"]
BAD_BOUNDS = ["short", "long", "scalarlist", "set"]


# ------------------------------------------------------------------ problems
def base_problem(u, L, U):
    return {"n": u["n"], "mu": None if u["mu"] is None else list(map(float, u["mu"])),
            "cov": None if u["cov"] is None else u["cov"].tolist(),
            "R": None if u["R"] is None else u["R"].tolist(), "bench": u["bench"], "freq": u["freq"], "beta": u["beta"],
            "lo": list(L), "hi": list(U), "cons": [], "norms": [], "terms": [], "budget": "one",
            "obj": "zero", "par": 0.0, "tgt": "none", "t": 0.0}


RISK = {"EF": "vol", "ES": "semi", "CV": "cvar", "CD": "cdar"}
MINOBJ = {"EF": "var", "ES": "semi", "CV": "cvar", "CD": "cdar"}


def pose(cls, P, m, arg, mn, sum1=True, terms=()):
    Q = dict(P)
    if mn and not any(x is None or x < 0 for x in P["lo"]):
        Q["lo"], Q["hi"] = [-1.0] * P["n"], [1.0] * P["n"]
    Q["budget"] = "zero" if mn else "one"
    Q["tgt"], Q["t"], Q["par"] = "none", 0.0, 0.0
    if m == "min":
        Q["obj"] = MINOBJ[cls]
    elif m == "sharpe":
        Q["obj"], Q["par"] = "sharpe", arg
    elif m == "qu":
        Q["obj"], Q["par"] = ("qu" if cls == "EF" else "squ"), arg
    elif m == "erisk":
        Q["obj"], Q["tgt"], Q["t"] = "ret", RISK[cls], arg
    elif m == "eret":
        Q["obj"], Q["tgt"], Q["t"] = MINOBJ[cls], "ret", arg
    elif m == "convex":
        Q["obj"], Q["budget"] = "zero", "one" if sum1 else "free"
        Q["terms"] = list(terms) + list(P["terms"])
    return Q


def risk_of(cls, P, w):
    w = np.array(w)
    if cls == "EF":
        return float(np.sqrt(max(0.0, w @ np.array(P["cov"]) @ w)))
    R = np.array(P["R"]); r = R @ w
    if cls == "ES":
        return float(np.sqrt(P["freq"] * np.mean(np.minimum(r - P["bench"], 0) ** 2)))
    x = -r
    if cls == "CD":
        d, c = [], 0.0
        for v in r:
            c = max(c - v, 0.0); d.append(c)
        x = np.array(d)
    T = len(x); m = T * (1 - P["beta"]); s = np.sort(x)[::-1]; k = min(int(m), T)
    return float((s[:k].sum() + ((m - k) * s[k] if k < T else 0)) / m)


def rnd(x, k=4):
    return round(float(x), k)


def target(rng, cls, P, m, kind, mn):
    """A numeric argument of the requested kind for the method, as (value, argk)."""
    if m == "sharpe":
        mx = max(P["mu"]) if P["mu"] else 0.1
        if kind == "bad":
            return 0.02, "bad"
        if kind in ("infeas", "infeas2", "neg"):
            return rnd(mx + rng.choice([0, 0.01, 0.1])), "num"
        if kind == "slack":
            return 0.0, "num"
        return rnd(rng.choice([0.0, 0.02, -0.01, mx - rng.uniform(0.03, 0.1)])), "num"
    if m == "qu":
        if kind in ("neg", "infeas", "infeas2"):
            return rng.choice([0, -1, -0.5, 0.0]), "num"
        return rng.choice([1, 2, 0.5, 5, 10, 3.0, 20]), "num"
    if m not in ("erisk", "eret"):
        return 0.0, "num"
    if kind == "bad":
        return 0.1, "bad"
    if kind == "neg":
        return (-rng.choice([0.05, 0.1, 0.2]), "num")
    lo = oracle.optimum(pose(cls, P, "min", 0, mn)) if True else None
    Q = pose(cls, P, "min", 0, mn); Q["obj"] = "ret"
    hi = oracle.optimum(Q) if P["mu"] is not None else None
    if lo is None or hi is None:
        return (rng.choice([0.05, 0.1, 0.15, 0.2]), "num")
    if m == "eret":
        a, b = float(np.dot(P["mu"], lo)), float(np.dot(P["mu"], hi))
        sp = max(b - a, 0.01)
        if kind == "int":
            return 0 if a > 0.02 else 1, "int"
        if kind in ("infeas", "infeas2"):
            return rnd(b + rng.choice([0.01, 0.05, 0.2])), "num"
        if kind == "slack":
            if a > 0.005 and rng.random() < .35:
                return 0.0, "num"
            return rnd(a - rng.uniform(0.01, 0.3) * sp), "num"
        f = {"low": rng.uniform(0.05, 0.3), "mid": rng.uniform(0.3, 0.7), "high": rng.uniform(0.7, 0.93)}.get(kind, .5)
        return rnd(a + f * sp), "num"
    a, b = risk_of(cls, P, lo), risk_of(cls, P, hi)
    sp = max(b - a, 0.02)
    if kind in ("infeas", "infeas2"):
        v = a - max(0.1 * abs(a), rng.choice([0.01, 0.03]))
        return rnd(v), "num"
    if kind == "slack":
        return rnd(b + rng.uniform(0.05, 1.0)), "num"
    f = {"low": rng.uniform(0.08, 0.3), "mid": rng.uniform(0.3, 0.7), "high": rng.uniform(0.7, 0.93)}.get(kind, .5)
    return rnd(a + f * sp), "num"


# ------------------------------------------------------------------ constraints
def anchor(rng, P, budget):
    """A point inside bounds and budget around which constraints are placed."""
    pts = []
    for _ in range(3):
        Q = dict(P, budget=budget, obj="zero", tgt="none", terms=[{"kind": "lin", "k": 1.0, "v": [rng.gauss(0, 1) for _ in range(P["n"])]}])
        Q["lo"] = [-2.0 if x is None else x for x in Q["lo"]]
        Q["hi"] = [2.0 if x is None else x for x in Q["hi"]]
        v = oracle.optimum(Q)
        if v is not None:
            pts.append(v)
    if not pts:
        return None
    c, s = oracle.interior(dict(P, budget=budget, obj="zero", tgt="none", terms=[]))
    v = np.mean(pts, axis=0)
    return 0.7 * v + 0.3 * c if c is not None and s > 0 else v


def make_linear(rng, u, P, v0, kind, sharpe_safe):
    """(callable given to add_constraint, [cons], [norms])."""
    cp = pf()["cp"]
    n = u["n"]
    if kind == "norm":
        p = rng.choice([1, 2])
        nv = float(np.abs(v0).sum()) if p == 1 else float(np.sqrt((v0 ** 2).sum()))
        b = rnd(nv + rng.uniform(0.03, 0.25), 3)
        f = rng.choice([lambda w: cp.norm(w, p) <= b, lambda w: b >= cp.norm(w, p)]) if not sharpe_safe else (lambda w: cp.norm(w, p) <= b)
        return f, [], [{"p": p, "b": b}]
    if kind == "infeas":
        i = rng.randrange(n)
        b = 3.0
        return (lambda w: w[i] >= b), [{"a": unit(n, i), "rel": "ge", "b": b}], []
    sp = rng.choice(["idx", "idx", "eq", "diff", "sum", "dot", "shift", "rev", "vec", "order", "ratio"])
    i = rng.randrange(n)
    j = rng.choice([k for k in range(n) if k != i])
    sl = rng.choice([0.0, 0.02, 0.05, 0.1, 0.2])
    up = rng.random() < .5
    if sp == "eq":
        b = rnd(v0[i], 3)
        return rng.choice([lambda w: w[i] == b, lambda w: b == w[i], lambda w: w[i] - b == 0]), [{"a": unit(n, i), "rel": "eq", "b": b}], []
    if sp == "idx":
        b = rnd(v0[i] + (sl if up else -sl), 3)
        if up:
            return rng.choice([lambda w: w[i] <= b, lambda w: b >= w[i]]), [{"a": unit(n, i), "rel": "le", "b": b}], []
        return rng.choice([lambda w: w[i] >= b, lambda w: b <= w[i], lambda w: -w[i] <= -b]), [{"a": unit(n, i), "rel": "ge", "b": b}], []
    if sp == "shift":
        b = rnd(v0[i] + (sl if up else -sl), 3)
        if up:
            return rng.choice([lambda w: w[i] - b <= 0, lambda w: b - w[i] >= 0, lambda w: 2 * w[i] <= 2 * b]), [{"a": unit(n, i), "rel": "le", "b": b}], []
        return rng.choice([lambda w: w[i] - b >= 0, lambda w: b - w[i] <= 0]), [{"a": unit(n, i), "rel": "ge", "b": b}], []
    if sp == "diff":
        a = [0.0] * n; a[i], a[j] = 1.0, -1.0
        b = rnd(v0[i] - v0[j] + (sl if up else -sl), 3)
        if up:
            return (lambda w: w[i] - w[j] <= b), [{"a": a, "rel": "le", "b": b}], []
        return (lambda w: w[i] - w[j] >= b), [{"a": a, "rel": "ge", "b": b}], []
    if sp == "order":
        if v0[i] < v0[j]:
            i, j = j, i
        a = [0.0] * n; a[i], a[j] = 1.0, -1.0
        return rng.choice([lambda w: w[i] >= w[j], lambda w: w[j] <= w[i], lambda w: w[i] - w[j] >= 0]), [{"a": a, "rel": "ge", "b": 0.0}], []
    if sp == "ratio":
        if v0[i] < v0[j]:
            i, j = j, i
        a = [0.0] * n; a[i], a[j] = 1.0, -0.5
        b = rnd(min(0.0, v0[i] - .5 * v0[j]), 3)
        return rng.choice([lambda w: w[i] - 0.5 * w[j] >= b, lambda w: w[i] >= b + 0.5 * w[j]]), [{"a": a, "rel": "ge", "b": b}], []
    if sp == "sum":
        idx = sorted(rng.sample(range(n), 2 if n > 2 else 1))
        a = [1.0 if k in idx else 0.0 for k in range(n)]
        b = rnd(sum(v0[k] for k in idx) + (sl if up else -sl), 3)
        if up:
            return rng.choice([lambda w: cp.sum(w[idx]) <= b, lambda w: sum(w[k] for k in idx) <= b]), [{"a": a, "rel": "le", "b": b}], []
        return (lambda w: cp.sum(w[idx]) >= b), [{"a": a, "rel": "ge", "b": b}], []
    if sp == "vec":
        b = [rnd(v0[k] + (max(sl, .05) if up else -max(sl, .05)), 3) for k in range(n)]
        if rng.random() < .4:
            b = [max(b) if up else min(b)] * n
            f = (lambda w: w <= b[0]) if up else (lambda w: w >= b[0])
        else:
            f = (lambda w: w <= np.array(b)) if up else (lambda w: w >= np.array(b))
        return f, [{"a": unit(n, k), "rel": "le" if up else "ge", "b": b[k]} for k in range(n)], []
    a = [float(rng.choice([-1, -0.5, 0, 0.5, 1, 2])) for _ in range(n)]
    a[i] = 1.0
    b = rnd(float(np.dot(a, v0)) + (sl if up else -sl), 3)
    A = np.array(a)
    if sp == "rev":
        return ((lambda w: b >= A @ w) if up else (lambda w: b <= A @ w)), [{"a": a, "rel": "le" if up else "ge", "b": b}], []
    return ((lambda w: A @ w <= b) if up else (lambda w: w @ A >= b)), [{"a": a, "rel": "le" if up else "ge", "b": b}], []


def unit(n, i):
    return [1.0 if k == i else 0.0 for k in range(n)]


def make_sectors(rng, u, tickers, v0):
    n = u["n"]
    secs = [rng.choice(["tech", "oil", "util"]) for _ in range(n)]
    mapper = {}
    for k, t in enumerate(tickers):
        if rng.random() < .9:
            mapper[t] = secs[k]
        else:
            secs[k] = None
    mapper["NOT-HELD"] = "tech"
    used = sorted({s for s in secs if s})
    lower, upper, cons = {}, {}, []
    for s in used:
        a = [1.0 if x == s else 0.0 for x in secs]
        x = float(np.dot(a, v0))
        if rng.random() < .6:
            upper[s] = rnd(x + rng.choice([0.02, 0.1, 0.2]), 3)
        if rng.random() < .6:
            lower[s] = rnd(x - rng.choice([0.02, 0.1, 0.2]), 3)
        # nothing or no short position in a whole sector
        if x >= 0 and rng.random() < .25:
            lower[s] = rng.choice([0, 0.0])
        elif x <= 0 and rng.random() < .25:
            upper[s] = rng.choice([0, 0.0])
    if upper and rng.random() < .15:
        upper["ghost"] = rng.choice([0.0, 0.3])      # a sector without assets
    for s in upper:
        cons.append({"a": [1.0 if x == s else 0.0 for x in secs], "rel": "le", "b": upper[s]})
    for s in lower:
        cons.append({"a": [1.0 if x == s else 0.0 for x in secs], "rel": "ge", "b": lower[s]})
    return mapper, lower, upper, cons


# ------------------------------------------------------------------ objective terms
def make_term(rng, u, P, kind, as_base=False):
    """(function, kwargs, list of spec terms)."""
    of = pf()["of"]
    n = u["n"]
    if kind == "L2":
        g = rng.choice([0.02, 0.1, 0.5, 1, 2])
        return of.L2_reg, {"gamma": g}, [{"kind": "L2", "k": g}]
    if kind == "tc":
        wp = np.array([rnd(rng.uniform(0, 1), 2) for _ in range(n)])
        wp = np.round(wp / wp.sum(), 3)
        k = rng.choice([0.005, 0.02, 0.05, 0.1])
        return of.transaction_cost, {"w_prev": wp, "k": k}, [{"kind": "tc", "k": k, "v": wp.tolist()}]
    if kind == "tea":
        M = u["cov"] if u["cov"] is not None else rand_cov(rng, n)
        b = np.round(np.array([rng.uniform(0, 1) for _ in range(n)]), 2)
        return of.ex_ante_tracking_error, {"cov_matrix": M, "benchmark_weights": b}, [{"kind": "tea", "k": 1.0, "v": b.tolist(), "M": M.tolist()}]
    if kind == "tep":
        T = rng.randint(4, 7)
        M = rand_returns(rng, n, T)
        v = np.round(M.mean(axis=1) + np.array([rng.gauss(0, .02) for _ in range(T)]), 3)
        return of.ex_post_tracking_error, {"historic_returns": M, "benchmark_returns": v}, [{"kind": "tep", "k": 1.0, "v": v.tolist(), "M": M.tolist()}]
    if kind == "var":
        M = u["cov"] if u["cov"] is not None else rand_cov(rng, n)
        return of.portfolio_variance, {"cov_matrix": M}, [{"kind": "var", "k": 1.0, "M": M.tolist()}]
    if kind == "ret":
        mu = u["mu"] if u["mu"] is not None else rand_mu(rng, n)
        return of.portfolio_return, {"expected_returns": mu}, [{"kind": "lin", "k": -1.0, "v": [float(x) for x in mu]}]
    if kind == "qu":
        mu = u["mu"] if u["mu"] is not None else rand_mu(rng, n)
        M = u["cov"] if u["cov"] is not None else rand_cov(rng, n)
        d = rng.choice([1, 2, 5])
        return (of.quadratic_utility, {"expected_returns": mu, "cov_matrix": M, "risk_aversion": d},
                [{"kind": "lin", "k": -1.0, "v": [float(x) for x in mu]}, {"kind": "var", "k": d / 2, "M": M.tolist()}])
    raise KeyError(kind)


def log_term(t):
    d = {"kind": t["kind"], "k": fx(t["k"]), "v": fxv(t.get("v", [])), "M": fxm(t.get("M", []))}
    return d


# ------------------------------------------------------------------ the replay
class Replay(Recorder):
    def __init__(self, beh, seed):
        super().__init__(beh, seed)
        self.objs = []          # real objects
        self.probs = []         # mirrored problems (only used to draw arguments)
        self.tick = []          # expected tickers per object

    def held(self):
        out = []
        for o in self.objs:
            try:
                w = o.weights
                out.append([] if w is None else fxv(np.asarray(w, dtype=float).ravel().tolist()))
            except Exception:
                out.append([0])       # not weights at all
        return out

    def call(self, fn):
        r, out, exc = super().call(fn)
        return r, out, exc, self.warnmsgs

    def emit(self, **kw):
        kw["held"] = self.held()
        super().emit(**kw)

    # -- construction
    def new(self, op):
        rng, d = self.rng, pf()
        pp, pd = d["pp"], d["pd"]
        cls = op["cls"]
        u = universe(rng, cls, n=None if op.get("size", "any") == "any" else op["size"], mu=op.get("mu", "yes") != "no")
        self.u, self.cls = u, cls
        n = u["n"]
        sh = {"long": False, "short": True}.get(op.get("bounds", "any"))
        if op.get("bounds") == "bad":
            for _ in range(3):
                self.badnew()
            which = rng.choice(BAD_BOUNDS)
            obj = {"short": (0, 1, 2) if n != 3 else (0, 1, 2, 3), "long": [(0, 1)] * (n + 1 if n + 1 != 2 else 3),
                   "scalarlist": np.array([0.0, 1.0, 0.5, 0.2, 0.1]), "set": "ab"}[which]
            L, U, valid = [0.0] * n, [1.0] * n, 0
        else:
            obj, L, U, _ = rand_bounds(rng, n, sh)
            valid = 1
        names = u["names"]
        mk = rng.choice(["series", "list", "arr", "arr2"]) if u["mu"] is not None else "none"
        mu = {"series": lambda: pd.Series(u["mu"], index=names), "list": lambda: list(map(float, u["mu"])),
              "arr": lambda: np.array(u["mu"]), "arr2": lambda: np.array(u["mu"]).reshape(-1, 1), "none": lambda: None}[mk]()
        tick = list(range(n))
        kw = {"weight_bounds": obj}
        self.watch(mu, obj)
        sv = op.get("solver")
        if sv is None:
            quad = any(o["op"] == "addobj" for o in self.beh)
            sv = (rng.choice([None, None, None, "CLARABEL", "ECOS"]) if cls == "EF"
                  else rng.choice([None, "CLARABEL"]) if cls in ("CV", "CD") and not quad else "CLARABEL")
        self.solver = sv
        if sv:
            kw["solver"] = sv
        if cls == "EF":
            df = rng.random() < .5
            cov = pd.DataFrame(u["cov"], index=names, columns=names) if df else np.array(u["cov"])
            if mk == "series" or df:
                tick = list(names)
            self.watch(cov)
            fn = lambda: pp.EfficientFrontier(mu, cov, **kw)
        else:
            R = np.array(u["R"])
            if rng.random() < .15:      # rows with gaps are dropped by design
                i = rng.randrange(len(R) + 1)
                row = rand_returns(rng, n, 1); row[0, rng.randrange(n)] = np.nan
                R = np.vstack([R[:i], row, R[i:]])
            if rng.random() < .5:
                R = pd.DataFrame(R, columns=names)
                tick = list(names)
            if mk == "series":
                tick = list(names)
            self.watch(R)
            if cls == "ES":
                kw.update(frequency=u["freq"], benchmark=u["bench"])
                fn = lambda: pp.EfficientSemivariance(mu, R, **kw)
            else:
                kw.update(beta=u["beta"])
                fn = lambda: (pp.EfficientCVaR if cls == "CV" else pp.EfficientCDaR)(mu, R, **kw)
        r, out, exc, ws = self.call(fn)
        if out == "ok" and valid:
            self.objs.append(r)
            self.probs.append(base_problem(u, L, U))
            self.tick.append(tick)
        self.emit(op="new", h=1, out=out, exc=exc, valid=valid, cls=cls, n=n, mu=[] if u["mu"] is None else fxv(u["mu"]),
                  cov=[] if u["cov"] is None else fxm(u["cov"]), R=[] if u["R"] is None else fxm(u["R"]),
                  bench=fx(u["bench"]), freq=fx(u["freq"]), beta=fx(u["beta"]),
                  haslo=[0 if x is None else 1 for x in L], lo=[fx(0 if x is None else x) for x in L],
                  hashi=[0 if x is None else 1 for x in U], hi=[fx(0 if x is None else x) for x in U])
        return bool(self.objs)

    def badnew(self):
        """A constructor call with inputs that make no sense together."""
        rng, d, u, cls = self.rng, pf(), self.u, self.cls
        pp, pd = d["pp"], d["pd"]
        n, names = u["n"], u["names"]
        mu = rand_mu(rng, n)
        frame = lambda a: pd.DataFrame(a) if rng.random() < .5 else np.array(a)
        kinds = ["mutype", "datatype", "nodata", "shape"] + (["beta"] * 2 if cls in ("CV", "CD") else [])
        kind = rng.choice(kinds)
        m = rng.choice([pd.Series(mu), list(map(float, mu)), np.array(mu)])
        data = frame(rand_cov(rng, n) if cls == "EF" else rand_returns(rng, n, 8))
        kw = {}
        if kind == "mutype":
            m = rng.choice([dict(zip(names, mu)), "".join("1" for _ in names), pd.DataFrame([mu]), set(map(float, mu))] )
        elif kind == "datatype":
            data = rng.choice([np.asarray(data).tolist(), "data", {k: list(x) for k, x in zip(names, np.asarray(data).T)}, 3.0])
        elif kind == "nodata":
            data = None
        elif kind == "shape":
            k = rng.choice([n + 1, n - 1, 2 * n])
            if rng.random() < .5:
                data = frame(rand_cov(rng, k) if cls == "EF" else rand_returns(rng, k, 8))
            elif cls == "EF" and rng.random() < .5:
                data = frame(np.asarray(data)[:, :n - 1] if rng.random() < .5 else np.asarray(data)[:n - 1])
            else:
                m = rand_mu(rng, k)
        elif kind == "beta":
            kw["beta"] = rng.choice([1.0, 1, 1.5, 95, -0.05, -1])
        self.watch(m, data)
        C = {"EF": pp.EfficientFrontier, "ES": pp.EfficientSemivariance, "CV": pp.EfficientCVaR, "CD": pp.EfficientCDaR}[cls]
        r, out, exc, ws = self.call(lambda: C(m, data, **kw))
        self.emit(op="new", h=1, out=out, exc=exc, valid=0, cls=cls, n=n, kind=kind, mu=[], cov=[], R=[], bench=fx(0), freq=fx(1), beta=fx(0),
                  haslo=[], lo=[], hashi=[], hi=[])

    def copy(self, op):
        h = op["h"]
        if self.probs[h - 1].get("par"):
            return              # a cp.Parameter of the user's is one object, whoever uses it
        r, out, exc, ws = self.call(lambda: self.objs[h - 1].deepcopy())
        if out == "ok":
            self.objs.append(r)
            P = dict(self.probs[h - 1])
            for k in ("cons", "norms", "terms"):
                P[k] = list(P[k])
            self.probs.append(P)
            self.tick.append(list(self.tick[h - 1]))
        self.emit(op="copy", h=h, out=out, exc=exc)

    def next_solve(self, i):
        for op in self.beh[i:]:
            if op["op"] == "solve":
                return op
        return None

    def addcon(self, op, i):
        rng, h = self.rng, op["h"]
        P, o = self.probs[h - 1], self.objs[h - 1]
        nxt = self.next_solve(i) or {"mn": False, "m": "min"}
        Q = pose(self.cls, P, "min", 0, nxt.get("mn", False))
        cons, norms, valid, spoil, par = [], [], 1, 0, 0
        kind = op["kind"]
        if kind == "param" and (P.get("par") or len(self.objs) > 1):
            kind = "lin"
        if kind == "spoil":
            spoil = 1
            cp = pf()["cp"]
            f = rng.choice([lambda w: cp.sum_squares(w) >= 0.1, lambda w: cp.norm(w, 1) >= 0.5, lambda w: cp.norm(w, 2) == 0.6,
                            lambda w: cp.max(w) >= 0.1, lambda w: 0.2 <= cp.norm(w, 2), lambda w: w[0] * w[1] <= 0.3, lambda w: None,
                            lambda w: cp.sum_squares(w)])
            fn = lambda: o.add_constraint(f)
        elif kind == "notcallable":
            valid = 0
            bad = rng.choice([3.0, "w >= 0", None, [1, 2]])
            fn = lambda: o.add_constraint(bad)
        else:
            v0 = anchor(rng, Q, Q["budget"])
            if v0 is None:
                v0 = np.ones(self.u["n"]) / self.u["n"]
            if kind == "param":
                par = 1
                cp, n = pf()["cp"], self.u["n"]
                a = [float(x) for x in rng.choice([unit(n, rng.randrange(n)), [rng.choice([0, 0.5, 1]) for _ in range(n - 1)] + [1.0]])]
                up = rng.random() < .5
                b = rnd(float(np.dot(a, v0)) + (1 if up else -1) * rng.choice([0.0, 0.03, 0.1]), 3)
                A, p = np.array(a), cp.Parameter(value=b, name=rng.choice(PARNAMES))
                f = rng.choice([lambda w: A @ w <= p, lambda w: p >= A @ w, lambda w: A @ w - p <= 0] if up else
                               [lambda w: A @ w >= p, lambda w: p <= w @ A])
                cons = [{"a": a, "rel": "le" if up else "ge", "b": b}]
                fn = lambda: o.add_constraint(f)
                P["parname"] = p.name()
            elif kind == "sector":
                mapper, lo, up, cons = make_sectors(rng, self.u, self.tick[h - 1], v0)
                self.watch(mapper, lo, up)
                fn = lambda: o.add_sector_constraints(mapper, lo, up)
                if not cons:
                    return
            else:
                kind = "lin" if kind.startswith("lin") else kind
                f, cons, norms = make_linear(rng, self.u, Q, v0, kind, nxt.get("m") == "sharpe")
                fn = lambda: o.add_constraint(f)
        r, out, exc, ws = self.call(fn)
        if out == "ok":
            P["cons"] = P["cons"] + cons
            P["norms"] = P["norms"] + norms
            if par:
                P["par"] = len(P["cons"])
        self.emit(op="addcon", h=h, out=out, exc=exc, valid=valid, spoil=spoil, par=par,
                  cons=[{"a": fxv(c["a"]), "rel": c["rel"], "b": fx(c["b"])} for c in cons],
                  norms=[{"p": c["p"], "b": fx(c["b"])} for c in norms])

    def setpar(self, op):
        """A new value for a named parameter of the user's."""
        rng, h = self.rng, op["h"]
        P, o = self.probs[h - 1], self.objs[h - 1]
        known = bool(P.get("par")) and rng.random() < .85
        name = P["parname"] if known else "no such name"
        c = P["cons"][P["par"] - 1] if known else None
        v0 = anchor(rng, pose(self.cls, P, "min", 0, False), "one") if known and rng.random() < .5 else None
        zero = rng.random() < .15
        val = 0.1 if not known else rnd(c["b"] + rng.uniform(-.15, .15), 3) if v0 is None else rnd(float(np.dot(c["a"], v0)), 3)
        val = 0.0 if zero else val
        r, out, exc, ws = self.call(lambda: o.update_parameter_value(name, val))
        if out == "ok" and known:
            P["cons"] = [dict(x, b=val) if k == P["par"] - 1 else x for k, x in enumerate(P["cons"])]
        self.emit(op="setpar", h=h, out=out, exc=exc, known=int(known), b=fx(val))

    def addobj(self, op):
        rng, h = self.rng, op["h"]
        P, o = self.probs[h - 1], self.objs[h - 1]
        if op["kind"] == "spoil":
            cp, n = pf()["cp"], self.u["n"]
            f = rng.choice([lambda w: -cp.sum_squares(w), lambda w: -cp.norm(w, 1), lambda w: -0.01 * cp.max(w), lambda w: cp.sqrt(w[0] + 2),
                            lambda w: w[0] * w[1], lambda w: w])
            r, out, exc, ws = self.call(lambda: o.add_objective(f))
            self.emit(op="addobj", h=h, out=out, exc=exc, valid=1, spoil=1, term=[])
            return
        f, kw, terms = make_term(rng, self.u, P, op["kind"])
        self.watch(*kw.values())
        r, out, exc, ws = self.call(lambda: o.add_objective(f, **kw))
        if out == "ok":
            P["terms"] = P["terms"] + terms
        self.emit(op="addobj", h=h, out=out, exc=exc, valid=1, spoil=0, term=log_term(terms[0]))

    def solve(self, op):
        rng, h = self.rng, op["h"]
        P, o, cls = self.probs[h - 1], self.objs[h - 1], self.cls
        m, mn = op["m"], bool(op["mn"])
        if m == "sharpe" and self.u.get("sing"):
            m, mn = "min", False        # a ratio over zero risk is not a problem
        arg, argk = target(rng, cls, P, m, op["tgt"], mn)
        passed = arg
        if argk == "bad":
            passed = rng.choice(["0.1", None, [0.1]]) if m == "sharpe" else rng.choice(["0.1", None, "high"])
        terms, sum1 = [], 1
        if cls != "EF" and m in ("sharpe", "qu", "min", "convex"):
            pass
        if m == "min":
            name = {"EF": "min_volatility", "ES": "min_semivariance", "CV": "min_cvar", "CD": "min_cdar"}[cls]
            fn = (lambda: o.min_volatility()) if cls == "EF" else (lambda: getattr(o, name)(market_neutral=mn) if mn or rng.random() < .5 else getattr(o, name)())
        elif m == "sharpe":
            fn = (lambda: o.max_sharpe()) if passed == 0.0 and rng.random() < .5 and argk == "num" else (lambda: o.max_sharpe(risk_free_rate=passed))
        elif m == "qu":
            fn = lambda: o.max_quadratic_utility(risk_aversion=passed, market_neutral=mn)
        elif m == "erisk":
            fn = lambda: o.efficient_risk(passed, market_neutral=mn)
        elif m == "eret":
            fn = lambda: o.efficient_return(passed, market_neutral=mn)
        else:
            sum1 = 0 if op["tgt"] == "free" else 1
            kinds = rng.sample(["var", "L2", "tc", "tea", "tep", "ret", "qu"], rng.choice([1, 1, 2]))
            if not sum1 and any(x is None for x in P["lo"] + P["hi"]) and not ({"L2"} if self.u["sing"] else {"var", "L2", "tea", "qu"}) & set(kinds):
                kinds.append("L2")      # without budget and bounds, linear objectives are unbounded
            parts = [make_term(rng, self.u, P, k) for k in kinds]
            terms = [t for p in parts for t in p[2]]
            self.watch(*[x for p in parts for x in p[1].values()])
            if len(parts) == 1 and rng.random() < .6:
                f, kw, _ = parts[0]
                fn = lambda: o.convex_objective(f, weights_sum_to_one=bool(sum1), **kw)
            else:
                g = lambda w, s=1: sum(p[0](w, **p[1]) for p in parts)
                fn = lambda: o.convex_objective(g, weights_sum_to_one=bool(sum1))
        r, out, exc, ws = self.call(fn)
        wits = []
        if argk == "num" or argk == "int":
            if not (P["mu"] is None and m in ("sharpe", "qu", "erisk", "eret")):
                Q = pose(cls, P, m, float(arg), mn, bool(sum1), terms)
                wits = self.witnesses(Q)
        ret, keys, finite = [], 0, 0
        if out == "ok":
            try:
                vals = [float(x) for x in r.values()]
                finite = int(all(np.isfinite(vals)))
                ret = fxv(vals) if finite else []
                keys = int(list(r.keys()) == self.tick[h - 1])
            except Exception:
                finite, ret = 0, []
        self.emit(op="solve", h=h, m=m, mn=int(mn), arg=fx(float(arg)), argk=argk, out=out, exc=exc, ret=ret, keys=keys,
                  finite=finite, warn=int(any(c == "RuntimeWarning" and "eutral" in t for c, t in ws)), sum1=sum1,
                  terms=[log_term(t) for t in terms],
                  wits=wits)

    def perf(self, op):
        rng, h = self.rng, op["h"]
        o = self.objs[h - 1]
        rf = rng.choice([0.0, 0.0, 0.02, 0.05])
        kw = {}
        if self.cls in ("EF", "ES") and rng.random() < .7:
            kw["risk_free_rate"] = rf
        else:
            rf = 0.0
        if rng.random() < .2:
            kw["verbose"] = True
        r, out, exc, ws = self.call(lambda: o.portfolio_performance(**kw))
        vals = self.figures(r) if out == "ok" else []
        self.emit(op="perf", h=h, out=out, exc=exc, arg=fx(rf), vals=vals, **self.printed(kw.get("verbose")))

    def unsup(self, op):
        rng, h = self.rng, op["h"]
        o = self.objs[h - 1]
        names = {"ES": ["min_volatility", "max_sharpe"], "CV": ["min_volatility", "max_sharpe", "max_quadratic_utility", "set_weights"],
                 "CD": ["min_volatility", "max_sharpe", "max_quadratic_utility", "set_weights"]}[self.cls]
        nm = rng.choice(names)
        args = [{t: 1.0 / self.u["n"] for t in self.tick[h - 1]}] if nm == "set_weights" else []
        r, out, exc, ws = self.call(lambda: getattr(o, nm)(*args))
        self.emit(op="unsup", h=h, out=out, exc=exc, name=nm)

    def mperf(self, op):
        """The module-level portfolio_performance on weights in various containers."""
        rng, u, d = self.rng, self.u, pf()
        pd = d["pd"]
        n = u["n"]
        mu = u["mu"] if u["mu"] is not None else rand_mu(rng, n)
        cov = u["cov"] if u["cov"] is not None else rand_cov(rng, n)
        names = list(u["names"])
        w = [rnd(rng.uniform(-0.4, 1), 3) for _ in range(n)]
        if abs(sum(w)) < 0.05:
            w[0] += 0.5
        form = rng.choice(["dict", "dict", "dictmiss", "list", "arr", "tuple", "dictint", "stranger", "None"])
        mform = rng.choice(["series", "series", "arr", "none"])
        cform = rng.choice(["df", "df", "arr"])
        valid = 1
        if form == "dictint":
            mform, cform = "arr", "arr"
            it = list(zip(range(n), w))
            rng.shuffle(it)
            W = dict(it)
        elif form == "stranger":
            valid, W = 0, {str(k) + "?": x for k, x in zip(names, w)}
            if mform == "none" and cform == "arr":
                cform = "df"
        elif form == "None":
            valid, W = 0, None
        elif form.startswith("dict"):
            if mform != "series" and cform != "df":
                mform = "series"
            it = list(zip(names, w))
            if form == "dictmiss" and n > 2:
                k = rng.randrange(n)
                w[k] = 0.0
                it = [x for x in zip(names, w) if x[0] != names[k]]
                if abs(sum(w)) < 0.05:
                    w = [x + (0.3 if i != k else 0.0) for i, x in enumerate(w)]
                    it = [x for x in zip(names, w) if x[0] != names[k]]
            else:
                it = list(zip(names, w))
            rng.shuffle(it)
            W = dict(it)
        else:
            W = {"list": list, "arr": np.array, "tuple": tuple}[form](w)
        m = {"series": lambda: pd.Series(mu, index=names), "arr": lambda: np.array(mu), "none": lambda: None}[mform]()
        C = pd.DataFrame(cov, index=names, columns=names) if cform == "df" else np.array(cov)
        rf = rng.choice([0.0, 0.02, 0.05])
        self.watch(W, m, C)
        f = d["pp"].base_optimizer.portfolio_performance
        kw = {"risk_free_rate": rf} if rf or rng.random() < .5 else {}
        if rng.random() < .2:
            kw["verbose"] = True
        r, out, exc, ws = self.call(lambda: f(W, m, C, **kw))
        vals = self.figures(r) if out == "ok" else []
        self.emit(op="mperf", h=1, valid=valid, out=out, exc=exc, arg=fx(rf), vals=vals, w=fxv(w), mu=[] if mform == "none" else fxv(map(float, mu)),
                  cov=fxm(np.asarray(cov).tolist()), form=form + "/" + mform + "/" + cform, **self.printed(kw.get("verbose")))

    def objval(self, op):
        """An objective function evaluated on numeric weights."""
        rng, u, d = self.rng, self.u, pf()
        of, pd = d["of"], d["pd"]
        n = u["n"]
        k = op["kind"]
        w = np.array([rnd(rng.uniform(-0.5, 1), 3) for _ in range(n)])
        if rng.random() < .5:
            w = np.round(w / w.sum(), 4) if abs(w.sum()) > .2 else w
        mu = rand_mu(rng, n)
        cov = rand_cov(rng, n)
        par = {"mu": [], "M": [], "v": [], "k": fx(1), "rf": fx(0), "neg": 1}
        C = pd.DataFrame(cov) if rng.random() < .3 else cov
        self.watch(w, mu, C)
        neg = rng.choice([None, True, False])
        kw = {} if neg is None else {"negative": neg}
        ng = 0 if neg is False else 1
        if k == "var":
            fn = lambda: of.portfolio_variance(w, C); par.update(M=fxm(cov.tolist()))
        elif k == "ret":
            fn = lambda: of.portfolio_return(w, mu, **kw); par.update(mu=fxv(mu.tolist()), neg=ng)
        elif k == "sharpe":
            rf = rng.choice([None, 0.0, 0.02, 0.1, -0.01])
            if rf is not None:
                kw["risk_free_rate"] = rf
            fn = lambda: of.sharpe_ratio(w, mu, C, **kw)
            par.update(mu=fxv(mu.tolist()), M=fxm(cov.tolist()), rf=fx(rf or 0.0), neg=ng)
        elif k == "L2":
            g = rng.choice([None, 0.1, 1, 2.5, 10])
            fn = lambda: of.L2_reg(w) if g is None else of.L2_reg(w, gamma=g); par.update(k=fx(1 if g is None else g))
        elif k == "qu":
            dl = rng.choice([0.5, 1, 2, 5.5, 10])
            fn = lambda: of.quadratic_utility(w, mu, C, risk_aversion=dl, **kw)
            par.update(mu=fxv(mu.tolist()), M=fxm(cov.tolist()), k=fx(dl), neg=ng)
        elif k == "tc":
            v = np.array([rnd(rng.uniform(0, 1), 2) for _ in range(n)]); c = rng.choice([None, 0.005, 0.02])
            fn = lambda: of.transaction_cost(w, v) if c is None else of.transaction_cost(w, v, k=c)
            par.update(v=fxv(v.tolist()), k=fx(0.001 if c is None else c))
        elif k == "tea":
            v = np.array([rnd(rng.uniform(0, 1), 2) for _ in range(n)])
            fn = lambda: of.ex_ante_tracking_error(w, C, v); par.update(M=fxm(cov.tolist()), v=fxv(v.tolist()))
        else:
            T = rng.randint(3, 8)
            M = rand_returns(rng, n, T); v = np.array([rnd(rng.gauss(0.01, .05), 3) for _ in range(T)])
            Mo = pd.DataFrame(M) if rng.random() < .4 else M
            vo = pd.Series(v) if rng.random() < .4 else v
            self.watch(Mo, vo)
            fn = lambda: of.ex_post_tracking_error(w, Mo, vo); par.update(M=fxm(M.tolist()), v=fxv(v.tolist()))
        r, out, exc, ws = self.call(fn)
        val = []
        if out == "ok":
            try:
                val = fx(float(r)) if np.isfinite(float(r)) else []
            except Exception:
                val = []
        self.emit(op="objval", h=1, out=out, exc=exc, kind=k, w=fxv(w.tolist()), val=val, **par)

    def nonconv(self, op):
        """nonconvex_objective with a convex problem."""
        rng, h, u = self.rng, op["h"], self.u
        P, o, n = self.probs[h - 1], self.objs[h - 1], self.u["n"]
        if any(x is None for x in P["lo"] + P["hi"]) or P["cons"] or P["norms"] or P["terms"]:
            return
        f, kw, terms = make_term(rng, u, P, rng.choice(["var", "L2", "qu", "tea", "tep"]))
        # percentages: the stopping rule of scipy is an absolute one
        for a, c in (("cov_matrix", 100.0), ("historic_returns", 10.0), ("benchmark_returns", 10.0), ("expected_returns", 10.0)):
            if a in kw:
                kw[a] = kw[a] * c
        for t in terms:
            if t["kind"] == "tep":
                t["M"], t["v"] = kw["historic_returns"].tolist(), kw["benchmark_returns"].tolist()
            elif t["kind"] == "lin":
                t["v"] = kw["expected_returns"].tolist()
            elif "M" in t:
                t["M"] = kw["cov_matrix"].tolist()
        args = tuple(kw.values())
        self.watch(*args)
        sum1 = int(rng.random() < .7)
        cons, extra = [], []
        if rng.random() < .4 or op.get("kind") == "hopeless":
            i = rng.randrange(n)
            mid = (P["lo"][i] + P["hi"][i]) / 2
            if sum1:
                v0 = anchor(rng, dict(P, budget="one"), "one")
                mid = float(v0[i]) if v0 is not None else mid
            b = rnd(mid, 3)
            if op.get("kind") == "hopeless":
                b = rnd(P["hi"][i] + rng.choice([0.2, 0.5, 3]), 3)
            cons = [{"a": unit(n, i), "rel": "ge", "b": b}]
            extra = [{"type": "ineq", "fun": lambda w: w[i] - b}]
            self.watch(extra)
        opts = {}
        if extra:
            opts["constraints"] = extra
        if not sum1:
            opts["weights_sum_to_one"] = False
        if rng.random() < .3:
            opts["initial_guess"] = self.watch(np.array([1.0 / n] * n))
        if len(args) == 1 and rng.random() < .5:
            args = args[0]
        r, out, exc, ws = self.call(lambda: o.nonconvex_objective(f, objective_args=args, **opts))
        Q = dict(P, cons=cons, terms=terms, obj="zero", budget="one" if sum1 else "free")
        wits = self.witnesses(Q)
        ret, finite, keys = [], 0, 0
        if out == "ok":
            vals = [float(x) for x in r.values()]
            finite = int(all(np.isfinite(vals)))
            ret = fxv(vals) if finite else []
            keys = int(list(r.keys()) == self.tick[h - 1])
        self.emit(op="nonconv", h=h, out=out, exc=exc, ret=ret, finite=finite, keys=keys, sum1=sum1, terms=[log_term(t) for t in terms],
                  cons=[{"a": fxv(c["a"]), "rel": c["rel"], "b": fx(c["b"])} for c in cons], wits=wits)

    def witnesses(self, Q):
        wits = []
        try:
            c, s = oracle.interior(Q)
            b = oracle.optimum(Q)
            b2 = oracle.optimum(Q, 6e-5) if self.solver is None else None
        except Exception:
            c, s, b, b2 = None, -1, None, None
        if c is not None:
            wits.append(oracle.polish(Q, c))
        if b is not None:
            b = oracle.polish(Q, b)
            wits.append(b)
            if c is not None and s > 0:
                wits.append(oracle.polish(Q, b + 2e-5 * (c - b)))
        if b2 is not None:
            wits.append(oracle.polish(Q, b2))
        return [fxv([float(x) for x in v]) for v in wits if np.all(np.isfinite(v))]

    def figures(self, r):
        vals = []
        try:
            for x in r:
                if x is None:
                    vals.append([])
                else:
                    f = float(x)
                    vals.append(fx(f) if np.isfinite(f) else fx(9e9))
        except Exception:
            vals = []
        return vals

    def setw(self, op):
        rng, h = self.rng, op["h"]
        o, n = self.objs[h - 1], self.u["n"]
        w = [rnd(rng.uniform(-0.3, 1), 3) for _ in range(n)]
        items = list(zip(self.tick[h - 1], w))
        rng.shuffle(items)
        d = self.watch(dict(items))
        r, out, exc, ws = self.call(lambda: o.set_weights(d))
        self.emit(op="setw", h=h, out=out, exc=exc, w=fxv(w))

    def run(self):
        for i, op in enumerate(self.beh):
            k = op["op"]
            if k != "new" and op["h"] > len(self.objs):
                continue
            self.lastcall = False
            if not self.do(k, *((op, i) if k == "addcon" else (op,))):
                break           # what comes after an unreadable answer is not judged
            if k == "new" and not self.objs:
                break
        return dict(self.history(), solver=str(getattr(self, "solver", None)))


def run_one(job):
    beh, seed = job
    return Replay(beh, seed).run()
