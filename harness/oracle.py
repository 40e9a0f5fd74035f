"""Untrusted candidate search: proposes portfolios for the specification to judge.

Nothing here decides a verdict.  A candidate only counts after the TLA+
specification has checked that it is admissible and has valued it itself, so a
wrong candidate can at worst be ignored.
"""
import warnings
import cvxpy as cp
import numpy as np


def _risk_terms(P, w):
    """(semivar, cvar, cdar) expressions with their auxiliary constraints."""
    R = np.array(P["R"], dtype=float)
    T = len(R)
    return R, T


def _tail(x, beta, cons):
    T = x.shape[0]
    a = cp.Variable()
    z = cp.Variable(T, nonneg=True)
    cons.append(z >= x - a)
    return a + cp.sum(z) / (T * (1 - beta))


def _measure(P, kind, w, cons):
    if kind == "var":
        L = P["_chol"]
        return cp.sum_squares(L @ w)
    R = np.array(P["R"], dtype=float)
    if kind == "semi":
        return cp.sum_squares(cp.neg(R @ w - P["bench"])) / len(R)
    if kind == "cvar":
        return _tail(-(R @ w), P["beta"], cons)
    if kind == "cdar":
        d = cp.Variable(len(R), nonneg=True)
        cons.append(d[0] >= -R[0] @ w)
        for t in range(1, len(R)):
            cons.append(d[t] >= d[t - 1] - R[t] @ w)
        return _tail(d, P["beta"], cons)
    raise KeyError(kind)


def _root(M):
    """A matrix L with L'L = M, for semidefinite M too."""
    M = np.array(M, dtype=float)
    try:
        return np.linalg.cholesky(M + 1e-13 * np.eye(len(M))).T
    except np.linalg.LinAlgError:
        e, V = np.linalg.eigh(M)
        return np.sqrt(np.maximum(e, 0))[:, None] * V.T


def _term(t, w):
    k = t["k"]
    if t["kind"] == "L2":
        return k * cp.sum_squares(w)
    if t["kind"] == "tc":
        return k * cp.norm1(w - np.array(t["v"]))
    if t["kind"] == "lin":
        return k * (np.array(t["v"]) @ w)
    if t["kind"] == "tea":
        return k * cp.sum_squares(_root(t["M"]) @ (w - np.array(t["v"])))
    if t["kind"] == "var":
        return k * cp.sum_squares(_root(t["M"]) @ w)
    if t["kind"] == "tep":
        x = np.array(t["M"]) @ w - np.array(t["v"])
        return k * cp.sum_squares(x - cp.sum(x) / len(t["v"]))
    raise KeyError(t["kind"])


def _prep(P):
    P = dict(P)
    if P.get("cov") is not None and len(P["cov"]):
        P["_chol"] = _root(P["cov"])
    return P


def _region(P, w, cons, scale=None, slack=0):
    """Constraints of the problem; scale is the perspective variable (Sharpe)."""
    one = 1 if scale is None else scale
    for i in range(P["n"]):
        if P["lo"][i] is not None:
            cons.append(w[i] >= P["lo"][i] * one + slack)
        if P["hi"][i] is not None:
            cons.append(w[i] <= P["hi"][i] * one - slack)
    if P["budget"] == "one":
        cons.append(cp.sum(w) == one)
    elif P["budget"] == "zero":
        cons.append(cp.sum(w) == 0)
    for c in P["cons"]:
        x = np.array(c["a"], dtype=float) @ w
        if c["rel"] == "le":
            cons.append(x <= c["b"] * one - slack)
        elif c["rel"] == "ge":
            cons.append(x >= c["b"] * one + slack)
        else:
            cons.append(x == c["b"] * one)
    for c in P["norms"]:
        cons.append(cp.norm(w, c["p"]) <= c["b"] * one - slack)


def _target(P, w, cons, slack=0):
    if P["tgt"] == "ret":
        cons.append(np.array(P["mu"]) @ w >= P["t"] + slack)
    elif P["tgt"] == "vol":
        cons.append(cp.norm(P["_chol"] @ w) <= P["t"] - slack)
    elif P["tgt"] == "semi":
        R = np.array(P["R"], dtype=float)
        cons.append(cp.norm(cp.neg(R @ w - P["bench"])) * np.sqrt(P["freq"] / len(R)) <= P["t"] - slack)
    elif P["tgt"] in ("cvar", "cdar"):
        cons.append(_measure(P, P["tgt"], w, cons) <= P["t"] - slack)


def _solve(obj, cons, w):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pb = cp.Problem(obj, cons)
        try:
            pb.solve(solver="CLARABEL")
        except Exception:
            return None
        if pb.status not in ("optimal", "optimal_inaccurate") or w.value is None:
            return None
        return np.array(w.value)


def optimum(P, slack=0):
    """A candidate optimum (at a distance from the inequalities), or None."""
    P = _prep(P)
    w = cp.Variable(P["n"])
    cons = []
    if P["obj"] == "sharpe":
        k = cp.Variable(nonneg=True)
        _region(P, w, cons, scale=k, slack=slack * k if slack else 0)
        cons.append((np.array(P["mu"]) - P["par"]) @ w == 1)
        y = _solve(cp.Minimize(cp.sum_squares(P["_chol"] @ w)), cons, w)
        if y is None or k.value is None or k.value < 1e-9:
            return None
        return y / float(k.value)
    _region(P, w, cons, slack=slack)
    _target(P, w, cons, slack=slack)
    ret = (np.array(P["mu"]) @ w) if P["mu"] is not None else 0
    o = P["obj"]
    if o in ("var", "semi", "cvar", "cdar"):
        e = _measure(P, o, w, cons)
    elif o == "ret":
        e = -ret
    elif o == "qu":
        e = 0.5 * P["par"] * _measure(P, "var", w, cons) - ret
    elif o == "squ":
        e = 0.5 * P["par"] * _measure(P, "semi", w, cons) - ret / P["freq"]
    else:
        e = 0
    for t in P["terms"]:
        e = e + _term(t, w)
    scale = 1.0
    if o == "semi":
        scale = 100.0
    v = _solve(cp.Minimize(scale * e), cons, w)
    return v


def interior(P):
    """A portfolio with as much room as possible in every inequality, or None."""
    P = _prep(P)
    w = cp.Variable(P["n"])
    s = cp.Variable()
    cons = [s <= 0.25]
    _region(P, w, cons, slack=s)
    _target(P, w, cons, slack=s)
    if P["obj"] == "sharpe":
        cons.append(np.array(P["mu"]) @ w >= P["par"] + s)
    v = _solve(cp.Maximize(s), cons, w)
    if v is None or s.value is None:
        return None, -1.0
    return v, float(s.value)


def polish(P, v):
    """Nudge a candidate onto the budget plane (pure floating-point tidying)."""
    v = np.array(v, dtype=float)
    if P["budget"] == "one":
        v = v + (1 - v.sum()) / len(v)
    elif P["budget"] == "zero":
        v = v - v.sum() / len(v)
    return v
