"""The table of checks: which specifications and behaviours decide which property."""

SUITES = {
    "optimizer": {"gen": "OptimizerGen", "drv": "optdrv", "trace": "OptimizerTrace",
                  "pinned": {"C04": [
                      # the known finding KF1 is exhibited in every run
                      [{"op": "new", "cls": c, "bounds": "any", "size": "any", "mu": "yes"},
                       {"op": "solve", "h": 1, "m": "erisk", "mn": False, "tgt": "slack"}, {"op": "perf", "h": 1}]
                      for c in ("CV", "CD") for _ in range(3)]}},
    "cla": {"gen": "ClaGen", "drv": "cladrv", "trace": "ClaTrace"},
    "hrp": {"gen": "HrpGen", "drv": "hrpdrv", "trace": "HrpTrace"},
    "da": {"gen": "DaGen", "drv": "dadrv", "trace": "DaTrace"},
    "weights": {"gen": "WeightsGen", "drv": "wdrv", "trace": "WeightsTrace"},
    "est": {"gen": "EstGen", "drv": "estdrv", "trace": "EstTrace"},
    "equ": {"gen": "EquGen", "drv": "equdrv", "trace": "EquTrace"},
    "plot": {"gen": "PlotGen", "drv": "plotdrv", "trace": "PlotTrace"},
    "bl": {"gen": "BLGen", "drv": "bldrv", "trace": "BLTrace"},
}

ASSUMPTIONS = [
    "The interpreter, numpy, pandas, cvxpy and the convex solvers are as installed in /opt/venv; their answers are judged, "
    "within solver tolerance (see the tolerances at the top of each trace specification), not assumed.",
    "TLC and the fixed-point override spec/java/Fx.java are trusted; spec/FxTest checks the override against its TLA+ definitions.",
]

DESIGN_INV = ["AnswersRight", "Frozen", "AddsFrozen", "Isolated", "UserConsKept", "OneBoundPair", "OwnAux"]


def design(cls, ops=4, objs=2, longonly="TRUE", bug=None):
    return ("OptimizerDesign", {"Cls": '"%s"' % cls, "MaxOps": ops, "MaxObjs": objs, "LongOnly": longonly,
                                "Bug": '"%s"' % (bug or "none")}, DESIGN_INV, {"expect": bug} if bug else {})


BUGS = [design("EF", bug=b) for b in ("noguard", "keepbounds", "dropuser", "forget", "nomn", "stale", "addlate")]
DEEP = [design("EF", 5), design("EF", 5, 3), design("ES", 5), design("CV", 5, 3), design("CD", 5, 2, "FALSE"),
        design("EF", 5, 2, "FALSE")] + BUGS

TECH = "TLA+/TLC: design model checking + spec-generated histories replayed and trace-checked"


def opt(focus, note, designs, nq=1500, nt=40000, more=(), **kw):
    return dict(technique=TECH, note=note, design=designs, design_thorough=DEEP,
                runs=[("optimizer", focus, nq, nt)] + list(more), **kw)


COMMON = ("TLC explores the mechanism (OptimizerDesign) exhaustively for histories of up to 4 calls (5 in the thorough tier) on 2-3 "
          "objects with an abstract solver; histories generated from OptimizerGen are replayed on the real classes and every event is "
          "judged by OptimizerTrace. ")

CHECKS = {
    "C01": opt("C01", COMMON + "Bounds, budget, constraints and targets are evaluated by TLC on the returned weights (2-6 assets, tolerance 5e-5).",
               [design("EF")]),
    "C02": opt("C02", COMMON + "Optimality is quantified over lattice portfolios, exchanges between assets and candidate portfolios whose "
               "admissibility and value TLC evaluates itself.", [design("EF")]),
    "C03": opt("C03", COMMON + "Semivariance, CVaR and CDaR are evaluated from their definitions by TLC; optimality as in C02.",
               [design("CV"), design("ES")]),
    "C04": opt("C04", COMMON + "Figures are recomputed by TLC from the held weights in fixed-point arithmetic.", [design("CV"), design("EF")],
               more=[("cla", "C10", 500, 5000), ("hrp", "C11", 500, 5000), ("bl", "C12", 800, 8000)]),
    "C05": opt("C05", COMMON + "Long histories of re-solves, foreign methods and late additions.", [design("EF"), design("CV")]),
    "C06": opt("C06", COMMON + "Infeasible, invalid and unsupported requests; a refusal is only accepted when TLC finds no portfolio that is "
               "admissible with room.", [design("EF"), design("ES")], nq=2500, more=[("cla", "C10", 500, 8000)]),
    "C07": opt("C07", COMMON + "Histories over up to three copies of an object; every event logs the weights of every object.",
               [design("EF"), design("CV")]),
    "C08": opt("C08", COMMON + "Market-neutral requests over long-only and shorting bounds, user constraints and re-solves.",
               [design("EF"), design("ES")]),
    "C09": opt("C09", COMMON + "Objective functions are evaluated by TLC on numeric weights; custom and additional objectives are judged by "
               "optimality.", [design("EF")]),
}


def plain(suite, focus, note, nq, nt, more=(), **kw):
    return dict(technique=TECH2, note=note, runs=[(suite, focus, nq, nt)] + list(more), **kw)


TECH2 = "TLA+/TLC: spec-generated histories replayed on the code and trace-checked against a TLA+ oracle"
CHECKS.update({
    "C10": plain("cla", "C10", "2-6 assets, all bounds forms, degenerate problems included. The exact first-order conditions of each "
                 "problem (no exchange of two assets improves; multipliers exist) are evaluated by TLC at every returned portfolio.", 2000, 40000),
    "C11": plain("hrp", "C11", "2-6 assets, all seven linkage rules. Distances, clustering, leaf order and bisection are carried out by TLC "
                 "and compared to 1e-8 (histories in which the two closest clusters are tied within 1e-5 are not judged).", 3000, 40000),
    "C12": plain("bl", "C12", "Models of 2-5 assets; after every call TLC recomputes the posterior from the master formula in 24-digit "
                 "arithmetic (agreement 1e-8), in every order of calls, with weights held by the model.", 4000, 60000),
    "C13": plain("bl", "C13", "Every accepted form of views, priors, uncertainties and confidences, and one invalid variant of each; the "
                 "interpreted Q, P, pi, Omega are compared with their documented formulas.", 6000, 60000),
    "C14": plain("da", "C14", "1-7 assets, long and long/short, repeated calls. TLC runs the greedy algorithm itself and compares share by "
                 "share (decisions closer than 1e-9 are not compared); accounting to 1e-9.", 6000, 100000),
    "C15": plain("da", "C15", "1-4 assets. The objective is compared with all whole portfolios around the target and with a brute-force "
                 "candidate, within the MIP gap of the solver (ECOS_BB 1.25e-3, HiGHS 1.25e-4 of the funds).", 4000, 60000),
    "C16": plain("weights", "C16", "1-8 assets on the base class, EfficientFrontier, HRP, Black-Litterman and CLA; weights around the cutoffs; "
                 "TLC cleans the weights itself, and the saved csv, json and txt files are read back.", 5000, 60000),
    "C17": plain("est", "C17", "1-5 assets, 2-14 periods with gaps and late listings; every option combination. Formulas are evaluated by TLC "
                 "(exponential and fractional powers in fixed point); agreement 1e-7.", 3000, 60000),
    "C18": plain("est", "C18", "2-5 assets, gaps included; pairs of assets with fewer than 3 common observations are not judged.", 4000, 60000),
    "C19": plain("est", "C19", "Symmetric matrices of 2-5 assets, definite, singular and indefinite, both methods; the nearest matrix is "
                 "recognised by its variational conditions (X >= 0, X - A >= 0, <X, X - A> = 0), which TLC evaluates.", 4000, 60000),
    "C20": plain("est", "C20", "2-5 assets; delta, target and estimate recomputed by TLC after every call on one object in any order of calls; "
                 "delta is not judged where target and sample (nearly) coincide, nor with constant columns.", 4000, 60000),
    "C21": plain("equ", "C21", "Every object handed to a call in any of the suites is compared with itself after the call (values, labels, "
                 "order, types); the same request on the same objects has to give the same answer (exactly, unless an iterative solver is "
                 "involved).", 1500, 30000,
                 more=[("est", f, 600, 8000) for f in ("C17", "C18", "C20")] + [("bl", "C12", 800, 8000), ("bl", "C13", 800, 8000),
                 ("hrp", "C11", 500, 5000), ("cla", "C10", 400, 5000), ("da", "C14", 800, 8000), ("da", "C15", 500, 5000), ("weights", "C16", 800, 8000),
                 ("optimizer", "C09", 800, 8000), ("optimizer", "C04", 500, 5000), ("plot", "C22", 150, 2000)]),
    "C22": plain("plot", "C22", "Frontier plots of all five optimizer classes and of CLA, covariance and weight plots, dendrograms; what matplotlib "
                 "was given to draw is read back from the figure. TLC decides which drawn points are portfolios of the problem and are efficient; "
                 "the parameters are re-solved one by one on copies.", 600, 8000),
    "C23": plain("equ", "C23", "38 systems (all optimizers, estimators, priors, allocation, cleaning, performance) over 2-5 assets; permutation, "
                 "renaming (including integer labels that look like positions), containers, orders of dictionaries and of price series.",
                 8000, 120000),
})
NOT_YET = {}
