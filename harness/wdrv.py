"""Replays behaviours of weight post-processing (spec/WeightsGen) on the real classes."""
import ast
import collections
import csv
import json
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from core import fx, fxv
from rec import NAMES, Recorder, num, rand_cov, rnd, vec


class Replay(Recorder):
    def run(self):
        self.dir = tempfile.mkdtemp(prefix="verif_w_")
        try:
            return self.go()
        finally:
            shutil.rmtree(self.dir)

    def go(self):
        import pypfopt
        from pypfopt import base_optimizer
        rng, c = self.rng, self.beh["cfg"]
        n = self.n = c["n"]
        cls, start = c["cls"], c["start"]
        if cls in ("EF", "HRP", "BL", "CLA") and n < 2:
            cls = "base"
        if cls == "CLA" and start == "set":
            start = "solved"          # CLA has no set_weights
        names = list(rng.choice(NAMES)[:n])
        if cls == "base" and rng.random() < .4:
            names = rng.sample(["BRK.B", "A B", "O'NEIL", 'Q"T', "a,b", "ÄÖ", "x;y", "0012", "1e5", "tab\tX", "nan", "z", "-1", "inf", " x"], n)
        if cls == "basenum":
            names = list(range(n))
        self.tick = names
        S = rand_cov(rng, n) if n > 1 else np.array([[.04]])
        mu = [rnd(rng.uniform(.01, .3), 4) for _ in range(n)]
        so = self.watch(pd.DataFrame(S, index=names, columns=names))
        mo = self.watch(pd.Series(mu, index=names))
        mk = {"base": lambda: base_optimizer.BaseOptimizer(n, list(names)), "basenum": lambda: base_optimizer.BaseOptimizer(n),
              "EF": lambda: pypfopt.EfficientFrontier(mo, so), "HRP": lambda: pypfopt.HRPOpt(cov_matrix=so),
              "BL": lambda: pypfopt.BlackLittermanModel(so, absolute_views={names[0]: .1}), "CLA": lambda: pypfopt.CLA(mo, so)}[cls]
        self.cls = cls
        self.obj, out, exc = self.call(mk)
        self.emit("new", out, exc, n=n, cls=cls)
        if self.obj is None:
            return self.history()
        if start == "set":
            self.do("o_setw")
        elif start == "solved" and cls not in ("base", "basenum"):
            self.do("o_solve")
        for op in self.beh["ops"]:
            if op in ("setw", "missing") and cls == "CLA":
                continue
            self.do("o_" + op) if hasattr(self, "o_" + op) else self.do("save", op)
        return self.history()

    def held(self):
        w = self.obj.weights
        return [] if w is None else vec(w)

    def weights(self):
        rng, n = self.rng, self.n
        out = []
        for _ in range(n):
            t = rng.random()
            if t < .25:      # around the default and other cutoffs
                x = rng.choice([1e-4, 9.9e-5, 1.01e-4, 1e-5, 5e-6, 1e-3, .0099, .01, 1e-9, 4e-5, .05])
            elif t < .35:
                x = rng.choice([0, 1, 0.0, .5, 1e-17])
            elif t < .5:
                x = rnd(rng.uniform(0, 1), 3)
            else:
                x = rng.uniform(0, 1.5)
            out.append(x if rng.random() < .75 else -x)
        return out

    def o_setw(self):
        w = self.weights()
        it = list(zip(self.tick, w))
        self.rng.shuffle(it)
        d = self.watch(self.rng.choice([dict, collections.OrderedDict])(it))
        r, out, exc = self.call(lambda: self.obj.set_weights(d))
        self.emit("setw", out, exc, w=fxv(w), held=self.held())

    def o_missing(self):
        w = self.weights()
        d = dict(zip(self.tick, w))
        del d[self.rng.choice(self.tick)]
        r, out, exc = self.call(lambda: self.obj.set_weights(d))
        self.emit("missing", out, exc, held=self.held())

    def o_solve(self):
        f = {"EF": lambda: self.obj.min_volatility(), "HRP": lambda: self.obj.optimize(), "BL": lambda: self.obj.bl_weights(),
             "CLA": lambda: self.obj.min_volatility()}[self.cls]
        r, out, exc = self.call(f)
        self.emit("solve", out, exc, val=[] if r is None else [num(r.get(t)) for t in self.tick],
                  keys=int(r is not None and (list(r) == self.tick or self.cls == "HRP" and set(r) == set(self.tick))), held=self.held())

    def cleaned(self, f, cutoff, decimals, bad=False):
        r, out, exc = self.call(f)
        self.emit("clean", out, exc, val=[] if r is None else vec(list(r.values())), keys=int(r is not None and list(r) == self.tick),
                  cutoff=fx(cutoff), decimals=decimals, rounding="bad" if bad else "ok", held=self.held())

    def o_clean(self):
        self.cleaned(lambda: self.obj.clean_weights(), 1e-4, 5)

    def o_cleanarg(self):
        rng = self.rng
        kw, cut, dec = {}, 1e-4, 5
        if rng.random() < .7:
            cut = kw["cutoff"] = rng.choice([0, 1e-5, 1e-3, .01, .05, .3, 1e-2])
        if rng.random() < .7:
            r = kw["rounding"] = rng.choice([None, None, 1, 2, 3, 4, 7, 8])
            dec = -1 if r is None else r
        self.cleaned(lambda: self.obj.clean_weights(**kw), cut, dec)

    def o_cleanbad(self):
        r = self.rng.choice([0, -1, 1.3, 0.5, "5", [2], 2.0])
        self.cleaned(lambda: self.obj.clean_weights(rounding=r), 1e-4, 5, True)

    def save(self, op):
        bad = op == "badext"
        ext = {"upper": self.rng.choice(["CSV", "Json", "TXT"]), "badext": self.rng.choice(["xls", "yaml", "pdf", "csvv"])}.get(op, op)
        path = os.path.join(self.dir, self.rng.choice(["w", "my.weights", "weights_v1.2"]) + "." + ext)
        r, out, exc = self.call(lambda: self.obj.save_weights_to_file(path))
        val, keys = [], 0
        if out == "ok" and not bad:
            try:
                k = ext.lower()
                if k == "csv":
                    with open(path, newline="", encoding="utf-8") as f:
                        d = [(a, float(b)) for a, b in csv.reader(f)]
                    names = [str(t) for t in self.tick]
                elif k == "json":
                    d = list(json.load(open(path, encoding="utf-8")).items())
                    names = [str(t) for t in self.tick]
                else:
                    d = list(ast.literal_eval(open(path, encoding="utf-8").read()).items())
                    names = self.tick
                keys = int([a for a, _ in d] == names)
                val = vec([b for _, b in d])
            except Exception:
                keys, val = 0, []
        self.emit("save", out, exc, val=val, keys=keys, badext=int(bad), held=self.held())
        if os.path.exists(path):
            os.unlink(path)


def run_one(job):
    return Replay(*job).run()
