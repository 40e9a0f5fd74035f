"""Core of the harness: numbers, TLC runs, driver pool, verdict collation.

Runs under /opt/venv/bin/python (the interpreter of the code under test) but
imports nothing from the repository itself.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TLA_JARS = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
NCPU = min(8, os.cpu_count() or 4)
SCALE = 10**24
FB = 10**4


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- numbers
def fx(x):
    """A Python number as the limb sequence of spec/Fx.tla (truncated at 1e-24).

    Non-finite numbers become the string "nan" / "inf" / "-inf"; None becomes "none".
    """
    if x is None:
        return "none"
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        n = x * SCALE
    else:
        x = float(x)
        if x != x:
            return "nan"
        if x in (float("inf"), float("-inf")):
            return "inf" if x > 0 else "-inf"
        p, q = x.as_integer_ratio()
        n = abs(p) * SCALE // q
        n = n if p >= 0 else -n
    if n == 0:
        return [0]
    out = [1 if n > 0 else -1]
    n = abs(n)
    while n:
        n, d = divmod(n, FB)
        out.append(d)
    return out


def fxfrac(fr):
    """An exact Fraction as limbs."""
    fr = Fraction(fr)
    n = abs(fr.numerator) * SCALE // fr.denominator
    if n == 0:
        return [0]
    out = [1 if fr > 0 else -1]
    while n:
        n, d = divmod(n, FB)
        out.append(d)
    return out


def unfx(l):
    if isinstance(l, str):
        return {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf"), "none": None}[l]
    n = 0
    for d in reversed(l[1:]):
        n = n * FB + d
    return l[0] * n / SCALE


def fxv(v):
    return [fx(x) for x in v]


def fxm(m):
    return [fxv(r) for r in m]


# ---------------------------------------------------------------- TLC
def ensure_java():
    """Compile the Java overrides once per copy of /verif (git-ignored .build)."""
    src = os.path.join(SPEC, "java")
    dst = os.path.join(BUILD, "java")
    files = sorted(f for f in os.listdir(src) if f.endswith(".java"))
    ok = all(
        os.path.exists(os.path.join(dst, f[:-5] + ".class"))
        and os.path.getmtime(os.path.join(dst, f[:-5] + ".class")) >= os.path.getmtime(os.path.join(src, f))
        for f in files
    )
    if ok:
        return dst
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    r = subprocess.run(
        ["javac", "-nowarn", "-cp", ":".join(TLA_JARS), "-d", tmp] + [os.path.join(src, f) for f in files],
        capture_output=True, text=True)
    if r.returncode != 0:
        raise MachineryError("javac failed:\n" + r.stdout + r.stderr)
    os.makedirs(dst, exist_ok=True)
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(dst, f))
    os.rmdir(tmp)
    return dst


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.generated = self.distinct = 0
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        if m:
            self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1])

    @property
    def invariant_violated(self):
        m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated", self.out)
        return (m.group(1) or m.group(2)) if m else None

    def jsons(self, tag):
        """Messages printed by the spec as PrintT("TAG " \\o ToJson(value))."""
        res = []
        pre = '"%s ' % tag
        for line in self.out.splitlines():
            if line.startswith(pre):
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
        return res


def tlc(module, cfg_text, env=None, args=(), timeout=600, override=True, workers=None, heap="6g", keep=False):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    os.makedirs(BUILD, exist_ok=True)
    wd = tempfile.mkdtemp(prefix="tlc_", dir=BUILD)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(wd, f))
        with open(os.path.join(wd, module + ".cfg"), "w") as f:
            f.write(cfg_text)
        cp = ([ensure_java()] if override else []) + TLA_JARS
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + wd, "-cp", ":".join(cp), "tlc2.TLC",
               "-workers", str(workers or NCPU), "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE",
               "-config", module + ".cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=wd, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s after %ss" % (module, timeout))
        return TLCResult(r.stdout + r.stderr, r.returncode, time.time() - t0)
    finally:
        if not keep:
            shutil.rmtree(wd, ignore_errors=True)


def tlc_ok(res, what):
    """The run finished without error and without a violated invariant."""
    if res.rc != 0 or "No error has been found" not in res.out:
        tail = "\n".join(res.out.splitlines()[-60:])
        raise MachineryError("TLC failed on %s (rc=%s):\n%s" % (what, res.rc, tail))
    return res
