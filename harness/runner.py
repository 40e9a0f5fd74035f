"""Checks one property: design model checking, behaviours, replay, conformance."""
import collections
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import random
import re
import shutil
import tempfile
import time

import checks
import core
from core import MachineryError

CHUNK = 1500
CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"


# ------------------------------------------------------------------ findings
def findings():
    known = {}
    path = os.path.join(core.VERIF, "known-findings.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) finding=(\S+) (.*)", line)
        if m:
            known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


# ------------------------------------------------------------------ design
def run_design(d):
    """One exhaustive TLC run of a design specification; must find no error."""
    module, consts, invs = d[0], d[1], d[2]
    opts = d[3] if len(d) > 3 else {}
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
    if consts:
        cfg += "CONSTANTS " + " ".join("%s = %s" % kv for kv in consts.items()) + "\n"
    cfg += "".join("INVARIANT %s\n" % i for i in invs)
    r = core.tlc(module, cfg, timeout=opts.get("timeout", 800), env=opts.get("env"))
    want = opts.get("expect")
    if want:   # a deliberately defective design: the invariants must notice
        if r.invariant_violated is None:
            raise MachineryError("%s %s: the planted design defect was not noticed\n%s" % (module, consts, r.out[-1500:]))
    else:
        core.tlc_ok(r, "%s %s" % (module, consts))
    return {"module": module, "constants": consts, "invariants": invs, "states": r.distinct,
            "transitions": r.generated, "expected_violation": want or None, "wall_s": round(r.wall, 1)}


# ------------------------------------------------------------------ behaviours
def behaviours(suite, focus, num, seed):
    """Symbolic behaviours printed by the generator specification."""
    s = checks.SUITES[suite]
    env = {"GEN_FOCUS": focus}
    if s.get("exhaustive"):    # every behaviour of the generator, each replayed several times
        r = core.tlc(s["gen"], CFG, env=env, workers=1)
        core.tlc_ok(r, s["gen"])
        b = sorted(r.jsons("BEH"), key=lambda x: json.dumps(x, sort_keys=True))
        if not b:
            raise MachineryError("no behaviours from %s" % s["gen"])
        rng = random.Random("%s/%s/%d" % (suite, focus, seed))
        out = []
        while len(out) < num:
            c = list(b)
            rng.shuffle(c)
            out += c
        return out[:num], len(b)
    r = core.tlc(s["gen"], CFG, env=env, workers=1,
                 args=["-simulate", "num=%d" % num, "-depth", str(s.get("depth", 60)), "-seed", str(seed)])
    b = r.jsons("BEH")
    if r.rc != 0 or len(b) < num * 0.9:
        raise MachineryError("generator %s gave %d of %d behaviours\n%s" % (s["gen"], len(b), num, r.out[-2000:]))
    b = s.get("pinned", {}).get(focus, []) + b
    return b, None


def _init(mod):
    importlib.import_module(mod)


def _one(job):
    mod, beh, seed = job
    return importlib.import_module(mod).run_one((beh, seed))


def drive(suite, behs, seeds):
    mod = checks.SUITES[suite]["drv"]
    jobs = [(mod, b, s) for b, s in zip(behs, seeds)]
    ctx = multiprocessing.get_context("spawn")
    with cf.ProcessPoolExecutor(core.NCPU, mp_context=ctx, initializer=_init, initargs=(mod,)) as ex:
        return list(ex.map(_one, jobs, chunksize=max(1, min(16, len(jobs) // 32))))


# ------------------------------------------------------------------ conformance
def conform(suite, traces):
    """Judge histories against the trace specification: list of verdicts per history."""
    s = checks.SUITES[suite]
    verd = [[None] * len(t["ev"]) for t in traces]
    states = trans = 0
    os.makedirs(core.BUILD, exist_ok=True)
    for base in range(0, len(traces), CHUNK):
        part = traces[base:base + CHUNK]
        fd, path = tempfile.mkstemp(prefix="tr_", suffix=".ndjson", dir=core.BUILD)
        try:
            with os.fdopen(fd, "w") as f:
                for t in part:
                    f.write(json.dumps(t) + "\n")
            r = core.tlc(s["trace"], CFG, env={"TR_FILE": path}, timeout=850)
            core.tlc_ok(r, s["trace"])
        finally:
            os.unlink(path)
        want = sum(len(t["ev"]) + 1 for t in part)
        evs = r.jsons("EV")
        if r.distinct != want:
            raise MachineryError("%s consumed %d of %d states" % (s["trace"], r.distinct, want))
        for e in evs:
            verd[base + e["tr"] - 1][e["l"] - 1] = e
        states += r.distinct
        trans += r.generated
    missing = sum(1 for v in verd for x in v if x is None)
    if missing:
        raise MachineryError("%d events without a verdict" % missing)
    return verd, states, trans


def summarise(e):
    """An event short enough for the evidence file."""
    out = {}
    for k, v in e.items():
        s = json.dumps(v)
        out[k] = v if len(s) < 200 else s[:160] + "..."
    return out


# ------------------------------------------------------------------ the check
def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = checks.CHECKS[pid]
    core.ensure_java()
    known = findings()
    cov = {"design": [], "suites": [], "samples": []}
    states = trans = ntr = 0
    viol, kfs = [], collections.Counter()
    for d in c.get("design", []) + (c.get("design_thorough", []) if tier == "thorough" else []):
        info = run_design(d)
        cov["design"].append(info)
        states += info["states"]
        trans += info["transitions"]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for suite, focus, nq, nt in c["runs"]:
        num = max(8, int((nq if tier == "quick" else nt) * scale))
        rounds = [(seed, num)] if num <= 6000 else [(seed + 1000 * k, 6000) for k in range((num + 5999) // 6000)]
        scov = {"suite": suite, "focus": focus, "histories": 0, "events": 0, "ops": collections.Counter(),
                "relevant": collections.Counter(), "optima_compared": 0, "probes": 0}
        for sd, k in rounds:
            behs, space = behaviours(suite, focus, k, sd)
            rng = random.Random("%s/%s/%d" % (suite, focus, sd))
            seeds = [rng.randrange(10**9) for _ in behs]
            traces = drive(suite, behs, seeds)
            verd, st, tn = conform(suite, traces)
            states += st
            trans += tn
            ntr += len(traces)
            scov["histories"] += len(traces)
            scov["behaviours_enumerated"] = space
            for t, vs, b, s in zip(traces, verd, behs, seeds):
                for e, v in zip(t["ev"], vs):
                    scov["events"] += 1
                    scov["ops"]["%s:%s" % (v["op"], v["out"])] += 1
                    if v["info"].get("n"):
                        scov["optima_compared"] += 1
                        scov["probes"] += v["info"]["n"]
                    for bad in v["bad"]:
                        if pid not in bad["p"]:
                            continue
                        if bad["kf"] and (pid, bad["kf"]) in known:
                            kfs[bad["kf"]] += 1
                            continue
                        viol.append({"property": pid, "clause": bad["c"], "suite": suite, "focus": focus, "behaviour": b,
                                     "seed": s, "event": v["l"], "history": t["ev"][:v["l"]], "verdicts": [x["bad"] for x in vs]})
            if len(cov["samples"]) < 4:
                for t in traces[:2]:
                    cov["samples"].append({"suite": suite, "history": [summarise(e) for e in t["ev"]][:4]})
        scov["ops"] = dict(sorted(scov["ops"].items()))
        scov.pop("relevant")
        cov["suites"].append(scov)
    cov.update(states=states, transitions=trans, traces_validated_against_impl=ntr)
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": c.get("assumptions", []) + checks.ASSUMPTIONS, "wall_s": round(wall, 1), "violations": len(viol),
          "known_findings": dict(kfs)}
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rd = os.path.join(core.BUILD, "replays")
    os.makedirs(rd, exist_ok=True)
    for k, n in sorted(kfs.items()):
        print("KNOWN-FINDING: property=%s %s (%d events) %s" % (pid, k, n, known[(pid, k)]))
    by = collections.OrderedDict()
    for v in viol:
        by.setdefault(v["clause"], []).append(v)
    for i, (cl, vs) in enumerate(by.items()):
        v = min(vs, key=lambda x: len(x["history"]))
        path = os.path.join(rd, "%s-%d-%d.json" % (pid, seed, i))
        with open(path, "w") as f:
            json.dump(v, f)
        print("%d x %s" % (len(vs), cl))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%s %s seed=%d: %d histories, %d states, %d violations, %.1fs" % (pid, tier, seed, ntr, states, len(viol), wall))
    return 1 if viol else 0


def replay(path):
    v = json.load(open(path))
    core.ensure_java()
    tr = drive(v["suite"], [v["behaviour"]], [v["seed"]])
    verd, _, _ = conform(v["suite"], tr)
    bad = 0
    for e, x in zip(tr[0]["ev"], verd[0]):
        print(json.dumps(summarise(e)))
        for b in x["bad"]:
            print("   BROKEN:", b["c"], b["p"], b["kf"])
            bad += v["property"] in b["p"] and not b["kf"]
    if bad:
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
    return 1 if bad else 0
