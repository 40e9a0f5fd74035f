"""Equivalence of the Java accelerators with the TLA+ definitions of Fx.tla."""
import json, os, random, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

def cases(rng, k):
    def num(nz=False):
        m = rng.choice([0, 0, 1, 2, 3])
        x = {0: rng.uniform(-2, 2), 1: rng.uniform(-1e-4, 1e-4), 2: rng.uniform(-3e3, 3e3), 3: float(rng.randint(-5, 5))}[m]
        return x if x or not nz else 1.0
    for _ in range(k):
        n = rng.randint(2, 4)
        v = lambda: [core.fx(num()) for _ in range(n)]
        M = [v() for _ in range(n)]
        if rng.random() < .2:
            M[-1] = list(M[0])
        yield {"a": core.fx(num()), "b": core.fx(num(True)), "e": core.fx(rng.choice([0, rng.uniform(-9, 9), rng.uniform(-.1, .1)])), "p": rng.randint(-9999999, 9999999), "q": rng.randint(1, 9999999) * rng.choice([1, -1]),
               "u": v(), "v": v(), "M": M, "M2": [v() for _ in range(n)]}

def main(seed=1, k=10):
    rng = random.Random(seed)
    with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
        for c in cases(rng, k):
            f.write(json.dumps(c) + "\n")
    try:
        outs = []
        for ov in (True, False):
            r = core.tlc_ok(core.tlc("FxTest", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", env={"IN_FILE": f.name}, override=ov, workers=1), "FxTest")
            outs.append([l for l in r.out.splitlines() if l.startswith('"FX ')])
            print("override" if ov else "pure", len(outs[-1]), "%.1fs" % r.wall)
    finally:
        os.unlink(f.name)
    bad = [i for i, (x, y) in enumerate(zip(*outs)) if x != y]
    if bad or len(outs[0]) != len(outs[1]) or len(outs[0]) != k:
        print("MISMATCH", bad, [len(o) for o in outs])
        if bad:
            print(outs[0][bad[0]][:3000]); print(outs[1][bad[0]][:3000])
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main(*(int(x) for x in sys.argv[1:])))
