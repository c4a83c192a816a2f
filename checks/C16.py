import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

FREE = 123456789


def calls(rng, n, extra):
    h = [{"op": "call", "k": k} for k in range(n + 1)]
    for _ in range(extra):  # restarts from other points, in any order
        h.insert(rng.randint(n, len(h)), {"op": "call", "k": rng.randint(0, n)})
    return h


def simplex(n, x0, scale, f, maxv, noise, rng):
    """Values a function would give: the check's own search is not needed, any list of values is a test. These come from
    sorted or converging lists, so that all moves occur late in the search, too."""
    z = rng.random()
    m = rng.randint(4, maxv)
    if z < 0.4:
        return [rng.randint(0, noise) for _ in range(m)]
    if z < 0.7:  # going down, with ups
        v, r = noise * 4, []
        for _ in range(m):
            r.append(max(0, v + rng.randint(-2, 4)))
            v = max(0, v - rng.choice([0, 0, 1, 1, 2]))
        return r
    if z < 0.85:  # mostly worse points: contractions and shrinks
        return [rng.randint(0, 3) for _ in range(n + 1)] + [rng.choice([1, 2, 3, 4, 5, 6]) for _ in range(m)]
    return [rng.randint(0, 2) for _ in range(m)]


def setup(rng, prog):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    s = {"op": "setup", "n": n, "scale": 1 if prog else rng.choice([1, 1, 2, 3]), "x0": [rng.randint(-20, 20) * 12500 for _ in range(n)],
         "p": rng.choice([1, 1, 2, 9, 60]), "q": 7, "vals": simplex(n, 0, 0, 0, 26, rng.choice([3, 10, 40]), rng)}
    if rng.random() < 0.3:
        s["loose"] = 1
    if prog:
        va = [FREE] * n
        for _ in range(rng.randint(0, 3)):
            va.insert(rng.randint(0, len(va)), rng.choice([0, 12500, -150000, 100000, 325000]))
        s["va"], s["free"], s["iv"] = va, FREE, rng.random() < 0.6
        if not s["iv"]:
            n = rng.choice([1, 2, 4, 5])
            while va.count(FREE) > n:
                va.remove(FREE)
            while va.count(FREE) < n:
                va.append(FREE)
            s["n"], s["x0"] = n, [100000 // n] * n
    return s


def rand_hist(rng):
    s = setup(rng, False)
    return [s] + calls(rng, len(s["vals"]), 8)


def prog_hist(rng):
    s = setup(rng, True)
    n = len(s["vals"])
    return [s] + [{"op": "call", "k": k} for k in range(n + 1)] + [{"op": "prog", "k": k} for k in rng.sample(range(n + 1), min(n + 1, 8))]


def check(c):
    prog = c.build("dhs", [os.path.join(SRC, "downhill_simplex/thot_dhs_step_by_step_min.cc")], groups=["nlp_common_defs"], srcs=["downhill_simplex/step_by_step_dhs.c"])
    b = c.build("simplex", ["simplex.cc"], srcs=["downhill_simplex/step_by_step_dhs.c", "nlp_common/getline.c"])
    bs = c.build("simplex_asan", ["simplex.cc"], srcs=["downhill_simplex/step_by_step_dhs.c", "nlp_common/getline.c"], extra=["-fsanitize=address"])
    args = [prog, os.path.join(REPO, "utils/downhill_simplex/thot_dhs_min.sh")]
    c.model_check("simplex/SimplexMC", "SimplexMC.cfg")
    beh = c.generate("simplex/SimplexMC", "SimplexGen.cfg")
    c.rng.shuffle(beh)
    T = ("simplex/SimplexTrace", "SimplexTrace.cfg")
    ok = c.conformance(*T, bs, beh if c.thorough else beh[:2500], args=args, label="all value sequences", env={"ASAN_OPTIONS": "detect_leaks=0"})
    rnd = [rand_hist(c.rng) for _ in range(30000 if c.thorough else 2500)]
    c.conformance(*T, b, rnd, args=args, label="random searches, restarted at any point")
    c.conformance(*T, b, [prog_hist(c.rng) for _ in range(2000 if c.thorough else 150)], args=args, label="the program")
    # searches that end, for the script
    done = []
    while len(done) < (300 if c.thorough else 20):
        hs = [prog_hist(c.rng) for _ in range(60)]
        hs = [h for h in hs if "loose" not in h[0]]
        tr, _ = c.run_harness(b, [[e for e in h if e["op"] != "prog"] for h in hs], args=args)
        for h, t in zip(hs, tr):
            end = [e["k"] for e in t if e.get("ret") == "ok"]
            if end and end[0] >= 4:
                k = end[0]
                h[0]["vals"] = h[0]["vals"][:k]
                f = sorted(c.rng.sample(range(2, k + 1), c.rng.randint(0, min(3, k - 1))))
                done.append([h[0]] + [{"op": "call", "k": j} for j in range(k + 1)] + [{"op": "script", "fail": f}])
    c.conformance(*T, b, done, args=args, label="the script, interrupted and resumed")
    if ok:
        t, _ = c.run_harness(b, [[{"op": "setup", "n": 2, "scale": 1, "x0": [0, 0], "p": 1, "q": 7, "vals": [5, 3, 4, 1, 2]}] + [{"op": "call", "k": k} for k in range(6)]], args=args)
        t[0][5]["x"][0] += 30
        c.must_reject(*T, t[0], "another point asked for")
    c.assumptions += ["between 1 and 6 variables, up to 26 recorded values", "points compared at a precision of 6e-5, restarts bit by bit"]


main("C16", check)
