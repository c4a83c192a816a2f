import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def word(rng, n=6, k=3):
    return [97 + rng.randrange(k) for _ in range(rng.randint(1, n))]


def mutate(rng, ws):
    r = []
    for w in ws:
        z = rng.random()
        if z < 0.15:
            continue
        if z < 0.3:
            r.append(word(rng))
        if z < 0.6:
            w = list(w)
            k = rng.randrange(len(w))
            w[k:k + rng.randint(0, 1)] = [97 + rng.randrange(3)] * rng.randint(0, 2)
        if w:
            r.append(list(w))
    return r


def costs(rng):
    if rng.random() < 0.3:
        return {"op": "costs", "h": 0, "i": 1, "s": 1, "d": 1}
    return {"op": "costs", "h": rng.randint(0, 6), "i": rng.randint(1, 30), "s": rng.randint(1, 30), "d": rng.randint(1, 30)}


def rand_hist(rng):
    h = [costs(rng)]
    for _ in range(3):
        z = rng.random()
        if z < 0.3:
            h.append({"op": "chr", "x": word(rng, 9, 2) if rng.random() < 0.95 else [], "y": word(rng, 9, 2) if rng.random() < 0.95 else []})
        elif z < 0.6:
            x = [word(rng) for _ in range(rng.randint(0, 6))]
            y = mutate(rng, x)[:rng.randint(0, 6)]
            fin = not y or rng.random() < 0.5
            if not fin and rng.random() < 0.6:
                y[-1] = y[-1][:rng.randint(1, len(y[-1]))]
            h.append({"op": "wrd", "x": x, "y": y, "fin": fin})
        elif z < 0.93:
            x = [word(rng, 4) for _ in range(rng.randint(0, 4))]
            h.append({"op": "words", "x": x})
            n, fin = 0, True
            for _ in range(rng.randint(1, 6)):
                if fin and rng.random() < 0.7:
                    y = (mutate(rng, x) or [word(rng)])[:rng.randint(1, 3)]
                    fin = rng.random() < 0.6
                    n += len(y)
                    h.append({"op": "feed", "y": y, "fin": fin})
                elif n:
                    k = rng.randint(1, n)
                    n -= k
                    fin = True
                    h.append({"op": "drop", "n": k})
        else:
            w = [rng.choice([1, 2, 26, 128, 200]), rng.randint(1, 999), rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 5)]
            if rng.random() < 0.4:
                w = rng.choice([w[:4], [0] + w[1:], w[:1] + [1000] + w[2:], w[:1] + [1200] + w[2:], w[:2] + [0] + w[3:], w[:3] + [-1] + w[4:], w[:4] + [0], w + [1]])
            h.append({"op": "wts", "w": w})
    return h


def check(c):
    b = c.build("editdist", ["editdist.cc"], groups=["nlp_common_defs", "error_correction_defs"])
    bs = c.build("editdist_asan", ["editdist.cc"], groups=["nlp_common_defs", "error_correction_defs"], extra=["-fsanitize=address"])
    script = []
    for cfg in ("EditDistChr.cfg", "EditDistWrd.cfg", "EditDistAuto.cfg"):
        beh = c.generate("cat/EditDistMCdefs", cfg)
        c.rng.shuffle(beh)
        script += beh[:40000 if c.thorough else 1500]
    ok = c.conformance("cat/EditDistTrace", "EditDistTrace.cfg", b, script, label="model-generated inputs and histories")
    script = [rand_hist(c.rng) for _ in range(40000 if c.thorough else 2500)]
    ok = c.conformance("cat/EditDistTrace", "EditDistTrace.cfg", b, script, label="random inputs and histories") and ok
    c.conformance("cat/EditDistTrace", "EditDistTrace.cfg", bs, script[:3000 if c.thorough else 300], label="random inputs (address sanitizer)")
    if ok:
        t, _ = c.run_harness(b, [[{"op": "costs", "h": 0, "i": 1, "s": 1, "d": 1}, {"op": "chr", "x": [97, 98], "y": [98, 98, 97]}]])
        t[0][1]["po"] = t[0][1]["po"][:-1]
        c.must_reject("cat/EditDistTrace", "EditDistTrace.cfg", t[0], "an edit operation missing")
    c.assumptions += ["integer operation costs, positive for insertions, deletions and substitutions", "words are not empty"]


main("C15", check)
