import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def links(rng, i, j, top=1):
    """Alignments near a diagonal or a reordering, with unlinked words on both sides."""
    c = [[0] * j for _ in range(i)]
    z = rng.random()
    if z < 0.3:
        d = rng.choice([0.1, 0.2, 0.35])
        c = [[1 if rng.random() < d else 0 for _ in range(j)] for _ in range(i)]
    else:
        perm = list(range(max(i, j)))
        if z < 0.65:
            for _ in range(rng.randint(0, 3)):
                a = rng.randrange(len(perm))
                b = min(len(perm) - 1, a + rng.randint(1, 2))
                perm[a], perm[b] = perm[b], perm[a]
        elif z < 0.8:
            rng.shuffle(perm)
        for a in range(i):
            if rng.random() < 0.75 and perm[a] < j:
                c[a][perm[a]] = 1
        for _ in range(rng.randint(0, 2)):
            if i and j:
                c[rng.randrange(i)][rng.randrange(j)] = 1
    if top > 1:
        c = [[v * rng.randint(1, top) for v in r] for r in c]
    return {"I": i, "J": j, "c": c}


def pars(rng, prog=False):
    p = {"mono": rng.random() < 0.25, "max": rng.choice([1, 2, 3, 4, 7, 101]), "cons": rng.random() < 0.3, "spur": rng.random() < 0.75}
    if prog:
        p["cons"], p["spur"] = False, True
    return p


def sent(rng, n):
    return [rng.choice(["a", "b", "c", "d"]) if rng.random() < 0.85 else rng.choice(["<number>", "<digit>", "<alfanum>"]) for _ in range(n)]


def pair(rng, p, brf, n=5):
    i, j = rng.randint(1, n), rng.randint(1, n)
    s, t = sent(rng, i), sent(rng, j)
    m = links(rng, i, j)
    if rng.random() < 0.5:  # linked placeholders on both sides
        for a in range(i):
            for b in range(j):
                if m["c"][a][b] and rng.random() < 0.3:
                    s[a] = t[b] = rng.choice(["<number>", "<digit>"])
    return {"s": s, "t": t, "m": m, "n": rng.randint(1, 4), "p": p, "brf": brf}


def big(rng, i, j):
    return {"I": i, "J": j, "c": [[1 if a == b else 0 for b in range(j)] for a in range(i)]}


def rand_hist(rng):
    z = rng.random()
    if z < 0.55:
        h = []
        for _ in range(3):
            i, j = rng.randint(1, 7), rng.randint(1, 7)
            h.append({"op": "extract", "m": links(rng, i, j, rng.choice([1, 1, 1, 3])), "p": pars(rng)})
            if rng.random() < 0.5:
                i, j = rng.randint(1, 5), rng.randint(1, 5)
                h.append({"op": "brf", "m": links(rng, i, j), "p": pars(rng)})
        return h
    if z < 0.85:
        h = []
        for _ in range(rng.randint(2, 5)):
            y = rng.random()
            if y < 0.6:
                h.append(dict(pair(rng, pars(rng), rng.random() < 0.35), op="train"))
            elif y < 0.75:
                p, brf = pars(rng), rng.random() < 0.35
                h.append({"op": "file", "gen": rng.random() < 0.5, "f": [pair(rng, p, brf) for _ in range(rng.randint(1, 3))]})
            else:
                h.append({"op": rng.choice(["reload", "reload", "table", "clear"])})
        return h
    p, brf = pars(rng, True), rng.random() < 0.4
    return [{"op": "prog", "f": [pair(rng, p, brf) for _ in range(rng.randint(1, 4))]}]


def check(c):
    G, S = ["nlp_common_defs", "phrase_models_defs"], ["phrase_models/HatTriePhraseTable.cc"]
    prog = c.build("gen_phr", [os.path.join(SRC, "phrase_models/thot_gen_phr_model.cc")], groups=G + ["sw_models_defs", "incr_models_defs"], srcs=S)
    b = c.build("extract", ["extract.cc"], groups=G, srcs=S)
    c.model_check("extract/ExtractMCdefs", "ExtractMC.cfg")
    if c.thorough:
        c.model_check("extract/ExtractMCdefs", "ExtractMC2.cfg", timeout=1500)
    beh = c.generate("extract/ExtractMCdefs", "ExtractGen.cfg")
    c.rng.shuffle(beh)
    T = ("extract/ExtractTrace", "ExtractTrace.cfg")
    ok = c.conformance(*T, b, beh[:20000 if c.thorough else 2000], args=[prog], label="small alignments with all limits")
    P = {"mono": False, "max": 1, "cons": True, "spur": True}
    script = [rand_hist(c.rng) for _ in range(20000 if c.thorough else 1500)]
    script += [[{"op": "extract", "m": big(c.rng, i, j), "p": P}] for i, j in ((100, 100), (100, 101), (101, 100), (102, 3))]
    c.conformance(*T, b, script, args=[prog], label="random alignments, models and files")
    if ok:
        t, _ = c.run_harness(b, [[{"op": "extract", "m": big(c.rng, 2, 2), "p": P}]], args=[prog])
        t[0][0]["out"] = t[0][0]["out"][:-1]
        c.must_reject(*T, t[0], "an extracted pair missing")
    c.assumptions += ["sentence pairs of up to 7 words for extraction and 5 for segmentations", "segmentation-based weights agree up to float rounding", "sentences of 101 or more words are left out"]


main("C06", check)
