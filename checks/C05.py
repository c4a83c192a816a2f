import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

OPS = ["and", "or", "xor", "sum", "sub", "sym1", "sym2", "grd"]
FOPS = ["and", "or", "sum", "sym1", "sym2", "grd"]


def mat(rng, i, j, dens=None, top=1):
    d = rng.choice([0.15, 0.3, 0.5, 0.8]) if dens is None else dens
    return {"I": i, "J": j, "c": [[rng.randint(1, top) if rng.random() < d else 0 for _ in range(j)] for _ in range(i)]}


def rand_hist(rng):
    i, j = rng.randint(0, 6), rng.randint(0, 6)
    top = rng.choice([1, 1, 1, 3])
    h = [{"op": "load", "r": 0, "m": mat(rng, i, j, top=top)}, {"op": "load", "r": 1, "m": mat(rng, i, j, top=top)}]
    for _ in range(rng.randint(3, 9)):
        z = rng.random()
        r, q = rng.randrange(3), rng.randrange(3)
        if z < 0.45:
            h.append({"op": "op", "o": rng.choice(OPS), "r": r, "q": q})
        elif z < 0.6:
            same = rng.random() < 0.7
            h.append({"op": "load", "r": r, "m": mat(rng, i if same else rng.randint(0, 6), j if same else rng.randint(0, 6), top=top)})
        elif z < 0.66:
            h.append({"op": "cell", "r": r, "i": rng.randint(1, 7), "j": rng.randint(1, 7), "v": rng.randint(0, 2)})
        elif z < 0.72:  # a vector of links into a fresh matrix
            h += [{"op": "load", "r": r, "m": mat(rng, i, j, 0)}, {"op": "putvec", "r": r, "v": [rng.randint(0, i) for _ in range(j if rng.random() < 0.9 else j + 1)]}, {"op": "tovec", "r": r}]
        elif z < 0.9:
            h.append({"op": rng.choice(["flip", "transpose", "transpose", "tovec", "reset", "set", "clear", "copy", "pred", "pred"]), "r": r})
        else:
            h.append({"op": rng.choice(["assign", "equal"]), "r": r, "q": q})
    return h


def sent(rng, k=3):
    return ["abcdefg"[rng.randrange(k)] * rng.randint(1, 2) for _ in range(rng.randint(0 if rng.random() < 0.1 else 1, 5))]


def pairs(rng, skel, tr, dup):
    out = []
    for s, t in skel:
        if dup and rng.random() < 0.1:
            s = sent(rng)
        if tr:
            s, t = t, s
        out.append({"n": rng.choice([1, 1, 2, 7, 120]), "s": s, "t": t, "m": mat(rng, len(s), len(t), top=rng.choice([1, 1, 2]))})
    return out


def file_hist(rng):
    skel = [(sent(rng), sent(rng)) for _ in range(rng.randint(1, 4))]
    mode = rng.choice(["pair", "pair", "exh", "compact"])
    if rng.random() < 0.3 or mode != "pair":
        skel += [rng.choice(skel) for _ in range(2)]
    z = rng.random()
    if z < 0.25:
        return [{"op": "read", "f": pairs(rng, skel, False, False), "nonl": rng.random() < 0.2, "fmt": rng.choice(["giza", "giza", "gf", "go", "my", "myf"])}]
    gt = rng.random() < 0.3
    chain = rng.random() < 0.5
    ops = []
    for _ in range(rng.randint(1, 3) if chain else 1):
        tr = rng.random() < 0.5
        sk = list(skel)
        if mode != "pair":
            rng.shuffle(sk)
        if rng.random() < 0.1 and len(sk) > 1:
            sk = sk[:-1]
        ops.append({"o": rng.choice(FOPS), "f": pairs(rng, sk, tr, True), "tr": tr})
    return [{"op": "file", "mode": mode, "gt": gt, "chain": chain, "nonl": rng.random() < 0.15, "f": pairs(rng, skel, gt, False), "ops": ops}]


def check(c):
    G = ["nlp_common_defs"]
    ex = ["phrase_models/AlignmentExtractor.cc"]
    prog = c.build("alig_op", [os.path.join(SRC, "phrase_models/thot_alig_op.cc")], groups=G, srcs=ex + ["phrase_models/AlignmentContainer.cc"])
    b = c.build("alignment", ["alignment.cc"], groups=G, srcs=ex)
    bs = c.build("alignment_asan", ["alignment.cc"], groups=G, srcs=ex, extra=["-fsanitize=address"])
    c.model_check("alig/AlignmentMCdefs", "AlignmentMC.cfg")
    if c.thorough:
        c.model_check("alig/AlignmentMCdefs", "AlignmentMC2.cfg", timeout=1500)
    beh = c.generate("alig/AlignmentMCdefs", "AlignmentGen.cfg")
    c.rng.shuffle(beh)
    T = ("alig/AlignmentTrace", "AlignmentTrace.cfg")
    c.conformance(*T, b, beh[:40000 if c.thorough else 4000], args=[prog], label="pairs of small matrices")
    script = [rand_hist(c.rng) for _ in range(40000 if c.thorough else 3000)]
    ok = c.conformance(*T, b, script, args=[prog], label="random histories of matrix operations")
    c.conformance(*T, bs, script[:4000 if c.thorough else 400], args=[prog], label="random histories (address sanitizer)", env={"ASAN_OPTIONS": "detect_leaks=0"})
    script = [file_hist(c.rng) for _ in range(10000 if c.thorough else 800)]
    c.conformance(*T, b, script, args=[prog], label="alignment files")
    if ok:
        t, _ = c.run_harness(b, [[{"op": "load", "r": 0, "m": mat(c.rng, 2, 2, 1)}, {"op": "load", "r": 1, "m": mat(c.rng, 2, 2, 0)}, {"op": "op", "o": "or", "r": 0, "q": 1}]], args=[prog])
        t[0][2]["regs"][0]["c"][1][1] = 0
        c.must_reject(*T, t[0], "a link lost by a union")
    c.assumptions += ["positions of a link vector lie inside the matrix", "words are not the brackets of the file format"]


main("C05", check)
