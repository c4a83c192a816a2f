import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def word(rng, n=4, k=3):
    return [97 + rng.randrange(k) for _ in range(rng.randint(1, n))]


def graph(rng):
    ns = rng.randint(1, 6)
    voc = [word(rng) for _ in range(rng.randint(2, 7))]
    arcs = []
    for s in range(1, ns + 1):   # every state is reached; arcs in the order of their target, sources come first
        for p in sorted(rng.sample(range(s), min(s, rng.choice([1, 1, 2, 3])))):
            for _ in range(rng.choice([1, 1, 1, 2])):
                arcs.append({"p": p, "s": s, "w": [rng.choice(voc) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))], "sc": -rng.randint(1, 4000)})
    out = {a["p"] for a in arcs}
    fin = [s for s in range(1, ns + 1) if s not in out]
    h, i, s, d = (0, 1, 1, 1) if rng.random() < 0.3 else (rng.randint(0, 3), rng.randint(1, 12), rng.randint(1, 12), rng.randint(1, 12))
    return {"op": "graph", "arcs": arcs, "fin": fin, "init": rng.choice([0, 0, -rng.randint(1, 50)]), "h": h, "i": i, "s": s, "d": d,
            "wgw": rng.choice([1, 1, 1, 2, 0]), "ecw": rng.choice([1, 100, 1000, 3001])}, voc


def ptext(rng, g, voc):
    out, s = [], 0
    while True:
        a = [x for x in g["arcs"] if x["p"] == s]
        if not a:
            break
        x = rng.choice(a)
        out += x["w"]
        s = x["s"]
    ws = []
    for w in out[:rng.randint(0, 5)]:
        if rng.random() < 0.1:
            continue
        ws.append(rng.choice(voc) if rng.random() < 0.1 else word(rng) if rng.random() < 0.15 else w)
    t = []
    for w in ws:
        t += w + [32]
    if t and rng.random() < 0.6:
        t = t[:-1]
    return t


def rand_hist(rng):
    h = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        g, voc = graph(rng)
        h.append(g)
        p = ptext(rng, g, voc)[:rng.choice([0, 0, 1, 2, 30])]
        for _ in range(rng.randint(2, 9)):
            rej = []
            if rng.random() < 0.15:
                for _ in range(rng.randint(1, 2)):
                    w = rng.choice(voc)
                    k = rng.choice([0, 0, 1])
                    rej.append([w[:k], w[k:]])
            h.append({"op": "cor", "p": p, "n": rng.choice([1, 1, 1, 2, 3, 50]), "rej": rej})
            z = rng.random()
            if z < 0.55:     # go on typing
                q = ptext(rng, g, voc)
                p = p + q[:rng.randint(1, 4)] if rng.random() < 0.3 else q if q[:len(p)] == p else p + [rng.choice([97, 98, 99, 32])]
            elif z < 0.8:    # delete
                p = p[:rng.randint(0, len(p))]
            elif z < 0.9:    # edit inside
                if p:
                    k = rng.randrange(len(p))
                    p = p[:k] + [rng.choice([97, 98, 32])] * rng.randint(0, 1) + p[k + 1:]
            else:
                p = ptext(rng, g, voc)
            while len([1 for x in "".join(map(chr, p)).split(" ") if x]) > 6:
                p = p[:-3]
    return h


def check(c):
    b = c.build("anlp", ["anlp.cc"], groups=["nlp_common_defs", "error_correction_defs"])
    bs = c.build("anlp_asan", ["anlp.cc"], groups=["nlp_common_defs", "error_correction_defs"], extra=["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"])
    c.model_check("cat/AnlpMCdefs", "AnlpMC.cfg")
    beh = c.generate("cat/AnlpMCdefs", "AnlpGen.cfg")
    c.rng.shuffle(beh)
    c.conformance("cat/AnlpTrace", "AnlpTrace.cfg", b, beh[:6000 if c.thorough else 600], label="model-generated prefix edits")
    script = [rand_hist(c.rng) for _ in range(30000 if c.thorough else 1500)]
    ok = c.conformance("cat/AnlpTrace", "AnlpTrace.cfg", b, script, label="random graphs and prefix edits")
    c.conformance("cat/AnlpTrace", "AnlpTrace.cfg", bs, script[:3000 if c.thorough else 250], label="random graphs and prefix edits (address sanitizer)")
    if ok:
        t, _ = c.run_harness(b, [beh[0]])
        i = max(k for k, e in enumerate(t[0]) if e["op"] == "cor")
        t[0][i]["res"][0][0] += 1
        c.must_reject("cat/AnlpTrace", "AnlpTrace.cfg", t[0], "a suggestion's score changed")
    c.assumptions += ["integer scores and costs", "arcs in topological order, every state reached, final states without successors"]


main("C11", check)
