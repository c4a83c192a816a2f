import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def queries(rng, ns, narcs, ncomp, full=True):
    """Every query with some arguments."""
    o = [{"op": "dump"}, {"op": "best", "idx": 0, "ex": [], "alt": []}, {"op": "nbest", "len": rng.choice([1, 2, 3, 5, 1000])}, {"op": "nbest", "len": 1000},
         {"op": "scores", "idx": 0}]
    for _ in range(3):
        o.append({"op": "best", "idx": rng.randrange(ns), "ex": sorted(rng.sample(range(narcs), rng.randint(0, min(3, narcs)))),
                  "alt": [rng.randint(-2, 2) for _ in range(ncomp)] if rng.random() < 0.4 else []})
    o.append({"op": "scores", "idx": rng.randrange(ns)})
    return o


def rand_graph(rng, nst, narc, ncomp, loaded=False):
    """Arc list (topologically ordered) over states numbered arbitrarily, and the final states (sinks)."""
    order = [0] + rng.sample(range(1, nst), nst - 1)  # topological order of the states
    sinks = set(order[rng.randint(max(1, nst - 3), nst - 1):])
    pairs = []
    reach = [0]
    for s in order[1:]:
        preds = [p for p in reach if p not in sinks]
        pairs.append((rng.choice(preds), s))
        reach.append(s)
    pos = {s: i for i, s in enumerate(order)}
    for _ in range(narc - len(pairs)):
        p = rng.choice([x for x in order if x not in sinks])
        s = rng.choice(order[pos[p] + 1:])
        pairs.append((p, s))
    pairs.sort(key=lambda x: (pos[x[0]], rng.random()))
    # any topological order of the arcs
    rem, out, done = list(pairs), [], []
    while rem:
        ok = [a for a in rem if not any(b[1] == a[0] for b in rem)]
        a = rng.choice(ok)
        rem.remove(a)
        out.append(a)
    vocab = ["a", "b", "c", "d", "ñ", "x1"]
    arcs = []
    lo, hi = rng.choice([(-9, 0), (-3, 3), (-1, 0), (-20, 5)])
    for p, s in out:
        c = [rng.randint(-4, 4) for _ in range(ncomp)]
        arcs.append({"p": p, "s": s, "w": [rng.choice(vocab) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))],
                     "sc": rng.randint(lo, hi), "c": c})
    fin = [s for s in sinks if rng.random() < 0.8] or [sorted(sinks)[0]]
    return arcs, fin


def npaths(arcs, fin):
    cnt = {0: 1}
    for a in arcs:
        cnt[a["s"]] = cnt.get(a["s"], 0) + cnt.get(a["p"], 0)
    return sum(cnt.get(f, 0) for f in fin)


def rand_hist(rng):
    ncomp = rng.choice([0, 2, 3])
    nst = rng.randint(2, 9)
    while True:
        arcs, fin = rand_graph(rng, nst, rng.randint(nst - 1, nst + rng.choice([2, 4, 8])), ncomp)
        if npaths(arcs, fin) <= 40:
            break
    h = []
    mode = rng.random()
    if mode < 0.3:
        raw = list(arcs)
        if rng.random() < 0.7:
            rng.shuffle(raw)
        h.append({"op": "loadraw", "arcs_in": raw, "fin": sorted(fin), "wts": [rng.randint(-2, 2) for _ in range(ncomp)]})
        h.append({"op": "topo"})
    else:
        for a in arcs:
            h.append(dict(a, op="arc"))
            if rng.random() < 0.1:
                h.append({"op": "dump"})
            if a["s"] in fin:
                h.append({"op": "final", "s": a["s"]})
    if rng.random() < 0.6:
        h.append({"op": "init", "v": rng.randint(-9, 4)})
    n = len(arcs)
    h += queries(rng, nst, n, ncomp)
    pruned, small = False, False
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(["prune", "prune", "topo", "useful", "saveload", "setw", "init"])
        if k == "prune":
            v = -1 if pruned else rng.choice([-1, -2, 0, 0, 1, 3, 5, 7, 11])
            pruned = v != -1
            h.append({"op": "prune", "k": v})
        elif k == "topo":
            h.append({"op": k})
        elif k == "useful":
            h.append({"op": k}); pruned = False; small = True
        elif k == "saveload":
            h.append({"op": k, "u": rng.random() < 0.5, "fresh": rng.random() < 0.5}); pruned = False; small = True
        elif k == "setw" and ncomp:
            h.append({"op": k, "wts": [rng.randint(-2, 2) for _ in range(ncomp)]})
        elif k == "init":
            h.append({"op": k, "v": rng.randint(-9, 4)})
        if small:
            h += [{"op": "dump"}, {"op": "best", "idx": 0, "ex": [], "alt": []}, {"op": "nbest", "len": rng.choice([1, 2, 4, 1000])}]
        else:
            h += queries(rng, nst, n, ncomp)
    return h


def check(c):
    b = c.build("wg", ["wordgraph.cc"], srcs=["error_correction/WordGraph.cc", "error_correction/NbSearchStack.cc"], groups=["nlp_common_defs"])
    c.model_check("wg/WordGraphMC", "WordGraphMC.cfg" if c.thorough else "WordGraphMCq.cfg")
    beh = c.generate("wg/WordGraphMC", "WordGraphGen.cfg" if c.thorough else "WordGraphGenq.cfg")
    c.rng.shuffle(beh)
    obs = [{"op": "dump"}, {"op": "best", "idx": 0, "ex": [], "alt": []}, {"op": "nbest", "len": 1}, {"op": "nbest", "len": 9}, {"op": "scores", "idx": 0}]
    script = [x + obs for x in beh[:30000 if c.thorough else 2500]]
    args = [os.path.join(c.work, "wg")]
    c.conformance("wg/WordGraphTrace", "WordGraphTrace.cfg", b, script, args=args, label="model-generated histories")
    script = [[{"op": "dump"}, {"op": "nbest", "len": 3}]] + [rand_hist(c.rng) for _ in range(9000 if c.thorough else 1000)]
    ok = c.conformance("wg/WordGraphTrace", "WordGraphTrace.cfg", b, script, args=args, label="random histories")
    if ok:
        t, _ = c.run_harness(b, [script[1]], args=args)
        i = max(k for k, e in enumerate(t[0]) if e["op"] == "best" and e["idx"] == 0)
        t[0][i]["sc"] += 1
        c.must_reject("wg/WordGraphTrace", "WordGraphTrace.cfg", t[0], "best path score off by one")
    c.assumptions += ["integer arc scores", "acyclic graphs whose final states have no outgoing arcs and whose states are all reachable from the initial state",
                      "either all arcs carry score components or none does"]


main("C10", check)
