import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

KINDS = {"ibm1": "IncrIbm1AligModel", "ibm2": "IncrIbm2AligModel", "hmm": "IncrHmmAligModel", "hmmp0": "IncrHmmP0AligModel",
         "sibm1": "SmoothedIncrIbm1AligModel", "sibm2": "SmoothedIncrIbm2AligModel"}


def sent(rng, n, empty=0.06):
    return [] if rng.random() < empty else [rng.randint(1, n) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5]))]


def count(rng, big=False):
    return rng.choice([4, 4, 4, 4, 8, 2, 1, 6, 40, 0, 100] + ([4000001, 4567891] if big else []))


def files(rng, f, n, big=False, bad=True):
    e = {"op": "files", "f": f, "s": [sent(rng, 4) for _ in range(n)], "t": [sent(rng, 5) for _ in range(n)]}
    if rng.random() < 0.7:
        e["c"] = [count(rng, big) for _ in range(n)]
    if rng.random() < 0.3:
        e["loose"] = 1
    if bad and n and rng.random() < 0.2:
        z = rng.random()
        if z < 0.4:
            e["t"] = e["t"][:rng.randrange(n)]
        elif z < 0.7 and "c" in e:
            e["c"] = e["c"][:rng.randrange(n)]
        else:
            e["t"] = e["t"] + [[1]] * 2
            if "c" in e:
                e["c"] = e["c"] + [9]
    return e


def okfiles(e, c):
    return len(e["t"]) >= len(e["s"]) and (not c or "c" not in e or len(e["c"]) >= len(e["s"]))


def hand_hist(rng):
    """The sentence handler: files, single pairs, access in any order, printing."""
    h, ps, fs = [{"op": "setup", "model": "ibm1"}], 0, {}
    for _ in range(rng.randint(4, 26)):
        z = rng.random()
        if z < 0.15 or not fs:
            e = files(rng, rng.choice("ab"), rng.choice([0, 1, 2, 3, 5, 8, 13]), True)
            if e["f"] in fs:
                h.append({"op": "clearinfo"})
                ps = 0
            fs[e["f"]] = e
            h.append(e)
        elif z < 0.3:
            f = rng.choice(sorted(fs))
            c = rng.random() < 0.7
            h.append({"op": "read", "f": f, "c": c})
            ps = len(fs[f]["s"]) if okfiles(fs[f], c) else 0
        elif z < 0.4:
            h.append({"op": "add", "s": sent(rng, 4), "t": sent(rng, 5), "c": count(rng, True)})
            ps += 1
        elif z < 0.5:
            f = rng.choice("abc")
            h.append({"op": "print", "f": f})
            fs[f] = {"s": [0] * ps, "t": [0] * ps, "c": [0] * ps}
        elif z < 0.54:
            h.append({"op": rng.choice(["clear", "clearinfo"])})
            ps = 0
        else:
            h.append({"op": "nth", "n": rng.randint(0, ps + 1)})
    return h


def ranges(rng, n):
    a = rng.randrange(n)
    b = rng.randint(a, n - 1)
    return (0, n - 1) if rng.random() < 0.4 else (a, b)


def train_hist(rng, kinds, long=False, disk=True):
    kind = rng.choice(kinds)
    mx = 200 if kind.startswith("hmm") else 1024
    h, ps, fs, f0 = [{"op": "setup", "model": kind}], 0, {}, {}
    if rng.random() < 0.4:
        h.append({"op": "cap", "n": rng.choice([-1, 0, 1, 2, 3])})
    if rng.random() < 0.6:
        e = files(rng, "a", rng.choice([0, 1, 2, 3, 5]), bad=False)
        h += [e, {"op": "read", "f": "a", "c": True}]
        ps = len(e["s"])

    def add():
        s, t = sent(rng, 4), sent(rng, 5)
        if long and rng.random() < 0.4:
            z = rng.choice([mx - 1, mx, mx + 1]) if mx == 200 else rng.choice([mx, mx + 1])
            if rng.random() < 0.5:
                s = [rng.randint(1, 4) for _ in range(z)]
            else:
                t = [rng.randint(1, 5) for _ in range(z)]
            if mx == 200 and rng.random() < 0.3:
                s, t = [1] * z, [2, 3]
        return {"op": "add", "s": s, "t": t, "c": count(rng)}
    for _ in range(rng.randint(3, 14)):
        z = rng.random()
        if z < 0.2 or not ps:
            h.append(add())
            ps += 1
        elif z < 0.6:
            a, b = ranges(rng, ps)
            if rng.random() < 0.2:
                h.append({"op": "all"})
            else:
                h.append({"op": "train", "a": a, "b": b})
        elif z < 0.68:
            a, b = ranges(rng, ps)
            h.append({"op": "batchall"} if rng.random() < 0.3 else {"op": "batch", "a": a, "b": b})
        elif z < 0.74:
            h.append({"op": "cap", "n": rng.choice([-1, 0, 1, 2, 3])})
        elif z < 0.79:
            h.append({"op": rng.choice(["clearinfo", "clearinfo", "clear"])})
            old = [e for e in h if e["op"] == "add"][-ps:] if ps else []
            ps = 0
            if old and rng.random() < 0.6:  # other pairs of the same lengths
                for e in old:
                    h.append({"op": "add", "s": [rng.randint(1, 4) for _ in e["s"]], "t": [rng.randint(1, 5) for _ in e["t"]], "c": count(rng)})
                ps = len(old)
                h.append({"op": "all"})
                continue
            if rng.random() < 0.3:
                h.append({"op": "all"})
        elif z < 0.86 and disk:
            f = rng.choice("mn")
            h.append({"op": "save", "f": f})
            f0[f] = ps
        elif z < 0.92 and f0:
            f = rng.choice(sorted(f0))
            h.append({"op": "load", "f": f})
            if rng.random() < 0.5:
                h[-1]["fresh"] = 1
            ps = f0[f]
        else:
            h.append({"op": "nth", "n": rng.randint(0, ps)})
    return h


def prog_hist(rng):
    kind = rng.choice(sorted(KINDS))
    n = rng.choice([0, 1, 2, 3, 4, 5, 6])
    mode = rng.choice(["batch", "eb", "incr", "inter", "mini"])
    o = {"mode": mode, "n": rng.randint(1, 3), "mb": rng.randint(1, n + 1), "r": rng.randint(1, 4) if mode == "inter" else -1,
         "c": rng.random() < (0.08 if mode in ("eb", "mini") else 0.4), "l": rng.random() < 0.3}
    if mode == "incr" and rng.random() < 0.5 or rng.random() < 0.08:
        o["r"] = rng.randint(1, 4)
    if o["l"] and rng.random() < 0.8:
        o["c"] = False
    if rng.random() < 0.2:
        o["nl"] = 1
    if o["l"]:
        h = train_hist(rng, [kind], disk=False) + [{"op": "save", "f": "a"}]
        n = 0
    else:
        h = [{"op": "setup", "model": kind}, files(rng, "a", n, bad=False)]
    h.append({"op": "prog", "f": "a", "o": o})
    if n and not (o["mode"] in ("eb", "mini") and (o["c"] or o["r"] >= 0)) and not (o["r"] >= 0 and o["mode"] not in ("incr", "inter")):
        h += [{"op": "nth", "n": rng.randrange(n)}, {"op": "all"}]
    return h


def check(c):
    G = ["nlp_common_defs", "sw_models_defs", "leveldb_sw_defs"]
    b = c.build("sent", ["sent.cc"], groups=G, srcs=["sw_models/CachedHmmAligLgProb.cc"], main_ini="master.ini")
    prog = c.build("gen_sw", [os.path.join(SRC, "sw_models/thot_gen_sw_model.cc")], groups=G, srcs=["sw_models/CachedHmmAligLgProb.cc"], main_ini="master.ini")
    so = c.build("sentfac.so", ["sentfac.cc"], groups=G, srcs=["sw_models/CachedHmmAligLgProb.cc"], main_ini="master.ini", shared=True)
    for w in ("read", "train", "sched"):
        c.model_check("sent/SentMC", "SentMC_%s.cfg" % w)
    T = ("sent/SentTrace", "SentTrace.cfg")
    args = [prog, so]
    for w in ("read", "train"):
        beh = c.generate("sent/SentMC", "SentGen_%s.cfg" % w)
        c.rng.shuffle(beh)
        beh = beh if c.thorough else beh[:2000]
        for k, x in enumerate(beh):
            x[0]["model"] = sorted(KINDS)[k % 6]
        ok = c.conformance(*T, b, beh, args=args, label="all orders of access" if w == "read" else "all training histories")
    q = c.thorough
    c.conformance(*T, b, [hand_hist(c.rng) for _ in range(30000 if q else 2500)], args=args, label="sentence pairs")
    c.conformance(*T, b, [train_hist(c.rng, sorted(KINDS)) for _ in range(20000 if q else 1500)], args=args, label="training")
    c.conformance(*T, b, [train_hist(c.rng, ["hmm", "hmmp0"], True) for _ in range(200 if q else 16)], args=args, label="long sentences (HMM)")
    c.conformance(*T, b, [train_hist(c.rng, ["ibm1", "ibm2"], True) for _ in range(200 if q else 16)], args=args, label="long sentences (IBM)")
    c.conformance(*T, b, [prog_hist(c.rng) for _ in range(2000 if q else 200)], args=args, label="the program")
    if ok:
        t, _ = c.run_harness(b, [[{"op": "setup", "model": "ibm1"}, {"op": "add", "s": [1], "t": [2, 3], "c": 4}, {"op": "all"}, {"op": "nth", "n": 0}]], args=args)
        x = json.loads(json.dumps(t[0]))
        x[2]["lex"][0][1] *= 2
        c.must_reject(*T, x, "a pair counted twice")
        x = json.loads(json.dumps(t[0]))
        x[3]["pair"]["c"] = 8
        c.must_reject(*T, x, "another count")


main("C18", check)
