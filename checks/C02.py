import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

WORDS = ["a", "b", "c", "dd", "1", "01"]


def sent(rng, empty=0.12, words=WORDS[:4]):
    if rng.random() < empty:
        return []
    s = [rng.choice(words) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6]))]
    return s * rng.choice([2, 2, 3]) if rng.random() < 0.15 else s


def sents(rng, n, **k):
    return [sent(rng, **k) for _ in range(n)]


def weights(rng, order=None):
    order = order or rng.choice([1, 2, 3, 3, 4])
    nb = rng.choice([1, 1, 2, 3])
    return {"order": order, "nb": nb, "bs": rng.choice([1, 2, 10]), "w": [rng.choice([500, 500, 100, 250, 333, 900, 725] + ([0, 1000] if rng.random() < 0.1 else [])) for _ in range(order * nb)]}


def grams(ss, n):
    """n-gram counts of a corpus, only used to write n-gram files."""
    c = {}
    for s in ss:
        p = ["<s>"] + s + ["</s>"]
        for i in range(len(p)):
            for k in range(1, n + 1):
                if i + k <= len(p):
                    c[tuple(p[i:i + k])] = c.get(tuple(p[i:i + k]), 0) + 1
    return c


def lines(rng, ss, n, mult=4):
    c = grams(ss, n)
    tot = sum(v for g, v in c.items() if len(g) == 1)
    r = [[list(g), (tot if len(g) == 1 else c[g[:-1]]) * mult, v * mult] for g, v in c.items()]
    rng.shuffle(r)
    return r


def gram(rng, known):
    z = rng.random()
    if z < 0.1:
        return []
    s = ["<s>"] + (rng.choice(known) if known and rng.random() < 0.8 else sent(rng, words=WORDS)) + ["</s>"]
    a = rng.randrange(len(s))
    return s[a:a + rng.randint(1, 4)]


def looks(rng, o, known, k=2):
    r = []
    for _ in range(k):
        z = rng.random()
        if z < 0.3:
            r.append({"op": "cnt", "o": o, "g": gram(rng, known)})
        elif z < 0.5:
            g = gram(rng, known) or ["a"]
            if rng.random() < 0.2:
                g = ["<s>"] * rng.randint(1, 3) + g
            r.append({"op": "prob", "o": o, "h": g[:-1], "w": g[-1] if rng.random() < 0.8 else rng.choice(["zz", "<unk>", "<s>"])})
        elif z < 0.75:
            r.append({"op": "sent", "o": o, "s": rng.choice(known) if known and rng.random() < 0.5 else sent(rng, words=WORDS)})
        elif z < 0.9:
            r.append({"op": "perp", "o": o, "ss": sents(rng, rng.randint(0, 4), words=WORDS)})
        else:
            r.append({"op": "voc", "o": o, "ws": rng.sample(WORDS + ["<unk>", "</s>"], 2)})
    return r


def mem_hist(rng):
    h, objs, known, files, wfs = [], {}, [], set(), set()
    for _ in range(rng.randint(5, 22)):
        z = rng.random()
        o = rng.choice([1, 1, 2])
        if o not in objs or z < 0.04:
            k = "sm" if rng.random() < 0.12 else "jm"
            objs[o] = [k, False]
            h.append({"op": "new", "o": o, "kind": k})
            if rng.random() < 0.5:
                h.append({"op": "order", "o": o, "n": rng.choice([1, 2, 3, 4, 5])})
        if objs[o][0] == "sm" and not objs[o][1]:
            z = 0.1
        if z < 0.3:
            ss = sents(rng, rng.choice([1, 1, 2, 3]))
            known += ss
            c = rng.choice([4, 4, 4, 8, 12, 2, 1, 40, 0, 7])
            if objs[o][0] == "sm" and not objs[o][1]:
                c = 4
            objs[o][1] = True
            h.append({"op": "train", "o": o, "ss": ss, "c": c, "lb": rng.choice([0, 0, 0, 0, 4, 5, 9]) if objs[o][0] == "jm" else 0, "each": rng.randint(0, 1)})
        elif z < 0.55:
            h += looks(rng, o, known)
        elif z < 0.62:
            f = rng.choice("pqr")
            h.append({"op": "weights", "f": f, "wt": weights(rng)})
            wfs.add(f)
        elif z < 0.69:
            f = rng.choice("pqr")
            ss = sents(rng, rng.randint(0, 4), words=rng.choice([WORDS[:4], WORDS]))
            known += ss
            mu = rng.choice([4, 4, 8, 1, 4 * 1000013])
            ls = lines(rng, ss, rng.randint(1, 4), mu)
            if rng.random() < 0.2 and mu < 100:
                for x in ls:
                    if rng.random() < 0.3:
                        x[2] = rng.choice([0, 4, 10])
                    if rng.random() < 0.3:
                        x[1] = rng.choice([40, 100])
            h.append({"op": "mkfile", "f": f, "lines": ls, "blanks": 1 if rng.random() < 0.25 else 0})
            files.add(f)
        elif z < 0.79:
            f = rng.choice("pqr")
            h.append({"op": "print", "o": o, "f": f})
            files.add(f)
            if objs[o][0] == "jm":
                wfs.add(f)
        elif z < 0.9:
            f = rng.choice("pqrx")
            if objs[o][0] == "sm" and f in files:
                objs[o][1] = False
            h.append({"op": "load", "o": o, "f": f})
            if objs[o][0] == "jm" and rng.random() < 0.7:
                h += looks(rng, o, known, 1)
        elif z < 0.94:
            h.append({"op": "order", "o": o, "n": rng.choice([1, 2, 3, 4, 5])})
        elif z < 0.97 and files & wfs:
            f = rng.choice(sorted(files & wfs))
            h.append({"op": "perpprog", "f": f, "n": rng.randint(1, 4), "ss": sents(rng, rng.randint(1, 4), words=WORDS)})
        else:
            h.append({"op": "clear", "o": o, "voc": rng.randint(0, 1)})
            objs[o][1] = False
    return h


def ldb_hist(rng, progs):
    """A data base made from counts, loaded, trained, stored and loaded again; a model in memory next to it."""
    ss = sents(rng, rng.randint(1, 5), words=WORDS)
    n = rng.randint(1, 4)
    known = list(ss)
    h = [{"op": "counts", "f": "a", "ss": ss, "n": n, "unk": 0, "frag": 0}] if progs else \
        [{"op": "mkfile", "f": "a", "lines": lines(rng, ss, n, rng.choice([4, 4, 8, 4 * 100013, 4 * 1000013])), "blanks": 0}]
    big = not progs and max([0] + [x[1] for x in h[0]["lines"]]) > 100000
    h += [{"op": "toldb", "f": "a", "g": "g"}, {"op": "new", "o": 1, "kind": "ldb"}]
    if rng.random() < 0.3:
        # another data base first
        h = [{"op": "mkfile", "f": "b", "lines": lines(rng, sents(rng, 2, words=WORDS), n), "blanks": 0}, {"op": "toldb", "f": "b", "g": "q"}, {"op": "weights", "f": "q", "wt": weights(rng, n)}] + h
        h += [{"op": "load", "o": 1, "f": "q"}] + looks(rng, 1, known, 1)
        if rng.random() < 0.3:
            h += [{"op": "train", "o": 1, "ss": sents(rng, 1), "c": 4, "lb": 0, "each": 0}, {"op": "print", "o": 1, "f": "q"}]
    w = weights(rng, rng.choice([n, n, n, 3]))
    if rng.random() < 0.1:
        h.append({"op": "load", "o": 1, "f": rng.choice("gx")})
    h += [{"op": "weights", "f": "g", "wt": w}, {"op": "load", "o": 1, "f": "g"}, {"op": "voc", "o": 1, "ws": ["a", "zz"]}]
    two = rng.random() < 0.4
    if two:
        h += [{"op": "weights", "f": "a", "wt": w}, {"op": "new", "o": 2, "kind": "jm"}, {"op": "load", "o": 2, "f": "a"}]
    dirty = False
    for _ in range(rng.randint(3, 14)):
        z = rng.random()
        if z < 0.35:
            t = sents(rng, rng.choice([1, 1, 2, 8 if big else 3]), words=WORDS)
            known += t
            e = {"op": "train", "ss": t, "c": 4 if big else rng.choice([4, 4, 8, 2, 12]), "lb": 0, "each": rng.randint(0, 1)}
            h.append(dict(e, o=1))
            if two:
                h.append(dict(e, o=2))
            dirty = True
        elif z < 0.7:
            q = looks(rng, 1, known)
            h += q + ([dict(x, o=2) for x in q] if two else [])
        elif z < 0.85:
            h.append({"op": "print", "o": 1, "f": "g"})
            dirty = False
        elif z < 0.95 and not dirty:
            if rng.random() < 0.5:
                h.append({"op": "new", "o": 1, "kind": "ldb"})
            h += [{"op": "load", "o": 1, "f": "g"}] + looks(rng, 1, known, 1)
        elif z > 0.97:
            h += [{"op": "clear", "o": 1, "voc": rng.randint(0, 1)}] + looks(rng, 1, known, 2)
            break
    return h


def prog_hist(rng):
    ss = sents(rng, rng.choice([1, 2, 4, 7, 12]), words=WORDS)
    n = rng.randint(1, 4)
    h = []
    for k in range(2):
        h.append({"op": "counts", "f": "ab"[k], "ss": ss, "n": n, "unk": rng.randint(0, 1), "frag": 0 if k == 0 else rng.randint(1, len(ss) + 1)})
    f = rng.choice("ab")
    h += [{"op": "weights", "f": f, "wt": weights(rng, n)}, {"op": "new", "o": 1, "kind": "jm"}, {"op": "load", "o": 1, "f": f}]
    return h + looks(rng, 1, ss, 3) + [{"op": "perpprog", "f": f, "n": rng.randint(1, 4), "ss": sents(rng, rng.randint(1, 4), words=WORDS)}]


def upd_hist(rng):
    ss = sents(rng, rng.randint(3, 10), empty=0.02)
    n = rng.randint(1, 3)
    w = weights(rng, n)
    w["w"] = [min(900, max(100, x)) for x in w["w"]]
    h = [{"op": "mkfile", "f": "a", "lines": lines(rng, ss, n), "blanks": 0}, {"op": "weights", "f": "a", "wt": w}, {"op": "new", "o": 1, "kind": "jm"}, {"op": "load", "o": 1, "f": "a"}]
    h.append({"op": "upd", "o": 1, "ss": sents(rng, rng.randint(1, 5), words=WORDS, empty=0.1) + [["a"]]})
    return h + looks(rng, 1, ss, 3) + [{"op": "print", "o": 1, "f": "b"}]


BIG = [0, 1, 3, 4, 252, 253, 254, 255, 256, 507, 508, 509, 64515, 64516, 64517, 64770, 65535, 65536, 129032, 8000000, 16387062]


def tab_hist(rng):
    ws = rng.sample(BIG, rng.randint(2, 6)) if rng.random() < 0.8 else [rng.randrange(254 ** 3 - 1) for _ in range(3)]
    h = [{"op": "new", "kind": rng.choice(["vec", "ldb"])}]
    seen = []

    def gram():
        if seen and rng.random() < 0.6:
            g = rng.choice(seen)
        else:
            g = [rng.choice(ws) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
        return g

    def look():
        g = gram()
        z = rng.random()
        if z < 0.4:
            return {"op": "look", "s": g[:-1], "t": g[-1]}
        if z < 0.6:
            g = g if len(g) > 1 else [rng.choice(ws)] + g
            return {"op": "rev", "s": g[:-1], "t": g[-1]}
        if z < 0.9:
            of = rng.choice("st")
            return {"op": "ent", "of": of, "s": g[:-1] if rng.random() < 0.6 or of == "t" else g, "t": g[-1], "n": rng.choice([-1, -1, 0, 1, 2])}
        return {"op": "all"}

    for _ in range(rng.randint(4, 25)):
        z = rng.random()
        g = gram()
        s, t = g[:-1], g[-1]
        c = rng.choice([4, 4, 8, 1, 2, 10, 400, 4 * 1000013])
        if z < 0.3:
            # as when a sentence is trained: histories before the n-grams they begin
            for k in range(len(g)) if rng.random() < 0.7 else [len(g) - 1]:
                h.append({"op": "incr", "s": g[:k], "t": g[k], "c": c})
                seen.append(g[:k + 1])
        elif z < 0.42:
            h.append({"op": "add", "s": s, "t": t, "cs": max(c, 4) * rng.choice([1, 2, 5]), "c": c})
            seen.append(g)
        elif z < 0.47:
            h.append({"op": "addst", "s": s, "t": t, "c": c})
            seen.append(g)
        elif z < 0.52:
            h.append({"op": "addsrc", "s": g if rng.random() < 0.8 else [], "cs": c})
        elif z < 0.56:
            h.append({"op": "reload"})
        elif z < 0.57:
            h.append({"op": "clear"})
            seen = []
        else:
            h.append(look())
    return h + [look() for _ in range(3)] + [{"op": "all"}]


def check(c):
    G = ["nlp_common_defs", "incr_models_defs", "leveldb_lm_defs"]
    X = ["downhill_simplex/step_by_step_dhs.c"]
    b = c.build("ngram", ["ngram.cc"], groups=G, srcs=X)
    bs = c.build("ngram_asan", ["ngram.cc"], groups=G, srcs=X, extra=["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"])
    bt = c.build("ngramtab", ["ngramtab.cc"], groups=G, srcs=X, extra=["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"])
    perp = c.build("ilm_perp", [os.path.join(SRC, "incr_models/thot_ilm_perp.cc")], groups=G, srcs=X)
    ldb = c.build("to_leveldb", [os.path.join(SRC, "incr_models/thot_ngram_to_leveldb.cc")], groups=G, srcs=X)
    # scripts as they are installed, without the header the build adds (variables come from the environment)
    bin = os.path.join(c.work, "bin")
    os.makedirs(bin, exist_ok=True)
    for s in ("incr_models/thot_get_ngram_counts", "incr_models/thot_get_ngram_counts_mr", "incr_models/thot_merge_ngram_counts", "nlp_common/thot_general_lib"):
        p = os.path.join(bin, os.path.basename(s))
        open(p, "w").write("#!/bin/bash\n" + open(os.path.join(REPO, "utils", s + ".sh")).read())
        os.chmod(p, 0o755)
    args = [perp, ldb, bin]
    c.model_check("ngram/NgramMC", "NgramMC.cfg")
    beh = c.generate("ngram/NgramMC", "NgramGen.cfg")
    T = ("ngram/NgramTrace", "NgramTrace.cfg")
    hs = []
    for k in beh:
        h = [{"op": "weights", "f": "w", "wt": {"order": 3, "nb": 2, "bs": 1, "w": [400, 500, 600, 700, 800, 900]}}, {"op": "mkfile", "f": "w", "lines": [], "blanks": 0},
             {"op": "new", "o": 1, "kind": "jm"}, {"op": "load", "o": 1, "f": "w"}]
        for s, n in k:
            h.append({"op": "train", "o": 1, "ss": [s], "c": n, "lb": 0, "each": 1})
        h += [{"op": "sent", "o": 1, "s": s} for s, _ in k] + [{"op": "sent", "o": 1, "s": ["b", "a", "z"]}, {"op": "print", "o": 1, "f": "p"}, {"op": "load", "o": 1, "f": "p"}, {"op": "sent", "o": 1, "s": ["a", "b"]}]
        hs.append(h)
    ok = c.conformance(*T, b, hs, args=args, label="all training histories")
    q = c.thorough
    c.model_check("ngram/NgramTabMC", "NgramTabMC.cfg")
    hs = []
    for k in c.generate("ngram/NgramTabMC", "NgramTabGen.cfg"):
        for kind in ("vec", "ldb"):
            h = [{"op": "new", "kind": kind}]
            for s in k:
                h += [{"op": "incr", "s": s[i:j], "t": s[j], "c": 4} for i in range(len(s)) for j in range(i, len(s)) if j - i < 3]
            h += [{"op": "rev", "s": s[:-1] or [4], "t": s[-1]} for s in k] + [{"op": "ent", "of": "s", "s": k[-1][:1], "t": 4, "n": -1}, {"op": "ent", "of": "t", "s": [], "t": k[-1][-1], "n": 1}, {"op": "reload"}, {"op": "all"}]
            hs.append(h)
    EE = {"ASAN_OPTIONS": "detect_leaks=0"}
    TT = ("ngram/NgramTabTrace", "NgramTabTrace.cfg")
    okt = c.conformance(*TT, bt, hs if q else hs[::3], label="tables: all short histories", env=EE)
    okt = c.conformance(*TT, bt, [tab_hist(c.rng) for _ in range(20000 if q else 700)], label="tables", env=EE) and okt
    if okt:
        t, _ = c.run_harness(bt, [[{"op": "new", "kind": "ldb"}, {"op": "incr", "s": [], "t": 300, "c": 4}, {"op": "all"}]])
        x = json.loads(json.dumps(t[0]))
        x[2]["es"][0][0][0] = 301
        c.must_reject(*TT, x, "another word")
    E = {"ASAN_OPTIONS": "detect_leaks=0"}
    c.conformance(*T, bs, [mem_hist(c.rng) for _ in range(30000 if q else 1500)], args=args, label="models in memory", env=E)
    c.conformance(*T, bs, [ldb_hist(c.rng, False) for _ in range(4000 if q else 250)], args=args, label="models in data bases", env=E)
    c.conformance(*T, b, [ldb_hist(c.rng, True) for _ in range(600 if q else 60)], args=args, label="from corpus to data base")
    c.conformance(*T, b, [prog_hist(c.rng) for _ in range(2000 if q else 120)], args=args, label="counting programs")
    c.conformance(*T, b, [upd_hist(c.rng) for _ in range(3000 if q else 150)], args=args, label="fitted weights")
    if ok:
        t, _ = c.run_harness(b, [[{"op": "new", "o": 1, "kind": "jm"}, {"op": "train", "o": 1, "ss": [["a", "b"]], "c": 4, "lb": 0, "each": 0}, {"op": "sent", "o": 1, "s": ["a"]}, {"op": "cnt", "o": 1, "g": ["a"]}]], args=args)
        x = json.loads(json.dumps(t[0]))
        x[2]["r"]["ps"][0] += 1000
        c.must_reject(*T, x, "another probability")
        x = json.loads(json.dumps(t[0]))
        x[3]["cn"] += 4
        c.must_reject(*T, x, "another count")


main("C02", check)
