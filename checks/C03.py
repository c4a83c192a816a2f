import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

NV = 10
FILES = ["p", "q"]
KL = {"lex": 1, "ldb": 1, "hmm": 2, "ibm2": 3}


def key(rng, o, big):
    if o in ("lex", "ldb"):
        return [rng.randrange(15 if big else 10)]
    return [rng.choice([0, 1, 2, 5])] + [rng.choice([0, 1, 2, 3]) for _ in range(KL[o] - 1)]


def item(rng, o, big):
    if o in ("lex", "ldb"):
        return rng.randrange(15 if big else 10)
    return rng.choice([0, 1, 2, 3, 7])


def table_hist(rng):
    big = rng.random() < 0.5  # word ids that only the LevelDB table can take
    kinds = ["ldb"] if big else rng.choice([["lex"], ["hmm"], ["ibm2"], ["lex", "ldb"], ["lex", "ldb"]])
    h, cur, dbs, lexfiles, used = [], None, set(), set(), {o: [] for o in kinds}
    if "ldb" in kinds:
        h.append({"o": "ldb", "op": "init", "f": "p"})
        cur = "p"
        dbs.add("p")

    def k_x(o):
        if used[o] and rng.random() < 0.65:
            k, x = rng.choice(used[o])
            z = rng.random()
            return (k, x) if z < 0.6 else (k, item(rng, o, big)) if z < 0.8 else (key(rng, o, big), x)
        return key(rng, o, big), item(rng, o, big)
    for _ in range(rng.randint(4, 28)):
        o = rng.choice(kinds)
        z = rng.random()
        if o == "ldb":
            if cur is None or z < 0.08:
                f = rng.choice(FILES)
                if rng.random() < 0.3:
                    h.append({"o": o, "op": "init", "f": f})
                elif f not in dbs and f != cur and f in lexfiles and rng.random() < 0.5:
                    h.append({"o": "prog", "op": "convert", "f": f, "p": f})
                    h.append({"o": o, "op": "load", "f": f})
                else:
                    h.append({"o": o, "op": "load", "f": f})
                cur = f
                dbs.add(f)
                continue
            if z < 0.11:
                h.append({"o": o, "op": "drop"})
                dbs.discard(cur)
                cur = None
                continue
        elif z < 0.06:
            h.append({"o": o, "op": "load", "f": rng.choice(FILES + ["missing"])})
            continue
        k, x = k_x(o)
        v = rng.randrange(NV)
        if z < 0.25:
            h.append({"o": o, "op": "both", "k": k, "x": x, "v": v, "d": rng.randrange(NV)})
            used[o].append((k, x))
        elif z < 0.4:
            h.append({"o": o, "op": "num", "k": k, "x": x, "v": v})
            used[o].append((k, x))
        elif z < 0.48:
            h.append({"o": o, "op": "den", "k": k, "v": v})
            used[o].append((k, x))
        elif z < 0.7:
            h.append({"o": o, "op": "gnum", "k": k, "x": x})
        elif z < 0.8:
            h.append({"o": o, "op": "gden", "k": k})
        elif z < 0.88:
            if KL[o] == 1:
                h.append({"o": o, "op": "trans", "x": x})
        elif z < 0.96:
            f = rng.choice(FILES)
            h.append({"o": o, "op": "print", "f": f})
            if KL[o] == 1:
                lexfiles.add(f)
        elif z < 0.97:
            h.append({"o": o, "op": "clear"})
    for o in kinds:
        if o == "ldb" and cur is None:
            continue
        for k, x in used[o]:
            h.append({"o": o, "op": "gnum", "k": k, "x": x})
            h.append({"o": o, "op": "gden", "k": k})
            if KL[o] == 1:
                h.append({"o": o, "op": "trans", "x": x})
    return h


def mat_hist(rng):
    o = rng.choice(["anji", "anjip"])
    nd = 2 if o == "anji" else 3
    h, setn, initn = [], [0, 1, 2, 3], [10, 11, 12, 4]

    def pos(j, i):
        return [rng.randint(0, j)] + [rng.randint(0, i) for _ in range(nd - 1)]
    if rng.random() < 0.8:
        h.append({"o": o, "op": "max", "m": rng.choice([-1, 1, 2, 2, 3, 3, 5] + ([0] if rng.random() < 0.3 else []))})
    room = {}
    for _ in range(rng.randint(4, 24)):
        z = rng.random()
        if z < 0.3:
            h.append({"o": o, "op": "set", "n": rng.choice(setn), "c": pos(2, 2), "v": rng.randrange(NV)})
        elif z < 0.5:
            d = [rng.randint(0, 2), rng.randint(0, 2)]
            cs = [{"c": pos(*d), "v": rng.randrange(NV)} for _ in range(rng.randint(0, 4))]
            h.append({"o": o, "op": "init", "n": rng.choice(initn), "d": d, "cs": cs, "q": [pos(*d) for _ in range(2)] + [c["c"] for c in cs]})
        elif z < 0.78:
            h.append({"o": o, "op": "get", "n": rng.choice(setn + initn), "c": pos(2, 2)})
        elif z < 0.86:
            h.append({"o": o, "op": "print", "f": rng.choice(FILES)})
        elif z < 0.94:
            h.append({"o": o, "op": "load", "f": rng.choice(FILES)})
        elif z < 0.96:
            h.append({"o": o, "op": "reset"})
        elif z < 0.98:
            h.append({"o": o, "op": "getmax"})
        elif z < 0.99:
            h.append({"o": o, "op": "clear"})
        else:
            h.append({"o": o, "op": "max", "m": rng.choice([-1, 1, 2, 3])})
    h.append({"o": o, "op": "getmax"})
    for n in setn + initn:
        for _ in range(3):
            h.append({"o": o, "op": "get", "n": n, "c": pos(1, 2)})
    return h


def rows(rng, t, counts, n):
    """Records of a table: with counts they are consistent (one denominator for each key), else opaque values."""
    d, r = {}, {}
    for _ in range(n):
        k, x = key(rng, t, False), item(rng, t, False)
        if rng.random() < 0.6 and r:
            k = list(rng.choice(list(r))[0])
        r[(tuple(k), x)] = rng.randint(1, 12) if counts else rng.randrange(NV)
    for (k, x), v in r.items():
        d[k] = d.get(k, 0) + v
    if counts and rng.random() < 0.4:
        d = {k: v + rng.randint(0, 3) for k, v in d.items()}
    return [{"k": list(k), "x": x, "n": v, "d": d[k] if counts else rng.randrange(NV)} for (k, x), v in r.items()]


def prog_hist(rng):
    z = rng.random()
    t = rng.choice(["lex", "hmm", "ibm2"])
    if z < 0.25:
        r = rows(rng, t, False, rng.randint(0, 12))
        rng.shuffle(r)
        return [{"o": "prog", "op": "sort", "t": t, "in": r}]
    if z < 0.6:
        return [{"o": "prog", "op": "merge", "t": t, "in": [sorted(rows(rng, t, True, rng.randint(0, 9)), key=lambda r: (r["k"], r["x"])) for _ in range(rng.randint(1, 4))]}]
    if z < 0.8:
        r = sorted(rows(rng, "lex", True, rng.randint(0, 14)), key=lambda r: (r["k"], r["x"]))
        return [{"o": "prog", "op": "prune", "t": "lex", "in": r, "n": rng.choice([0, 1, 2, 3]), "c": rng.choice([0, 0, 1, 101, 211, 307])}]
    r = rows(rng, "lex", False, rng.randint(0, 12))
    return [{"o": "prog", "op": "info", "t": "lex", "in": r},
            {"o": "prog", "op": "filter", "t": "lex", "in": r, "info": [[q["k"], q["x"]] for q in r if rng.random() < 0.6]}]


PROGS = ["thot_sort_bin_ilextable", "thot_sort_bin_ihmmatable", "thot_sort_bin_iibm2atable", "thot_merge_bin_ilextable",
         "thot_merge_bin_ihmmatable", "thot_merge_bin_iibm2atable", "thot_prune_bin_ilextable", "thot_filter_bin_ilextable",
         "thot_gen_bin_lex_filter_info"]


def check(c):
    G = ["nlp_common_defs"]
    T = ["sw_models/" + x for x in ("IncrLexTable.cc", "IncrHmmAligTable.cc", "IncrIbm2AligTable.cc", "anjiMatrix.cc", "anjm1ip_anjiMatrix.cc", "aSource.cc", "aSourceHmm.cc") if os.path.exists(os.path.join(SRC, "sw_models", x))]
    L = ["sw_models/IncrLexLevelDbTable.cc"]
    args = [c.build(p, [os.path.join(SRC, "sw_models", p + ".cc")], groups=G, srcs=T[-2:]) for p in PROGS]
    args.append(c.build("conv", [os.path.join(SRC, "sw_models/thot_lextable_to_leveldb.cc")], groups=G, srcs=L))
    b = c.build("tables", ["tables.cc"], groups=G, srcs=T + L, extra=["-D_GLIBCXX_ASSERTIONS"])
    c.model_check("tables/TablesMCdefs", "TablesMC.cfg")
    beh = c.generate("tables/TablesMCdefs", "TablesGen.cfg")
    c.rng.shuffle(beh)
    script = []
    for h in beh[:20000 if c.thorough else 1500]:
        for o, z in (("anji", []), ("anjip", [0])):
            script.append([dict(e, o=o, **({"c": e["c"] + z} if "c" in e else {})) for e in h]
                          + [{"o": o, "op": "get", "n": n, "c": [0, 0] + z} for n in (0, 1, 2)] + [{"o": o, "op": "getmax"}])
    M = ("tables/TablesTrace", "TablesTrace.cfg")
    ok = c.conformance(*M, b, script, args=args, label="expected values: eviction, print and load in every order")
    n = 20000 if c.thorough else 1200
    c.conformance(*M, b, [mat_hist(c.rng) for _ in range(n)], args=args, label="random histories of expected values")
    c.conformance(*M, b, [table_hist(c.rng) for _ in range(n)], args=args, label="random histories of the tables")
    c.conformance(*M, b, [prog_hist(c.rng) for _ in range(n)], args=args, label="table programs")
    if ok:
        t, _ = c.run_harness(b, [[{"o": "lex", "op": "both", "k": [1], "x": 2, "v": 1, "d": 2}, {"o": "lex", "op": "gden", "k": [1]}]], args=args)
        t[0][1]["v"] = 1
        c.must_reject(*M, t[0], "a wrong denominator")
    c.assumptions += ["in-memory tables with word indices up to 70000", "merged and pruned counts agree up to float rounding",
                      "a training pair is written with set or with init, not both"]


main("C03", check)
