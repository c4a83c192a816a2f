import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

QUERY_ALL = {"stl": ["q", "eft", "efs", "nbt", "nbs", "size", "iter"], "hat": ["q", "eft", "efs", "nbt", "nbs", "size", "iter"],
             "ldb": ["q", "eft", "nbt", "size", "iter"], "bdb": ["q", "eft", "nbt"], "fbdb": ["q", "eft", "nbt"]}
UPD = {"stl": ["incr", "entry", "addsrc", "addst", "clear"], "hat": ["incr", "entry", "addsrc", "addst", "clear"],
       "ldb": ["incr", "entry", "addsrc", "addst", "clear", "reload"], "bdb": ["incr", "reload"], "fbdb": ["incr", "reload", "fast"]}


def phrases(rng, n):
    """n distinct phrases, including prefixes of one another and word indices at encoding boundaries."""
    words = [3, 4, 5, 7, 253, 254, 255, 256, 257, 508, 1000, 64515, 64516, 64517, 64770, 70000, 1000000, 16387063]
    out = []
    while len(out) < n:
        if out and rng.random() < 0.4:
            p = list(rng.choice(out))
            p = p + [rng.choice(words)] if rng.random() < 0.5 else (p[:-1] or [rng.choice(words)])
        else:
            p = [rng.choice(words) for _ in range(rng.randint(1, 4))]
        if p not in out and len(p) <= 8:
            out.append(p)
    return out


def observe(impl, ns, nt):
    o = []
    for k in QUERY_ALL[impl]:
        if k == "q":
            o += [{"op": "q", "s": s, "t": t} for s in range(1, ns + 1) for t in range(1, nt + 1)]
        elif k == "eft":
            o += [{"op": k, "t": t} for t in range(1, nt + 1)]
        elif k in ("efs", "nbs"):
            o += [{"op": k, "s": s} for s in range(1, ns + 1)]
        elif k == "nbt":
            o += [{"op": k, "t": t, "n": n} for t in range(1, nt + 1) for n in (-1, 1)]
        else:
            o.append({"op": k})
    return o


def rand_hist(rng, impl, n):
    ns, nt = rng.randint(1, 6), rng.randint(1, 6)
    h = [{"op": "init", "impl": impl, "src": phrases(rng, ns), "trg": phrases(rng, nt)}]
    cnt, seen_s, seen_t = {}, set(), set()
    for _ in range(n):
        if rng.random() < 0.4:
            k = rng.choice(QUERY_ALL[impl])
            e = {"op": k}
            if k in ("q", "efs", "nbs"):
                e["s"] = rng.randint(1, ns)
            if k in ("q", "eft", "nbt"):
                e["t"] = rng.randint(1, nt)
            if k == "nbt":
                e["n"] = rng.choice([-1, 0, 1, 2, 3, 50])
            h.append(e)
            continue
        k = rng.choice(UPD[impl] + ["incr"] * 6)
        if k in ("clear", "reload") and rng.random() < 0.6:
            k = "incr"
        s, t = rng.randint(1, ns), rng.randint(1, nt)
        e = {"op": k}
        if k == "incr":
            c = rng.choice([1, 1, 1, 2, 3, 7, 100])
            if rng.random() < 0.15 and impl not in ("bdb", "fbdb"):  # take back what was added: counts may return to zero
                c = -cnt.get((s, t), 0) or 1
            if c < 0 and (cnt.get(("s", s), 0) + c < 0 or cnt.get(("t", t), 0) + c < 0):
                c = 1
            e.update(s=s, t=t, c=c)
            for kk in ((s, t), ("s", s), ("t", t)):
                cnt[kk] = cnt.get(kk, 0) + c
            seen_s.add(s); seen_t.add(t)
        elif k == "entry":
            c, d = rng.randint(1, 9), rng.randint(1, 9)
            e.update(s=s, t=t, c=c, d=d)
            cnt[("s", s)] = c; cnt[("t", t)] = cnt.get(("t", t), 0) + d; cnt[(s, t)] = d
            seen_s.add(s); seen_t.add(t)
        elif k == "addsrc":
            c = rng.randint(0, 9)
            e.update(s=s, c=c); cnt[("s", s)] = c; seen_s.add(s)
        elif k == "addst":
            if not seen_s or not seen_t:
                continue
            s, t, c = rng.choice(sorted(seen_s)), rng.choice(sorted(seen_t)), rng.randint(0, 9)
            e.update(s=s, t=t, c=c); cnt[(s, t)] = c
        elif k == "clear":
            cnt, seen_s, seen_t = {}, set(), set()
        h.append(e)
    return h + observe(impl, ns, nt)


def check(c):
    b = {}
    common = ["nlp_common_defs", "phrase_models_defs", "hattrie_pm_defs", "leveldb_pm_defs"]
    b["base"] = c.build("pt", ["phrasetable.cc"], srcs=["phrase_models/StlPhraseTable.cc", "phrase_models/HatTriePhraseTable.cc",
                                                     "phrase_models/LevelDbPhraseTable.cc"], groups=["nlp_common_defs"])
    b["bdb"] = c.build("pt_bdb", ["phrasetable.cc"], srcs=["phrase_models/BdbPhraseTable.cc"], groups=["nlp_common_defs"], extra=["-DV_BDB"])
    b["fbdb"] = c.build("pt_fbdb", ["phrasetable.cc"], srcs=["phrase_models/FastBdbPhraseTable.cc"], groups=["nlp_common_defs"], extra=["-DV_FBDB"])
    c.log("built")
    c.model_check("phrase/PhraseTableMC", "PhraseTableIncr.cfg")
    beh = c.generate("phrase/PhraseTableMC", "PhraseTableGen.cfg")
    nmodel, nrand = (6000, 2500) if c.thorough else (1200, 400)
    for impl in ("stl", "hat", "ldb", "bdb", "fbdb"):
        bb = [x for x in beh if all(e["op"] in UPD[impl] for e in x)]
        c.rng.shuffle(bb)
        script = []
        for x in bb[:nmodel]:
            ps, pt = phrases(c.rng, 2), phrases(c.rng, 2)
            script.append([{"op": "init", "impl": impl, "src": ps, "trg": pt}] + x + observe(impl, 2, 2))
        n = len(script)
        for _ in range(nrand if impl != "ldb" or c.thorough else nrand // 2):
            script.append(rand_hist(c.rng, impl, c.rng.randint(5, 60)))
        # queries before any update
        script.append([{"op": "init", "impl": impl, "src": [[3]], "trg": [[4]]}] + observe(impl, 1, 1))
        binary = b.get(impl, b["base"])
        ok = c.conformance("phrase/PhraseTableTrace", "PhraseTableTrace.cfg", binary, script, args=[os.path.join(c.work, "db")],
                           label="%s phrase table (%d model-generated, %d random histories)" % (impl, n, len(script) - n))
        if ok and (c.thorough or impl == "stl"):
            t, _ = c.run_harness(binary, [script[-2]], args=[os.path.join(c.work, "db")])
            tr = t[0]
            i = max(k for k, e in enumerate(tr) if e["op"] == "q")
            tr[i]["cst"] += 1
            c.must_reject("phrase/PhraseTableTrace", "PhraseTableTrace.cfg", tr, "count of a pair off by one")
    c.assumptions += ["word indices from 3 up (0-2 are reserved by the vocabulary), phrases of at most 8 words",
                      "integral counts; additions to a joint entry only for known source and target phrases"]


main("C01", check)
