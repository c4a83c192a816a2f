import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import hashlib

TSAN = ["-fsanitize=thread", "-g"]
GROUPS = ["nlp_common_defs", "incr_models_defs", "sw_models_defs", "phrase_models_defs", "hattrie_pm_defs", "error_correction_defs",
          "stack_dec_defs", "downhill_simplex_defs"]
PLUGS = [("BaseWordPenaltyModel", "word_penalty_model"), ("BaseNgramLM", "plug_lm.cc"), ("BaseSwAligModel", "incr_hmm_p0_alig_model"),
         ("BasePhraseModel", "incr_phrase_model"), ("BaseErrorCorrectionModel", "plug_ecm.cc"), ("BaseEcModelForNbUcat", "non_pb_ec_model_for_nb_ucat"),
         ("BaseWgProcessorForAnlp", "wg_processor_for_anlp__pfsm"), ("BaseScorer", "mira_bleu"), ("BaseLogLinWeightUpdater", "kb_mira_ll_wu"),
         ("BaseTranslationMetadata", "translation_metadata__phrscoreinfo"), ("BaseStackDecoder", "plug_dec.cc"),
         ("BaseAssistedTrans", "wg_uncoupled_assisted_trans__pbtm")]


def build(c):
    """The decoder library with its plug-ins under the race detector; all objects are compiled in parallel first."""
    g = makefile_groups()
    ini = os.path.join(c.work, "master.ini")
    flags = c.cxxflags(TSAN, ini=ini)
    odir = os.path.join(c.work, "obj_" + hashlib.md5(" ".join(TSAN).encode()).hexdigest()[:6])
    psrc = {k: [os.path.join(VERIF, "harness", k)] if k.endswith(".cc") else [os.path.join(SRC, x) for x in g[k + "_factory_defs"]] for _, k in PLUGS}
    rs = [x for k in GROUPS for x in g[k]] + ["sw_models/CachedHmmAligLgProb.cc"] + [x for v in psrc.values() for x in v]
    jobs = [(os.path.join(SRC, s), os.path.join(odir, s.replace("/", "__") + ".o"), flags) for s in dict.fromkeys(rs)]
    jobs.sort(key=lambda j: -(("stack_dec" in j[0]) + ("plug" in j[0])))
    c.compile_many([j for j in jobs if not os.path.exists(j[1]) or "/harness/" in j[0]])
    with open(ini, "w") as f:
        for name, k in PLUGS:
            f.write("%s ; %s ;\n" % (name, c.build(k.replace(".cc", "") + ".so", [], srcs=psrc[k], shared=True, whole=True, extra=TSAN, main_ini=ini)))
    return c.build("tdec", ["tdec.cc"], groups=GROUPS, srcs=["sw_models/CachedHmmAligLgProb.cc"], whole=True, extra=TSAN, main_ini=ini,
                   libs=LIBS + ["-ldl"])


SUPP = "race:ctimer\n"


def env(c):
    p = os.path.join(c.work, "tsan.supp")
    with open(p, "w") as f:
        f.write(SUPP)
    return {"TSAN_OPTIONS": "halt_on_error=0 report_signal_unsafe=0 history_size=4 suppressions=" + p}


W = ["a", "bb", "c", "s0", "s1"]
TW = {"a": ["aaw", "aqw", "aaw"], "bb": ["Bw", "bbx"], "c": ["Cw", "aaz"]}


def sent(r, n=3, blank=0.0):
    if r.random() < blank:
        return ""
    return " ".join(r.choice(W) for _ in range(r.randint(1, n)))


def request(r, us, kind):
    u = r.choice(us)
    wg = kind != "nowg"
    w = {"tr": 4, "train": 4, "cov": 2, "init": 1.5, "rel": 1, "new": 1, "print": 0.8, "weights": 0.7, "ecm": 0.5}
    if wg:
        w.update({"cat": 3, "add": 5, "pref": 1.5, "reset": 1})
    if kind == "session":
        w.update({"cat": 6, "add": 9, "pref": 4, "reset": 3, "ecm": 0})
    if kind == "models":
        w.update({"train": 9, "tr": 9, "print": 2})
    if kind == "users":
        w.update({"init": 5, "rel": 5, "new": 5, "tr": 5})
    op = r.choices(list(w), list(w.values()))[0]
    q = {"op": op, "u": u}
    if op in ("tr", "cat"):
        q["x"] = sent(r, 4 if r.random() < 0.2 else 3, 0.04)
    elif op == "train":
        x = r.choice(W[:3])
        q.update({"x": x, "y": r.choice(TW[x])})
        if r.random() < 0.05:
            q[r.choice("xy")] = ""
    elif op == "cov":
        q["x"] = sent(r, 2, 0.04)
        q["y"] = " ".join(r.choice([w2] if w2 not in TW and w2[0] != "s" else ["t" + w2[1]] if w2[0] == "s" else TW[w2]) for w2 in q["x"].split())
        if r.random() < 0.2:
            q["y"] = r.choice(["t0", "t1 t0", "zz", "", "Bw Cw"])
    elif op == "add":
        q["x"] = r.choice(["X ", "aaw", "aa", "aaw ", "t0 ", "Bw ", " ", "a", "t", "Cw Bw ", "bb"])
    elif op == "pref":
        q["x"] = r.choice(["", "aaw ", "aa", "t0 t1", "X ", "Bw C", "zz zz "])
    elif op == "ecm":
        q.update({"x": "ab", "y": "ac"})
    elif op == "init" and wg and r.random() < 0.15:
        q["sp"] = 1
    return q


def program(r, kind, t, us, init, n):
    q = [{"op": "init", "u": u} for u in us] if init else []
    if kind == "session" and r.random() < 0.7:
        q.append({"op": "cat", "u": r.choice(us), "x": sent(r)})
    return q + [request(r, us, kind) for _ in range(r.randint(1, n))]


def threads(r, kind, init, n=4):
    k = r.randint(2, 4 if n <= 4 else 5)
    mode = r.choice(["own", "own", "shared", "mixed", "far"])
    ths = []
    for t in range(k):
        us = [t] if mode == "own" else [0] if mode == "shared" else [0, 1] if mode == "mixed" else [r.choice([0, 3, 6]) for _ in range(2)]
        ths.append(program(r, kind, t, sorted(set(us)), init, n))
    return ths


def runop(r, ths):
    return {"op": "run", "seed": r.randint(1, 1 << 30), "stick": r.choice([0, 30, 80, 95]), "threads": ths}


def history(r, deep):
    kind = r.choice(["any", "any", "any", "session", "session", "models", "users", "nowg", "reload"])
    init = r.random() < 0.6
    n = 6 if deep and r.random() < 0.3 else 4
    h = [{"op": "setup", "nowg": True} if kind == "nowg" else {"op": "setup"}]
    if r.random() < 0.4:     # something is known before the concurrent part begins
        h.append(runop(r, [program(r, kind, 0, [0, 1] if r.random() < 0.5 else [0], r.random() < 0.5, 3)]))
    h.append(runop(r, threads(r, kind, init, n)))
    if r.random() < 0.3:
        h.append(runop(r, threads(r, kind, False, n)))
    if kind == "reload":
        if r.random() < 0.7:
            h.append(runop(r, [[{"op": "print", "u": 0}]]))
        if r.random() < 0.5:
            h.append(runop(r, [program(r, "models", 0, [0], False, 3)]))
        h += [{"op": "reload"}, runop(r, [[{"op": "tr", "u": 0, "x": "a bb c s0 s1"}] + program(r, "models", 0, [0], False, 3)])]
        if r.random() < 0.5:
            h.append(runop(r, threads(r, "any", init, 3)))
    return h


def concrete(r, beh):
    """A program and schedule of TDecLocks as requests to the engine."""
    ths = []
    for p in beh["p"]:
        qs = []
        for q in p:
            u, op = q["u"] - 1, q["op"]
            if op == "tr":
                qs.append({"op": r.choice(["tr", "cat", "tr", "cov", "add"]), "u": u, "x": sent(r)})
                if qs[-1]["op"] == "cov":
                    qs[-1]["y"] = "t0"
                if qs[-1]["op"] == "add":
                    qs[-1]["x"] = "t0 "
            elif op == "train":
                x = r.choice(W[:3])
                qs.append({"op": "train", "u": u, "x": x, "y": r.choice(TW[x])})
            else:
                qs.append({"op": op, "u": u})
        ths.append(qs)
    # a step of the specification corresponds to one or two scheduling points of the harness; entries naming a blocked thread are skipped
    o = runop(r, ths)
    o["plan"] = [t for t in beh["s"] for _ in range(r.choice([1, 1, 2]))]
    return [{"op": "setup"}, o]


BAD = [
    ("the training of another user is lost", [{"op": "setup", "n": 0}, {"op": "run", "ev": [
        {"e": "call", "t": 0, "op": "train", "u": 0, "x": "a", "y": "Aw"}, {"e": "ret", "t": 0, "n": 0},
        {"e": "call", "t": 0, "op": "tr", "u": 0, "x": "a"}, {"e": "ret", "t": 0, "r": "a"}]}]),
    ("a translation appears from nowhere", [{"op": "setup", "n": 0}, {"op": "run", "ev": [
        {"e": "call", "t": 0, "op": "tr", "u": 0, "x": "a"}, {"e": "ret", "t": 0, "r": "Aw"}]}]),
    ("two concurrent readings which no order explains", [{"op": "setup", "n": 0}, {"op": "run", "ev": [
        {"e": "call", "t": 0, "op": "train", "u": 0, "x": "a", "y": "Aw"}, {"e": "call", "t": 1, "op": "tr", "u": 1, "x": "a"},
        {"e": "ret", "t": 1, "r": "Aw"}, {"e": "call", "t": 1, "op": "tr", "u": 1, "x": "a"}, {"e": "ret", "t": 1, "r": "a"}, {"e": "ret", "t": 0, "n": 0}]}]),
    ("trained while in use", [{"op": "setup", "n": 0}, {"op": "run", "ev": [
        {"e": "ub", "t": 0, "k": "use", "o": 1}, {"e": "ub", "t": 1, "k": "train", "o": 0}]}]),
    ("one decoder used by two threads", [{"op": "setup", "n": 0}, {"op": "run", "ev": [
        {"e": "ub", "t": 0, "k": "use", "o": 1}, {"e": "ub", "t": 1, "k": "use", "o": 1}]}]),
    ("deadlock", [{"op": "setup", "n": 0}, {"op": "run", "ev": [{"e": "deadlock", "t": 0}]}]),
    ("a request which is not answered", [{"op": "setup", "n": 0}, {"op": "run", "ev": [{"e": "call", "t": 0, "op": "tr", "u": 0, "x": "a"}]}]),
    ("the prefix of another user", [{"op": "setup", "n": 0}, {"op": "run", "ev": [
        {"e": "call", "t": 0, "op": "cat", "u": 0, "x": "s0"}, {"e": "ret", "t": 0, "r": "t0"},
        {"e": "call", "t": 0, "op": "add", "u": 0, "x": "t0 "}, {"e": "ret", "t": 0, "r": "t0 "},
        {"e": "call", "t": 0, "op": "cat", "u": 1, "x": "s1"}, {"e": "ret", "t": 0, "r": "t1"},
        {"e": "call", "t": 0, "op": "add", "u": 1, "x": "z "}, {"e": "ret", "t": 0, "r": "t0 z "}]}]),
]


def body(c):
    b = build(c)
    e = env(c)
    big = c.thorough
    c.model_check("tdec/TDecLocks", "TDecLocks3.cfg")
    c.model_check("tdec/TDecLocks", "TDecLocks2.cfg" if big else "TDecLocks2q.cfg", timeout=600)
    if big:
        c.model_check("tdec/TDecLocks", "TDecLocks3d.cfg", timeout=3000)
    for why, t in BAD:
        c.must_reject("tdec/TDecTrace", "TDecTrace.cfg", t, why)
    r = c.rng
    behs = c.generate("tdec/TDecGen", "TDecGen.cfg", simulate=4000 if big else 300, depth=140)
    ok = c.conformance("tdec/TDecTrace", "TDecTrace.cfg", b, [concrete(r, x) for x in behs], label="programs and schedules of the locking protocol", env=e, timeout=600)
    for k in range(20 if big else 1):
        if not ok:
            break
        ok = c.conformance("tdec/TDecTrace", "TDecTrace.cfg", b, [history(r, big) for _ in range(1200)], label="random histories", env=e, timeout=600)


if __name__ == "__main__":
    main("C12", body)
