import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

G = ["nlp_common_defs"]
SC = {"bleu": ["stack_dec/MiraBleu.cc", "stack_dec/bleu.cc"], "wer": ["stack_dec/MiraWer.cc"], "gtm": ["stack_dec/MiraGtm.cc"],
      "chrf": ["stack_dec/MiraChrF.cc", "stack_dec/chrf.cc"]}
FAC = {"bleu": "MiraBleuFactory", "wer": "MiraWerFactory", "gtm": "MiraGtmFactory", "chrf": "MiraChrFFactory"}
T = ("mira/MiraTrace", "MiraTrace.cfg")


def word(r, k):
    return [97 + r.randrange(k) for _ in range(r.choice([1, 1, 1, 2, 3]))]


def sent(r, voc, n):
    return [r.choice(voc) for _ in range(r.randint(0, n))]


def near(r, s, voc):
    """A sentence similar to the given one."""
    t = list(s)
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.randrange(len(t) + 1)
        x = r.random()
        if x < 0.35:
            t[k:k] = [r.choice(voc)]
        elif x < 0.65:
            t[k:k + 1] = []
        elif x < 0.85 and k < len(t):
            t[k] = r.choice(voc)
        else:
            t = t[k:] + t[:k]
    return t


def pair(r, n=8):
    voc = [word(r, 3) for _ in range(r.randint(1, 5))]
    a = sent(r, voc, n)
    b = near(r, a, voc) if r.random() < 0.75 else sent(r, voc, n)
    if r.random() < 0.05:
        a = []
    if r.random() < 0.05:
        b = []
    return (a, b) if r.random() < 0.5 else (b, a)


def score_hist(r, scorers):
    h = []
    s = r.choice(scorers)
    ups = 0
    for _ in range(r.randint(4, 10)):
        if r.random() < 0.25:
            s = r.choice(scorers)
        x = r.random()
        sp = r.choice([0, 0, 1, 2])
        c, f = pair(r)
        if x < 0.35:
            h.append({"op": "sent", "s": s, "c": c, "r": f, "sp": sp})
        elif x < 0.6:
            ps = [pair(r, 7) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
            h.append({"op": "corpus", "s": s, "cs": [p[0] for p in ps], "rs": [p[1] for p in ps], "sp": sp})
        elif x < 0.93:
            h.append({"op": "bg", "s": s, "c": c, "r": f, "sp": sp})
            if r.random() < 0.6 and ups < 5:
                h.append({"op": "upd", "s": s, "d": r.choice([0, 1, 2, 3, 4])})
                ups += s == "bleu"
        else:
            h.append({"op": "reset", "s": s})
            if s == "bleu":
                ups = 0
    return h


def file_hist(r):
    h = []
    for _ in range(r.randint(2, 5)):
        ps = [pair(r, 7) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
        cs, rs = [p[0] for p in ps], [p[1] for p in ps]
        x = r.random()
        if x < 0.1 and cs:
            cs = cs[:-r.randint(1, len(cs))]
        elif x < 0.2 and rs:
            rs = rs[:-1]
        h.append({"op": "file", "prog": r.choice(["scorer", "scorer", "bleu", "bleu", "bleusm"]), "s": r.choice(sorted(SC)), "cs": cs, "rs": rs,
                  "sp": r.choice([0, 0, 1, 2])})
    return h


def mira_hist(r, n=3):
    h = []
    for _ in range(n):
        nf = r.choice([1, 2, 2, 3])
        closed = r.random() < 0.7
        m = r.choice([1, 1, 2, 3]) if closed else 1
        J = r.choice([1, 2, 3, 4, 6, 9] if m == 1 else [1, 2, 3, 4] if m == 2 else [1, 2])
        lo = r.choice([0, 0, -3])
        ss = [[{"f": [r.randint(-2, 2) for _ in range(nf)], "q0": r.randint(lo, 3), "q1": r.randint(lo, 3), "s": r.randint(lo, 3)}
               for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4]))] for _ in range(m)]
        if r.random() < 0.5:      # background corpus without effect
            for s in ss:
                for x in s:
                    x["q1"] = x["q0"]
        if r.random() < 0.15:     # no quality at all
            for s in ss:
                for x in s:
                    x["s"] = min(x["s"], 0)
        R = r.choice([1, 1, 1, 2]) if m * J <= 6 else 1
        h.append({"op": "mira", "c": r.choice([0, 1, 2, 3, 5, 7]), "g": r.choice([1, 2, 4]), "J": J, "E": r.choice([0, 1, 2, 20]), "R": R,
                  "w0": [r.randint(-4, 8) for _ in range(nf)], "sents": ss, "closed": closed})
    return h


def llwu_hist(r):
    h = []
    for _ in range(r.randint(1, 3)):
        nf = r.randint(1, 4)
        voc = [word(r, 3) for _ in range(4)]
        va = [] if r.random() < 0.3 else [r.choice([0, 1, 1]) for _ in range(nf if r.random() < 0.9 else nf + 1)]
        ss = [{"ref": sent(r, voc, 5), "n": [{"f": [r.randint(-9, 9) for _ in range(nf)], "t": sent(r, voc, 5)} for _ in range(r.randint(0, 4))]}
              for _ in range(r.randint(0, 3))]
        h.append({"op": "llwu", "w0": [r.randint(-8, 8) for _ in range(nf)], "va": va, "sents": ss})
    return h


def check(c):
    q = c.thorough
    prog = lambda n, s: c.build(n, [os.path.join(SRC, "stack_dec/%s.cc" % n)], groups=G, srcs=s, main_ini="master.ini")
    b = c.build("mira", ["mira.cc"], groups=G, srcs=["stack_dec/KbMiraLlWu.cc"] + sum(SC.values(), []))
    for s in SC:
        c.build("mira_%s.so" % s, [os.path.join(SRC, "stack_dec/%s.cc" % FAC[s])], groups=G, srcs=SC[s], shared=True)
    c.build("rec_updater.so", ["rec_updater.cc"], shared=True)
    args = [prog("thot_scorer", ["stack_dec/DynClassFactoryHandler.cc"]), prog("thot_calc_bleu", ["stack_dec/bleu.cc"]),
            prog("thot_ll_weight_upd_nblist", ["stack_dec/DynClassFactoryHandler.cc"]), c.work]
    c.model_check("mira/MiraMC", "MiraMC_score%s.cfg" % ("" if q else "3"))
    c.model_check("mira/MiraMC", "MiraMC_mira.cfg")
    for w, n in (("score", 1600), ("mira", 1500)):
        beh = c.generate("mira/MiraMC", "MiraGen_%s.cfg" % w)
        if not q and len(beh) > n:
            beh = c.rng.sample(beh, n)
        c.conformance(*T, b, beh, args=args, label="all %s" % ("pairs of short sentences" if w == "score" else "small weight updates"))
    names = sorted(SC)
    c.conformance(*T, b, [score_hist(c.rng, names) for _ in range(12000 if q else 900)], args=args, label="scores")
    c.conformance(*T, b, [mira_hist(c.rng) for _ in range(12000 if q else 1000)], args=args, label="weight updates")
    c.conformance(*T, b, [file_hist(c.rng) for _ in range(1500 if q else 100)] + [llwu_hist(c.rng) for _ in range(1500 if q else 100)], args=args, label="programs")
    A, B, C = [97], [98], [99]
    bad = [
        ("BLEU above one", [{"op": "corpus", "s": "bleu", "cs": [[A, B]], "rs": [[A, B]], "sp": 0, "out": {"bad": False, "z": False, "v": 25000}}]),
        ("matches counted twice", [{"op": "sent", "s": "bleu", "c": [A, A], "r": [A], "sp": 0, "out": {"bad": False, "z": False, "v": 0}}]),
        ("WER without substitutions", [{"op": "sent", "s": "wer", "c": [A, B], "r": [A, C], "sp": 0, "out": {"bad": False, "z": False, "v": 0}}]),
        ("NaN", [{"op": "sent", "s": "gtm", "c": [A], "r": [B], "sp": 0, "out": {"bad": True, "z": True, "v": 0}}]),
        ("weights lost", [{"op": "mira", "c": 2, "g": 2, "J": 1, "E": 0, "R": 1, "w0": [4], "closed": False, "resets": 1, "bad": False, "w": [],
                           "sents": [[{"f": [1], "q0": 0, "q1": 0, "s": 0}]]}]),
        ("variables mixed up", [{"op": "llwu", "w0": [4, 8], "va": [1, 0], "sents": [], "rc": 0, "found": True, "w": [0, 2000],
                                 "got": [{"refs": [], "nb": [], "f": [], "w": [4]}]}])]
    for why, t in bad:
        c.must_reject(*T, t, why)
    c.assumptions += ["The exact values of logarithms come from a table (10^-5); scores are compared with a tolerance of about 10^-4 (chrF: 6 10^-4).",
                      "GTM takes common n-grams of the same length in any order, so each of the resulting scores is allowed.",
                      "Weight updates whose steps are not exact in binary fractions of 1/4096 are not determined by the specification."]


main("C19", check)
