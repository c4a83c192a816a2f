import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

PA, PE, SA, SE, TA, TE = "<phr_pair_annot>", "</phr_pair_annot>", "<src_segm>", "</src_segm>", "<trg_segm>", "</trg_segm>"
TAGS = [PA, PE, SA, SE, TA, TE]
W = ["a", "b", "c", "d"]
ODD = ["<", ">", "/", "<phr_pair_annot", "<b>", "<x", "phr_pair_annot", "</", "é", "<src_segm", "\"", "\\", "&lt;"]


def words(rng, a, b, odd=0.0):
    return [rng.choice(ODD) if rng.random() < odd else rng.choice(W) for _ in range(rng.randint(a, b))]


def spaced(rng, tk, loose):
    """Pieces: tokens with blanks between them; in loose mode tags may touch and blanks repeat."""
    p = []
    for k, t in enumerate(tk):
        if k and not (loose and (t in TAGS or tk[k - 1] in TAGS) and rng.random() < 0.5):
            p += [" "] if not loose else rng.choice([[" "], [" ", " "], ["\t"], [" ", "\t"]])
        p.append(t)
    if loose:
        p = rng.choice([[], [" "], ["\t"]]) + p + rng.choice([[], [" "], [" ", " "]])
    return p


def annotated(rng, odd):
    """Tokens, plain words and constraints [a, b, target]."""
    tk, s, cs = [], [], []
    for _ in range(rng.randint(0, 4)):
        if rng.random() < 0.5:
            src, trg = words(rng, 1, 3, odd), words(rng, 1, 3, odd)
            cs.append((len(s) + 1, len(s) + len(src), trg))
            tk += [PA, SA] + src + [SE, TA] + trg + [TE, PE]
            s += src
        else:
            w = words(rng, 1, 2, odd)
            tk += w
            s += w
    return tk, s, cs


def xml(rng):
    odd = rng.choice([0, 0, 0.2])
    tk, s, cs = annotated(rng, odd)
    if rng.random() < 0.4 and tk:
        for _ in range(rng.randint(1, 2)):
            k = rng.randrange(len(tk))
            z = rng.random()
            if z < 0.4:
                tk = tk[:k] + tk[k + 1:]
            elif z < 0.7:
                tk = tk[:k] + [rng.choice(TAGS + W)] + tk[k:]
            else:
                tk = tk[:k] + [rng.choice(TAGS)] + tk[k + 1:]
            if not tk:
                break
    if rng.random() < 0.05:
        return {"op": "xml", "p": rng.choice([[], [" "], ["\t", " "]])}, [], []
    return {"op": "xml", "p": spaced(rng, tk, rng.random() < 0.5)}, s, cs


def field(rng, ws, bad):
    if rng.random() < bad:
        return {"k": rng.choice(["missing", "num", "null", "arr"]), "v": []}
    return {"k": "str", "v": spaced(rng, ws, rng.random() < 0.3)}


def json_(rng):
    if rng.random() < 0.12:
        z = rng.random()
        t = spaced(rng, words(rng, 1, 4, 0.1) if z < 0.6 else rng.choice([["3", "a"], ["\"x\"", "y"], ["[1]"], ["null"], ["[]", "a"], ["-", "b"]]), False)
        return {"op": "json", "doc": {"k": "text", "text": t}}, [], []
    bad = rng.choice([0, 0, 0.25])
    s = words(rng, 0, 7, rng.choice([0, 0.1]))
    src = field(rng, s, bad)
    if src["k"] != "str":
        s = []
        if rng.random() < 0.5:
            src = {"k": rng.choice(["none", "notobj"]), "v": []}
    tags, cs, i = [], [], 0
    for _ in range(rng.randint(0, 3)):
        if rng.random() < bad:
            tags.append({"k": rng.choice(["num", "strv", "null"])})
            continue
        if s and rng.random() < 0.85:
            a = min(len(s) - 1, i + rng.randint(0, 2))
            o = s[a:a + rng.randint(1, 3)]
            i = a + len(o)
            if rng.random() < 0.2:  # runs over the end of the sentence
                o = o + words(rng, 1, 1)
        else:
            o = words(rng, 0, 3)
        t = words(rng, 1, 2) if rng.random() < 0.9 else []
        tags.append({"k": "obj", "o": field(rng, o, bad / 2), "t": field(rng, t, bad / 2)})
        if o:
            cs.append((max(1, i - len(o) + 1), max(1, i), t))
    tk = rng.choice(["arr"] * 9 + ["none", "obj"])
    return {"op": "json", "doc": {"k": "obj", "src": src, "tk": tk, "tags": tags if tk == "arr" else []}}, s, cs


def deriv(rng, n, cs):
    """A translation of all or some of the n source words, often along the constraints."""
    seg, i = [], 1
    while i <= n:
        c = [x for x in cs if x[0] == i]
        b = c[0][1] if c and rng.random() < 0.85 else min(n, i + rng.randint(0, 2))
        seg.append((i, b))
        i = b + 1
    if rng.random() < 0.5:
        rng.shuffle(seg)
    if rng.random() < 0.5:
        seg = seg[:rng.randint(0, len(seg))]
    cuts, trg = [], []
    for a, b in seg:
        c = [x for x in cs if (x[0], x[1]) == (a, b)]
        t = list(c[0][2]) if c and rng.random() < 0.85 else words(rng, 1, 2)
        if c and rng.random() < 0.15:
            t = rng.choice([t + ["z"], t[:-1] or ["z"], t[:-1] + ["z"]])
        trg += t or ["z"]
        cuts.append(len(trg))
    return {"seg": [list(x) for x in seg], "cuts": cuts, "trg": trg}


def rand_hist(rng):
    h = []
    for _ in range(rng.randint(1, 3)):
        e, s, cs = xml(rng) if rng.random() < 0.55 else json_(rng)
        if rng.random() < 0.2:
            e["v"] = 1
        h.append(e)
        if rng.random() < 0.1:
            h.append({"op": "clear"})
        h.append({"op": "cset"})
        n = len(s)
        for c in cs:
            h.append({"op": "trans", "a": c[0], "b": c[1]})
        for _ in range(3):
            a, b = sorted((rng.randint(1, n + 1), rng.randint(1, n + 1)))
            h += [{"op": "aff", "a": a, "b": b}, {"op": "trans", "a": a, "b": b}]
        h += [{"op": "sat", "d": deriv(rng, n, cs)} for _ in range(4)]
        h.append({"op": "pure"})
        if rng.random() < 0.1:
            h += [{"op": "clear"}, {"op": "cset"}, {"op": "sat", "d": deriv(rng, n, cs)}]
    return h


def check(c):
    b = c.build("metadata", ["metadata.cc"], groups=["nlp_common_defs"], srcs=["stack_dec/PhrScoreInfo.cc"], extra=["-D_GLIBCXX_ASSERTIONS"])
    c.model_check("meta/MetadataMC", "MetadataMC.cfg")
    beh = c.generate("meta/MetadataMC", "MetadataGen.cfg")
    c.rng.shuffle(beh)
    T = ("meta/MetadataTrace", "MetadataTrace.cfg")
    ok = c.conformance(*T, b, beh if c.thorough else beh[:1500], label="annotated sentences with one token changed")
    c.conformance(*T, b, [rand_hist(c.rng) for _ in range(60000 if c.thorough else 3000)], label="random inputs in both formats")
    if ok:
        t, _ = c.run_harness(b, [[{"op": "xml", "p": [PA, " ", SA, " ", "a", " ", SE, " ", TA, " ", "x", " ", TE, " ", PE]}, {"op": "sat", "d": {"seg": [[1, 1]], "cuts": [1], "trg": ["y"]}}]])
        t[0][1]["out"] = True
        c.must_reject(*T, t[0], "a constraint ignored")
    c.assumptions += ["sentences of up to about 12 words", "text that is not a JSON object is taken as the sentence"]


main("C14", check)
