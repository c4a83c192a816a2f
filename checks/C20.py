import sys, os, re, glob, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

T = ("preproc/PreprocTrace", "PreprocTrace.cfg")
U = os.path.join(REPO, "utils")


def o(s):
    return [ord(c) for c in s]


PIECES = ["a", "b", "The", "house", "HOUSE", "Madrid", "question", "x1", "12", "7", "3.14", "2,5", "1999", "10am", "é", "Él", "año", "ÁRBOL", "e", "I",
          "a.m.", "Mr.", "5kg", "2.5kg", "-5", "1e5", "1.e3", ".5", "5.", "+7", "3-4", "well-known", "R&D", "John's", "o_o", ":)", "<3", "..", "...",
          "(", ")", "!", "?", "?!", ",", ".", ";", ":", "-", "'", "\"", "$", "%", "/", "<", ">", "=", "<x>", "<number>", "<digit>", "a1b2", "1a", "xD", "0", "00"]
FAKE = ["<length_limit>", "</length_limit>", "<src_segm>", "</phr_pair_annot>"]


def chunk(r):
    x = r.random()
    if x < 0.45:
        return r.choice(PIECES)
    if x < 0.8:
        return "".join(r.choice(PIECES) for _ in range(r.randint(2, 3)))
    if x < 0.9:
        return "".join(r.choice("abzAZ019!?()") for _ in range(r.randint(1, 7)))
    return "".join(r.choice("abE059.,-+&'éÀ") for _ in range(r.randint(1, 7)))


def plain(r, n, edge=True):
    s = r.choice([" ", " ", "  ", "\t"]).join(chunk(r) for _ in range(r.randint(0 if edge else 1, n)))
    if edge and r.random() < 0.4:
        s = r.choice(["", " ", "  "]) + s + r.choice(["", " "])
    return s


def inner(r, n):
    return r.choice(["", "", " "]) + plain(r, n, False) + r.choice(["", " "])


def parts(r):
    ps = []
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if x < 0.55:
            s = plain(r, 5)
            if ps and ps[-1]["t"] == "plain":
                continue
            if x < 0.03:
                s = s + " " + r.choice(FAKE[:2]) + " z"
            if s:
                ps.append({"t": "plain", "s": o(s)})
        elif x < 0.8:
            a, b = inner(r, 4), inner(r, 4)
            if r.random() < 0.5:      # the same categories on both sides
                w = a.split()
                r.shuffle(w)
                b = " ".join(w)
            ps.append({"t": "pair", "x": o(a), "y": o(b)})
        elif x < 0.9:
            ps.append({"t": "len", "s": o(r.choice(["", " "]) + str(r.choice([3, 12, 100])) + r.choice(["", " "]))})
        else:
            ps.append({"t": "forb", "s": o(inner(r, 4))})
    return ps or [{"t": "plain", "s": o("a")}]


def text_hist(r):
    return [{"op": r.choice(["tok", "tok", "lower", "cat", "cat", "rmx"]), "parts": parts(r), "sp": r.choice(["", " "])} for _ in range(r.randint(3, 8))]


VOC = ["a", "b", "12", "7", "x1", "3.5", "the", "<number>", "45", "y2", "8", "question"]


def categ(w):
    if w.isdigit():
        return "<number>" if len(w) > 1 else "<digit>"
    if w == "3.5":
        return "<number>"
    return "<alfanum>" if w in ("x1", "y2") else w


def decat(r):
    src = [r.choice(VOC) for _ in range(r.randint(1, 9))]
    segs, i = [], 0
    while i < len(src):
        j = min(len(src), i + r.randint(1, 4))
        segs.append([i + 1, j])
        i = j
    r.shuffle(segs)
    if r.random() < 0.15:
        segs = segs[:-1]
    trg, cuts = [], []
    for a, b in segs:
        p = [categ(w) for w in src[a - 1:b]]
        x = r.random()
        if x < 0.3:
            r.shuffle(p)
        elif x < 0.45:
            p[r.randrange(len(p)):r.randrange(len(p)) + 1] = [r.choice(["c", "<number>", "<digit>", "<alfanum>", "<common_word>", "12"])]
        elif x < 0.55:
            p += [r.choice(["c", "<number>", "<digit>"])]
        trg += p
        cuts.append(len(trg))
    x = r.random()
    if x < 0.06:
        trg += ["<number>", "z"]      # words which no segment covers
    elif x < 0.1:
        cuts = cuts[:-1]
    elif x < 0.14:
        segs = []
    return {"op": "decat", "src": list(map(o, src)), "trg": list(map(o, trg)), "segs": segs, "cuts": cuts,
            "ty": r.choice(["x", "Constraint", "logprob(p|t)"])}


def cased(r, w):
    return r.choice([w, w, w.capitalize(), w.upper()])


def rec_hist(r, script):
    voc = r.sample(["a", "b", "the", "house", "x1", "12", "question", "él", "ok."], r.randint(2, 5))
    sent = lambda n: [r.choice(voc) for _ in range(r.randint(0 if r.random() < 0.2 else 1, n))]
    h = []
    for _ in range(r.randint(1, 2)):
        raw = [r.choice([" ", " ", "  "]).join(cased(r, w) for w in sent(5)) for _ in range(r.randint(1, 7))]
        if not any(raw):
            raw[0] = "a"
        n = 3 if script else r.choice([1, 2, 2, 3, 3, 4])
        far = not script and r.random() < 0.35
        if far:      # the first word settles the case of a distant one
            d = r.randint(1, 4)
            mid = sent(d + 1)[:d - 1]
            raw, n = [], r.choice([d, d + 1, d + 1, d + 2])
            v = r.sample(voc, 2) + ["b"]
            for w, x in ((v[0], v[2].upper()), (v[1], v[2]), (v[1], v[2])):
                raw += [" ".join([w] + mid + [x] + sent(2)[:1])] * r.randint(1, 3)
        h.append({"op": "train", "kind": "rec", "raw": list(map(o, raw)), "n": n, "v": r.random() < 0.2, "mr": script})
        h.append({"op": "load", "q": r.choice([1, 2, 3])})
        ss = [[o(r.choice(["zz", "a7"]) if r.random() < 0.12 else w) for w in sent(5)] for _ in range(r.randint(1, 3))]
        if far:
            ss = [[o(w.lower()) for w in x.split()] for x in sorted(set(raw))]
        for _ in range(1 if script else 2):
            h.append({"op": "out", "q": 2 if script else r.choice([3, 3, 2] if far else [1, 2, 2, 3]), "w": [0, 0, 0, 1] if script else r.choice([[1, 0, 0, 1], [1, 1, 1, 1], [0, 0, 0, 1], [1, 0, 0, 0], [2, 0, 1, 1]]),
                      "sents": ss, "pipe": script})
    return h


def det_hist(r, script):
    voc = r.sample(["a", "b", "the", "12", "7", "x1", "question", "(", ")", ".", ",", "!", "12,7", "3.5"], r.randint(3, 6))
    word = lambda: "".join(r.choice(voc) for _ in range(r.choice([1, 1, 1, 2, 2, 3])))
    h = []
    for _ in range(r.randint(1, 2)):
        raw = [" ".join(word() for _ in range(r.randint(0 if r.random() < 0.15 else 1, 4))) for _ in range(r.randint(1, 6))]
        if not any(raw):
            raw[0] = "a."
        h.append({"op": "train", "kind": "det", "raw": list(map(o, raw)), "n": 3 if script else r.choice([1, 2, 2, 3, 3]), "par": r.random() < 0.4, "v": r.random() < 0.3})
        h.append({"op": "load", "q": r.choice([1, 2, 3])})
        if script:      # the script runs the training with its own options
            h[-2]["par"] = False
        ss = [[o("zz" if r.random() < 0.08 else r.choice(voc)) for _ in range(r.randint(0 if r.random() < 0.15 else 1, 6))] for _ in range(r.randint(1, 3))]
        for _ in range(1 if script else 2):
            h.append({"op": "out", "q": 2 if script else r.choice([1, 2, 2, 3]), "w": [1, 0, 0, 1] if script else r.choice([[1, 0, 0, 1], [1, 1, 1, 1], [0, 0, 0, 1], [1, 2, 0, 0], [2, 0, 1, 1]]),
                      "sents": ss, "pipe": script})
    return h


def clean_hist(r):
    h = []
    for _ in range(r.randint(2, 4)):
        x = r.random()
        n = r.randint(1, 30)
        srcs = [r.randint(0, 9) for _ in range(r.choice([1, 2, 3, 6]))]
        lens = []
        for _ in range(n):
            a = r.choice(srcs)
            b = max(0, a + r.choice([0, 0, 0, 1, -1, 2] if x < 0.8 else [0])) if r.random() < 0.85 else r.randint(0, 15)
            lens.append([a, b])
        h.append({"op": "clean", "lens": lens, "lo": r.choice([0, 1, 1, 2]), "hi": r.choice([80, 80, 9, 6]), "d": r.choice([4, 1, 1, 2, 3])})
        v = [o(w) for w in ("a", "b", "aa", "A")][:r.randint(1, 4)]
        ps = [[[r.choice(v) for _ in range(r.randint(1, 6))], [r.choice(v) for _ in range(r.randint(0, 6))]] for _ in range(r.randint(1, 4))]
        h.append({"op": "wer", "pairs": ps})
    return h


def setup(c):
    d = os.path.join(c.work, "smt")
    os.makedirs(d)
    for f in glob.glob(os.path.join(U, "smt_preproc", "*")) + [os.path.join(U, "stack_dec", "thot_calc_wer.py")]:
        if f.endswith(".py"):
            shutil.copy(f, d)
        elif f.endswith(".sh"):      # chunks of two sentences
            s = open(f, encoding="utf-8").read()
            open(os.path.join(d, os.path.basename(f)), "w", encoding="utf-8").write(re.sub(r"(?m)^chunk_size=\d+", "chunk_size=2", s))
    return d


def check(c):
    big = c.thorough
    b, args = os.path.join(VERIF, "harness", "preproc.py"), [setup(c), c.work]
    c.model_check("preproc/DecategMC", "DecategMC.cfg")
    c.model_check("preproc/LmMC", "LmMC.cfg")
    c.model_check("preproc/SearchMC", "SearchMC%s.cfg" % ("4" if big else ""))
    beh = c.generate("preproc/DecategMC", "DecategGen.cfg", simulate=6000 if big else 1200, depth=13)
    hs = [[dict(x, op="decat") for x in beh[i:i + 12]] for i in range(0, len(beh), 12)]
    r = c.rng
    k = 6 if big else 1
    hs += [[decat(r) for _ in range(8)] for _ in range(60 * k)]
    groups = [("text and categories", hs + [text_hist(r) for _ in range(220 * k)] + [clean_hist(r) for _ in range(60 * k)]),
              ("models and search", [rec_hist(r, False) for _ in range(150 * k)] + [det_hist(r, False) for _ in range(150 * k)]),
              ("scripts", [rec_hist(r, True) for _ in range(12 * k)] + [det_hist(r, True) for _ in range(8 * k)])]
    for name, g in groups:
        r.shuffle(g)
        c.conformance(*T, b, g, args=args, label=name, timeout=600)
    tr = c.run_harness(b, [[{"op": "train", "kind": "rec", "raw": [o("a A a"), o("A b")], "n": 2}, {"op": "load", "q": 2},
                            {"op": "out", "q": 2, "w": [1, 0, 0, 1], "sents": [[o("a"), o("b")]]}]], args)[0][0]
    for i, f in ((0, lambda e: e["lm"][0].update(c=e["lm"][0]["c"] + 1)), (1, lambda e: e["lp"][0].update(p=e["lp"][0]["p"] + 100)),
                 (2, lambda e: e.update(out=[[o("x"), o("b")]]))):
        t = json.loads(json.dumps(tr))
        f(t[i])
        c.must_reject(*T, t, "changed reply %d" % i)
    c.assumptions += ["text of ASCII and Latin-1 letters", "weights of the detokenizer and recaser are not negative"]


main("C20", check)
