import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

VOC, ENC = ["s", "t", "ps", "pt", "ss", "st"], ["lm", "ienc", "enc"]
WORDS = ["a", "b", "c", "d", "é", "1", "NULL", "UNKNOWN_WORD", "<UNUSED_WORD>", "<unk>", "<s>", "</s>", "<sp_sym1>", "x" * 300]


def words(rng):
    return WORDS + ["w%d" % rng.randrange(40) for _ in range(6)] + ["".join(chr(rng.choice(list(range(33, 127)) + list(range(0xa1, 0x17f)))) for _ in range(rng.randint(1, 4))) for _ in range(3)]


def line(enc, w, i, *x):
    return {"t": ([w, str(i)] if enc else [str(i), w]) + list(x), "i": i}


def file(rng, enc, ws):
    n = rng.randint(0, 12)
    if enc:
        # distinct words with distinct codes; standard symbols keep theirs
        ws = sorted(set(ws) - {"<unk>", "<s>", "</s>", "<sp_sym1>"})
        ws = rng.sample(ws, min(n, 10, len(ws)))
        codes = rng.sample(range(4, rng.choice([20, 60, 1000000])), len(ws))
        return [line(True, w, i) for w, i in zip(ws, codes)]
    z = rng.random()
    if z < 0.5:  # GIZA file, counts in the third column
        ws = rng.sample(sorted(set(ws)), min(n, 10, len(set(ws))))
        f, o = [], rng.choice([2, 3, 3, 0, 17])
        for w in ws:
            f.append(line(False, w, o, str(rng.randint(1, 99))))
            o += rng.choice([1, 1, 1, 2, 5])
        rng.shuffle(f)
        return f
    f = [line(False, rng.choice(ws), rng.choice([rng.randint(0, 9), rng.randint(0, 20), 2000000000])) for _ in range(n)]
    if z > 0.8 and f:
        f.insert(rng.randrange(len(f)), {"t": rng.choice([["7"], [], ["7", "a", "1", "2"]]), "i": 7})
    return f


def rand_hist(rng):
    vs = rng.choice([["s", "t"], ["s", "t"], ["ps", "pt"], ["ss", "st"], ["lm"], ["ienc"], ["enc"], ["s", "lm"]])
    enc = vs[0] in ENC
    if vs == ["s", "lm"]:
        vs = ["s", "t"] if rng.random() < 0.5 else ["lm"]
        enc = vs[0] in ENC
    ws = rng.sample(words(rng), rng.randint(3, 15))
    h, fs = [], []
    for _ in range(rng.randint(5, 40)):
        v, z = rng.choice(vs), rng.random()
        if z < 0.3:
            h.append({"op": "add", "v": v, "ws": [rng.choice(ws)]})
        elif z < 0.42:
            h.append({"op": "add", "v": v, "ws": [rng.choice(ws) for _ in range(rng.randint(2, 6))]})
        elif z < 0.55:
            h.append({"op": "codes", "v": v, "ws": [rng.choice(ws) for _ in range(rng.randint(1, 4))]})
        elif z < 0.65:
            h.append({"op": "names", "v": v, "is": [rng.choice([rng.randint(0, 12), rng.randint(0, 25)]) for _ in range(rng.randint(1, 4))]})
        elif z < 0.72:
            h.append({"op": rng.choice(["size", "all"]), "v": v} if v != "lm" or rng.random() < 0.5 else {"op": "bounds", "v": v})
        elif z < 0.80:
            fs.append("f%d" % rng.randint(0, 2))
            h.append({"op": "print", "v": v, "f": fs[-1]})
        elif z < 0.85:
            fs.append("f%d" % rng.randint(0, 2))
            h.append({"op": "write", "f": fs[-1], "lines": file(rng, enc, ws)})
        elif z < 0.97:
            if fs:
                h.append({"op": "load", "v": v, "f": rng.choice(fs) if rng.random() < 0.95 else "none"})
        else:
            h.append({"op": "clear", "v": v})
    for v in vs:
        for w in ws:
            h.append({"op": "codes", "v": v, "ws": [w]})
        h += [{"op": "names", "v": v, "is": [i]} for i in range(16)] + [{"op": "all", "v": v}]
    return h


def long_hist(rng):
    v, h = rng.choice(VOC + ENC), []
    for k in range(rng.randint(100, 400)):
        h.append({"op": "add", "v": v, "ws": ["w%d" % rng.randrange(500)]})
    return h + [{"op": "print", "v": v, "f": "f"}, {"op": "clear", "v": v}, {"op": "load", "v": v, "f": "f"}, {"op": "add", "v": v, "ws": ["new"]}, {"op": "all", "v": v}] + \
        [{"op": "codes", "v": v, "ws": ["w%d" % k]} for k in range(0, 500, 7)]


def check(c):
    b = c.build("vocab", ["vocab.cc"], groups=["nlp_common_defs", "phrase_models_defs", "sw_models_defs", "incr_models_defs"], srcs=["phrase_models/HatTriePhraseTable.cc", "downhill_simplex/step_by_step_dhs.c"], extra=["-D_GLIBCXX_ASSERTIONS"])
    c.model_check("vocab/VocabMC", "VocabMC.cfg")
    beh = c.generate("vocab/VocabMC", "VocabGen.cfg")
    c.rng.shuffle(beh)
    T = ("vocab/VocabTrace", "VocabTrace.cfg")
    ok = c.conformance(*T, b, beh if c.thorough else beh[:3000], label="histories of one vocabulary")
    ren = {"s": VOC, "ienc": ["lm", "ienc"], "enc": ["enc"]}
    other = [[dict(e, v=n) if "v" in e else e for e in h] for h in beh[3000:6000] for n in [c.rng.choice(ren[[e["v"] for e in h if "v" in e][0]])]]
    c.conformance(*T, b, other, label="the same in the models that hold a vocabulary")
    c.conformance(*T, b, [rand_hist(c.rng) for _ in range(40000 if c.thorough else 1800)] + [long_hist(c.rng) for _ in range(200 if c.thorough else 24)], label="random histories")
    if ok:
        t, _ = c.run_harness(b, [[{"op": "add", "v": "s", "ws": ["a"]}, {"op": "add", "v": "s", "ws": ["b"]}]])
        t[0][1]["out"] = t[0][0]["out"]
        c.must_reject(*T, t[0], "two words with the same index")
    c.assumptions += ["words without blanks, not empty", "files of encoders give each word one code and each code to one word"]


main("C04", check)
