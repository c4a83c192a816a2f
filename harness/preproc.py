#!/usr/bin/env python3
"""Runs the programs for pre- and post-processing text: one JSON history per input line, one JSON trace per output line.
Arguments: directory with a copy of the scripts, scratch directory."""
import contextlib, importlib, io, json, os, runpy, subprocess, sys, tempfile

DIR, WORK = sys.argv[1:3]
sys.dont_write_bytecode = True
sys.path.insert(0, DIR)
import thot_smt_preproc as pp

WD = tempfile.mkdtemp(dir=WORK)
os.chdir(WD)
TAGS = {"pair": ("<phr_pair_annot>%s<src_segm>", "</src_segm>%s<trg_segm>", "</trg_segm>%s</phr_pair_annot>"),
        "len": ("<length_limit>", "</length_limit>"), "forb": ("<forbidden_words>", "</forbidden_words>")}


def s(codes):
    return "".join(map(chr, codes))


def cs(words):
    return [[ord(c) for c in w] for w in words]


def text(parts, sp=""):
    r = ""
    for p in parts:
        if p["t"] == "plain":
            r += s(p["s"])
        elif p["t"] == "pair":
            a, b, c = (x % sp for x in TAGS["pair"])
            r += a + s(p["x"]) + b + s(p["y"]) + c
        else:
            a, b = TAGS[p["t"]]
            r += a + s(p["s"]) + b
    return r


def write(name, lines):
    with open(name, "w", encoding="utf-8", newline="") as f:
        f.write("".join(l + "\n" for l in lines))


def lines(t):
    return t[:-1].split("\n") if t.endswith("\n") else t.split("\n") if t else []


def prog(name, *args, inp=None):
    """Runs a script as a program in this process; its standard output."""
    old, out = sys.argv, io.StringIO()
    sys.argv = [name] + list(args)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(os.path.join(DIR, name + ".py"), run_name="__main__")
    except SystemExit as e:
        if e.code:
            raise RuntimeError("exit %s" % e.code)
    finally:
        sys.argv = old
    return out.getvalue()


def wrappers():
    d = os.path.join(WD, "bin")
    if not os.path.isdir(d):
        os.mkdir(d)
        for n in os.listdir(DIR):
            if n.endswith(".py") or n.endswith(".sh"):
                with open(os.path.join(d, n[:-3]), "w") as f:
                    if n.endswith(".py"):
                        f.write("#!/bin/sh\nexec '%s' -B '%s' \"$@\"\n" % (sys.executable, os.path.join(DIR, n)))
                    else:
                        f.write("#!/bin/sh\nexec bash '%s' \"$@\"\n" % os.path.join(DIR, n))
                os.chmod(os.path.join(d, n[:-3]), 0o755)
    return d


def script(name, *args):
    d = wrappers()
    env = dict(os.environ, bindir=d, AWK="awk", SORT="sort", SPLIT="split", GREP="grep", LC_ALL="C.UTF-8", sortT="yes", sortpars="")
    r = subprocess.run(["bash", os.path.join(DIR, name + ".sh")] + list(args), stdin=subprocess.DEVNULL, capture_output=True, timeout=100, env=env)
    if r.returncode:
        raise RuntimeError("%s: %d %s" % (name, r.returncode, r.stderr.decode()[-300:]))
    return r.stdout.decode()


def tm_list(name):
    r = []
    for l in lines(open(name, encoding="utf-8").read()):
        a, b = l.split(" ||| ")
        w = b.split(" ")
        r.append({"s": cs(a.split(" ")), "t": [ord(c) for c in " ".join(w[:-1])], "c": int(w[-1])})
    return r


def lm_list(name):
    r = []
    for l in lines(open(name, encoding="utf-8").read()):
        w = l.split(" ")
        r.append({"g": cs(w[:-1]), "c": int(w[-1])})
    return r


KIND = None


def train(q):
    global KIND
    KIND, raw = q["kind"], [s(x) for x in q["raw"]]
    write("raw", raw)
    n = str(q["n"])
    e = dict(q)
    for f in ("mod.tm", "mod.lm"):
        if os.path.exists(f):
            os.remove(f)
    if KIND == "rec":
        prog("thot_train_rec_tm", "-r", "raw", "-o", "mod", *(["-v"] if q.get("v") else []))
        if q.get("mr"):
            script("thot_train_rec_lm_mr", "-r", "raw", "-n", n, "-o", "mod", "-tdir", WD)
        else:
            prog("thot_train_rec_lm", "-r", "raw", "-n", n, "-o", "mod", *(["-v"] if q.get("v") else []))
    else:
        t = [x.split(" ") if x else [] for x in lines(prog("thot_tokenize", "-f", "raw"))]
        if q.get("par"):
            write("tok", [" ".join(x) for x in t])
        prog("thot_train_detok_model", "-r", "raw", "-o", "mod", "-n", n, *(["-t", "tok"] if q.get("par") else []), *(["-v"] if q.get("v") else []))
        e["toks"] = [cs(x) for x in t]
    e["tm"], e["lm"] = tm_list("mod.tm"), lm_list("mod.lm")
    return e


def load(q):
    e = dict(q)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        t, m, m0 = pp.TransModel(), pp.LangModel(), pp.LangModel()
        t.load(io.open("mod.tm", encoding="utf-8"))
        m.load(io.open("mod.lm", encoding="utf-8"))
        m.set_interp_prob(q["q"] / 4)
        f = io.open("raw", encoding="utf-8")
        if KIND == "rec":
            m0.train(f, m.get_n(), False)
        else:
            m0.train_tok_lm(f, m.get_n(), False)
        for x, n in ((t, "mod2.tm"), (m, "mod2.lm")):
            with io.open(n, "w", encoding="utf-8") as f:
                x.print_model_to_file(f)
    e["tm"], e["lm"] = tm_list("mod2.tm"), lm_list("mod2.lm")
    e["n"], e["tot"], e["tot0"] = m.get_n(), m.obtain_ng_count(""), m0.obtain_ng_count("")
    e["pr"] = [{"s": x["s"], "t": x["t"], "p": round(1e6 * t.obtain_trgsrc_prob(" ".join(map(s, x["s"])), s(x["t"])))} for x in e["tm"]]
    gs = [x["g"] for x in e["lm"]]
    gs += [gs[(3 * i) % len(gs)] + gs[i][-1:] for i in range(0, len(gs), 3)]
    e["lp"] = [{"g": g, "p": round(1e7 * m.obtain_trgsrc_interp_prob(" ".join(map(s, g)))),
                "r": round(1e7 * m.obtain_trgsrc_prob(" ".join(map(s, g))))} for g in gs if len(g) <= m.get_n()]
    return e


def out(q):
    write("in", [" ".join(map(s, x)) for x in q["sents"]])
    if q.get("pipe"):
        r = script("thot_detokenize" if KIND == "det" else "thot_recase", "-f", "in", "-r", "raw", "-tdir", WD)
    else:
        r = prog("thot_detok_translator" if KIND == "det" else "thot_rec_translator", "-f", "in", "-m", "mod", "-i", str(q["q"] / 4),
                 "-w", " ".join(map(str, q["w"])))
    return [cs(x.split(" ")) if x else [] for x in lines(r)]


def one(name, q):
    write("in", [text(q["parts"], q.get("sp", ""))])
    r = lines(prog(name, "-f", "in"))
    if len(r) != 1:
        raise RuntimeError("%d lines" % len(r))
    return r[0]


def play(q):
    e, op = dict(q), q["op"]
    if op == "tok":
        r = one("thot_tokenize", q)
        e["toks"] = cs(r.split(" ")) if r else []
    elif op == "lower":
        e["words"] = cs(one("thot_lowercase", q).split())
    elif op == "cat":
        e["words"] = cs(one("thot_categorize", q).split())
    elif op == "rmx":
        e["words"] = cs(one("thot_remove_xml_annotations", q).split())
    elif op == "decat":
        write("s", [" ".join(map(s, q["src"]))])
        write("t", [" ".join(map(s, q["trg"]))])
        info = "Score: -1 ; -1 -2 ; Score+heur: -1 | " + " ".join(map(s, q["trg"])) + " "
        if q["segs"]:
            info += "| Source Segmentation: " + "".join("( %d , %d ; type: %s ) " % (a, b, q.get("ty", "x")) for a, b in q["segs"])
        if q["cuts"]:
            info += "| Target Segmentation: " + "".join("%d " % x for x in q["cuts"])
        write("i", [info + "| hypkey: 1 | hypEqClass: 0 , 1"])
        r = lines(prog("thot_decategorize", "-s", "s", "-t", "t", "-i", "i"))
        if len(r) != 1:
            raise RuntimeError("%d lines" % len(r))
        e["words"] = cs(r[0].split(" ")) if r[0] else []
    elif op == "train":
        e = train(q)
    elif op == "load":
        e = load(q)
    elif op == "out":
        e["out"] = out(q)
    elif op == "clean":
        write("s", [" ".join(["a"] * a) for a, b in q["lens"]])
        write("t", [" ".join(["b"] * b) for a, b in q["lens"]])
        e["kept"] = [int(x) for x in lines(prog("thot_clean_corpus_ln", "-s", "s", "-t", "t", "-i", str(q["lo"]), "-a", str(q["hi"]), "-d", str(q["d"])))]
    elif op == "wer":
        write("r", [" ".join(map(s, a)) for a, b in q["pairs"]])
        write("t", [" ".join(map(s, b)) for a, b in q["pairs"]])
        w = lines(prog("thot_calc_wer", "-r", "r", "-t", "t"))[-1].split()
        e["wer"], e["errs"], e["words"] = round(10000 * float(w[1])), round(float(w[3])), round(float(w[5]))
    return e


for line in sys.stdin:
    trace = []
    for q in json.loads(line):
        try:
            trace.append(play(q))
        except Exception as x:
            trace.append(dict(q, exc="%s: %s" % (type(x).__name__, x)))
            break
    print(json.dumps(trace), flush=True)
