import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import hashlib

ASAN = ["-fsanitize=address", "-g"]
GROUPS = ["nlp_common_defs", "incr_models_defs", "sw_models_defs", "phrase_models_defs", "hattrie_pm_defs", "error_correction_defs",
          "stack_dec_defs", "downhill_simplex_defs"]
PLUGS = [("BaseWordPenaltyModel", "word_penalty_model"), ("BaseNgramLM", "incr_jel_mer_ngram_lm"), ("BaseSwAligModel", "incr_hmm_p0_alig_model"),
         ("BasePhraseModel", "incr_phrase_model"), ("BaseErrorCorrectionModel", "pfsm_ecm_for_wg"), ("BaseEcModelForNbUcat", "non_pb_ec_model_for_nb_ucat"),
         ("BaseWgProcessorForAnlp", "wg_processor_for_anlp__pfsm"), ("BaseScorer", "mira_bleu"), ("BaseLogLinWeightUpdater", "kb_mira_ll_wu"),
         ("BaseTranslationMetadata", "translation_metadata__phrscoreinfo"), ("BaseStackDecoder", "multi_stack_decoder_rec__pbtm"),
         ("BaseAssistedTrans", "wg_uncoupled_assisted_trans__pbtm")]
EXTRA = ["sw_models/CachedHmmAligLgProb.cc"]


def build(c):
    """The server (its own sources with the address sanitizer), the client, the plug-ins and a directory with models."""
    g = makefile_groups()
    ini = os.path.join(c.work, "master.ini")
    flags = c.cxxflags([], ini=ini)
    odir = os.path.join(c.work, "obj_" + hashlib.md5(b"").hexdigest()[:6])
    psrc = {k: [os.path.join(SRC, x) for x in g[k + "_factory_defs"]] for _, k in PLUGS}
    rs = [x for k in GROUPS for x in g[k]] + EXTRA + [x for v in psrc.values() for x in v]
    jobs = [(os.path.join(SRC, s), os.path.join(odir, s.replace("/", "__") + ".o"), flags) for s in dict.fromkeys(rs)]
    jobs.sort(key=lambda j: -("stack_dec" in j[0]))
    c.compile_many([j for j in jobs if not os.path.exists(j[1])])
    with open(ini, "w") as f:
        for name, k in PLUGS:
            f.write("%s ; %s ;\n" % (name, c.build(k + ".so", [], srcs=psrc[k], shared=True, whole=True, main_ini=ini)))
    socks = [os.path.join(SRC, x) for x in g["nlp_common_defs"] if x.endswith("BasicSocketUtils.cc")]
    server = link(c, "thot_server", [os.path.join(SRC, "stack_dec/thot_server.cc")] + socks, odir, ini, ASAN)
    client = link(c, "thot_client", [os.path.join(SRC, "stack_dec/thot_client.cc")] + socks, odir, ini, ASAN)
    mk = c.build("mkbase", ["mkbase.cc"], groups=GROUPS, srcs=EXTRA, main_ini=ini)
    base = os.path.join(c.work, "base")
    rc, o, e = run([mk, base])
    if rc != 0:
        raise CheckError("no models: " + e[-2000:])
    return server, client, base


def link(c, name, srcs, odir, ini, extra):
    """A program of the repository whose own sources are instrumented and whose libraries are not."""
    g = makefile_groups()
    objs = [os.path.join(c.work, name + "__" + os.path.basename(s) + ".o") for s in srcs]
    c.compile_many([(s, o, c.cxxflags(extra, ini=ini)) for s, o in zip(srcs, objs)])
    rs = [x for k in GROUPS for x in g[k] if not x.endswith("BasicSocketUtils.cc")] + EXTRA
    lib = [os.path.join(odir, s.replace("/", "__") + ".o") for s in dict.fromkeys(rs)]
    out = os.path.join(c.work, name)
    rc, o, e = run(["g++", "-pthread", "-rdynamic", "-fsanitize=address"] + objs + lib + list(LIBS) + ["-ldl", "-o", out], timeout=300)
    if rc != 0:
        raise CheckError("link of %s failed:\n%s" % (name, e[-4000:]))
    return out


ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1"}
W = ["a", "bb", "c", "s0", "s1"]
TW = {"a": ["aaw", "aqw"], "bb": ["Bw", "bbx"], "c": ["Cw", "aaz"]}
QUIET = ["tr", "cov", "train", "print", "reset", "ecm"]     # requests whose unobserved result does not matter for what follows


def sent(r, n=3, blank=0.0):
    if r.random() < blank:
        return ""
    return " ".join(r.choice(W) for _ in range(r.randint(1, n)))


def request(r, u, ops=None):
    w = {"tr": 4, "trh": 2, "train": 4, "cov": 2, "cat": 3, "add": 5, "reset": 1.5, "print": 1, "ecm": 0.6}
    if ops:
        w = {k: w.get(k, 1) for k in ops}
    op = r.choices(list(w), list(w.values()))[0]
    q = {"op": op, "u": u}
    if op in ("tr", "trh", "cat"):
        q["x"] = sent(r, 60 if r.random() < 0.01 else 4, 0.04)
        if r.random() < 0.02:
            q["x"] += "w" * r.choice([500, 511, 512, 513, 1030, 1800])
    elif op == "train":
        x = r.choice(W[:3])
        q.update({"x": x, "y": r.choice(TW[x])})
        if r.random() < 0.08:
            q[r.choice("xy")] = ""
    elif op == "cov":
        q["x"] = sent(r, 2, 0.04)
        q["y"] = " ".join("t" + w[1] if w[0] == "s" else r.choice(TW[w]) for w in q["x"].split())
        if r.random() < 0.2:
            q["y"] = r.choice(["t0", "t1 t0", "zz", "", "Bw Cw"])
    elif op == "add":
        q["x"] = r.choice(["X ", "aaw", "aa", "aaw ", "t0 ", "Bw ", " ", "a", "t", "Cw Bw ", "bb"])
    elif op == "ecm":
        q.update({"x": "ab", "y": "ac"})
    return q


def junk(r, u=0):
    n = r.choice([0, 1, 3, 4, 7, 40])
    return {"op": "junk", "code": r.choice([0, 10, 12, 13, -1, 99, 2 ** 31 - 1, -2 ** 31, 256]), "u": u, "bytes": [r.randint(0, 255) for _ in range(n)]}


def cli(r, q):
    """Issued by the real client program if it can express the request."""
    if q["op"] in ("ecm", "junk") or any(q.get(k) == "" or q.get(k, "").startswith("-") for k in "xy") or r.random() > 0.12:
        return q
    return dict(q, cli=True)


def quitter(r, u):
    if r.random() < 0.25:
        # what the header announces never arrives
        return dict({"op": "junk", "code": r.choice([1, 2, 3, 4, 5, 6, 7]), "u": u, "leave": 10 ** 6},
                    bytes=list(r.choice([struct.pack(">i", -1), struct.pack(">i", 2 ** 31 - 1), struct.pack(">i", -2 ** 31), struct.pack(">i", 1 << 20) + b"abc", struct.pack(">i", 5) + b"ab"])))
    q = request(r, u, QUIET)
    q["leave"] = r.choice([0, 1, 4, 7, 8, 9, 11, 12, 13, 16, 20, 10 ** 6])
    z = r.random()
    if z < 0.3:
        q["rst"] = True
    elif z < 0.6:
        q["shut"] = True
    return q


def par(r, n=4):
    k = r.randint(2, 4)
    mode = r.choice(["own", "own", "shared", "far"])
    ths = []
    for t in range(k):
        qs = []
        for _ in range(r.randint(1, n)):
            u = t if mode == "own" else r.choice([0, 1]) if mode == "shared" else r.choice([0, 3, 7])
            z = r.random()
            qs.append(quitter(r, u) if z < 0.12 else junk(r, u) if z < 0.16 else cli(r, request(r, u)))
        ths.append(qs)
    return {"op": "par", "threads": ths, "seed": r.randint(1, 1 << 30)}


def end(r):
    return {"op": "end", "cli": True} if r.random() < 0.2 else {"op": "end"}


def history(r, deep):
    h = [{"op": "start"}]
    for _ in range(r.choice([1, 1, 2] if not deep else [1, 2, 3])):
        h.append(par(r, 6 if deep else 4))
        if r.random() < 0.3:
            h += [end(r), {"op": "start"}]
    if r.random() < 0.3:        # the server is asked to end while the others go on
        p = par(r, 2)
        p["threads"] = [[q for q in t if not q.get("leave")][:2] for t in p["threads"][:2]]
        h.append(p)
    return h + [end(r)]


def concrete(r, beh):
    """Clients of Server: what each one asks, and the order in which they act."""
    reqs = {}
    for c, k in enumerate(beh["k"], 1):
        leaves = [c, "leave"] in beh["s"]
        u = r.choice([0, 0, 1, 5])
        reqs[str(c)] = {"op": "end", "u": u} if k == "end" else junk(r, u) if k == "junk" else request(r, u, QUIET if leaves else None)
    warm = [par(r, 2)] if r.random() < 0.3 else []
    steps = [[str(a), b] for a, b in beh["s"]]
    h = [{"op": "start"}] + warm + [{"op": "run", "reqs": reqs, "steps": steps, "seed": r.randint(1, 1 << 30)}]
    if any(k == "end" and [c, "header"] in beh["s"] for c, k in enumerate(beh["k"], 1)):
        return h        # the server was asked to end
    return h + ([par(r, 2)] if r.random() < 0.3 else []) + [end(r)]


def bad():
    st = {"op": "start", "n": 0}
    call = lambda t, **k: dict({"e": "call", "t": t}, **k)
    tr = call(1, op="tr", u=0, x="s0")
    en = call(2, op="end", u=0)
    return [
        ("the reply to somebody else", [st, {"op": "par", "ev": [tr, call(2, op="tr", u=1, x="s1"), {"e": "ret", "t": 1, "r": "t1"}, {"e": "ret", "t": 2, "r": "t0"}]}]),
        ("a request which is never answered", [st, {"op": "par", "ev": [tr]}]),
        ("a client refused before anybody asked the server to end", [st, {"op": "run", "ev": [tr, en, {"e": "refused", "t": 1}, {"e": "ret", "t": 2, "n": 0}, {"e": "exit", "n": 0}]}]),
        ("a reply which cannot be understood", [st, {"op": "par", "ev": [tr, {"e": "malformed", "t": 1, "why": ""}]}]),
        ("the server dies", [st, {"op": "par", "ev": [tr, {"e": "died", "t": 1, "n": -6, "why": ""}]}]),
        ("the server ends although nobody asked for it", [st, {"op": "par", "ev": [tr, {"e": "ret", "t": 1, "r": "t0"}, {"e": "exit", "n": 0}]}]),
        ("the server ends without answering", [st, {"op": "run", "ev": [tr, en, {"e": "ret", "t": 2, "n": 0}, {"e": "exit", "n": 0}]}]),
        ("the server ends badly", [st, {"op": "end", "ev": [en, {"e": "ret", "t": 2, "n": 0}, {"e": "exit", "n": 1}]}]),
        ("the server does not end", [st, {"op": "end", "ev": [en, {"e": "ret", "t": 2, "n": 0}, {"e": "noexit"}]}]),
        ("training lost", [st, {"op": "par", "ev": [call(1, op="train", u=0, x="a", y="aaw"), {"e": "ret", "t": 1, "n": 0}, call(2, op="tr", u=1, x="a"), {"e": "ret", "t": 2, "r": "a"}]}]),
        ("an incomplete request takes effect", [st, {"op": "par", "ev": [call(1, op="train", u=0, x="a", y="aaw"), {"e": "left", "t": 1, "full": False},
                                                                        call(2, op="tr", u=1, x="a"), {"e": "ret", "t": 2, "r": "aaw"}]}]),
        ("what was printed is not there after a restart", [st, {"op": "par", "ev": [
            call(1, op="train", u=0, x="a", y="aaw"), {"e": "ret", "t": 1, "n": 0}, call(2, op="print", u=0), {"e": "ret", "t": 2, "n": 0}]},
            {"op": "end", "ev": [call(3, op="end", u=0), {"e": "ret", "t": 3, "n": 0}, {"e": "exit", "n": 0}]}, st,
            {"op": "par", "ev": [call(4, op="tr", u=0, x="a"), {"e": "ret", "t": 4, "r": "a"}]}]),
    ]


def evidence(trace):
    """Recorded behaviour which does not depend on how long something took."""
    ev = [x for e in trace for x in e.get("ev", [])]
    return not any(x["e"] == "noexit" or "no reply" in str(x.get("why", "")) for x in ev)


def idle(c, drv, args):
    """A client which connects and sends nothing (known finding: the others wait for it)."""
    h = [{"op": "start"}, {"op": "idle", "u": 0, "x": "s0"}, {"op": "end"}]
    t, err = c.run_harness(drv, [h], args, 300, ENV)
    if err is not None:
        c.violation("an idle client makes the server fail", {"history": h, "error": err})
        return
    e = [x for x in t[0] if x["op"] == "idle"]
    if e and e[0].get("answered") is False and c.known("idle"):
        c.notes.append("the request of a client waits while another client is connected and has sent nothing (known finding)")
    elif not e or not e[0].get("answered"):
        c.violation("a request is not answered while an idle client is connected", {"history": h, "trace": t[0]})


def body(c):
    server, client, base = build(c)
    args = [server, client, base]
    drv = os.path.join(VERIF, "harness", "server.py")
    big = c.thorough
    c.model_check("server/Server", "Server.cfg", timeout=600)
    if big:
        c.model_check("server/Server", "Server3.cfg", timeout=1800)
    for why, t in bad():
        c.must_reject("tdec/ServerTrace", "ServerTrace.cfg", t, why)
    r = c.rng
    behs = c.generate("server/ServerGen", "ServerGen.cfg", simulate=12000 if big else 400, depth=60)
    ok = c.conformance("tdec/ServerTrace", "ServerTrace.cfg", drv, [concrete(r, x) for x in behs], args=args, trust=evidence, label="clients of the protocol specification", env=ENV, timeout=600)
    if ok:
        idle(c, drv, args)
    for k in range(12 if big else 1):
        if not ok:
            break
        ok = c.conformance("tdec/ServerTrace", "ServerTrace.cfg", drv, [history(r, big) for _ in range(700)], args=args, trust=evidence, label="concurrent clients", env=ENV, timeout=600)


if __name__ == "__main__":
    import struct
    main("C13", body)
