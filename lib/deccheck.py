"""The decoder checks C07 (plain decoding) and C08 (constrained decoding) share their harness and trace specification."""
from vlib import *
import decgen

GROUPS = ["nlp_common_defs", "error_correction_defs", "stack_dec_defs", "incr_models_defs", "phrase_models_defs"]


def decoder_check(c, kinds, cfg, seasoning):
    """kinds: the requests under check; seasoning: requests of the other sort mixed in, so that nothing leaks between requests."""
    c.model_check("decoder/DecoderMCdefs", cfg)
    b = c.build("decoder", ["decoder.cc"], groups=GROUPS)
    f = 12 if c.thorough else 1

    def runs(n, exact, label, ks=kinds, binary=b, nreq=None):
        return c.conformance("decoder/DecoderTrace", "DecoderTrace.cfg", binary,
                             [decgen.session(c.rng, ks, exact, nreq) for _ in range(n)], label=label)

    ok = runs(1800 * f, True, "searches that lose nothing")
    ok &= runs(2000 * f, False, "pruned searches")
    ok &= runs(200 * f, True, "sessions of many mixed requests", kinds + seasoning, nreq=6)
    ok &= runs(200 * f, False, "pruned sessions with over-long and empty requests", kinds + ["long"])
    if c.thorough:
        a = c.build("decoder_asan", ["decoder.cc"], groups=GROUPS, extra=["-fsanitize=address"])
        ok &= runs(1500, False, "pruned searches (address sanitizer)", binary=a)
    if ok:
        self_test(c, b, kinds)
    c.assumptions += ["component models return integers, weights are quarters (exactly representable)", "sentences of up to 4 words (and 0, 20, 160+)"]


def self_test(c, b, kinds):
    import copy
    for _ in range(50):
        s = decgen.session(c.rng, kinds, True, 1)
        t, e = c.run_harness(b, [s])
        if e:
            raise CheckError("self-test: " + e)
        t = t[0]
        i = next((k for k, x in enumerate(t) if x["op"] in kinds and x.get("r", {}).get("ok") and x["r"]["ws"]), None)
        if i is None:
            continue
        for what, f in [("score off by one", lambda r: r.__setitem__("sc", r["sc"] + 1)),
                        ("a component off by one", lambda r: r["comps"].__setitem__(3, r["comps"][3] - 1)),
                        ("a segment dropped", lambda r: (r["segs"].pop(), r["cuts"].pop())),
                        ("a word of the text changed", lambda r: r["txt"].__setitem__(0, r["txt"][0] + 1))]:
            u = copy.deepcopy(t)
            f(u[i]["r"])
            c.must_reject("decoder/DecoderTrace", "DecoderTrace.cfg", u, what)
        return
    raise CheckError("self-test found no complete translation")
