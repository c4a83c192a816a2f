import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def rand_hist(rng):
    ns, nc = rng.randint(1, 14), rng.randint(1, 4)
    cls = {s: rng.randint(1, nc) * rng.choice([1, 1, 1, 500]) for s in range(1, ns + 1)}
    det = rng.random() < 0.4
    hi = rng.choice([2, 5, 20, 1000])
    h = [{"op": "max", "n": rng.choice([1, 1, 2, 3, 5, 50])}, {"op": "bf", "b": rng.random() < 0.4}]
    for i in range(rng.randint(5, 60)):
        x = rng.random()
        if x < 0.6:
            s = rng.randint(1, ns)
            h.append({"op": "push", "h": {"id": i, "st": s, "cls": cls[s] if det or rng.random() < 0.7 else rng.choice(list(cls.values())), "sc": rng.randint(-hi, hi)}})
        elif x < 0.83:
            h.append({"op": "pop"})
        elif x < 0.9:
            h.append({"op": rng.choice(["top", "last"])})
        elif x < 0.92:
            h.append({"op": "rmlast"})
        elif x < 0.95:
            h.append({"op": "bf", "b": rng.random() < 0.5})
        elif x < 0.97:
            h.append({"op": "max", "n": rng.choice([0, 1, 2, 3, 5])})
        else:
            h.append({"op": rng.choice(["clear", "clearall", "clearall"])})
    return h + [{"op": "top"}, {"op": "last"}] + [{"op": "pop"}] * 6


def check(c):
    b = c.build("stack", ["stack.cc"], groups=["nlp_common_defs"])
    bs = c.build("stack_asan", ["stack.cc"], groups=["nlp_common_defs"], extra=["-fsanitize=address"])
    c.model_check("stack/StackMCdefs", "StackMC.cfg")
    c.model_check("stack/StackMCdefs", "StackMC1.cfg")
    beh = c.generate("stack/StackMCdefs", "StackGen.cfg")
    c.rng.shuffle(beh)
    tail = [{"op": "top"}, {"op": "last"}, {"op": "pop"}, {"op": "pop"}, {"op": "pop"}]
    script = [x + tail for x in beh[:30000 if c.thorough else 3000]]
    c.conformance("stack/StackTrace", "StackTrace.cfg", b, script, label="model-generated histories")
    script = [rand_hist(c.rng) for _ in range(20000 if c.thorough else 1500)]
    ok = c.conformance("stack/StackTrace", "StackTrace.cfg", b, script, label="random histories")
    c.conformance("stack/StackTrace", "StackTrace.cfg", bs, script[:4000 if c.thorough else 300], label="random histories (address sanitizer)")
    if ok:
        t, _ = c.run_harness(b, [script[0]])
        i = max(k for k, e in enumerate(t[0]) if e["op"] == "push")
        t[0][i]["ret"] = not t[0][i]["ret"]
        c.must_reject("stack/StackTrace", "StackTrace.cfg", t[0], "outcome of a push inverted")
    c.assumptions += ["integer scores"]


main("C09", check)
