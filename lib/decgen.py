"""Random models, settings and requests for the decoder checks (C07, C08)."""


def model(rng, big=False):
    ks = rng.randint(2, 5)
    o = rng.choice([1, 2, 2, 3])
    tw = rng.sample(range(3, 9), rng.randint(2, 6))
    pt, seen = [], set()
    dens = rng.choice([1, 2, 2, 3])
    for k in range(1, ks + 1):
        if rng.random() < 0.9:
            for _ in range(rng.randint(1, dens)):
                add(pt, seen, rng, [k], tw)
    for _ in range(rng.randint(0, 2 * dens + 2)):
        add(pt, seen, rng, [rng.randint(1, ks) for _ in range(rng.choice([2, 2, 3]))], tw)
    d, dseen = [], set()
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        s = tuple(rng.randint(1, ks + 2) for _ in range(rng.choice([1, 1, 2])))
        t = tuple(rng.choice(tw + [9, 10, 11]) for _ in range(rng.choice([1, 1, 2])))
        if (s, t) not in dseen:
            dseen.add((s, t))
            d.append({"s": list(s), "t": list(t), "v": -rng.randint(0, 6)})
    return {"op": "setup", "cust": rng.choice([0, 0, 1, 2, 4]), "lm": {"o": o, "m": rng.choice([3, 5, 7, 11]), "c": [rng.randint(0, 9) for _ in range(o)]}, "ks": ks,
            "j": rng.choice([0, 1, 1, 2]), "sl": [rng.randint(0, 3) for _ in range(3)], "tl": [rng.randint(0, 3) for _ in range(2)],
            "wp": [rng.randint(0, 3) for _ in range(3)], "pt": pt, "dict": d}


def add(pt, seen, rng, s, tw):
    t = [rng.choice(tw) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
    if (tuple(s), tuple(t)) not in seen:
        seen.add((tuple(s), tuple(t)))
        pt.append({"s": s, "t": t, "d": -rng.randint(0, 9), "i": -rng.randint(0, 9)})


def weights(rng, neg=True):
    if rng.random() < 0.4: # scores that never increase: no credit for the word penalty
        return [0] + [rng.choice([0, 1, 2, 4, 4, 8]) for _ in range(7)]
    return [rng.choice([0, 1, 2, 4, 4, 4, 8] + ([-2] if neg else [])) for _ in range(8)]


def par(rng, exact):
    if exact:
        bf = rng.random() < 0.7
        p = {"S": 5000, "I": 1, "bf": bf, "bsp": rng.random() < 0.2, "W": rng.choice([1000, 1000, 1000, 100, 200, 50, 10, 1])}
    else:
        p = {"S": rng.choice([1, 1, 2, 3, 10]), "I": rng.choice([1, 1, 2, 3]), "bf": rng.random() < 0.6, "bsp": rng.random() < 0.4,
             "W": rng.choice([1000, 1000, 100, 200, 50, 1])}
    p.update({"op": "par", "A": rng.choice([10, 3, 2, 1]), "E": rng.choice([10, 2, 1, 0]), "U": rng.choice([10, 10, 2, 1, 0]), "heur": rng.choice([0, 0, 4, 6]) if not exact or p["bf"] else 0})
    return p


def toks(rng, m, cons, n=None):
    J = n or rng.choice([1, 2, 3, 3, 3, 4])
    out, used = [], 0
    pts = [p["s"] for p in m["pt"]] + [p["s"] for p in m["dict"]]
    while used < J:
        if rng.random() < 0.4 and pts:
            s = rng.choice(pts)[:J - used]
        else:
            s = [rng.randint(1, m["ks"] + 2)]
        if cons and rng.random() < 0.35:
            t = [rng.choice([3, 4, 5, 6, 7, 8, 9, 10]) for _ in range(rng.choice([1, 1, 2, 3]))]
            out.append({"c": s, "t": t})
        else:
            out += [{"s": k} for k in s]
        used += len(s)
    return out


def text(rng, m, tk):
    """A target sentence, mostly one the options can produce."""
    by = {}
    for p in m["pt"] + m["dict"]:
        by.setdefault(tuple(p["s"]), []).append(p["t"])
    src, out, i = [t["s"] for t in tk], [], 0
    while i < len(src):
        c = [(n, t) for n in (1, 2, 3) for t in by.get(tuple(src[i:i + n]), [])]
        if c and rng.random() < 0.9:
            n, t = rng.choice(c)
            out += t
            i += n
        else:
            out.append(rng.choice([3, 4, 5, 9, 10]))
            i += 1
    if rng.random() < 0.25:
        rng.shuffle(out)
    if rng.random() < 0.2:
        out[rng.randrange(len(out))] = rng.choice(range(3, 12))
    return out[:6]


def trans(rng, m, cons):
    return {"op": "trans", "toks": toks(rng, m, cons), "sw": weights(rng) if rng.random() < 0.25 else []}


def sug(rng, m):
    t = toks(rng, m, False)
    src = [x["s"] for x in t]
    by = {}
    for p in m["pt"]:
        by.setdefault(tuple(p["s"]), []).append(p["t"])
    steps, free = [], list(range(1, len(src) + 1))
    for _ in range(rng.randint(0, len(src) - 1) if len(src) > 1 else 0):
        l = rng.choice(free)
        r = l
        while r + 1 in free and rng.random() < 0.3 and len(free) - (r + 1 - l + 1) > 0:
            r += 1
        if len(free) - (r - l + 1) <= 0:
            break
        o = by.get(tuple(src[l - 1:r]), [])
        tt = rng.choice(o) if o and rng.random() < 0.7 else [rng.choice(range(3, 12)) for _ in range(rng.choice([1, 2]))]
        steps.append({"l": l, "r": r, "t": tt})
        free = [x for x in free if not l <= x <= r]
    return {"op": "sug", "toks": t, "sw": weights(rng) if rng.random() < 0.2 else [], "steps": steps}


def constrained(rng, m, kind=None):
    kind = kind or rng.choice(["ref", "ver", "prefix", "prefix"])
    t = toks(rng, m, False)
    x = text(rng, m, t)
    if kind == "prefix":
        x = x[:rng.randint(1, len(x))]
        if rng.random() < 0.3:
            x[-1] = rng.choice([3, 4, 6, 9])
        return {"op": "prefix", "toks": t, "ref": x, "blank": rng.random() < 0.5}
    return {"op": kind, "toks": t, "ref": x}


def session(rng, kinds, exact, nreq=None):
    m = model(rng)
    h = [m, {"op": "w", "w": weights(rng)}, par(rng, exact)]
    for _ in range(nreq or rng.choice([1, 2, 2, 3])):
        if rng.random() < 0.2:
            h.append({"op": "w", "w": weights(rng)})
        if rng.random() < 0.3:
            h.append(par(rng, exact))
        k = rng.choice(kinds)
        if k in ("trans", "ctrans"):
            h.append(trans(rng, m, k == "ctrans"))
        elif k == "sug":
            h.append(sug(rng, m))
        elif k == "long":
            n = rng.choice([0, 0, 160, 161, 200, 20])
            kd = rng.choice(["trans", "trans", "ref", "refr", "ver", "prefix", "prefixp"])
            if n == 20:
                kd = "trans"
                h.append({"op": "par", "S": 2, "I": 1, "bf": True, "bsp": False, "W": 300, "A": 3, "E": 2, "U": 1, "heur": 4})
            h.append({"op": "long", "kind": kd, "n": n, "pad": ""})
            h.append(par(rng, exact))
            continue
        else:
            h.append(constrained(rng, m, k if k != "con" else None))
        if rng.random() < 0.6:
            h.append({"op": "wg"})
        for _ in range(rng.choice([0, 0, 0, 1, 3, 6])):
            h.append({"op": "next"})
    return h
