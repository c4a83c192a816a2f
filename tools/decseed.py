"""Build a decoder seed: its demonstration is one recorded session on which score or components change."""
import sys, os, json, random, subprocess, shutil
sys.path[:0] = ["/verif/lib", "/verif/tools"]
import seedlib, decgen
from vlib import *
from deccheck import GROUPS

DEMO = """#!/bin/bash
# Runs one decoding session on the real decoder with small integer models; exit 0 when score and components of each result are as they must be.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
cd "$T"
I=""; for d in "" nlp_common incr_models sw_models phrase_models error_correction downhill_simplex stack_dec; do I="$I -I/repo/src/$d"; done
g++ -std=gnu++14 -O1 -w -pthread -DHAVE_CONFIG_H -I/repo/_build/src $I -I"$D" "$D/decoder.cc" -o demo -L/repo/_build/src/.libs -lthot -Wl,-rpath,/repo/_build/src/.libs || exit 98
./demo < "$D/session.json" > out.json || exit 97
python3 - "$D/expected.json" out.json <<'P'
import json, sys
exp = json.load(open(sys.argv[1])); got = [e["r"] for e in json.loads(open(sys.argv[2]).readline()) if "r" in e]
bad = [(i, e, {k: g[k] for k in e}) for i, (e, g) in enumerate(zip(exp, got)) if any(e[k] != g[k] for k in e)]
for b in bad: print("request %d: expected %s, got %s" % b, file=sys.stderr)
sys.exit(1 if bad or len(exp) != len(got) else 0)
P
"""


def res(t):
    return [{"sc": e["r"]["sc"], "ok": e["r"]["ok"]} for e in t if "r" in e]


def make(id, prop, subs, needs, breaks, kinds, exact=True, nreq=1, n=20000, keys=("sc", "ok")):
    seedlib.seed(id, prop, subs, needs, breaks)
    d = "/verif/seeded/" + id
    c = Check("dbgseed")
    b0 = c.build("d0", ["decoder.cc"], groups=GROUPS)
    shutil.copy(b0, "/tmp/d0")
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        c = Check("dbgseed")
        b1 = c.build("d1", ["decoder.cc"], groups=GROUPS)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    rng = random.Random(7)
    ss = [[e for e in decgen.session(rng, kinds, exact, nreq) if e["op"] not in ("wg", "next")] for _ in range(n)]
    t0, e0 = c.run_harness("/tmp/d0", ss)
    t1, e1 = c.run_harness(b1, ss)
    f = lambda t: [{k: e["r"][k] for k in keys} for e in t if "r" in e]
    diff = [i for i in range(min(len(t0), len(t1))) if f(t0[i]) != f(t1[i])]
    print(id, "sessions that differ:", len(diff), "of", len(t0), e1 or "")
    i = min(diff, key=lambda i: len(json.dumps(ss[i])))
    json.dump(ss[i], open(d + "/session.json", "w")); open(d + "/session.json", "a").write("\n")
    json.dump(f(t0[i]), open(d + "/expected.json", "w"))
    for x in ("decoder.cc", "vh.h", "vjson.h"):
        shutil.copy("/verif/harness/" + x, d)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    print(json.dumps(ss[i]), f(t0[i]), f(t1[i]))


def trydemo(id):
    """With the library rebuilt, as the demonstration links to it."""
    d = "/verif/seeded/" + id
    b = lambda: subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True).returncode
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True)
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        rb = b()
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
        b()
    print(id, "build", rb, "clean rc", r0.returncode, r0.stderr[-500:].decode(), "patched rc", r1.returncode, r1.stderr[-500:].decode())
