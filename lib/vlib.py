"""Shared machinery of the /verif checks: building harnesses against /repo's
working tree, running TLC, validating recorded traces, evidence and verdicts."""
import concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)
INC = ["nlp_common", "incr_models", "sw_models", "phrase_models", "smt_preproc",
       "error_correction", "downhill_simplex", "stack_dec", "hat_trie", "picojson"]
LIBS = ["-lgmp", "-lz", "-ldb_cxx", "-lleveldb", "-lpthread", "-ldl"]


class CheckError(Exception):
    """The check itself failed: no verdict."""


def run(cmd, timeout=None, env=None, cwd=None, inp=None):
    e = dict(os.environ)
    e["LC_ALL"] = "C.UTF-8"
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=e, cwd=cwd, input=inp)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return "timeout", (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace")


def makefile_groups():
    """The *_defs source lists of /repo/src/Makefile.am (so files a change adds are built too)."""
    txt = open(os.path.join(SRC, "Makefile.am")).read().replace("\\\n", " ")
    g = {}
    for m in re.finditer(r"^(\w+_defs)\s*=(.*)$", txt, re.M):
        v = m.group(2).split()
        if v or m.group(1) not in g:
            g[m.group(1)] = [x for x in v if x.endswith((".cc", ".c"))]
    return g


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.work = os.path.join(BUILD, pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes, self.assumptions, self.violations, self.findings = [], [], [], []

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def cxxflags(self, extra=(), ini=None, libdir=None):
        ini = ini or os.path.join(self.work, "master.ini")
        libdir = libdir or self.work
        return (["-std=gnu++14", "-O1", "-w", "-fPIC", "-pthread", "-DHAVE_CONFIG_H", "-I" + os.path.join(VERIF, "harness/cfg"),
                 "-I" + os.path.join(VERIF, "harness")]
                + ["-I" + SRC] + ["-I" + os.path.join(SRC, d) for d in INC]
                + ['-DTHOT_MASTER_INI_PATH="%s"' % ini, '-DTHOT_LIBDIR="%s"' % libdir]
                + list(extra))

    def compile_many(self, jobs):
        """jobs: list of (src, obj, flags)."""
        os.makedirs(os.path.join(BUILD, "ccache"), exist_ok=True)
        env = {"CCACHE_DIR": os.path.join(BUILD, "ccache"), "CCACHE_MAXSIZE": "2G"}

        def one(j):
            src, obj, flags = j
            os.makedirs(os.path.dirname(obj), exist_ok=True)
            cc = ["gcc"] if src.endswith(".c") else ["g++"]
            fl = [f for f in flags if not (src.endswith(".c") and f.startswith("-std="))]
            if shutil.which("ccache"):
                cc = ["ccache"] + cc
            rc, o, e = run(cc + fl + ["-c", src, "-o", obj], timeout=600, env=env)
            return rc, src, e

        with cf.ThreadPoolExecutor(NCPU) as ex:
            for rc, src, e in ex.map(one, jobs):
                if rc != 0:
                    raise CheckError("compilation of %s failed:\n%s" % (src, e[-4000:]))

    def build(self, name, harness_srcs, groups=(), srcs=(), extra=(), shared=False, libs=LIBS, main_ini=None, whole=False):
        """Compile the harness with the listed /repo source groups; the groups go through a static archive."""
        g = makefile_groups()
        rs = []
        for x in groups:
            if x not in g:
                raise CheckError("no source group %s in Makefile.am" % x)
            rs += g[x]
        rs += list(srcs)
        rs = list(dict.fromkeys(rs))
        flags = self.cxxflags(extra, ini=main_ini)
        odir = os.path.join(self.work, "obj_" + hashlib.md5(" ".join(extra).encode()).hexdigest()[:6])
        jobs, objs, hobjs = [], [], []
        for s in rs:
            o = os.path.join(odir, s.replace("/", "__") + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((os.path.join(SRC, s), o, flags))
        for h in harness_srcs:
            p = h if os.path.isabs(h) else os.path.join(VERIF, "harness", h)
            o = os.path.join(odir, "H__" + os.path.basename(p) + ".o")
            hobjs.append(o)
            jobs.insert(0, (p, o, flags))
        self.compile_many(jobs)
        out = os.path.join(self.work, name)
        link = []
        if objs:
            ar = os.path.join(self.work, "lib_%s.a" % name)
            if os.path.exists(ar):
                os.remove(ar)
            rc, o, e = run(["ar", "crs", ar] + objs)
            if rc != 0:
                raise CheckError("ar failed: " + e)
            link = ["-Wl,--whole-archive", ar, "-Wl,--no-whole-archive"] if whole else ["-Wl,--start-group", ar, "-Wl,--end-group"]
        cmd = ["g++", "-pthread"] + (["-shared"] if shared else ["-rdynamic"]) + [x for x in extra if x.startswith("-fsanitize")] \
            + hobjs + link + list(libs) + ["-o", out]
        rc, o, e = run(cmd, timeout=300)
        if rc != 0:
            raise CheckError("link of %s failed:\n%s" % (name, e[-4000:]))
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, args=(), env=None, timeout=600, workers=None, mem="6g", count=True, dfs=False, tag=None):
        """Run TLC on /verif/specs/<module>.tla with <cfg>; returns a dict. Never raises on a property violation."""
        specdir = os.path.join(VERIF, "specs")
        meta = os.path.join(self.work, "tlc_%s_%d" % (tag or os.path.basename(module), len(os.listdir(self.work))))
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m",
               "-DTLA-Library=" + ":".join([specdir] + sorted(glob.glob(specdir + "/*/")))]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        mod = os.path.join(specdir, module + ".tla")
        cmd += ["-cp", TLA_CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers or NCPU),
                "-config", os.path.join(os.path.dirname(mod), cfg)] + list(args) + [os.path.basename(mod)]
        e = {"JAVA_TOOL_OPTIONS": ""}
        e.update(env or {})
        t = time.time()
        rc, out, err = run(cmd, timeout=timeout, env=e, cwd=os.path.dirname(mod))
        r = {"rc": rc, "out": out, "err": err, "wall": time.time() - t, "cmd": " ".join(cmd[cmd.index("tlc2.TLC"):])}
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        r["generated"], r["distinct"] = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"The number of states generated: (\d+)", out)  # simulation
        if m:
            r["generated"] = int(m[-1])
        r["ok"] = rc == 0
        shutil.rmtree(meta, ignore_errors=True)
        if count and r["ok"]:
            self.cov["states"] += r["distinct"]
            self.cov["transitions"] += r["generated"]
        return r

    def model_check(self, module, cfg, **kw):
        """Exhaustive check of the design; a failure is a failure of the check, not of the code."""
        r = self.tlc(module, cfg, **kw)
        if not r["ok"]:
            raise CheckError("model %s/%s did not pass TLC (rc=%s):\n%s" % (module, cfg, r["rc"], r["out"][-6000:] + r["err"][-2000:]))
        self.log("TLC %s %s: %d distinct states, %d transitions, %.1fs" % (module, cfg, r["distinct"], r["generated"], r["wall"]))
        self.notes.append("design %s %s: %d distinct states exhaustively" % (module, cfg, r["distinct"]))
        return r

    def generate(self, module, cfg, simulate=None, depth=20, tag="BEH ", timeout=300, workers=1, seed=None):
        """Behaviours printed by the generator spec as `BEH <json>` lines (exhaustive BFS, or -simulate num=N)."""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed if seed is None else seed)]
        r = self.tlc(module, cfg, args=args, workers=workers, timeout=timeout, count=not simulate)
        if not r["ok"]:
            raise CheckError("generator %s/%s failed (rc=%s):\n%s" % (module, cfg, r["rc"], r["out"][-4000:] + r["err"][-2000:]))
        res, seen = [], set()
        for line in r["out"].splitlines():
            line = line.strip()
            if line.startswith('"BEH ') or line.startswith("BEH "):
                s = json.loads(line)[4:] if line.startswith('"') else line[4:]
                if s not in seen:
                    seen.add(s)
                    res.append(json.loads(s))
        self.log("TLC %s %s: %d behaviours generated (%.1fs)" % (module, cfg, len(res), r["wall"]))
        if not res:
            raise CheckError("generator %s/%s produced no behaviour" % (module, cfg))
        return res

    # ---------------------------------------------------------------- harness
    def run_harness(self, binary, script, args=(), timeout=300, env=None):
        """Feed a list of histories (each a list of op records) to a harness; returns (list of traces, error or None).

        The harness reads one JSON history per line and writes one JSON trace per line, flushing each."""
        inp = "".join(json.dumps(h) + "\n" for h in script).encode()
        rc, out, err = run([binary] + list(args), timeout=timeout, inp=inp, env=env, cwd=self.work)
        traces = []
        for line in out.splitlines():
            if line.startswith("["):
                try:
                    traces.append(json.loads(line))
                except ValueError:
                    break
        if rc != 0 or len(traces) != len(script):
            return traces, "harness ended with %s after %d of %d histories; stderr: %s" % (rc, len(traces), len(script), err[-1500:])
        return traces, None

    def run_chunked(self, binary, script, args=(), timeout=300, env=None, chunks=NCPU):
        """run_harness over NCPU processes. Returns traces and the list of (history, error) which broke the harness."""
        n = max(1, (len(script) + chunks - 1) // chunks)
        parts = [script[i:i + n] for i in range(0, len(script), n)]
        with cf.ThreadPoolExecutor(chunks) as ex:
            rs = list(ex.map(lambda p: self.run_harness(binary, p, args, timeout, env), parts))
        traces, bad, used = [], [], []
        for p, (t, e) in zip(parts, rs):
            traces += t
            used += p[:len(t)]
            if e:
                bad.append((p[len(t)] if len(t) < len(p) else p[-1], e))
        return traces, bad

    def validate(self, module, cfg, traces, timeout=600, env=None, workers=None, mem="8g"):
        """Every trace (a JSON array of events) must be a behaviour of the trace spec, which deadlocks where one is
        rejected. Returns None or (index, position, excerpt)."""
        path = os.path.join(self.work, "traces_%d.ndjson" % len(os.listdir(self.work)))
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        e = {"TRACES": path}
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, timeout=timeout, workers=workers, mem=mem)
        if r["ok"]:
            self.cov["traces_validated_against_impl"] += len(traces)
            return None
        out = r["out"]
        rej = "Deadlock reached" in out or re.search(r"Invariant \w+ is violated", out) or "Action property" in out
        if not rej:
            raise CheckError("trace validation %s failed (rc=%s):\n%s" % (module, r["rc"], out[-5000:] + r["err"][-2000:]))
        hs = re.findall(r"^/\\ h = (\d+)", out, re.M)
        ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
        h, l = (int(hs[-1]), int(ls[-1])) if hs and ls else (0, 0)
        last = out[out.rfind("State "):][:3000]
        return h, l, last

    # ---------------------------------------------------------------- verdicts
    def replay_file(self, obj, name="replay"):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s_%s_%d.json" % (self.pid, name, len(self.violations)))
        with open(p, "w") as f:
            json.dump(obj, f, indent=1)
        return p

    def violation(self, what, obj):
        p = self.replay_file({"property": self.pid, "what": what, "detail": obj})
        self.violations.append(what)
        self.log("VIOLATION:", what)
        print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)

    def known(self, key):
        """True when the committed known-findings file lists this finding of this property."""
        f = os.path.join(VERIF, "known_findings.txt")
        pre = "KNOWN-FINDING: property=%s id=%s " % (self.pid, key)
        for line in open(f) if os.path.exists(f) else []:
            if line.startswith(pre):
                if line not in self.findings:
                    self.findings.append(line)
                    print(line.strip(), flush=True)
                return True
        return False

    def conformance(self, module, cfg, binary, script, args=(), label="", timeout=120, vtimeout=700, env=None,
                    tenv=None, chunks=NCPU, expect_crash_free=True, mem="8g", pre=None, trust=None):
        """Run histories through the real code and check the recorded traces against the trace spec; report a
        violation (after re-running the one history) when a history crashes the code or its trace is rejected.
        trust(trace): a rejected trace of this kind is evidence even if the code (run by real threads) behaves well when run again."""
        t = time.time()
        traces, bad = self.run_chunked(binary, script, args, timeout, env, chunks)
        for hist, err in bad:
            t2, e2 = self.run_harness(binary, [hist], args, timeout, env)
            if e2 is None:  # state left over by earlier histories of the process matters: retry the chunk once
                t3, b3 = self.run_chunked(binary, script, args, timeout, env, chunks)
                if b3:
                    self.violation("%s: the code under test fails (crash/timeout) on this input" % label, {"history": b3[0][0], "error": b3[0][1]})
                    return False
                traces = t3
                continue
            self.violation("%s: the code under test fails (crash/timeout) on this input" % label, {"history": hist, "error": e2})
            return False
        if pre:
            traces = [pre(x) for x in traces]
        nev = sum(len(x) for x in traces)
        th = time.time() - t
        res = self.validate(module, cfg, traces, timeout=vtimeout, env=tenv, mem=mem)
        if res is None:
            self.log("%s: %d traces, %d events accepted (harness %.1fs, TLC %.1fs)" % (label, len(traces), nev, th, time.time() - t - th))
            self.cov.setdefault("events", 0)
            self.cov["events"] += nev
            if traces:
                s = traces[self.rng.randrange(len(traces))]
                self.cov["samples"].append({"what": label, "trace": s[:12]})
            return True
        h, l, last = res
        hist = script[h - 1] if 0 < h <= len(script) else None
        ev = traces[h - 1][l - 1] if 0 < h <= len(traces) and 0 < l <= len(traces[h - 1]) else None
        again = None
        if hist is not None:
            t2, e2 = self.run_harness(binary, [hist], args, timeout, env)
            if e2 is None:
                if pre:
                    t2 = [pre(x) for x in t2]
                again = self.validate(module, cfg, t2, timeout=vtimeout, env=tenv)
            else:
                again = e2
        if again is None and trust and 0 < h <= len(traces) and trust(traces[h - 1]):
            again = "not reproduced"
        if again is None:  # not reproduced alone: repeat the whole batch
            traces, bad = self.run_chunked(binary, script, args, timeout, env, chunks)
            if pre:
                traces = [pre(x) for x in traces]
            if not bad:
                again = self.validate(module, cfg, traces, timeout=vtimeout, env=tenv)
                if again is None:
                    raise CheckError("%s: a rejected trace was not reproduced on re-run: %s" % (label, str(res)[:2000]))
        self.violation("%s: recorded behaviour is not allowed by the specification at event %d: %s" % (label, l, json.dumps(ev)[:600]),
                       {"history": hist, "rejected_event": ev, "position": l, "spec_state": last,
                        "trace": traces[h - 1] if 0 < h <= len(traces) else None})
        return False

    def must_reject(self, module, cfg, trace, label, tenv=None):
        """Binding self-test: a corrupted trace has to be rejected, otherwise the check is vacuous (an error)."""
        n = self.cov["traces_validated_against_impl"]
        s, t = self.cov["states"], self.cov["transitions"]
        res = self.validate(module, cfg, [trace], env=tenv)
        self.cov["traces_validated_against_impl"] = n
        self.cov["states"], self.cov["transitions"] = s, t
        if res is None:
            raise CheckError("binding self-test: corrupted trace accepted (%s)" % label)
        self.cov["corrupted_traces_rejected"] = self.cov.get("corrupted_traces_rejected", 0) + 1

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        ev["coverage"]["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("done:", "VIOLATED" if self.violations else "held", "states=%d traces=%d" % (self.cov["states"], self.cov["traces_validated_against_impl"]))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def main(pid, fn):
    c = None
    try:
        c = Check(pid)
        fn(c)
        sys.exit(c.finish())
    except CheckError as x:
        print("CHECK-ERROR property=%s: %s" % (pid, x), flush=True)
        if c is not None and c.violations:
            sys.exit(c.finish())
        sys.exit(2)
