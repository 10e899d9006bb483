"""Shared machinery of the checks: build from /repo, run TLC, compare, report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, pathlib, random

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
SPEC = VERIF / "spec"
HARN = VERIF / "harness"
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class BuildError(Exception):
    """the library (or the harness against it) does not compile"""


class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.scratch = pathlib.Path(tempfile.mkdtemp(prefix="vf-%s-" % pid))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.assumptions = []
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, pid)))
        self.known = load_known(pid)
        self.known_hit = []
        self.level = "model_checking"

    @property
    def quick(self):
        return self.tier == "quick"

    # ---- building ------------------------------------------------------
    def lib_sources(self):
        txt = (REPO / "curves/CMakeLists.txt").read_text()
        txt = re.sub(r"#.*", "", txt)
        m = re.search(r"add_library\s*\(([^)]*)\)", txt)
        srcs = [w for w in m.group(1).split() if w.endswith((".cpp", ".cc"))]
        return [REPO / "curves" / s for s in srcs]

    def sources(self, kindr=False):
        """what the library is made of; without the files that need kindr if nothing needs them"""
        needs = ("CubicHermiteSE3Curve.cpp", "CubicHermiteE3Curve.cpp", "SlerpSE3Curve.cpp", "SE3Curve.cpp")
        return [s for s in self.lib_sources() if kindr or s.name not in needs]

    def build(self, name, sources, extra_src=(), flags=(), san=True, libs=(), opt="-O1"):
        """compile harness sources and library sources of the working tree"""
        objdir = self.scratch / ("obj-" + name)
        objdir.mkdir(exist_ok=True)
        base = ["g++", "-std=gnu++14", opt, "-g0", "-w", "-D_GLIBCXX_ASSERTIONS",
                "-I", str(HARN / "kindr_shim"), "-I", str(HARN), "-I", str(REPO / "curves/include"),
                "-I", "/usr/include/eigen3"] + list(flags)
        if san:
            base += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        procs, objs = [], []
        for s in [HARN / x for x in sources] + list(extra_src):
            o = objdir / (re.sub(r"\W", "_", str(s)) + ".o")
            objs.append(str(o))
            procs.append((s, subprocess.Popen(base + ["-c", str(s), "-o", str(o)], stdout=subprocess.PIPE,
                                              stderr=subprocess.STDOUT, text=True)))
        errs = []
        for s, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                errs.append("%s:\n%s" % (s, out[-3000:]))
        if errs:
            raise BuildError("\n".join(errs))
        exe = self.scratch / name
        r = subprocess.run(["g++"] + (["-fsanitize=address"] if san else []) + objs + ["-o", str(exe), "-lglog",
                            "-lboost_system", "-lboost_thread", "-lpthread"] + list(libs),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-3000:])
        return exe

    def build_parts(self, name, parts, libs=()):
        """compile each file with flags of its own and link without sanitizer runtimes"""
        objdir = self.scratch / ("obj-" + name)
        objdir.mkdir(exist_ok=True)
        base = ["g++", "-std=gnu++14", "-g0", "-w", "-I", str(HARN / "kindr_shim"), "-I", str(HARN), "-I", str(REPO / "curves/include"), "-I", "/usr/include/eigen3"]
        procs, objs, errs = [], [], []
        for n, (s, fl) in enumerate(parts):
            o = objdir / ("%d.o" % n)
            objs.append(str(o))
            procs.append((s, subprocess.Popen(base + list(fl) + ["-c", str(s), "-o", str(o)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                errs.append("%s:\n%s" % (s, out[-3000:]))
        if errs:
            raise BuildError("\n".join(errs))
        exe = self.scratch / name
        r = subprocess.run(["g++"] + objs + ["-o", str(exe), "-lglog", "-lboost_system", "-lboost_thread", "-lpthread"] + list(libs),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-3000:])
        return exe

    def env(self):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:suppressions=%s" % (HARN / "tsan.supp")
        e["GLOG_minloglevel"] = "2"
        e["GLOG_logtostderr"] = "1"
        return e

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, cfg, workers=1, simulate=None, depth=None, files=None, heap="4g", timeout=None,
            allow_fail=False, seed=None, consts=None):
        """run TLC on spec/<module>.tla with the given config text.  Returns dict"""
        d = pathlib.Path(tempfile.mkdtemp(prefix="tlc-", dir=self.scratch))
        for f in SPEC.glob("*.tla"):
            os.symlink(f, d / f.name)
        for n, t in (files or {}).items():
            (d / n).write_text(t)
        if consts:
            # constants as definitions of a wrapper module (a configuration file takes no expressions)
            w = "W_" + module
            (d / (w + ".tla")).write_text("---- MODULE %s ----\nEXTENDS %s\n%s====\n" % (
                w, module, "".join("X_%s == %s\n" % kv for kv in consts.items())))
            cfg += "CONSTANTS\n" + "".join("  %s <- X_%s\n" % (k, k) for k in consts)
            module = w
        (d / (module + ".cfg")).write_text(cfg)
        cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + str(d), "-cp", JAVA_CP, "tlc2.TLC", "-config", module + ".cfg",
               "-workers", str(workers), "-metadir", str(d / "meta"), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            cmd += ["-seed", str(seed if seed is not None else self.seed)]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd += [module + ".tla"]
        out = open(d / "out.txt", "w")
        try:
            r = subprocess.run(cmd, cwd=d, stdout=out, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1
        out.close()
        lines, other = [], []
        with open(d / "out.txt") as f:
            for ln in f:
                if ln.startswith('"{') or ln.startswith('"['):
                    lines.append(json.loads(json.loads(ln)))
                else:
                    other.append(ln)
        text = "".join(other)
        gen = dist = 0
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", text)
        if m:
            gen, dist = [int(x.replace(",", "")) for x in m[-1]]
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", text)
            if m:
                gen = dist = int(m[-1].replace(",", ""))
        ok = rc == 0
        if not ok and not allow_fail:
            raise MachineryError("TLC failed on %s (rc %s):\n%s" % (module, rc, text[-4000:]))
        shutil.rmtree(d, ignore_errors=True)
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        return {"rc": rc, "ok": ok, "lines": lines, "text": text, "generated": gen, "distinct": dist}

    # ---- running a replayer ------------------------------------------------
    def replay(self, exe, cmds, timeout=600):
        """feed JSON commands, one per line; returns list of JSON replies (may be
        shorter than cmds if the program died) and the exit status and stderr tail"""
        inp = "\n".join(json.dumps(c, separators=(",", ":")) for c in cmds) + "\n"
        wd = tempfile.mkdtemp(prefix="run-", dir=self.scratch)
        try:
            p = subprocess.run([str(exe)], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               env=self.env(), timeout=timeout, cwd=wd, errors="replace")
            rc, so, se = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, so, se = "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), ""
        shutil.rmtree(wd, ignore_errors=True)
        # replies start with the marker @@ (the library itself writes to stdout)
        rep = []
        for ln in so.split("\n"):
            i = ln.find("@@")
            if i >= 0:
                try:
                    rep.append(json.loads(ln[i + 2:]))
                except ValueError:
                    break
        return rep, rc, se[-1500:]

    def replay_parallel(self, exe, batches, jobs=8, timeout=600):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(jobs) as ex:
            return list(ex.map(lambda b: self.replay(exe, b, timeout), batches))

    # ---- reporting --------------------------------------------------------
    def violation(self, what, detail):
        for k in self.known:
            if k.get("match") and all(detail.get(a) == b for a, b in k["match"].items()):
                self.known_hit.append(k)
                return
        rdir = VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        path = rdir / ("%s-%s.json" % (self.pid, self.tier))
        path.write_text(json.dumps({"property": self.pid, "what": what, "detail": detail, "seed": self.seed,
                                    "tier": self.tier}, indent=1, default=str))
        print("violation: %s" % what)
        print(json.dumps(detail, default=str)[:3000])
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        self.write_evidence(1)
        self.cleanup()
        sys.stdout.flush()
        os._exit(1)

    def write_evidence(self, violations=0):
        cov = dict(self.cov)
        cov.update(self.extra)
        if not cov["samples"]:
            cov["samples"] = ["none"]
        cov["samples"] = cov["samples"][:5]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        d = VERIF / "evidence"
        d.mkdir(exist_ok=True)
        (d / (self.pid + ".json")).write_text(json.dumps(ev, indent=1, default=str))

    def sample(self, s):
        if len(self.cov["samples"]) < 5:
            self.cov["samples"].append(s)

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def finish(self):
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k.get("what", "")))
        self.write_evidence(0)
        self.cleanup()
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
            self.pid, self.tier, self.cov["states"], self.cov["transitions"],
            self.cov["traces_validated_against_impl"], time.time() - self.t0))


def load_known(pid):
    f = VERIF / "known-findings.json"
    if not f.exists():
        return []
    return [k for k in json.loads(f.read_text()).get("findings", []) if k["property"] == pid]


def cfg(constants=None, init="Init", next="Next", view=None, invariants=(), action_constraints=(), constraints=(),
        properties=(), postcondition=None, spec=None, deadlock=False, symmetry=None):
    o = []
    if spec:
        o.append("SPECIFICATION " + spec)
    else:
        o += ["INIT " + init, "NEXT " + next]
    if constants:
        o.append("CONSTANTS")
        for k, v in constants.items():
            o.append("  %s %s" % (k, v if str(v).startswith("<-") else "= %s" % v))
    if view:
        o.append("VIEW " + view)
    for x in invariants:
        o.append("INVARIANT " + x)
    for x in properties:
        o.append("PROPERTY " + x)
    for x in constraints:
        o.append("CONSTRAINT " + x)
    for x in action_constraints:
        o.append("ACTION_CONSTRAINT " + x)
    if postcondition:
        o.append("POSTCONDITION " + postcondition)
    o.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(o) + "\n"


def chunks(seq, n):
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]
