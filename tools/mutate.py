#!/usr/bin/env python3
"""Systematic small changes of the library, to find what the checks do not see.
mutate.py <workdir> <jobs> <per file> [file ...]   (copies of /repo and /verif are made under workdir; results in workdir/results.jsonl)"""
import sys, re, json, random, pathlib, subprocess, shutil, os, threading, queue
I, S = "curves/include/curves/", "curves/src/"
FILES = {
    I + "LocalSupport2CoefficientManager-inl.hpp": ["C01", "C03", "C04", "C06", "C05"],
    S + "KeyGenerator.cpp": ["C02"],
    S + "CubicHermiteE3Curve.cpp": ["C09", "C10", "C20", "C05", "C19"],
    I + "CubicHermiteE3Curve.hpp": ["C09", "C10", "C20", "C05"],
    S + "CubicHermiteSE3Curve.cpp": ["C11", "C20", "C19", "C08", "C05", "C06"],
    I + "CubicHermiteSE3Curve.hpp": ["C08", "C11", "C20", "C05", "C06"],
    S + "SlerpSE3Curve.cpp": ["C07", "C20", "C05", "C06"],
    I + "SlerpSE3Curve.hpp": ["C07", "C20", "C05", "C06"],
    I + "SamplingPolicy.hpp": ["C07", "C08", "C20"],
    I + "PolynomialSpline.hpp": ["C12", "C13", "C15", "C14"],
    I + "polynomial_splines_traits.hpp": ["C12", "C13", "C16"],
    S + "polynomial_splines_traits.cpp": ["C12"],
    I + "PolynomialSplineContainer.tpp": ["C14", "C16", "C17", "C15", "C18"],
    I + "PolynomialSplineContainer.hpp": ["C14", "C16", "C17", "C15", "C18"],
    I + "PolynomialSplineScalarCurve.hpp": ["C18", "C20", "C05"],
    I + "PolynomialSplineVectorSpaceCurve.hpp": ["C18", "C20", "C05"],
    S + "helpers.cpp": ["C19", "C06"],
    "curves_ros/src/RosJointTrajectoryInterface.cpp": ["C21"],
    "curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp": ["C21"],
    "curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp": ["C21"],
}
SUB = [(r"(?<![<>=!\-])<(?![<=])(?= )", "<="), (r"<=", "<"), (r"(?<= )(?<![<>=\-])>(?![>=])(?= )", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\w\)\]]) ?\+ ?(?=[\w\(])", " - "), (r"(?<=[\w\)\]]) ?- ?(?=[\w\(])", " + "),
       (r"(?<=[\w\)\]]) ?\* ?(?=[\w\(])", " / "), (r"(?<=[\w\)\]]) ?/ ?(?=[\w\(])", " * "), (r"\+=", "-="), (r"-=", "+="), (r"\+\+", "--"), (r"--", "++"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"),
       (r"(?<![\w.])(\d+)\.0", r"(\1.0 + 1.0)"), (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"), (r"\bbegin\(\)", "end()"), (r"\bend\(\)", "begin()"),
       (r"pos0_", "posT_"), (r"posT_", "pos0_"), (r"vel0_", "velT_"), (r"velT_", "vel0_"), (r"acc0_", "accT_"), (r"accT_", "acc0_"),
       (r"upper_bound", "lower_bound"), (r"lower_bound", "upper_bound"), (r"\bif \((?!.*constexpr)", "if (!!0 && "), (r"\bif \(", "if (true || "),
       (r"\bsize\(\)", "size() - 1"), (r"\bdt\b(?=[;,\)])", "0.5 * dt"), (r"(?<=[\(, ])i(?=[\]\)])", "i + 1"), (r"\bfirst\b", "second"),
       (r"\.inverted\(\)", ""), (r"\.inverse\(\)", "")]


def code_lines(t):
    """indices of lines with code in function bodies, roughly"""
    out, com = [], False
    for n, l in enumerate(t.split("\n")):
        s = l.strip()
        if com:
            com = "*/" not in s
            continue
        if s.startswith("/*"):
            com = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "template", "typedef", "using", "namespace", "*", "EIGEN", "class", "struct", "printf", "std::cout", "LOG", "friend", "virtual")):
            continue
        if not l.startswith("  ") or "cout" in l or "print" in l or "CHECK" in l and "<<" in l and False:
            continue
        out.append(n)
    return out


def mutants(f, t):
    ls = t.split("\n")
    out = []
    for n in code_lines(t):
        l = ls[n]
        code = l.split("//")[0]
        for pat, rep in SUB:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2:
                    continue
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if new != code:
                    out.append((n, l, new))
        s = code.strip()
        if s.endswith(";") and not s.startswith(("return", "}", "typedef", "break")) and re.match(r"[\w\.\->\[\]\(\)\*\+:]+ ?(\(|=|\+=|-=|\+\+|;)", s) and not re.match(r"(const |double |int |bool |size_t |Time |auto |std::\w+<)", s):
            out.append((n, l, re.match(r"\s*", l).group() + ";"))
        if s.startswith("return ") and s.endswith(";"):
            pass
    return out


def main():
    W, jobs, per = pathlib.Path(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(FILES)
    W.mkdir(exist_ok=True)
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    q = queue.Queue()
    for f in files:
        t = open("/repo/" + f).read()
        ms = mutants(f, t)
        rng.shuffle(ms)
        print(f, len(ms))
        for m in sorted(ms[:per]):
            q.put((f, t, m))
    res = open(W / "results.jsonl", "a")
    lock = threading.Lock()

    def work(k):
        d = W / ("w%d" % k)
        d.mkdir()
        subprocess.run("cp -a /verif %s/verif; git clone -q /repo %s/repo" % (d, d), shell=True)
        while True:
            try:
                f, t, (n, old, new) = q.get_nowait()
            except queue.Empty:
                break
            ls = t.split("\n")
            ls[n] = new
            (d / "repo" / f).write_text("\n".join(ls))
            out, by = "survived", []
            for c in FILES[f]:
                r = subprocess.run(["timeout", "600", "python3", "check.py", c, "quick"], cwd=d / "verif", env=dict(os.environ, VERIF_REPO=str(d / "repo")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                by.append((c, r.returncode))
                if r.returncode == 1:
                    out = "nocompile" if "does not compile" in r.stdout else "killed"
                    break
                if r.returncode != 0:
                    out = "noanswer"
                    (W / ("noanswer-%s-%d.txt" % (c, n))).write_text(r.stdout)
                    break
            (d / "repo" / f).write_text(t)
            with lock:
                res.write(json.dumps({"f": f, "line": n + 1, "old": old, "new": new, "out": out, "by": by}) + "\n")
                res.flush()
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
    [x.start() for x in ts]
    [x.join() for x in ts]


main()
