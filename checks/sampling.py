"""Growth of pose curves: C07, C08."""
import json
import vf
from mgr import tset
from poly import run, close, num


def build(c):
    try:
        return c.build("sampling", ["sampling.cpp"], extra_src=c.sources(kindr=True), flags=["-DPROBE"]), True
    except vf.BuildError as e:
        # the internals may be named differently; then values and keys are read off less directly
        exe = c.build("sampling", ["sampling.cpp"], extra_src=c.sources(kindr=True))
        c.assumptions.append("coefficients of the Slerp curve not accessible: values not compared")
        return exe, False


def cases(c, cls, ratios, kinds, maxlen, gaps=(1,), pers=(0,)):
    r = c.tlc("SamplingMC", vf.cfg(invariants=["Inv", "Count", "PrintCase"]),
              consts={"Class": '"%s"' % cls, "Ratios": tset(ratios), "Kinds": tset(kinds), "MaxLen": maxlen, "Gaps": tset(gaps), "Pers": tset(pers)})
    return r["lines"]


def slerp_diff(w, g, probe):
    times = [x["t"] for x in w["M"]]
    if g["n"] != w["n"] or g["times"] != times or g["empty"] != (0 if times else 1):
        return "times of the coefficients: want %s got %s" % (times, g["times"])
    if times and [g["min"], g["max"]] != [times[0], times[-1]]:
        return "time range: got [%s, %s]" % (g["min"], g["max"])
    if probe and (g["M"] != w["M"] or g["out"] != w["out"]):
        return "coefficients and returned keys: want %s, %s got %s, %s" % (w["M"], w["out"], g["M"], g["out"])
    if not probe and len(g["out"]) != len(w["out"]):
        return "returned keys: want %s got %s" % (w["out"], g["out"])


def hermite_diff(w, g):
    times = [x["t"] for x in w]
    if g["n"] != len(w) or [x["t"] for x in g["M"]] != times or g["empty"] != (0 if times else 1):
        return "times of the coefficients: want %s got %s" % (times, [x["t"] for x in g["M"]])
    if times and [g["min"], g["max"]] != [times[0], times[-1]]:
        return "time range: got [%s, %s]" % (g["min"], g["max"])
    for a, b in zip(w, g["M"]):
        if b["f"] != 3:
            return "evaluation at the coefficient at %s fails" % a["t"]
        if not abs(num(b["v"]) - a["v"]) <= 1e-9 * (1 + abs(a["v"])):
            return "pose of the coefficient at %s: want %s got %s" % (a["t"], a["v"], b["v"])
        for got, f in zip(b["l"] + b["w"], [1, 2, -1, 0, 0, 0.01]):
            if not abs(num(got) - f * a["n"] / a["d"]) <= 1e-8 * (1 + abs(a["n"] / a["d"])):
                return "velocity of the coefficient at %s: want %s/%s got %s %s" % (a["t"], a["n"], a["d"], b["l"], b["w"])


OFF = [0, 0, 2.0 ** 30, 0, -1.5e9, 0, 3.0]


def replay(c, exe, cls, xs, probe, label):
    sc = [0, -3, 7, -20]
    cmds = [{"k": cls, "h": x["h"], "s": sc[i % 4], "off": OFF[i % 7] if sc[i % 4] in (0, -20) else 0} for i, x in enumerate(xs)]
    for cmd, x, g in zip(cmds, xs, run(c, exe, cmds)):
        m = slerp_diff(x["obs"], g, probe) if cls == "slerp" else hermite_diff(x["obs"], g)
        if m:
            c.violation(m, {"history": cmd, "expected": x["obs"], "got": g})
    c.sample({"where": label, "history": cmds[len(cmds) // 2]["h"]})


def recorded(c, exe, cls, runs, length, probe):
    rng = c.rng
    cmds = []
    for run_ in range(runs):
        now, v, n, cnt = rng.randint(-40, 20), 0, 0, 0
        far = run_ % 30 == 1   # many measurements per coefficient
        ratio = rng.choice([70, 130, 260]) if far else rng.randint(1, 7) if run_ % 4 else rng.choice([10, 16, 33])
        h = [{"o": "ratio0", "ts": [], "vs": [], "r": ratio}]
        lo = now

        def val():
            return rng.randint(0, 90)
        for _ in range(700 if far else length if run_ % 8 else 4 * length):
            z = rng.random() * (0.8 if far else 1)
            op = {"ts": [], "vs": [], "r": 0}
            if z < 0.8 or (cls == "slerp" and z < 0.9 and cnt):
                now += rng.randint(1, 4)
                op.update(o="one" if cls == "slerp" else "ext", ts=[now], vs=[val()])
                if cls == "slerp" and n >= 2 and ratio > 1:
                    if cnt == 0:
                        n += 1
                    cnt = (cnt + 1) % ratio if cnt + 1 < ratio else 0
                else:
                    n += 1
            elif z < 0.9:
                k = rng.choice([0, 1, 2, 3]) if rng.random() < 0.97 else 40
                if cls == "slerp":
                    ts = [now + 1 + i for i in range(k)] if rng.random() < 0.5 else rng.sample(range(lo - 3, max(now, lo + k) + 6), k)
                    n = None if k else n
                    op.update(o="set" if k == 1 else rng.choice(["many", "set"]), ts=ts, vs=[val() for _ in ts])
                else:
                    ts = [now + 1 + 2 * i for i in range(k)]
                    op.update(o="ext", ts=ts, vs=[val() for _ in ts])
                now = max([now] + ts)
            elif z < 0.93:
                op.update(o="clr")
                n, cnt = 0, 0
            elif z < 0.96 and (cls != "slerp" or ratio > 1):
                r = rng.randint(2, 7) if cls == "slerp" else rng.randint(1, 7)
                op.update(o="ratio" if cls == "slerp" else "min", r=r)
                ratio = r
            elif cls == "slerp":
                ts = [now + 1, now + 3, now + 4][:rng.choice([1, 3])]
                op.update(o="fit", ts=ts, vs=[val() for _ in ts])
                now, n, cnt = max([now] + ts), len(ts), 0
            else:
                op.update(o="per", r=rng.randint(0, 9))
            if n is None:
                n = 99 if cls != "slerp" else count(h + [op])
            h.append(op)
        sc = rng.choice([0, -3, 5, -16])
        cmds.append({"k": cls, "h": h, "every": 1, "s": sc, "off": rng.choice(OFF) if sc in (0, -16) else 0})
    lines, where, raw = [], [], []
    for cmd, g in zip(cmds, run(c, exe, cmds)):
        for i, (o, x) in enumerate(zip(cmd["h"], g["all"])):
            ob = {"M": x["M"], "n": x["n"], "out": x["out"]} if cls == "slerp" else [{"t": y["t"], "v": int(round(num(y["v"])))} for y in x["M"]]
            for y in (ob["M"] if cls == "slerp" else ob):
                y["t"] = int(y["t"]) if float(num(y["t"])).is_integer() else -12345
                y["v"] = int(round(num(y["v"])))
            lines.append({"op": o, "obs": ob})
            where.append((cmd, i))
            raw.append(x)
    t = c.tlc("SamplingTrace", vf.cfg(postcondition="Accepted"), consts={"Class": '"%s"' % cls}, files={"trace.ndjson": "\n".join(map(json.dumps, lines)) + "\n"})
    full = [x for x in t["lines"] if "full" in x]
    if cls == "hermite" and len(full) != len(lines):
        raise vf.MachineryError("%d of %d steps judged" % (len(full), len(lines)))
    for x in full:
        m = hermite_diff(x["full"], raw[x["line"] - 1])
        if m:
            cmd, i = where[x["line"] - 1]
            c.violation("step %d of a recorded run: %s" % (i, m), {"history": cmd["h"][:i + 1], "want": x["full"], "got": raw[x["line"] - 1]})
    bad = [x for x in t["lines"] if "want" in x]
    if bad:
        x = bad[0]
        cmd, i = where[x["line"] - 1]
        c.violation("a recorded run leaves the specification at step %d" % i, {"history": cmd["h"][:i + 1], "want": x["want"], "got": lines[x["line"] - 1]["obs"]})
    c.extra["recorded_steps"] = c.extra.get("recorded_steps", 0) + len(lines)


def count(h):
    """number of coefficients after a history that has batches in it (only to know which operations are allowed next)"""
    ts, cnt, ratio = set(), 0, h[0]["r"]
    for o in h[1:]:
        if o["o"] == "one":
            t = o["ts"][0]
            if len(ts) < 2 or ratio == 1:
                ts.add(t)
            else:
                if cnt:
                    ts.discard(max(ts))
                ts.add(t)
                cnt = 0 if cnt + 1 >= ratio else cnt + 1
        elif o["o"] in ("many", "set"):
            ts |= set(o["ts"])
        elif o["o"] == "fit":
            ts, cnt = set(o["ts"]), 0
        elif o["o"] == "clr":
            ts, cnt = set(), 0
        elif o["o"] == "ratio":
            ratio = o["r"]
    return len(ts)


def refused(c):
    """C06: in every state, the extensions and fits that have to be refused"""
    exe, probe = build(c)
    n = 4 if c.quick else 6
    for cls, ratios, kinds in (("slerp", [1, 2, 3], ["one", "many", "clr", "fit"]), ("hermite", [1, 2], ["ext", "fit", "clr"])):
        r = c.tlc("SamplingMC", vf.cfg(view="BadView", invariants=["Inv", "Split", "PrintBad"]),
                  consts={"Class": '"%s"' % cls, "Ratios": tset(ratios), "Kinds": tset(kinds), "MaxLen": n, "Gaps": tset([1]), "Pers": tset([0])})
        xs = r["lines"]
        cmds = [{"k": cls, "h": x["h"], "s": [0, -3, 7, -20][i % 4], "bad": x["bad"]} for i, x in enumerate(xs)]
        for cmd, x, g in zip(cmds, xs, run(c, exe, cmds)):
            m = slerp_diff(x["obs"], g, probe) if cls == "slerp" else hermite_diff(x["obs"], g)
            if m:
                c.violation(m, {"history": cmd, "expected": x["obs"], "got": g})
            for op, st in zip(x["bad"], g["bad"]):
                if st != "fatal":
                    c.violation("an invalid operation of a pose curve does not end in a fatal check (%s): %s" % (st, op),
                                {"class": cls, "history": x["h"], "op": op, "status": st})
            c.extra["invalid_operations"] = c.extra.get("invalid_operations", 0) + len(x["bad"])
        c.sample({"where": "refused by " + cls, "history": xs[-1]["h"], "refused": xs[-1]["bad"][:3]})


ASSUME = ["measurements arrive in the order of time; sampling ratio at least one",
          "kindr is not installed here and is replaced by a stand-in"]


def c07(c):
    exe, probe = build(c)
    if c.quick:
        replay(c, exe, "slerp", cases(c, "slerp", [1, 2, 3, 4], ["one", "many", "clr"], 6), probe, "fixed ratio")
        replay(c, exe, "slerp", cases(c, "slerp", [1, 2, 3, 5], ["one"], 14, gaps=[1]), probe, "measurements only")
        replay(c, exe, "slerp", cases(c, "slerp", [2, 3], ["one", "many", "set", "fit", "ratio", "clr"], 4), probe, "all operations")
        if probe:
            recorded(c, exe, "slerp", 60, 60, probe)
    else:
        replay(c, exe, "slerp", cases(c, "slerp", [1, 2, 3, 4], ["one", "many", "clr"], 8), probe, "fixed ratio")
        replay(c, exe, "slerp", cases(c, "slerp", [1, 2, 3, 5], ["one"], 9, gaps=[1, 2]), probe, "measurements only")
        replay(c, exe, "slerp", cases(c, "slerp", [2, 3, 5], ["one", "many", "set", "fit", "ratio", "clr"], 5), probe, "all operations")
        replay(c, exe, "slerp", cases(c, "slerp", [2, 3, 4], ["one", "ratio"], 8), probe, "changing ratio")
        if probe:
            recorded(c, exe, "slerp", 1500, 80, probe)
    c.assumptions += ASSUME + ["several measurements at once are not added in the middle of a run"]


def c08(c):
    exe, probe = build(c)
    if c.quick:
        replay(c, exe, "hermite", cases(c, "hermite", [1, 2, 3], ["ext", "clr"], 5, gaps=[1, 3]), probe, "fixed policy")
        replay(c, exe, "hermite", cases(c, "hermite", [1, 2], ["ext", "per", "min", "fit", "clr"], 4, pers=[2, 3]), probe, "all operations")
        replay(c, exe, "hermite", cases(c, "hermite", [1, 4], ["ext"], 6, gaps=[1, 2]), probe, "measurements only")
        recorded(c, exe, "hermite", 60, 60, probe)
    else:
        replay(c, exe, "hermite", cases(c, "hermite", [1, 2, 3, 4], ["ext", "clr"], 6, gaps=[1, 3]), probe, "fixed policy")
        replay(c, exe, "hermite", cases(c, "hermite", [1, 2, 3], ["ext", "per", "min", "fit", "clr"], 5, pers=[2, 3]), probe, "all operations")
        replay(c, exe, "hermite", cases(c, "hermite", [1, 2, 4], ["ext"], 8, gaps=[1, 2]), probe, "measurements only")
        recorded(c, exe, "hermite", 1500, 80, probe)
    c.assumptions += ASSUME + ["the policy is applied through SamplingPolicy::extend (the curve's own extend is not implemented)"]
