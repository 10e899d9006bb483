"""Polynomial scalar and vector curves: C18."""
import json
import vf
from mgr import tset
from poly import run, close, num, seq, SOLVE, FAR
from fit import rec, tol_of

SCALES = SOLVE + FAR
FLAGS = [1, 1, 1, 0, 0, 0]


def build(c):
    return c.build("polycurve", ["polycurve.cpp"], extra_src=c.sources())


def cases(c, times, knots, bnds, shifts, opts, maxlen):
    consts = {"KnotTimes": "{" + ",".join(map(seq, times)) + "}", "Knots": "<<" + ",".join(map(seq, knots)) + ">>",
              "Bnds": "{" + ",".join(map(seq, bnds)) + "}", "Shifts": tset(shifts),
              "Opts": "{" + ",".join("<<" + ",".join(map(rec, o)) + ">>" for o in opts) + "}", "MaxLen": maxlen, "Margin": 2}
    r = c.tlc("PolyCurveMC", vf.cfg(invariants=["InvShift", "PrintCase"]), consts=consts)
    return r["lines"]


def grid(x):
    return [x["min"] - 2 + 0.5 * k for k in range(2 * (x["max"] - x["min"] + 4) + 1)]


def judge(c, cmd, x, g, comp=None):
    """g: reply of the real curve, x: the case of the model (for one component)"""
    bad = lambda m, **k: c.violation(m, dict({"history": cmd, "case": x}, **k))
    pick = (lambda v: v) if comp is None else (lambda v: v[comp])
    if not close(g["min"], x["min"], 1, 1e-12) or not close(g["max"], x["max"], 1, 1e-12):
        bad("time range: want [%s, %s] got [%s, %s]" % (x["min"], x["max"], g["min"], g["max"]))
    TOL = tol_of(cmd["s"])
    mag = 10.0 + max([abs(p) for p in x["ps"]] + [0]) + 8 * sum(map(abs, x["b"] or [0]))
    eq = lambda a, b: abs(num(a) - num(b)) <= TOL * mag
    by = {}
    for t, a in zip(cmd["ts"], g["at"]):
        if a[0] != FLAGS:
            bad("evaluation reports success as %s instead of %s (value, first, second, other derivatives)" % (a[0], FLAGS), time=t)
        by[t] = [pick(v) for v in a[1]]
    for a in g["edge"]:
        if a[0] != FLAGS:
            bad("evaluation outside of the range reports success as %s instead of %s" % (a[0], FLAGS))
    if x["kind"] == "none":
        return by
    lo, hi = by[x["min"]], by[x["max"]]
    for k, (a, w) in enumerate(zip(g["edge"], [lo, lo, hi, hi] + [lo] * 5 + [hi] * 5)):
        v = [pick(y) for y in a[1]]
        if not all(eq(p, q) for p, q in zip(v, w)):
            bad("next to the range or far away (place %d): want %s got %s" % (k, w, v))
    for t, p in zip(x["ts"], x["ps"]):
        if not eq(by[t][0], p):
            bad("the curve misses the knot at %s: want %s got %s" % (t, p, by[t][0]))
    if x["kind"] == "knots":
        b = x["b"]
        for t, v, a, e in ((x["min"], b[0], b[2], "first"), (x["max"], b[1], b[3], "last")):
            if not eq(by[t][1], v) or not eq(by[t][2], a):
                bad("derivatives at the %s knot: want %s %s got %s" % (e, v, a, by[t][1:]))
        for t in by:
            if t < x["min"] and not all(eq(p, q) for p, q in zip(by[t], by[x["min"]])) or \
               t > x["max"] and not all(eq(p, q) for p, q in zip(by[t], by[x["max"]])):
                bad("the end values are not held at %s: %s" % (t, by[t]))
    for k, w in enumerate(x["at"]):
        t = x["min"] - 2 + k
        if not all(close(a, v, w[3], TOL, mag) for a, v in zip(by[t], w[:3])):
            bad("at %s: want %s got %s" % (t, w, by[t]))
    return by


def record(c, exe, count):
    """fits of real data with many knots, far from time zero, judged by TLC"""
    rng = c.rng
    cmds, meta = [], []
    for _ in range(count):
        dim = rng.choice([1, 2, 3, 3, 6])
        k = rng.choice([2, 3, 4, 6, 10, 18]) if rng.random() < 0.98 else rng.choice([30, 40])
        wide = rng.random() < 0.35
        unit = 2.0 ** rng.uniform(-18, 18) if wide else rng.choice([0.05, 0.3, 1.0, 4.0])
        t = [unit * rng.choice([0, rng.uniform(-5, 5), rng.uniform(0, 1e3)]) if wide else rng.choice([0.0, rng.uniform(-5, 5), 1.4e9 + rng.random(), -37.5, rng.uniform(1e5, 1e6)])]
        while len(t) < k:
            t.append(t[-1] + unit * rng.choice([0.5, 1.0, 1.0, rng.uniform(0.3, 2.0)]))
        W = rng.choice([1e-3, 1.0, 50.0])
        kp = [[rng.uniform(-W, W) for _ in t] for _ in range(dim)]
        b = [[rng.uniform(-W, W) / unit, rng.uniform(-W, W) / unit, rng.uniform(-W, W) / unit ** 2, rng.uniform(-W, W) / unit ** 2] for _ in range(dim)]
        ts, at = [], []
        for i, x in enumerate(t):
            ts.append(x)
            at.append(2 * i + 2)
            if i + 1 < k:
                y = x + rng.uniform(0.1, 0.9) * (t[i + 1] - x)
                ts.append(y)
                at.append(2 * i + 3)
        ts += [t[0] - rng.choice([0.001 * unit, unit, 1e3 * unit]), t[-1] + rng.choice([0.001 * unit, unit, 1e3 * unit])]
        at += [1, 2 * k + 1]
        order = list(range(len(ts)))
        rng.shuffle(order)
        cmds.append({"k": "rec", "dim": dim, "kt": t, "kp": kp, "b": b, "ts": [ts[i] for i in order]})
        meta.append(([at[i] for i in order], unit, W, wide))
    lines = []
    for cmd, (at, unit, W, wide), g in zip(cmds, meta, run(c, exe, cmds)):
        t, kp, b = cmd["kt"], cmd["kp"], cmd["b"]
        dmin = min(y - x for x, y in zip(t, t[1:]))
        size = [1e-9 * W * 5 * max(1.0, unit) ** 2 / min(1.0, dmin) ** 2] * 3
        if wide:
            top = max([W] + [abs(num(v)) * dmin ** q for row in g["at"] for e in row for q, v in enumerate(e[1])])
            size = [1e-5 * top / dmin ** q for q in range(3)]

        def res(x, y, q=0):
            r = abs(num(x) - num(y)) / size[q]
            return 0 if r <= 1 else int(min(1e6, r + 1)) if r == r else 999999

        def all3(a, b):
            return max(res(x, y, q) for q, (x, y) in enumerate(zip(a, b)))
        scale = max(1.0, max(map(abs, t)))
        e = {"k": len(t), "dim": cmd["dim"], "smp": [],
             "range": [0 if abs(num(x) - y) <= 1e-15 * 8 * scale else 1 for x, y in zip(g["range"], [t[0], t[-1]] * 2)]}
        ends = {a: row for a, row in zip(at, g["at"]) if a in (2, 2 * len(t))}
        for a, row in zip(at, g["at"]):
            for j, (v, s, k) in enumerate(row):
                m = {"at": a, "comp": j + 1, "knot": 0, "ends": 0, "hold": 0,
                     "same": all3(s, k), "scalar": all3(v, s)}
                if a % 2 == 0:
                    m["knot"] = res(s[0], kp[j][a // 2 - 1])
                if a == 2:
                    m["ends"] = max(res(s[1], b[j][0], 1), res(s[2], b[j][2], 2))
                if a == 2 * len(t):
                    m["ends"] = max(m["ends"], res(s[1], b[j][1], 1), res(s[2], b[j][3], 2))
                if a in (1, 2 * len(t) + 1):
                    m["hold"] = all3(s, ends[2 if a == 1 else 2 * len(t)][j][1])
                e["smp"].append(m)
        lines.append(e)
    r = c.tlc("PolyCurveTrace", vf.cfg(postcondition="Accepted"), files={"trace.ndjson": "\n".join(map(json.dumps, lines)) + "\n"})
    for x in r["lines"]:
        i = x["line"] - 1
        c.violation("a recorded curve breaks its promise", {"case": cmds[i], "range": lines[i]["range"], "samples": [lines[i]["smp"][k - 1] for k in x["bad"]][:10]})
    c.extra["recorded_curves"] = count


def c18(c):
    exe = build(c)
    T = [[0, 1], [0, 2, 3], [0, 1, 3, 4]]
    K = [[1, 4, -2, 0], [0, 0, 5, 5], [-3, 2, 2, 7]]
    Bn = [(1, -2, 2, 4), (0, 3, -4, 0)]
    sh = [0, 7, -5, 2 ** 20 + 7]
    o1 = {"T": 2, "p0": 1, "pT": 3, "v0": 0, "vT": 1, "a0": 0, "aT": 2}
    o2 = {"T": 1, "p0": 3, "pT": 0, "v0": 1, "vT": 0, "a0": 2, "aT": -2}
    opts = [[o1], [o1, o2]]
    if not c.quick:
        T += [[0, 4, 5, 6], [0, 3], [0, 1, 2, 3, 4, 5]]
        K = [k + [1, -1] for k in K] + [[9, 8, 7, 6, 5, 4]]
        Bn += [(0, 0, 0, 6), (-1, -1, -2, -2)]
        sh += [100, -1]
    xs = cases(c, T, K, Bn, sh, opts, 1)
    xs += cases(c, T[:2], K[:1], Bn[:1], sh[:2], opts[:1], 2 if c.quick else 3)
    # runs that are compared with each other use the same scale: the least squares problem behind a
    # quintic fit can be underdetermined, and which solution is taken depends on the units
    names = {}

    def scale(x, extra=0):
        rel = json.dumps([t - x["sh"] for t in x["ts"]]) if x["kind"] == "knots" else "other"
        return SCALES[(names.setdefault(rel, len(names)) * 3 + extra) % len(SCALES)]

    rounds = 2 if c.quick else 6
    for extra in range(rounds):
        one_round(c, exe, xs, scale, extra)
    record(c, exe, 400 if c.quick else 6000)


def one_round(c, exe, xs, scale, extra):
    cmds = []
    for x in xs:
        s, w = scale(x, extra)
        cmds.append({"k": "scalar", "h": x["h"], "ts": grid(x), "s": s, "w": w})
    reps = run(c, exe, cmds)
    seen = {}
    for cmd, x, g in zip(cmds, xs, reps):
        by = judge(c, cmd, x, g)
        # shifting the knots shifts the curve and nothing else
        if x["kind"] == "knots":
            key = json.dumps([[t - x["sh"] for t in x["ts"]], x["ps"], x["b"]])
            rel = {t - x["sh"]: v for t, v in by.items()}
            if key in seen:
                for t in rel:
                    a, b = rel[t], seen[key][0][t]
                    if any(abs(num(p) - num(q)) > tol_of(cmd["s"]) * (100 + abs(num(q))) for p, q in zip(a, b)):
                        c.violation("shifting the knots changes the curve at %s after the shift: %s became %s" % (t, b, a),
                                    {"history": cmd, "other": seen[key][1]})
            else:
                seen[key] = (rel, cmd)
    c.sample({"where": "scalar", "history": cmds[5]["h"]})
    # vector curves: every component is the scalar curve of that component
    single = [x for x in xs if len(x["h"]) == 1 and x["kind"] == "knots"]
    groups = {}
    for x in single:
        groups.setdefault((json.dumps(x["ts"]), x["h"][0]["o"]), []).append(x)
    cmds, trip = [], []
    n = 0
    for (ts, o), l in groups.items():
        for i in range(len(l)):
            dim = (3, 2, 3, 6, 1)[n % 5]
            three = [l[(i + k * (k + 1) // 2) % len(l)] for k in range(dim)]
            for oo in (["fit"] if o == "fit" else ["fitb", "fitd"]):
                ps = [list(p) for p in zip(*[x["ps"] for x in three])]
                b = [list(p) for p in zip(*[x["b"] for x in three])]
                h = [{"o": oo, "ts": three[0]["ts"], "ps": ps, "b": b}]
                if n % 3 == 1:   # after another fit
                    h = [{"o": "fitb", "ts": [-1, 2, 9], "ps": [[1, 2, 3, 4, 5, 6][:dim]] * 3, "b": [[1] * dim] * 4}] + h
                if n % 3 == 2:
                    h = [{"o": "fit", "ts": [-1, 2, 9], "ps": [[1, 2, 3, 4, 5, 6][:dim]] * 3, "b": []}, {"o": "clr", "ts": [], "ps": [], "b": []}] + h
                n += 1
                s, w = scale(three[0], extra)
                cmds.append({"k": "vec", "dim": dim, "h": h, "ts": grid(three[0]), "s": s, "w": w})
                trip.append(three)
    for cmd, three, g in zip(cmds, trip, run(c, exe, cmds)):
        for j in range(len(three)):
            by = judge(c, cmd, three[j], g, j)
            x = three[j]
            key = json.dumps([[t - x["sh"] for t in x["ts"]], x["ps"], x["b"]])
            for t, v in by.items():
                w = seen[key][0][t - x["sh"]]
                if any(abs(num(p) - num(q)) > tol_of(cmd["s"]) * (100 + abs(num(q))) for p, q in zip(v, w)):
                    c.violation("component %d differs from the scalar curve at %s: %s, scalar %s" % (j, t, v, w), {"history": cmd})
    c.sample({"where": "vector", "history": cmds[3]["h"]})
    if extra == 0: c.assumptions += ["at least two knots with increasing times", "compared with a tolerance of 1e-8 of the data"]
