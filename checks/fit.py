"""Fitting spline containers: C16, C17."""
import json, math
import vf
from mgr import tset
from poly import build, run, close, num, cmp_val, seq, SOLVE, FAR, WIDE



def tol_of(s):
    """far from a second the solves lose digits up to the point where they are repeated in other units"""
    return 1e-8 if abs(s) <= 4 else 1e-5



def rec(d):
    return "[" + ", ".join("%s |-> %s" % (k, json.dumps(v) if isinstance(v, str) else seq(v) if isinstance(v, (list, tuple)) else v) for k, v in d.items()) + "]"


def pre(o, n, **k):
    d = {"o": o, "c": [1] * (n + 1), "d": 2, "t": 0, "ts": [], "ps": []}
    d.update(k)
    return d


def fit_graph(c, exe, n, ars, times, knots, bnds, pres, maxlen, scales, what, label):
    consts = {"N": n, "Ars": tset(ars), "KnotTimes": "{" + ",".join(map(seq, times)) + "}", "Knots": "<<" + ",".join(map(seq, knots)) + ">>",
              "Bnds": "{" + ",".join(rec(dict(zip(("v0", "vT", "a0", "aT"), b))) for b in bnds) + "}",
              "Pres": "{" + ",".join(map(rec, pres)) + "}", "MaxLen": maxlen}
    r = c.tlc("FitMC", vf.cfg(invariants=["InvExact", "PrintCase"]), consts=consts)
    cmds = []
    for i, x in enumerate(r["lines"]):
        h = []
        for op in x["h"]:
            h.append(dict(op, o="fit%d" % op["ar"]) if op["o"] == "fit" else op)
        s, w = scales[i % len(scales)]
        tot = x["pr"]["dur"]
        cmds.append({"k": "fit", "n": n, "h": h, "s": s, "w": w, "ts": list(range(-1, tot + 2))})
    for cmd, x, g in zip(cmds, r["lines"], run(c, exe, cmds)):
        judge(c, cmd, x, g, what)
    if cmds:
        c.sample({"where": label, "history": cmds[len(cmds) // 2]["h"], "promise": r["lines"][len(cmds) // 2]["pr"]})


def judge(c, cmd, x, g, what):
    pr, op = x["pr"], x["op"]
    bad = lambda m, **k: c.violation(m, dict({"history": cmd, "promise": pr}, **k))
    if g["ret"][-1] != pr["ok"]:
        bad("fit reports %s instead of %s" % (g["ret"][-1], pr["ok"]))
    cl = g["cl"]
    if "reject" in what or pr["ok"] == 1:
        if num(cl["time"]) != 0 or cl["idx"] != (0 if pr["ok"] else -1):
            bad("the clock is not restarted by a fit", got=cl)
    if pr["ok"] == 0:
        if "reject" in what and (cl["n"] != 0 or cl["empty"] != 1 or num(cl["dur"]) != 0 or any(num(v) != 0 for v in cl["cur"] + g["end"])):
            bad("a rejected fit leaves something in the container", got=cl)
        return
    if cl["n"] != len(pr["d"]) or not close(cl["dur"], pr["dur"], 1, 1e-9):
        bad("number of splines or duration: want %d, %s got %s, %s" % (len(pr["d"]), pr["dur"], cl["n"], cl["dur"]))
    if "conds" not in what:
        return
    mag = 10.0 + max(map(abs, op["ps"])) + 8 * (abs(op["v0"]) + abs(op["vT"]) + abs(op["a0"]) + abs(op["aT"]))
    TOL = tol_of(cmd["s"])
    eq = lambda a, b: abs(num(a) - num(b)) <= TOL * mag
    sp = g["spl"]
    for i, (d, p) in enumerate(zip(pr["d"], pr["p"])):
        if not close(sp[i][0], d, 1, 1e-9):
            bad("duration of spline %d: want %s got %s" % (i, d, sp[i][0]))
        if not eq(sp[i][1][0], p[0]) or not eq(sp[i][2][0], p[1]):
            bad("spline %d misses its knots: want %s got %s, %s" % (i, p, sp[i][1][0], sp[i][2][0]))
        if pr["smooth"] and i > 0:
            if not eq(sp[i - 1][2][1], sp[i][1][1]):
                bad("velocity jumps at knot %d: %s %s" % (i, sp[i - 1][2][1], sp[i][1][1]))
            if not eq(sp[i - 1][2][2], sp[i][1][2]):
                bad("acceleration jumps at knot %d: %s %s" % (i, sp[i - 1][2][2], sp[i][1][2]))
    if pr["ev"] and not (eq(sp[0][1][1], op["v0"]) and eq(sp[-1][2][1], op["vT"])):
        bad("end velocities: want %s %s got %s %s" % (op["v0"], op["vT"], sp[0][1][1], sp[-1][2][1]))
    if pr["ea"] and not (eq(sp[0][1][2], op["a0"]) and eq(sp[-1][2][2], op["aT"])):
        bad("end accelerations: want %s %s got %s %s" % (op["a0"], op["aT"], sp[0][1][2], sp[-1][2][2]))
    for t, w, got in zip(cmd["ts"], x["at"], g["at"]):
        if not all(close(a, b, w[3], TOL, mag) for a, b in zip(got[0], w[:3])):
            bad("at time %s: want %s got %s" % (t, w, got))
    # the trajectory as a whole passes through the knots at their times
    t0 = op["ts"][0]
    for t, p in zip(op["ts"], op["ps"]):
        i = cmd["ts"].index(t - t0)
        if not eq(g["at"][i][0][0], p):
            bad("the trajectory misses the knot at time %s: want %s got %s" % (t, p, g["at"][i][0][0]))


# ---- recorded fits of real-valued data ----------------------------------------------
def random_fits(c, exe, count, bad_share, label):
    rng = c.rng
    cmds, meta = [], []
    for i in range(count):
        n = rng.choice([1, 2, 3, 3, 4, 5, 5, 5])
        k = rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 10]) if rng.random() < 0.96 else rng.choice([15, 20, 30, 40])
        broken = rng.random() < bad_share
        if broken and rng.random() < 0.1:
            k = rng.choice([33, 60, 120])
        large = [52, 70, 100, 140, 64, 128, 260, 90][i] if i < (4 if c.quick else 8) else 0
        if large and not bad_share:
            n, k = rng.choice([3, 4, 5, 5]), large
        wide = rng.random() < 0.35 and not large
        unit = 2.0 ** rng.uniform(-18, 18) if wide else rng.choice([0.05, 0.3, 1.0, 1.0, 4.0])
        ts = [rng.choice([0.0, 0.0, unit * rng.uniform(-5, 5), 16 * unit]) if wide else rng.choice([0.0, 0.0, rng.uniform(-5, 5), 100.0, -37.5])]
        for _ in range(k):
            ts.append(ts[-1] + unit * (2.0 ** rng.uniform(-4, 4) if wide else rng.choice([0.25, 0.5, 1.0, 1.0, rng.uniform(0.1, 2.0)])))
        W = rng.choice([1e-3, 1.0, 1.0, 50.0])
        ps = [rng.choice([0.0, W, rng.uniform(-W, W)]) for _ in ts]
        if broken:
            kind = rng.randrange(5)
            j = rng.randrange(1, len(ts))
            if kind == 0:
                ts, ps = ts[:1], ps[:1]
            elif kind == 1:
                ts[j] = ts[j - 1]
            elif kind == 2:
                ts[-1] = ts[-2] - rng.choice([1e-9, 1.0])
            elif kind == 3:
                ts[j], ts[j - 1] = ts[j - 1], ts[j]
            else:
                ts, ps = [], []
        ar = rng.choice([2, 4, 6, 6]) if not large else 6
        dv = lambda: rng.choice([0.0, rng.uniform(-W, W) / unit])
        da = lambda: rng.choice([0.0, rng.uniform(-W, W) / unit ** 2])
        op = {"o": "fit%d" % ar, "ts": ts, "ps": ps, "v0": dv(), "vT": dv(), "a0": da(), "aT": da()}
        h = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            h.append(rng.choice([
                pre("add", n, c=[rng.uniform(-1, 1) for _ in range(n + 1)], d=rng.uniform(0.1, 2)), pre("adv", n, t=rng.uniform(0, 3)),
                pre("set", n, t=rng.uniform(-1, 3)), dict(op, ts=[0.0, unit, 3 * unit], ps=[1.0, 2.0, 0.0])]))
        h.append(op)
        # sample times inside, for the straight line case
        inner = []
        if len(ts) >= 2:
            for a, b in zip(ts, ts[1:]):
                inner += [a - ts[0], a - ts[0] + 0.375 * (b - a)]
        cmds.append({"k": "fit", "n": n, "h": h, "s": 0, "w": 0, "ts": inner})
        meta.append((n, ar, ts, ps, op, unit, W, wide))
    lines = []
    worst = 0.0
    for cmd, (n, ar, ts, ps, op, unit, W, wide), g in zip(cmds, meta, run(c, exe, cmds)):
        u = sorted(set(ts))
        ranks = [u.index(t) + 1 for t in ts]
        dmin = min([abs(b - a) for a, b in zip(ts, ts[1:]) if b != a] or [1.0])
        m0 = W + unit * (abs(op["v0"]) + abs(op["vT"])) + unit ** 2 * (abs(op["a0"]) + abs(op["aT"])) + 1e-9
        sp, cl = g["spl"], g["cl"]
        # natural size of errors of value, velocity and acceleration
        size = [m0 * max(1.0, unit) ** 2 / min(1.0, dmin) ** 2] * 3
        if wide:
            top = max([m0] + [abs(num(v[0][0])) for v in g["at"]] + [abs(num(v[q])) * e[0] ** q for e in sp for v in e[1:3] for q in (1, 2)])
            size = [1e4 * top / dmin ** q for q in range(3)]

        def res(x, y, q):
            r = abs(num(x) - num(y)) / (1e-9 * size[q])
            nonlocal worst
            if r < 1 and count:
                worst = max(worst, r)
            return 0 if r <= 1 else int(min(1e6, math.ceil(r))) if r == r else 999999
        k = len(ts) - 1
        count = True
        good = k >= 1 and all(a < b for a, b in zip(ts, ts[1:])) and len(sp) == k
        r = {"ret": g["ret"][-1], "n": cl["n"], "empty": cl["empty"], "time0": 1 if num(cl["time"]) == 0 else 0,
             "dur0": 1 if num(cl["dur"]) == 0 else 0, "dur": 0, "d": [], "pos": [], "vel": [], "acc": [], "v0": 0, "vT": 0, "a0": 0, "aT": 0, "line": []}
        if good:
            span = ts[-1] - ts[0]
            r["dur"] = 0 if abs(num(cl["dur"]) - span) <= 1e-9 * (span + max(map(abs, ts))) else 1
            r["d"] = [0 if abs(num(s[0]) - (b - a)) <= 1e-9 * (1 + abs(b)) else 1 for s, a, b in zip(sp, ts, ts[1:])]
            r["pos"] = [res(s[1][0], a, 0) for s, a in zip(sp, ps)] + [res(s[2][0], a, 0) for s, a in zip(sp, ps[1:])]
            count = n >= 3 and ar >= 4
            r["vel"] = [res(a[2][1], b[1][1], 1) for a, b in zip(sp, sp[1:])]
            r["acc"] = [res(a[2][2], b[1][2], 2) for a, b in zip(sp, sp[1:])]
            r["v0"], r["vT"] = res(sp[0][1][1], op["v0"], 1), res(sp[-1][2][1], op["vT"], 1)
            count = count and ar == 6 and n == 5
            r["a0"], r["aT"] = res(sp[0][1][2], op["a0"], 2), res(sp[-1][2][2], op["aT"], 2)
            count = n < 3 or ar == 2
            for i in range(k):
                r["line"].append(res(g["at"][2 * i + 1][0][0], ps[i] + 0.375 * (ps[i + 1] - ps[i]), 0))
        lines.append({"n": n, "ar": ar, "ts": ranks, "r": r})
    t = c.tlc("FitTrace", vf.cfg(postcondition="Accepted"), files={"trace.ndjson": "\n".join(map(json.dumps, lines)) + "\n"})
    for x in t["lines"]:
        i = x["line"] - 1
        broken = [k for k, v in x["want"].items() if v is not True]
        c.violation("a recorded fit breaks its promise: %s" % broken, {"kind": "trace", "case": cmds[i], "residuals": lines[i]["r"]})
    c.extra["recorded_fits"] = c.extra.get("recorded_fits", 0) + count
    c.extra["largest_accepted_residual_in_tolerances"] = max(worst, c.extra.get("largest_accepted_residual_in_tolerances", 0))
    c.sample({"where": label, "fit": cmds[0]["h"][-1]})


GOOD_T = [[0, 1], [0, 3], [-2, 0, 1], [1, 2, 4], [0, 2, 3, 4], [5, 6, 9, 10, 12]]
BAD_T = [[], [3], [0, 0], [2, 1], [0, 1, 1], [0, 2, 1], [1, 1, 2], [0, 1, 2, 2], [0, 3, 2, 4], [0, 1, 2, 1]]
KN = [[0, 2, -1, 4, 3], [3, 3, 3, 3, 3]]
BND = [(0, 0, 0, 0), (1, -2, 2, 0), (0, 3, -4, 6)]
ASSUME = ["one position per knot time", "units of time from 2^-40 to 2^33; neighbouring durations differ by at most 2^8"]


def c16(c):
    exe = build(c)
    if c.quick:
        for n in (1, 2, 3, 4, 5):
            fit_graph(c, exe, n, [2, 4, 6], GOOD_T, KN, BND if n > 2 else BND[:2], [], 1, SOLVE + FAR, ["conds"], "order %d" % n)
        fit_graph(c, exe, 5, [2, 6], GOOD_T[:3], KN[:1], BND[1:2], [pre("add", 5), pre("adv", 5, t=1)], 3, SOLVE + FAR, ["conds"], "refits")
        random_fits(c, exe, 1500, 0.0, "recorded fits")
    else:
        for n in (1, 2, 3, 4, 5):
            fit_graph(c, exe, n, [2, 4, 6], GOOD_T + [[0, 1, 2, 3, 4], [0, 4, 5, 9, 10], [-9, -7]], KN + [[-5, 0, 5, 0, -5]], BND + [(-1, -1, 2, 2)], [], 1, SOLVE + FAR, ["conds"], "order %d" % n)
            fit_graph(c, exe, n, [2, 4, 6], GOOD_T[:4], KN[:1], BND[1:2], [pre("add", n), pre("adv", n, t=1)], 3, SOLVE + FAR, ["conds"], "refits")
        random_fits(c, exe, 40000, 0.0, "recorded fits")
    c.assumptions += ASSUME


def c17(c):
    exe = build(c)
    if c.quick:
        for n in (1, 3, 4, 5):
            fit_graph(c, exe, n, [2, 4, 6], BAD_T + GOOD_T[1:3], KN[:1], BND[1:2],
                      [pre("add", n), pre("adv", n, t=1), pre("set", n, t=2)], 2 if n != 5 else 3, WIDE[:3], ["reject"], "order %d" % n)
        random_fits(c, exe, 800, 0.6, "recorded fits")
    else:
        for n in (1, 2, 3, 4, 5):
            fit_graph(c, exe, n, [2, 4, 6], BAD_T + GOOD_T[1:5], KN[:1], BND[1:2],
                      [pre("add", n), pre("adv", n, t=1), pre("set", n, t=2)], 3, WIDE[:3], ["reject"], "order %d" % n)
        random_fits(c, exe, 20000, 0.6, "recorded fits")
    c.assumptions += ASSUME
