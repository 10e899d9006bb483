"""Hermite pose curves: C11."""
import json, math
import vf
from mgr import tset
from poly import run, close, num, seq
import hermite
from fit import rec

Z = [0, 0, 0]


def build(c):
    return c.build("hermite_se3", ["hermite_se3.cpp"], extra_src=c.sources(kindr=True))


# ---- quaternions and vectors --------------------------------------------------
def qmul(a, b):
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]


def qconj(a):
    return [a[0], -a[1], -a[2], -a[3]]


def norm(a):
    return math.sqrt(sum(x * x for x in a))


def unit(a):
    n = norm(a)
    return [x / n for x in a]


def qlog(r):
    r = unit(r)
    if r[0] < 0:
        r = [-x for x in r]
    n = norm(r[1:])
    if n < 1e-300:
        return [0.0] * 3
    return [2 * math.atan2(n, r[0]) / n * x for x in r[1:]]


def qexp(v):
    a = norm(v)
    if a == 0:
        return [1.0, 0, 0, 0]
    return [math.cos(a / 2)] + [math.sin(a / 2) / a * x for x in v]


def rot(q, v):
    return qmul(qmul(q, [0] + list(v)), qconj(q))[1:]


def dist(a, b):
    return max([abs(x - y) for x, y in zip(a, b)] + [0.0])


def qdist(a, b):
    return min(dist(a, b), dist(a, [-x for x in b]))


# ---- cases of the model -------------------------------------------------------
def seqs(x):
    """any nesting of lists and records as a TLA+ expression"""
    if isinstance(x, dict):
        return "[" + ", ".join("%s |-> %s" % (k, seqs(v)) for k, v in x.items()) + "]"
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(map(seqs, x)) + ">>"
    return str(x)


def setof(l):
    return "{" + ", ".join(map(seqs, l)) + "}"


def model(c, times, poses, ends, motions, kinds, maxlen):
    consts = {"KnotTimes": setof(times), "Poses": seqs(poses), "Ends": setof(ends), "Motions": setof(motions), "Kinds": tset(kinds), "MaxLen": maxlen}
    return c.tlc("PoseMC", vf.cfg(invariants=["InvMotions", "InvEquivariant", "InvCoords", "PrintCase"]), consts=consts)["lines"]


def real(P):
    return [float(x) for x in P["p"]] + unit([float(x) for x in P["q"]])


def op(o):
    return {"o": o["o"], "ts": o["ts"], "Ps": [real(P) for P in o["Ps"]], "e0": o["v0"] + o["w0"], "e1": o["v1"] + o["w1"]}


def twist(s):
    w = [x / s["d"] for x in qlog(s["r"])]
    return [x / s["d"] for x in s["v"]], [a + b / s["d"] for a, b in zip(w, s["w"])]


class Relations:
    """collects residuals of recorded evaluations; TLC judges them"""
    def __init__(self, c):
        self.c, self.lines, self.where = c, [], []

    def add(self, where, mag=1.0, **res):
        r = {}
        for k, x in res.items():
            y = x / mag * 1e9
            r[k] = 2000000000 if not y < 2e9 else int(math.ceil(y))
        self.lines.append({"r": r})
        self.where.append(where)

    def judge(self):
        c = self.c
        t = c.tlc("PoseTrace", vf.cfg(postcondition="Accepted"), files={"trace.ndjson": "\n".join(map(json.dumps, self.lines)) + "\n"})
        for x in t["lines"]:
            i = x["line"] - 1
            c.violation("a recorded evaluation of a pose curve breaks its promise: %s" % x["broken"], {"kind": "trace", "case": self.where[i], "residuals": self.lines[i]["r"]})
        worst = {}
        for l in self.lines:
            for k, v in l["r"].items():
                worst[k] = max(worst.get(k, 0), v)
        c.extra["largest_residuals_in_billionths"] = {k: max(v, c.extra.get("largest_residuals_in_billionths", {}).get(k, 0)) for k, v in worst.items()}
        c.extra["recorded_relations"] = c.extra.get("recorded_relations", 0) + len(self.lines)


ST = [(-2, 1 / 12), (-1, -8 / 12), (1, 8 / 12), (2, -1 / 12)]   # five point rule for the derivative


def plan(ts):
    """times at which a curve with these knots is recorded"""
    out = list(ts)
    for a, b in zip(ts, ts[1:]):
        d = b - a
        for f in (0.125, 0.3, 0.5, 0.77, 0.9375):
            t, h = a + f * d, d / 256.0
            out += [t] + [t + k * h for k, _ in ST]
    for k, t in enumerate(ts):
        if k > 0:
            out.append(t - (t - ts[k - 1]) * 2.0 ** -22)
        if k + 1 < len(ts):
            out.append(t + (ts[k + 1] - t) * 2.0 ** -22)
    return out


def record(R, cmd, ts, g, knots, psc=1.0, rsc=1.0):
    """relations of one curve.  knots: fitted poses and twists; psc, rsc: size of its translations and turns"""
    at = {t: a for t, a in zip(cmd["ts"], g["at"])}
    mag = psc + max(norm(k[0][:3]) for k in knots)
    dts = [b - a for a, b in zip(ts, ts[1:])]
    vl = (max([norm(k[1]) for k in knots]) + 2 * mag / min(dts)) if dts else 1.0 + norm(knots[0][1])
    va = (max([norm(k[2]) for k in knots]) + 7.0 * rsc / min(dts)) if dts else 1.0 + norm(knots[0][2])
    vm = (vl, va)
    rm = rsc + 1e-6   # rotations are only known to rounding
    rels = lambda x, y: max(dist(x[3], y[0]) / vl, dist(x[4], y[1]) / va)
    for t, a in at.items():
        if a[0] != [1, 1, 1 if len(ts) > 1 else 0, 0]:
            R.c.violation("success of evaluation at %s (pose, twist, linear acceleration, other orders): got %s" % (t, a[0]), {"history": cmd})
    for i, (t, k) in enumerate(zip(ts, knots)):
        a = at[t]
        R.add([cmd["h"], "knot", t], knotp=max(dist(a[1], k[0][:3]) / mag, qdist(a[2], k[0][3:]) / rm), knott=rels(a, (k[1], k[2])))
    for t, a in at.items():
        R.add([cmd["h"], "unit", t], unit=abs(norm(a[2]) - 1))
    for a, b in zip(ts, ts[1:]):
        d = b - a
        for f in (0.125, 0.3, 0.5, 0.77, 0.9375):
            t, h = a + f * d, d / 256.0
            x = at[t]
            n = [at[t + k * h] for k, _ in ST]
            lin = [sum(cf * y[1][j] for (_, cf), y in zip(ST, n)) / h for j in range(3)]
            # rotations of neighbours relative to the pose at t, sign removed
            rel = [qmul(y[2], qconj(x[2])) for y in n]
            rel = [[-v for v in r] if r[0] < 0 else r for r in rel]
            ang = [2 * sum(cf * r[1 + j] for (_, cf), r in zip(ST, rel)) / h for j in range(3)]
            # rounding of the positions and truncation of the rule, both well below
            R.add([cmd["h"], "derivative", t], dlin=dist(lin, x[3]) / vl, dang=dist(ang, x[4]) / va)
    for i, t in enumerate(ts):
        for s in ([t - (t - ts[i - 1]) * 2.0 ** -22] if i else []) + ([t + (ts[i + 1] - t) * 2.0 ** -22] if i + 1 < len(ts) else []):
            a, b = at[t], at[s]
            R.add([cmd["h"], "across", t], jump=max(dist(a[1], b[1]) / mag, qdist(a[2], b[2]) / rm), kink=rels(a, (b[3], b[4])))
    return at, mag, vm


def moved(R, cmd, cmd2, T, at, at2, mag, vm, shiftmag):
    for t in at:
        a, b = at[t], at2[t]
        p = [x + y for x, y in zip(T[:3], rot(T[3:], a[1]))]
        q = qmul(T[3:], a[2])
        R.add([cmd["h"], cmd2["h"], "moved", t], movep=max(dist(p, b[1]) / (mag + shiftmag), qdist(q, b[2])),
              movet=max(dist(rot(T[3:], a[3]), b[3]) / vm[0], dist(rot(T[3:], a[4]), b[4]) / vm[1]))


def grid_cases(c, exe, times, poses, ends, motions, kinds, maxlen, R):
    xs = model(c, times, poses, ends, motions, kinds, maxlen)
    cmds, meta = [], []
    for n, x in enumerate(xs):
        ts = [float(k["t"]) for k in x["K"]]
        h = [op(o) for o in x["h"]]
        grid = [float(x["lo"] + k) for k in range(len(x["at"]))]
        cmds.append({"h": h, "ts": grid})
        meta.append(("grid", x))
        if ts:
            cmds.append({"h": h, "ts": plan(ts)})
            meta.append(("rel", x))
            for m in ([x["moved"][n % len(x["moved"])]] if c.quick else x["moved"]):
                cmds.append({"h": h[:-1] + [op(m["op"])], "ts": plan(ts)})
                meta.append(("moved", x, m["T"]))
    last = None
    for cmd, me, g in zip(cmds, meta, run(c, exe, cmds)):
        x = me[1]
        n = len(x["K"])
        bad = lambda m: c.violation(m, {"history": cmd})
        if g["size"] != n or g["empty"] != (0 if n else 1) or g["times"] != [k["t"] for k in x["K"]]:
            bad("size, emptiness or times of the curve: %s %s %s" % (g["size"], g["empty"], g["times"]))
        if n and [g["min"], g["max"]] != [x["K"][0]["t"], x["K"][-1]["t"]]:
            bad("time range: got [%s, %s]" % (g["min"], g["max"]))
        for k, a in enumerate(g["edge"]):
            if a[0] != ([1, 1, 1, 0] if n > 1 and k in (1, 2) else [0] * 4):
                bad("success of evaluation next to the range or far away (place %d): got %s" % (k, a[0]))
        if me[0] == "grid":
            mag = 2.0 + 4 * max([norm(k["P"]["p"]) + norm(k["s"]["v"]) for k in x["K"]] + [0])
            for k, (t, w) in enumerate(zip(cmd["ts"], x["at"])):
                a = g["at"][k]
                if a[0] != [w[0][0], w[0][1], w[0][2], 0]:
                    bad("success of evaluation at %s (pose, twist, linear acceleration, other orders): want %s got %s" % (t, w[0][:3] + [0], a[0]))
                for j in range(3):
                    for got, ok, nu in ((a[1][j], w[j][0], w[j][3]), (a[3][j], w[j][1], w[j][4]), (a[5][j], w[j][2], w[j][5])):
                        if ok and not close(got, nu, w[j][6], 1e-10, mag):
                            bad("translation (value %s) at %s, coordinate %d: want %s" % (got, t, j, nu / w[j][6]))
        elif me[0] == "rel":
            knots = [(real(k["P"]),) + tuple(twist(k["s"])) for k in x["K"]]
            last = (cmd,) + record(R, cmd, [float(k["t"]) for k in x["K"]], g, knots)
        else:
            T = real(me[2])
            at2 = {t: a for t, a in zip(cmd["ts"], g["at"])}
            moved(R, last[0], cmd, T, last[1], at2, last[2], last[3], norm(T[:3]))
    c.sample({"where": "integer quaternions", "history": cmds[len(cmds) // 2]["h"]})


def angle_cases(c, exe, unit_angle, times, knots, vels, shifts):
    half = min(10 ** 6, int(math.pi / unit_angle * 0.98))
    consts = {"KnotTimes": setof(times), "Knots": seqs(knots), "Vels": setof(vels), "Shifts": tset(shifts), "Kinds": tset(["fit", "fitd", "per", "clr"]),
              "MaxLen": 1, "Margin": 1, "Half": half}
    xs = c.tlc("PoseAngleMC", vf.cfg(invariants=["InvPasses", "InvDerivatives", "PrintAngle"]), consts=consts)["lines"]
    axes = [unit(a) for a in ([1, 0, 0], [0, 0, -1], [1, 2, -2], [-3, 1, 5])]
    bases = [unit(q) for q in ([1, 0, 0, 0], [1, 2, 3, 4], [0, 1, 0, 0], [-2, 1, 0, 1])]
    cmds, meta = [], []
    for i, x in enumerate(xs):
        for r in range(2 if c.quick else 6):
            ax, b = axes[(i + r) % 4], bases[(i // 4 + r) % 4]
            sc = [1.0, 0.125, 3.0, 2.0 ** -30, 2.0 ** 22][(i + r) % 5]       # unit of time
            o = x["h"][0]
            quat = lambda a: qmul(qexp([a * unit_angle * v for v in ax]), b)
            e = lambda v: [0, 0, 0] + [v * unit_angle / sc * y for y in ax]
            sgn = [1, -1] if r else [1, 1]
            h = [{"o": o["o"], "ts": [t * sc for t in o["ts"]], "Ps": [[0, 0, 0] + [sgn[k % 2] * v for v in quat(p)] for k, p in enumerate(o["ps"])], "e0": e(o["v0"]), "e1": e(o["v1"])}]
            cmds.append({"h": h, "ts": [(x["lo"] + k) * sc for k in range(len(x["at"]))]})
            meta.append((x, ax, b, sc, quat))
    for cmd, (x, ax, b, sc, quat), g in zip(cmds, meta, run(c, exe, cmds)):
        bad = lambda m: c.violation(m, {"history": cmd, "angle": x["h"]})
        for t, w, a in zip(cmd["ts"], x["at"], g["at"]):
            if a[0] != [w[0], w[1], w[2], 0]:
                bad("success of evaluation at %s: want %s got %s" % (t, w[:3] + [0], a[0]))
            if not w[0]:
                continue
            if not qdist(a[2], quat(w[3] / w[6])) <= 1e-8 * unit_angle + 4e-15:
                bad("rotation about one axis at %s: want angle %s, got quaternion %s" % (t, w[3] / w[6], a[2]))
            om = w[4] / w[6] * unit_angle / sc
            if not dist(a[4], [om * v for v in ax]) <= 1e-9 * (abs(om) + 20 * unit_angle / sc) + 1e-13 / sc:
                bad("angular velocity about one axis at %s: want %s got %s" % (t, om, a[4]))
            if not max(map(abs, a[1] + a[3])) <= 1e-12:
                bad("a pure rotation moves the origin at %s" % t)
    c.sample({"where": "rotation about one axis", "history": cmds[len(cmds) // 2]["h"]})


def random_cases(c, exe, n, R):
    rng = c.rng
    cmds, meta = [], []
    for _ in range(n):
        m = rng.randint(2, 6) if rng.random() < 0.95 else rng.choice([12, 25, 50])
        tsc, psc, rsc = rng.choice([1.0, 1.0, 2.0 ** -20, 2.0 ** 15]), rng.choice([1.0, 1.0, 1e-4, 1e5]), rng.choice([1.0, 1.0, 1e-3, 1e-5])
        ts = [rng.uniform(-5, 5)]
        while len(ts) < m:
            ts.append(ts[-1] + rng.choice([0.01, 0.3, 1.0, 7.0]) * rng.uniform(0.5, 1.5))
        ts = [t * tsc for t in ts]
        q = unit([rng.gauss(0, 1) for _ in range(4)])
        Ps = []
        for i in range(m):
            Ps.append([psc * rng.uniform(-3, 3) for _ in range(3)] + q)
            ax = unit([rng.gauss(0, 1) for _ in range(3)])
            q = unit(qmul(qexp([rsc * rng.uniform(0, 1.4) * v for v in ax]), q))
            if rng.random() < 0.2:
                q = [-v for v in q]
        o = rng.choice(["fit", "fitd", "per"])
        if o == "per":
            Ps[-1] = list(Ps[0])
        e = lambda d: [(psc if k < 3 else rsc) * rng.uniform(-1, 1) / d for k in range(6)]
        h = {"o": o, "ts": ts, "Ps": Ps, "e0": e(ts[1] - ts[0]), "e1": e(ts[-1] - ts[-2])}
        T = [psc * rng.uniform(-20, 20) for _ in range(3)] + unit([rng.gauss(0, 1) for _ in range(4)])
        mv = lambda P: [a + b for a, b in zip(T[:3], rot(T[3:], P[:3]))] + qmul(T[3:], P[3:])
        mt = lambda e: rot(T[3:], e[:3]) + rot(T[3:], e[3:])
        h2 = {"o": o, "ts": ts, "Ps": [mv(P) for P in Ps], "e0": mt(h["e0"]), "e1": mt(h["e1"])}
        cmds += [{"h": [h], "ts": plan(ts)}, {"h": [h2], "ts": plan(ts)}]

        def slope(a, b, ta, tb):
            return [(y - x) / (tb - ta) for x, y in zip(a[:3], b[:3])], [x / (tb - ta) for x in qlog(qmul(b[3:], qconj(a[3:])))]
        knots = []
        for i in range(m):
            if 0 < i < m - 1:
                s = slope(Ps[i - 1], Ps[i + 1], ts[i - 1], ts[i + 1])
            elif o == "per":
                s = slope(Ps[m - 2], Ps[1], ts[m - 2] - (ts[-1] - ts[0]), ts[1])
            elif o == "fitd":
                z = h["e0"] if i == 0 else h["e1"]
                s = (z[:3], z[3:])
            else:
                s = (Z, Z)
            knots.append((Ps[i],) + tuple(s))
        meta += [(ts, knots, T, psc, rsc)] * 2
    last = None
    for k, (cmd, (ts, knots, T, psc, rsc), g) in enumerate(zip(cmds, meta, run(c, exe, cmds))):
        if g["times"] != ts:
            c.violation("times of the curve: want %s got %s" % (ts, g["times"]), {"history": cmd})
        if k % 2 == 0:
            last = (cmd,) + record(R, cmd, ts, g, knots, psc, rsc)
        else:
            moved(R, last[0], cmd, T, last[1], {t: a for t, a in zip(cmd["ts"], g["at"])}, last[2], last[3], norm(T[:3]))
    c.sample({"where": "recorded curves", "history": cmds[0]["h"]})


P1 = [{"p": [1, 0, -2], "q": [1, 0, 0, 0]}, {"p": [3, 1, 0], "q": [2, 1, 0, 0]}, {"p": [0, 2, 2], "q": [3, 1, 1, -1]}, {"p": [-1, 0, 1], "q": [2, 0, 1, -1]}]
P2 = [{"p": [0, 0, 0], "q": [1, 1, 0, 0]}, {"p": [0, 5, 0], "q": [2, 2, 1, 0]}, {"p": [4, 5, -1], "q": [1, 2, 1, 1]}, {"p": [2, 2, 2], "q": [0, 1, 1, 0]}]
P3 = [{"p": [2, 2, 2], "q": [-1, 1, 0, 2]}, {"p": [2, 2, 2], "q": [1, -1, 0, -2]}, {"p": [-2, 1, 0], "q": [-2, 1, 0, 2]}, {"p": [0, 0, 1], "q": [3, 0, 0, -2]}]
MOT = [{"p": [0, 0, 0], "q": [1, 1, 0, 0]}, {"p": [7, -3, 2], "q": [1, 1, 1, 1]}, {"p": [1, 0, 0], "q": [0, 0, 1, 0]}, {"p": [-4, 5, 0], "q": [1, 0, 0, 0]}]
ENDS = [([1, 0, -1], [0, 1, 0], [2, 2, 0], [1, 0, -1]), ([0, 3, 0], [0, 0, -1], [0, 0, 0], [1, 1, 1])]
KINDS = ["fit", "fitd", "per", "clr"]


def c11(c):
    exe = build(c)
    R = Relations(c)
    T = [[0], [0, 2], [-1, 1, 2], [0, 1, 3, 4]]
    A = [[0, 1, 3], [0, 2], [0, 2, 3, 6], [0]]
    KA = [[0, 4, 9, 3], [5, -3, 0, 8], [-10, -4, 1, 1]]
    grid_cases(c, exe, T, [P1, P2, P3], ENDS[:1] if c.quick else ENDS, MOT, KINDS, 1, R)
    if c.quick:
        grid_cases(c, exe, T[:3], [P1, P2], ENDS[1:], MOT[1:2], KINDS, 2, R)
        angle_cases(c, exe, 0.1, A, KA, [(2, -3), (-6, 0)], [0, 7])
        for small in (2e-4, 1e-6):
            angle_cases(c, exe, small, A[:3], KA[:2], [(2, -3)], [0])
        random_cases(c, exe, 60, R)
    else:
        grid_cases(c, exe, T, [P1, P2, P3], ENDS, MOT[1:3], KINDS, 2, R)
        angle_cases(c, exe, 0.1, A + [[0, 3, 4, 5], [0, 1, 2, 3]], KA + [[12, 0, 12, 0]], [(2, -3), (-6, 0), (9, 9)], [0, 7, -20])
        angle_cases(c, exe, 0.02, A, [[5 * v for v in k] for k in KA], [(20, -30)], [0, 7])
        for small in (1e-2, 1e-3, 2e-4, 1e-5, 1e-6, 1e-7):
            angle_cases(c, exe, small, A, KA, [(2, -3), (-6, 0)], [0, 7])
        random_cases(c, exe, 1200, R)
    R.judge()
    c.assumptions += ["kindr is not installed here and is replaced by a stand-in with its conventions (Hamilton quaternions, boxMinus(a,b) = log(a b^-1))",
                      "strictly increasing knot times; no slope or step of half a turn", "the derivative of the recorded poses is taken by a five point rule"]
