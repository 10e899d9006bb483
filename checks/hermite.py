"""Hermite position curves: C09, C10."""
import vf
from mgr import tset
from poly import run, close, num, seq, WIDE


def build(c):
    return c.build("hermite_e3", ["hermite_e3.cpp"], extra_src=c.sources(kindr=True))


def model(c, times, knots, vels, shifts, kinds, maxlen, margin=2):
    consts = {"KnotTimes": "{" + ",".join(map(seq, times)) + "}", "Knots": "<<" + ",".join(map(seq, knots)) + ">>",
              "Vels": "{" + ",".join(map(seq, vels)) + "}", "Shifts": tset(shifts), "Kinds": tset(kinds), "MaxLen": maxlen, "Margin": margin}
    r = c.tlc("HermiteMC", vf.cfg(invariants=["InvPasses", "InvDerivatives", "PrintCase"]), consts=consts)
    return r["lines"]


def triples(xs):
    """three scalar histories with the same times make one history of a curve in space"""
    groups = {}
    for x in xs:
        groups.setdefault(repr([(o["o"], o["ts"]) for o in x["h"]]), []).append(x)
    for l in groups.values():
        if not l[0]["h"][-1]["ts"]:
            yield (l[0], l[0], l[0])
            continue
        n = len(l)
        for i in range(n):
            yield (l[i], l[(i + 1) % n], l[(2 * i + 1) % n])


def command(tr, s, w, off=0):
    h = []
    for ops in zip(*[x["h"] for x in tr]):
        h.append({"o": ops[0]["o"], "ts": ops[0]["ts"], "ps": [list(p) for p in zip(*[o["ps"] for o in ops])],
                  "v0": [o["v0"] for o in ops], "v1": [o["v1"] for o in ops]})
    x = tr[0]
    return {"h": h, "s": s, "w": w, "off": off, "ts": [x["lo"] + k for k in range(len(x["at"]))]}


def judge(c, cmd, tr, g, tol, knots_only=False):
    x = tr[0]
    bad = lambda m, **k: c.violation(m, dict({"history": cmd}, **k))
    n = len(x["K"])
    if g["size"] != n or g["empty"] != (0 if n else 1):
        bad("size or emptiness: want %d got %s, %s" % (n, g["size"], g["empty"]))
    if n and (not close(g["min"], x["min"], 1, 1e-12) or not close(g["max"], x["max"], 1, 1e-12)):
        bad("time range: want [%s, %s] got [%s, %s]" % (x["min"], x["max"], g["min"], g["max"]))
    kt = {k["t"] for k in x["K"]}
    vel = max([abs(y["K"][i]["n"]) / y["K"][i]["d"] for y in tr for i in range(n)] + [0])
    mag = 1.0 + max([abs(y["K"][i]["p"]) for y in tr for i in range(n)] + [0]) + 8 * vel
    for k, (fl, vals) in enumerate(g["edge"] if not knots_only else []):
        inside = n > 1 and k in (1, 2)
        if fl != ([1, 1, 1, 1, 0] if inside else [0] * 5):
            bad("success of evaluation next to the range or far away (place %d): got %s" % (k, fl))
        for j, y in enumerate(tr):
            q = y["K"][0 if k == 1 else -1]
            if inside and not (close(vals[0][j], q["p"], 1, 1e-5, mag) and close(vals[1][j], q["n"], q["d"], 1e-5, mag)):
                bad("just inside the range (place %d), coordinate %d: got %s" % (k, j, vals[:2]))
    for k, (fl, vals) in enumerate(g["at"]):
        t = x["lo"] + k
        if knots_only and t not in kt:
            continue
        w = x["at"][k]
        want = [w[0], w[1], w[2], w[2], 0]
        if knots_only:
            fl = fl[:2]
            want = want[:2]
        if fl != want:
            bad("success of evaluation at %s (position, velocity, acceleration, linear acceleration, other orders): want %s got %s" % (t, want, fl))
        for j, y in enumerate(tr):
            w = y["at"][k]
            for q, name in enumerate(["position", "velocity"] if knots_only else ["position", "velocity", "acceleration", "linear acceleration"]):
                num_, den, ok = w[3 + min(q, 2)], w[6], w[min(q, 2)]
                m = mag * (4 if q > 1 else 1)
                e = y["ea"][k]
                if ok and q > 1 and e and close(vals[q][j], e[0], e[1], tol, m):
                    continue   # either side of a jump will do
                if ok and not close(vals[q][j], num_, den, tol, m):
                    bad("%s at %s, coordinate %d: want %s got %s" % (name, t, j, num_ / den, vals[q][j]))


KN = [[1, 4, -2, 0, 3, 3], [0, 0, 5, 5, -1, 2], [-3, 2, 2, 7, 1, 0], [6, -6, 6, -6, 6, -6]]


def both(c, which):
    exe = build(c)
    kw = {"knots_only": which == "C09"}
    T = [[0], [0, 2], [0, 1, 3], [0, 3, 4, 6], [0, 1, 2, 4, 5]]
    sh = [0, 9, -4]
    V = [(1, -2), (-3, 0)]
    runs = [(T, KN[:3], V, sh, ["fit", "fitd", "per", "clr"], 1), (T[:3], KN[:2], V[:1], [0, 5], ["fit", "fitd", "per", "clr"], 2)]
    if not c.quick:
        runs[0] = (T + [[0, 6], [0, 1, 7], [0, 5, 6], [0, 1, 2, 3, 4, 5], [0, 4, 5, 8]], KN, V + [(5, 5), (0, 7)], sh + [100, -1], ["fit", "fitd", "per", "clr"], 1)
        runs[1] = (T, KN[:3], V[:1], [0, 5], ["fit", "fitd", "per", "clr"], 2)
        runs.append((T[1:3], KN[:1], V[:1], [0, 2], ["fit", "per", "clr"], 4))
    for a in runs:
        xs = model(c, *a)
        cmds, trs = [], []
        for i, tr in enumerate(triples(xs)):
            for r in range(1 if c.quick else 3):
                s, w = WIDE[(i + 4 * r) % len(WIDE)]
                cmds.append(command(tr, s, w))
                trs.append(tr)
        for cmd, tr, g in zip(cmds, trs, run(c, exe, cmds)):
            judge(c, cmd, tr, g, 1e-10, **kw)
        c.sample({"where": "histories of length %d" % a[-1], "history": cmds[len(cmds) // 2]["h"]})
    # random knots beyond the bounded model: many knots, fine steps, far from time zero
    rng = c.rng
    for n in range(9 if c.quick else 60):
        m = rng.randint(2, 9) if n % 3 else rng.choice([12, 20, 33, 70])
        gaps = [1, 1, 2, 3, 4] if n % 2 else [4, 8, 11, 16]
        times = []
        for _ in range(4 if m < 10 else 2):
            t = [0]
            while len(t) < m:
                t.append(t[-1] + rng.choice(gaps))
            times.append(t)
        kn = [[rng.randint(-9, 9) for _ in range(m)] for _ in range(3)]
        xs = model(c, times, kn, [(rng.randint(-4, 4), rng.randint(-4, 4))], [rng.randint(-50, 50)], ["fit", "fitd", "per"], 1)
        cmds, trs = [], []
        for i, tr in enumerate(triples(xs)):
            s, w = WIDE[i % len(WIDE)]
            cmds.append(command(tr, s, w, rng.choice([0, 0, 2 ** 20, -3 * 2 ** 30, 10 ** 9, -(10 ** 5)])))
            trs.append(tr)
        for cmd, tr, g in zip(cmds, trs, run(c, exe, cmds)):
            judge(c, cmd, tr, g, 1e-10, **kw)
    c.assumptions += ["strictly increasing knot times; a periodic fit has at least two knots", "compared with a tolerance of 1e-10 of the data",
                      "kindr is replaced by a stand-in (this class takes nothing from it)"]


def c09(c):
    both(c, "C09")


def c10(c):
    both(c, "C10")
