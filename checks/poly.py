"""Polynomial splines and spline containers: C12, C13, C14, C15."""
import json
import vf
from mgr import tset, first_diff

POLY = ["poly.cpp", "poly1.cpp", "poly2.cpp", "poly3.cpp", "poly4.cpp", "poly5.cpp"]
# powers of two for the units of time and value
SCALES = [(0, 0), (-1, 3), (4, -2), (-4, 10), (10, 0), (-12, -20)]
WIDE = SCALES + [(-40, 30), (33, -7), (-30, 0)]
SOLVE = [(0, 0), (-1, 3), (-4, -2), (3, 5), (1, -10), (-2, 20)]
FAR = [(11, 2), (-14, 5), (33, -7), (-40, 30)]


def unit(e):
    """as in harness/rp.hpp"""
    return 2.0 ** e * (1 + 2.0 ** -28 if e % 2 else 1)


def build(c):
    return c.build("poly", POLY, extra_src=c.sources())


def num(x):
    if isinstance(x, str):
        return float(x)
    return x


def close(got, want, den, tol, mag=1.0):
    g = num(got)
    return abs(g * den - want) <= tol * (mag * den + abs(want))


def run(c, exe, cmds, confirm=True):
    """all replies, in order; a death of the replayer on a valid history is a violation"""
    step = 8
    batches = [list(range(k, len(cmds), step)) for k in range(step)]
    res = c.replay_parallel(exe, [[cmds[i] for i in b] for b in batches])
    out = [None] * len(cmds)
    for b, (rep, rc, err) in zip(batches, res):
        for k, i in enumerate(b):
            if k >= len(rep):
                rep1, rc1, err1 = c.replay(exe, [cmds[i]])
                if len(rep1) == 1 and rc1 == 0:
                    raise vf.MachineryError("replayer died (%s) but the case passes alone: %s" % (rc, err))
                c.violation("the program terminates on a valid history (%s)" % rc1,
                            {"kind": "crash", "history": cmds[i], "stderr": err1})
            out[i] = rep[k]
    c.cov["traces_validated_against_impl"] += len(cmds)
    return out


# ---- C12, C13 -------------------------------------------------------------------
def splines(c, exe, consts, scales, tol, conds=False, label=""):
    base = {"Orders": tset([1, 2, 3, 4, 5]), "CoefVals": tset([0]), "Durs": tset([1]), "PosVals": tset([0]), "VelVals": tset([0]),
            "AccVals": tset([0]), "MaxLen": 1, "Kinds": tset(["ctor"]), "Before": 2, "After": 2}
    base.update(consts)
    r = c.tlc("SplineMC", vf.cfg(view="View", invariants=["InvBoundary", "InvTau"], action_constraints=["PrintEdge"]), consts=base)
    cmds, exp = [], []
    for i, x in enumerate(r["lines"]):
        for j in range(2 if len(scales) < 10 else 3):
            s, w = scales[(i + j * 3) % len(scales)]
            ts = list(range(x["lo"], x["d"] + base["After"] + 1))
            cmds.append({"k": "spline", "n": x["n"], "h": x["h"], "ts": ts, "s": s, "w": w})
            exp.append(x)
    for cmd, x, g in zip(cmds, exp, run(c, exe, cmds)):
        if g["ok"] != 1:
            c.violation("computing coefficients fails", {"history": cmd})
        if not close(g["d"], x["d"], 1, 1e-12):
            c.violation("the duration of the spline is wrong: want %s got %s" % (x["d"], g["d"]), {"history": cmd})
        for t, want, got in zip(cmd["ts"], x["at"], g["at"]):
            den = want[3]
            mag = max([abs(v) for v in want[:3]] + [1]) / den + max(abs(v) for v in x["h"][-1]["c"])
            for q in range(3):
                if not close(got[q], want[q], den, tol, mag):
                    c.violation("order %d, %s at time %s: want %s got %s" % (x["n"], ["position", "velocity", "acceleration"][q], t, want[q] / den, got[q]),
                                {"history": cmd, "time": t, "want": want, "got": got})
        mag = max(abs(v) for v in x["h"][-1]["c"])
        for want, side in zip(x["far"], g["far"]):
            for got in side:
                if not all(close(a, b, want[3], tol, mag + max([abs(v) for v in want[:3]] + [1]) / want[3]) for a, b in zip(got, want[:3])):
                    c.violation("order %d, far away: want %s got %s" % (x["n"], want, got), {"history": cmd, "want": want, "got": side})
    c.sample({"where": label, "history": cmds[len(cmds) // 2], "expected": exp[len(cmds) // 2]["at"]})


def timevecs(c, exe, ts):
    r = c.tlc("TimeVecMC", vf.cfg(invariants=["PrintCase"]), consts={"Ts": tset(ts), "Bases": tset([0, 3, -2])})
    cmds, exp = [], []
    for x in r["lines"]:
        for s in (0, -3, 5, -17):
            cmds.append({"k": "tv", "n": x["n"], "t": x["t"], "base": x["base"], "s": s})
            exp.append(x)
    names = ["tau", "d", "dd", "z", "dz", "ddz", "ptau", "pd", "pdd", "pz", "pdz", "pddz"]
    for cmd, x, g in zip(cmds, exp, run(c, exe, cmds)):
        for k in names:
            want = x[k]
            if k[0] == "p":   # sums are reported relative to the vector they were added to
                want = x[k[1:]]
                if [a + cmd["base"] * (j + 1) for j, a in enumerate(want)] != x[k]:
                    raise vf.MachineryError("specification disagrees with itself on %s" % k)
            tol = 1e-9
            if k[0] == "p" and cmd["s"] != 0:
                # subtracting the base loses digits when units differ; only compare where exact
                tol = None
            for j, (a, b) in enumerate(zip(want, g[k])):
                if tol is None:
                    unit_ = unit(cmd["s"]) ** (x["n"] - j - {"t": 0, "z": 0}.get(k[1], 1 if k[1:2] == "d" and k[1:3] != "dd" else 2))
                    err = abs(num(b) - a) * unit_
                    lim = 1e-12 * (abs(cmd["base"] * (j + 1)) + abs(a) * unit_)
                    if err > lim:
                        c.violation("time vector %s of order %d at %s: want %s got %s" % (k, x["n"], x["t"], a, b), {"case": cmd})
                elif abs(num(b) - a) > tol * max(1, abs(a)):
                    c.violation("time vector %s of order %d at %s: want %s got %s" % (k, x["n"], x["t"], a, b), {"case": cmd})
        if 0 in g["alt"]:
            c.violation("the ways to ask for a time vector disagree", {"case": cmd, "alt": g["alt"]})


ASSUME = ["durations of splines are positive", "results are compared exactly up to rounding (1e-9 relative; 1e-7 where a linear system is solved)"]


def c12(c):
    exe = build(c)
    if c.quick:
        splines(c, exe, {"CoefVals": tset([-1, 0, 2]), "Durs": tset([3]), "Kinds": tset(["ctor"])}, WIDE, 1e-9, label="all coefficients")
        splines(c, exe, {"CoefVals": tset([-3, 1]), "Durs": tset([1, 5]), "Kinds": tset(["set", "ptr", "copy", "assign", "move"]), "MaxLen": 2, "Orders": tset([1, 2, 3])}, WIDE, 1e-9, label="histories")
        splines(c, exe, {"CoefVals": tset([2, -5]), "Durs": tset([2]), "Kinds": tset(["set", "copy", "assign", "move"]), "MaxLen": 2, "Orders": tset([4, 5])}, WIDE, 1e-9, label="histories")
        timevecs(c, exe, range(-3, 5))
    else:
        splines(c, exe, {"CoefVals": tset([-1, 0, 2, 7]), "Durs": tset([1, 4]), "Kinds": tset(["ctor", "set"]), "Before": 3, "After": 3}, WIDE, 1e-9, label="all coefficients")
        splines(c, exe, {"CoefVals": tset([-3, 1, 0]), "Durs": tset([1, 5]), "Kinds": tset(["ctor", "set", "ptr", "copy", "assign", "move"]), "MaxLen": 3, "Orders": tset([1, 2])}, WIDE, 1e-9, label="histories")
        splines(c, exe, {"CoefVals": tset([2, -5]), "Durs": tset([2, 6]), "Kinds": tset(["ctor", "set", "ptr", "copy", "assign", "move"]), "MaxLen": 2, "Orders": tset([3, 4, 5])}, WIDE, 1e-9, label="histories")
        timevecs(c, exe, range(-9, 20))
    c.assumptions += ASSUME


def c13(c):
    exe = build(c)
    if c.quick:
        splines(c, exe, {"Durs": tset([1, 2, 3]), "PosVals": tset([-2, 0, 5]), "VelVals": tset([0, 3]), "AccVals": tset([-2, 4]), "Kinds": tset(["comp"])}, SOLVE + FAR, 1e-7, label="boundary conditions")
        splines(c, exe, {"Durs": tset([4]), "PosVals": tset([-7, 1]), "VelVals": tset([-4, 1]), "AccVals": tset([0, 2]), "Kinds": tset(["bctor", "bmove"]), "Before": 0, "After": 0}, SOLVE + FAR, 1e-7, label="constructors")
        splines(c, exe, {"Durs": tset([1, 3]), "PosVals": tset([0, 2]), "VelVals": tset([1]), "AccVals": tset([2]), "CoefVals": tset([9]), "Kinds": tset(["comp", "set", "bctor", "copy"]), "MaxLen": 3, "Before": 1, "After": 1}, SOLVE + FAR, 1e-7, label="recomputed splines")
    else:
        splines(c, exe, {"Durs": tset([1, 2, 3, 5]), "PosVals": tset([-2, 0, 5]), "VelVals": tset([-1, 0, 3]), "AccVals": tset([-2, 0, 4]), "Kinds": tset(["comp"])}, SOLVE + FAR, 1e-7, label="boundary conditions")
        splines(c, exe, {"Durs": tset([1, 4]), "PosVals": tset([-7, 1]), "VelVals": tset([-4, 1]), "AccVals": tset([0, 2]), "Kinds": tset(["bctor", "bmove"])}, SOLVE + FAR, 1e-7, label="constructors")
        splines(c, exe, {"Durs": tset([1, 3]), "PosVals": tset([0, 2]), "VelVals": tset([1, -2]), "AccVals": tset([2]), "CoefVals": tset([9]), "Kinds": tset(["comp", "set", "bctor", "copy", "assign"]), "MaxLen": 3, "Before": 1, "After": 1}, SOLVE + FAR, 1e-7, label="recomputed splines")
    c.assumptions += ASSUME + ["units of time from 2^-40 to 2^33"]


# ---- C14, C15 --------------------------------------------------------------------
def seq(xs):
    return "<<" + ",".join(map(str, xs)) + ">>"


def lib(entries):
    return "{" + ",".join("[c |-> %s, d |-> %d]" % (seq(co), d) for co, d in entries) + "}"


def fits(entries):
    return "{" + ",".join("[ts |-> %s, ps |-> %s]" % (seq(t), seq(p)) for t, p in entries) + "}"


LIBS = {1: [([2, -1], 1), ([-3, 5], 2)],
        2: [([1, -2, 3], 2), ([0, 3, -1], 1)],
        3: [([1, 0, -2, 4], 2), ([-1, 2, 1, 0], 1)],
        4: [([1, -1, 0, 2, 3], 1), ([-1, 0, 2, -3, 1], 2)],
        5: [([1, 0, -1, 2, 0, 5], 2), ([2, -1, 0, 0, 3, -4], 1)]}


def cmp_val(got, want, tol=1e-9):
    den = want[3]
    return all(close(g, w, den, tol) for g, w in zip(got, want[:3]))


def container_graph(c, exe, n, length, maxspl, maxtime, fitlist, what, scales, steps=(0, 1, 2, 5), jumps=(-1, 0, 1, 3, 4), label=""):
    lo, hi = -1, 7
    consts = {"N": n, "Lib": lib(LIBS[n]), "Steps": tset(steps), "Jumps": tset(jumps), "Fits": fits(fitlist),
              "MaxSpl": maxspl, "MaxLen": length, "MaxTime": maxtime, "Lo": lo, "Hi": hi}
    r = c.tlc("ContainerMC", vf.cfg(view="View", invariants=["InvClock", "InvEnd", "InvBefore", "PrintState"], properties=["InvAdvance"],
                                    action_constraints=["PrintEdge"]), consts=consts)
    states = {}
    for x in r["lines"]:
        if "s" in x:
            states[json.dumps(x["s"])] = x
    cases = []
    i = 0
    for x in r["lines"]:
        if "s" in x:
            for sc in scales:
                cases.append((x["h"], x["obs"], sc))
        else:
            cases.append((x["h"], states[json.dumps(x["d"])]["obs"], scales[i % len(scales)]))
            i += 1
    ts = list(range(lo, hi + 1))
    cmds = [{"k": "cont", "n": n, "h": [e["op"] for e in h], "ts": ts, "s": s, "w": w} for h, o, (s, w) in cases]
    for cmd, (h, o, sc), g in zip(cmds, cases, run(c, exe, cmds)):
        check_container(c, cmd, [e["ret"] for e in h], o, g, ts, what)
    c.sample({"where": label, "history": cmds[len(cmds) // 2]["h"], "expected": cases[len(cmds) // 2][1]["cl"]})


def check_container(c, cmd, rets, o, g, ts, what):
    if g["ret"] != rets:
        c.violation("an operation reports the wrong result: want %s got %s" % (rets, g["ret"]), {"history": cmd})
    cl, gl = o["cl"], g["cl"]
    if "clock" in what:
        for k in ("time", "dur"):
            if not close(gl[k], cl[k], 1, 1e-12):
                c.violation("container %s: want %s got %s" % (k, cl[k], gl[k]), {"history": cmd})
        for k in ("empty", "n", "idx"):
            if gl[k] != cl[k]:
                c.violation("container %s: want %s got %s" % (k, cl[k], gl[k]), {"history": cmd})
        if not cmp_val(gl["cur"], cl["cur"]):
            c.violation("current position, velocity, acceleration: want %s got %s" % (cl["cur"], gl["cur"]), {"history": cmd})
        if gl["chk"] != cl["chk"] and not cl["empty"]:
            c.violation("the self check: want %s got %s" % (cl["chk"], gl["chk"]), {"history": cmd})
        for t, b, w, x in zip(ts, o["bef"], o["at"], g["app"]):
            if t <= 0 or t > cl["dur"]:
                continue
            if x[0] != b[1] or not cmp_val(x[1], b[0]):
                c.violation("the clock just before %s: want %s got %s" % (t, b, x), {"history": cmd, "time": t})
            if x[2] != 1 or x[3] != w[1] or not cmp_val(x[4], w[0]) or not close(x[5], t, 1, 1e-12):
                c.violation("the clock moved from just before %s onto it: want %s got %s" % (t, w, x), {"history": cmd, "time": t})
    if "at" in what:
        if not close(gl["dur"], cl["dur"], 1, 1e-12) or gl["n"] != cl["n"]:
            c.violation("total duration: want %s got %s" % (cl["dur"], gl["dur"]), {"history": cmd})
        for t, w, x in zip(ts, o["at"], g["at"]):
            if not cmp_val(x[0], w[0]) or x[1] != w[1] or not close(x[2], w[2], 1, 1e-12):
                c.violation("at time %s: want %s got %s" % (t, w, x), {"history": cmd})
        for t, w, x in zip(ts, o["bef"], g["bef"]):
            if not cmp_val(x[0], w[0]) or x[1] != w[1] or not close(x[2], w[2], 1, 1e-12):
                c.violation("just before time %s: want %s got %s" % (t, w, x), {"history": cmd, "time": t})
        for w, side in zip(o["far"], g["far"]):
            for x in side:
                if not cmp_val(x[0], w[0]) or x[1] != w[1] or not close(x[2], w[2], 1, 1e-12):
                    c.violation("far away: want %s got %s" % (w, x), {"history": cmd, "got": side})
        if not cmp_val(g["end"], o["end"]):
            c.violation("end values: want %s got %s" % (o["end"], g["end"]), {"history": cmd})


def random_container_run(rng, n, length, queries, most=12):
    out = []
    total, nspl, t = 0, 0, 0   # only to aim at interesting times
    starts = [0]

    def op(o, c=(), d=0, t=0, ts=(), ps=()):
        out.append({"o": o, "c": list(c), "d": d, "t": t, "ts": list(ts), "ps": list(ps)})
    op("new", t=n)
    big = {1: 400, 2: 60, 3: 20, 4: 9, 5: 6}[n]
    if most > 12:   # one long trajectory to begin with
        for _ in range(most):
            d = rng.randrange(1, 4)
            op("add", [rng.randrange(-4, 5) for _ in range(n + 1)], d)
            total += d
            nspl += 1
            starts.append(total)
    begin = len(out)
    while len(out) < begin + length:
        o = rng.choice((["add"] * 2 + ["adv"] * 8 + ["set"] * 6) if most > 12 else ["add"] * 4 + ["adv"] * 8 + ["set"] * 3 + ["rst", "rstT", "fit", "badfit"])
        if o == "rst" and rng.random() < 0.6:
            continue
        if o == "add" and nspl < (12 if most == 12 else most + 5):
            d = rng.randrange(1, big + 1)
            op("add", [rng.randrange(-4, 5) for _ in range(n + 1)], d)
            total += d
            nspl += 1
            starts.append(total)
        elif o == "adv":
            nxt = [s - t for s in starts if s >= t]
            dt = rng.choice([0, 1, 1, 2, rng.randrange(0, big + 1), rng.randrange(0, 2 * big + 1)] + nxt[:2] + ([nxt[0] + 1] if nxt else []) + ([nxt[-1]] if nxt else []))
            op("adv", t=dt)
            if nspl and t < total:
                t += dt
        elif o == "set":
            t = rng.choice(starts + [-3, -1, 0, total + 2, rng.randrange(0, total + 1), rng.choice(starts) - 1, rng.choice(starts) + 1])
            op("set", t=t)
        elif o == "rst":
            op("rst")
            total, nspl, t, starts = 0, 0, 0, [0]
        elif o == "rstT":
            op("rstT")
            t = 0
        elif o in ("fit", "badfit"):
            k = rng.randrange(2, 7)
            ts, ps = [rng.randrange(-20, 20)], [rng.randrange(-30, 30)]
            for _ in range(k - 1):
                d = rng.randrange(1, big + 1)
                ts.append(ts[-1] + d)
                ps.append(ps[-1] + d * rng.randrange(-5, 6))
            if o == "badfit":
                kind = rng.randrange(4)
                if kind == 0:
                    ts, ps = ts[:1], ps[:1]
                elif kind == 1:
                    i = rng.randrange(1, k)
                    ts[i] = ts[i - 1]
                elif kind == 2:
                    ts[-1] = ts[-2] - 1
                else:
                    ts, ps = [], []
            op("fit", ts=ts, ps=ps)
            t = 0
            if o == "fit":
                starts = [x - ts[0] for x in ts]
                total, nspl = starts[-1], len(ts) - 1
            else:
                total, nspl, starts = 0, 0, [0]
        else:
            continue
        for _ in range(rng.choice(queries)):
            if rng.random() < 0.15:
                op("q_end")
            else:
                op("q_at", t=rng.choice(starts + [-1, total, total + 3, rng.randrange(0, total + 1), rng.choice(starts) - 1, rng.choice(starts) + 1]))
    return out


def container_traces(c, exe, count, length, queries, label):
    cmds = []
    for i in range(count):
        n = 1 + i % 5
        s, w = c.rng.choice(WIDE)
        cmds.append({"k": "cont", "n": n, "trace": True, "s": s, "w": w, "h": random_container_run(c.rng, n, length, queries)})
    for i in range(4 if c.quick else 20):
        s, w = c.rng.choice(WIDE)
        n = c.rng.choice([1, 2, 3, 5])
        cmds.append({"k": "cont", "n": n, "trace": True, "s": s, "w": w, "h": random_container_run(c.rng, n, 50, queries, [35, 140, 270, 50][i % 4])})
    count = len(cmds)
    # "new" is not an operation of the replayer
    send = [dict(x, h=x["h"][1:]) for x in cmds]
    outs = run(c, exe, send)
    from concurrent.futures import ThreadPoolExecutor

    def one(g):
        lines, where = [], []
        for i in g:
            for k, (op, r) in enumerate(zip(cmds[i]["h"], [0] + outs[i]["out"])):
                lines.append(dict(op, r=r))
                where.append((i, k))
        t = c.tlc("ContainerTrace", vf.cfg(invariants=["InvClock"], postcondition="Accepted"),
                  files={"trace.ndjson": "\n".join(json.dumps(x) for x in lines) + "\n"})
        return t["lines"], where
    with ThreadPoolExecutor(4) as ex:
        for bad, where in ex.map(one, [list(range(k, count, 4)) for k in range(4)]):
            for x in bad:
                i, k = where[x["line"] - 1]
                c.violation("a recorded run is no behaviour of the model, first at call %d: %s" % (k, json.dumps(cmds[i]["h"][k])),
                            {"kind": "trace", "run": dict(cmds[i], h=cmds[i]["h"][:k + 1]), "want": x["want"], "got": x["op"]["r"]})
    c.extra["recorded_calls"] = c.extra.get("recorded_calls", 0) + sum(len(x["h"]) for x in cmds)
    c.sample({"where": label, "recorded_run_head": cmds[0]["h"][:6]})


FITS = [([0, 1, 3], [0, 2, -2]), ([-2, 1], [1, 4]), ([5, 6, 7, 9], [0, 1, 0, 3])]
BAD = [([0], [1]), ([0, 2, 2], [0, 1, 2]), ([3, 1], [0, 1]), ([], [])]


def self_check(c, exe, n, durs, times, maxspl, scales):
    r = c.tlc("SelfCheckMC", vf.cfg(invariants=["InvFlaw", "InvSound", "PrintCase"]),
              consts={"N": n, "Durs": tset(durs), "Times": tset(times), "MaxSpl": maxspl})
    cases = [(x, scales[i % len(scales)]) for i, x in enumerate(r["lines"])]
    cmds = [{"k": "self", "n": n, "h": x["h"], "t": x["t"], "s": s, "w": w} for x, (s, w) in cases]
    for cmd, (x, _), g in zip(cmds, cases, run(c, exe, cmds)):
        if g["chk"] != x["chk"]:
            c.violation("the self check of a container: want %s got %s" % (x["chk"], g["chk"]), {"case": cmd})


def c14(c):
    exe = build(c)
    for n in range(1, 6):
        self_check(c, exe, n, [1, 2] if c.quick or n > 3 else [1, 2, 4], range(-1, 6), 2 if c.quick or n > 3 else 3, WIDE)
    if c.quick:
        container_graph(c, exe, 3, 5, 3, 8, FITS[:2] + BAD[1:2], ["clock"], WIDE[:7], label="all transitions, cubic")
        container_graph(c, exe, 5, 4, 2, 8, FITS[2:] + BAD[2:3], ["clock"], WIDE[4:], label="all transitions, quintic")
        container_traces(c, exe, 60, 120, [0, 0, 1], "recorded runs")
    else:
        for n in range(1, 6):
            container_graph(c, exe, n, 6, 3, 9, FITS + BAD, ["clock"], WIDE, label="all transitions, order %d" % n)
        container_traces(c, exe, 600, 250, [0, 0, 1], "recorded runs")
    c.assumptions += ASSUME + ["steps are not negative"]


def c15(c):
    exe = build(c)
    if c.quick:
        container_graph(c, exe, 3, 4, 3, 8, FITS + BAD[:1], ["at"], WIDE[:7], steps=(2,), jumps=(-1, 3), label="all transitions, cubic")
        container_graph(c, exe, 5, 4, 3, 8, FITS[:1] + BAD[2:3], ["at"], WIDE[4:], steps=(1,), jumps=(2,), label="all transitions, quintic")
        container_graph(c, exe, 2, 4, 3, 8, FITS[:1], ["at"], WIDE[4:], steps=(1,), jumps=(2,), label="all transitions, quadratic")
        container_traces(c, exe, 60, 120, [2, 3], "recorded runs")
    else:
        for n in range(1, 6):
            container_graph(c, exe, n, 6, 4, 9, FITS + BAD, ["at"], WIDE, steps=(2,), jumps=(-1, 3), label="all transitions, order %d" % n)
        container_traces(c, exe, 600, 250, [2, 3, 4], "recorded runs")
    c.assumptions += ASSUME
