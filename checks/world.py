"""Independent copies (C05) and no trace of the past (C20) of all curve classes."""
import json, math
import vf
from mgr import tset, c05_managers, build as build_mgr, ASSUME
from poly import run

KINDS = {  # kind: (fits, rejected fits, other operations, configurations, gaps)
    "e3": (["fit", "fitd", "per"], [], [], [0], [1]),
    "se3": (["fit", "fitd", "per"], [], [], [0], [1]),
    "se3x": (["fit"], [], ["ext"], [0], [1, 3]),
    "slerp": (["fit"], [], ["ext", "cfg"], [1, 2, 3], [1, 3]),
    "scalar": (["fit", "fitb", "opts"], ["badn", "bad1"], ["bad"], [0], [1]),
    "vector": (["fit", "fitb", "fitd"], ["badn", "bad1"], ["bad"], [0], [1]),
}
DIM = {"e3": 3, "se3": 7, "se3x": 7, "slerp": 7, "scalar": 1, "vector": 3}


def build(c):
    try:
        return c.build("world", ["world.cpp"], extra_src=c.sources(kindr=True), flags=["-DPROBE"])
    except vf.BuildError:
        exe = c.build("world", ["world.cpp"], extra_src=c.sources(kindr=True))
        c.assumptions.append("coefficients of the Slerp curve not accessible: values not compared")
        return exe


def value(rng, kind):
    if kind in ("se3", "se3x", "slerp"):
        q = [rng.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in q))
        return [rng.uniform(-3, 3) for _ in range(3)] + [x / n for x in q]
    return [float(rng.randint(-40, 40)) / 4 for _ in range(3)]


def concrete(rng, kind, n):
    """data sets of different sizes; the last knot of set d is at 10 d"""
    sc = rng.choice([1.0, 0.125, 8.0])
    off = rng.choice([0.0, -25.0, 100.0]) * sc
    data = []
    for d in range(1, 4):
        k = {1: 3, 2: 5, 3: 2 if kind in ("scalar", "vector") else rng.choice([1, 2])}[d]
        if d == 2 and rng.random() < 0.08:   # a large one
            k = rng.choice([9, 14]) if kind in ("scalar", "vector") else rng.choice([20, 40, 80])
        ts = sorted(x / 8.0 for x in rng.sample(range(8 * (10 * d - 18), 80 * d), k - 1)) + [10 * d] if k > 5 else sorted(rng.sample(range(10 * d - 18, 10 * d), k - 1)) + [10 * d]
        vs = [value(rng, kind) for _ in range(k)]
        data.append({"ts": [t * sc + off for t in ts], "vs": vs, "b": [[rng.uniform(-2, 2) for _ in range(6)] for _ in range(2)]})
    lo, hi = -18, 40
    ts = [(x + rng.choice([0, 0.5, 0.3])) * sc + off for x in range(lo, hi, 3)] + [t for d in data for t in d["ts"]]
    rng.shuffle(ts)
    # half of the histories are read from between the steps, at times that are asked for again
    peek = [] if rng.random() < 0.4 else [[rng.choice(ts[:1] * 4 + ts) for _ in range(rng.choice([1, 1, 2, 4]))] for _ in range(rng.choice([1, 3]))]
    return {"k": kind, "peek": peek, "data": data, "ev": [value(rng, kind) for _ in range(3)], "ts": ts, "sc": sc, "off": off}


def fix_periodic(case):
    """a periodic fit takes at least two knots; the first and the last point coincide"""
    if any(x["o"] == "per" for x in case["h"]):
        for d in case["data"]:
            if len(d["ts"]) < 2:
                d["ts"].insert(0, d["ts"][0] - 4 * case["sc"])
                d["vs"].insert(0, d["vs"][0])
            d["vs"][-1] = d["vs"][0]


def same(a, b):
    if type(a) is str or type(b) is str:
        return a == b
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def gen(c, kind, n, maxlen, data, ops, deep=0, maxext=1, gaps=None, depth=None):
    fits, bads, _, cfgs, g = KINDS[kind]
    consts = {"N": n, "Fits": tset(fits), "Bads": tset(bads), "Data": tset(data), "Gaps": tset(gaps or g), "Cfgs": tset(cfgs), "Ops": tset(ops),
              "MaxExt": maxext, "MaxLen": maxlen, "Deep": "TRUE" if deep else "FALSE"}
    if deep:
        return c.tlc("WorldMC", vf.cfg(init="MInit", next="MNext", invariants=["WellFormed", "PrintDeep"]), simulate=deep, depth=maxlen + 1, consts=consts)["lines"]
    return c.tlc("WorldMC", vf.cfg(init="MInit", next="MNext", view="View", invariants=["WellFormed"], properties=["Independent", "Forgets"], action_constraints=["PrintEdge"]),
                 consts=consts)["lines"]


def play(c, exe, kind, cases, n, what):
    cmds = []
    for x in cases:
        cmd = concrete(c.rng, kind, n)
        cmd.update(n=n, h=x["h"], s=x["s"])
        fix_periodic(cmd)
        cmds.append(cmd)
    seen = 0
    for cmd, g in zip(cmds, run(c, exe, cmds)):
        for s in g["slots"]:
            a, b = s["used"], s["new"]
            seen += 1
            if len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)):
                k = next((k for k in range(min(len(a), len(b))) if not same(a[k], b[k])), -1)
                c.violation("%s: an object differs from a new one with the same content (%s)" % (kind, what),
                            {"kind": kind, "slot": s["i"], "history": cmd["h"], "recipe": cmd["s"][s["i"] - 1], "index": k, "used": a[k] if k >= 0 else len(a), "new": b[k] if k >= 0 else len(b), "case": cmd})
    c.extra["objects_compared"] = c.extra.get("objects_compared", 0) + seen
    if cmds:
        c.sample({"where": "%s, %s" % (kind, what), "history": cmds[len(cmds) // 2]["h"]})


def pick(c, lines, k):
    return lines if len(lines) <= k else c.rng.sample(lines, k)


def c20(c):
    exe = build(c)
    for kind, (fits, bads, more, cfgs, gaps) in KINDS.items():
        ops = more + ["clr", "look"]
        ext = 3 if "ext" in more else 1
        lines = gen(c, kind, 1, 6, [1, 2], ops, maxext=ext)
        play(c, exe, kind, pick(c, lines, 2500 if c.quick else 10 ** 9), 1, "all transitions of one object")
        lines = gen(c, kind, 1, 8, [1, 2, 3], ops, deep=150 if c.quick else 3000, maxext=4)
        play(c, exe, kind, pick(c, lines, 600 if c.quick else 30000), 1, "longer histories")
        lines = gen(c, kind, 1, 25, [1, 2, 3], ops, deep=20 if c.quick else 600, maxext=8)
        play(c, exe, kind, pick(c, lines, 600 if c.quick else 30000), 1, "longer histories")
    c.assumptions += ["nothing is promised about an object after a rejected fit until it is cleared or fitted", "a configuration (sampling ratio) is not content: a clear keeps it"]


def c05(c):
    c05_managers(c, build_mgr(c))
    exe = build(c)
    for kind, (fits, bads, more, cfgs, gaps) in KINDS.items():
        ops = [x for x in more if x != "bad"] + ["clr", "cpa", "cpc", "new", "swp", "vec"]
        lines = gen(c, kind, 2, 5, [1, 2], ops, maxext=1, gaps=[1])
        play(c, exe, kind, pick(c, lines, 1300 if c.quick else 30000), 2, "all transitions of two objects")
        lines = gen(c, kind, 3, 12, [1, 2, 3], ops, deep=120 if c.quick else 3000, maxext=4)
        play(c, exe, kind, pick(c, lines, 400 if c.quick else 20000), 3, "longer histories")
        lines = gen(c, kind, 3, 30, [1, 2, 3], ops, deep=20 if c.quick else 500, maxext=8)
        play(c, exe, kind, pick(c, lines, 400 if c.quick else 20000), 3, "longer histories")
    c.assumptions += ASSUME[:2]
