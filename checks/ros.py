"""Curves from trajectory messages: C21."""
import json
import vf
from mgr import tset
from poly import run, seq
from world import same

KINDS = ["joint", "multi", "trans"]
JOINTS = ["leg", "leg_2"]
ASKED = ["leg", "leg_2", "le", "", "arm"]
QUANTA = [500000000, 1000000000, 1, 62500000, 999999999, 3]


def build(c):
    srcs = sorted((vf.REPO / "curves_ros/src").glob("*.cpp"))
    return c.build("ros", ["ros.cpp"], extra_src=c.sources(kindr=True) + srcs,
                   flags=["-I", str(vf.HARN / "ros_shim"), "-I", str(vf.REPO / "curves_ros/include")])


def gen(c, maxjoints, lists, maxlen, joints=JOINTS, deep=0):
    consts = {"Joints": tset(joints), "Asked": tset(ASKED), "MaxJoints": maxjoints, "TimeLists": "{" + ",".join(map(seq, lists)) + "}",
              "MaxLen": maxlen, "Deep": "TRUE" if deep else "FALSE"}
    if deep:
        return c.tlc("MessageMC", vf.cfg(init="MInit", next="MNext", invariants=["PrintDeep"]), simulate=deep, depth=maxlen + 1, consts=consts)["lines"]
    return c.tlc("MessageMC", vf.cfg(init="MInit", next="MNext", view="View", properties=["Refused", "Accepted"], action_constraints=["PrintEdge"]), consts=consts)["lines"]


def play(c, exe, kind, lines, what):
    cmds = []
    for n, h in enumerate(lines):
        top = max([t for s in h for t in s["op"]["ts"]] + [0])
        cmds.append({"k": kind, "k2": "", "h": h, "q": QUANTA[n % (2 if kind != "multi" else 4)] if n % 5 else c.rng.choice(QUANTA[:2] + QUANTA[3:5]),
                     "ts": list(range(-6, 2 * top + 4))})
    for cmd, g in zip(cmds, run(c, exe, cmds)):
        for k, s in enumerate(cmd["h"]):
            d = {"history": [x["op"] for x in cmd["h"][:k + 1]], "kind": kind, "quantum": cmd["q"]}
            if g["ret"][k] != int(s["ret"]):
                c.violation("%s: reading a message returns %s instead of %s (%s)" % (kind, bool(g["ret"][k]), s["ret"], what), d)
            a, b = g["obs"][k]
            if len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)):
                c.violation("%s: the curve is not the fit through the values of the joint (%s)" % (kind, what), dict(d, want=b[:40], got=a[:40]))
    if cmds:
        c.sample({"where": "%s, %s" % (kind, what), "history": [x["op"] for x in cmds[len(cmds) // 2]["h"]]})


def pick(c, l, k):
    return l if len(l) <= k else c.rng.sample(l, k)


def family(rng):
    """names of one length that differ in one character, and their neighbours"""
    base = "".join(rng.choice("abcXYZ_/0 9") for _ in range(rng.choice([8, 16, 31, 33, 64, 130, 300])))
    out = [base]
    for at in {0, 1, len(base) // 2, len(base) - 2, len(base) - 1, rng.randrange(len(base))}:
        out.append(base[:at] + ("Q" if base[at] != "Q" else "R") + base[at + 1:])
        out.append(base[:at] + base[at].swapcase() + base[at + 1:])
    return sorted({*out, base + "a", base + " ", " " + base, "/" + base, base[:-1], base[1:]})


def recorded(c, exe, n):
    """larger messages, many in a row into the same curve"""
    for kind in KINDS:
        lines, where = [], []
        cmds = []
        for run_no in range(n + 1):
            h, cur = [], []
            names = ["j%d" % k for k in range(12)] + ["J1", "j", ""]
            if run_no % 3 == 1:   # long names that differ in one place
                names = family(c.rng)
            for _ in range(8 if run_no < n else 3):   # the last one with long messages
                if run_no < n and c.rng.random() < 0.1:
                    h.append({"op": {"o": "clr", "names": [], "n": "", "ts": [], "g": 0}, "at": []})
                    cur = []
                    continue
                ns = [c.rng.choice(names) for _ in range(c.rng.choice([0, 1, 2, 5, 12] if run_no < n else [1, 3]))]
                if run_no < n and c.rng.random() < 0.03:
                    ns += ["k%d" % k for k in range(c.rng.choice([40, 100]))] + [c.rng.choice(names)]
                ask = c.rng.choice(ns) if ns and (run_no == n or c.rng.random() < 0.8) else c.rng.choice(names)
                ts = sorted(c.rng.sample(range(-20, 60), c.rng.choice([2, 3, 8, 15]))) if run_no < n else sorted(c.rng.sample(range(-100, 400), c.rng.choice([70, 100, 140])))
                if ask in ns:
                    cur = ts
                h.append({"op": {"o": "msg", "names": ns, "n": ask, "ts": ts, "g": c.rng.choice([0, 1])}, "at": cur})
            cmds.append({"k": kind, "k2": "long", "h": h, "q": c.rng.choice(QUANTA[:2] + QUANTA[3:4])})
        for cmd, g in zip(cmds, run(c, exe, cmds)):
            lines.append({"o": "clr", "names": [], "n": "", "ts": [], "g": 0, "ret": True, "got": {"ts": [], "vs": []}})
            where.append(None)
            for k, s in enumerate(cmd["h"]):
                vs = [round(v) if type(v) is not str and abs(v - round(v)) < 1e-5 else -1 for v in g["got"][k]]
                lines.append(dict(s["op"], ret=bool(g["ret"][k]), got={"ts": s["at"], "vs": vs}))
                where.append((cmd, k, g))
        t = c.tlc("MessageTrace", vf.cfg(init="TInit", next="TNext", postcondition="Complete"), files={"trace.ndjson": "\n".join(map(json.dumps, lines)) + "\n"},
                  consts={"Joints": "{}", "Asked": "{}", "MaxJoints": 0, "TimeLists": "{}"})
        for x in t["lines"]:
            cmd, k, g = where[x["line"] - 1]
            c.violation("%s: a recorded call is not one of the model" % kind, {"kind": kind, "call": cmd["h"][k], "ret": g["ret"][k], "got": g["got"][k]})
        c.extra["recorded_calls"] = c.extra.get("recorded_calls", 0) + len(lines)


def c21(c):
    exe = build(c)
    lists = [[0, 1, 3], [2, 4]] if c.quick else [[0, 1, 3], [2, 4], [-1, 0, 4, 5]]
    lines = gen(c, 3, lists, 4)
    one = gen(c, 2, [[4], [0, 3]], 3)
    deep = gen(c, 3, lists, 6, deep=4 if c.quick else 60)
    for kind in KINDS:
        play(c, exe, kind, pick(c, lines, 2000 if c.quick else 10 ** 9), "all transitions")
        play(c, exe, kind, pick(c, deep, 300 if c.quick else 10000), "longer histories")
    play(c, exe, "multi", pick(c, one, 600 if c.quick else 10 ** 9), "single points")
    recorded(c, exe, 40 if c.quick else 800)
    c.assumptions += ["a message has a value of every joint at every point, increasing times and, for the polynomial curves, at least two points",
                      "ROS messages and kindr_ros are replaced by stand-ins with their documented layout"]
