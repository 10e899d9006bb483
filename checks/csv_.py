"""Files: C19."""
import json, math, struct
import vf
from mgr import tset
from poly import run


def bits(x):
    return str(struct.unpack("<Q", struct.pack("<d", x))[0])


SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3.0, 1e300, -1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 123456789.123456789, 1e-9, 1500000000.123456,
           1234567.0, 1000000.5, 0.000001234567, 2.0 ** 53 + 2, -3.25, 99999999999999.98, 1e21, 1e22, 123456.7]
CHARS = {1: "a", 2: "Z9", 3: "-1.5e3", 4: " x y ", 5: ";\t'\"", 6: "0"}


def number(rng):
    k = rng.randrange(5)
    if k == 0:
        return rng.choice(SPECIAL)
    if k == 1:
        return rng.uniform(-1000, 1000)
    if k == 2:
        return 1.5e9 + rng.uniform(0, 1e6)
    if k == 3:
        while True:
            x = struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
            if math.isfinite(x):
                return x
    return float(rng.randint(-10 ** 7, 10 ** 7))


def model(c, exe):
    """every history of the model, numbers and texts from palettes"""
    chars = "<<" + ",".join("<<%s>>" % ",".join(str(1 + i) for i in range(k)) for k in (1, 2, 3)) + ">>"
    todo = [(1, 2, "{<<1>>, <<2>>, <<1,2>>, <<3>>, <<2,2>>, <<2,2,2>>}", [1, 2]), (2, 4, "{<<2>>, <<3,3>>}", [1])]
    if not c.quick:
        todo = [(1, 2, "{<<1>>, <<2>>, <<1,2>>, <<3>>, <<2,2>>, <<3,3>>, <<2,2,2>>, <<1,3,2>>}", [1, 2]), (2, 4, "{<<2>>, <<1>>, <<2,2>>, <<3,3>>}", [1])]
    for f, n, shapes, fields in todo:
        r = c.tlc("CsvMC", vf.cfg(invariants=["RoundTrip", "PrintCase"]),
                  consts={"F": f, "Fields": tset(fields), "FieldChars": chars, "Shapes": shapes, "MaxLen": n, "Kinds": '{"tab", "num"}'})
        cmds, exps = [], []
        for x in r["lines"]:
            pal = c.rng.sample(SPECIAL, len(fields)) if c.rng.random() < 0.5 else [number(c.rng) for _ in fields]
            txt = [CHARS[k] for k in c.rng.sample(sorted(CHARS), len(fields))]
            kind, h = {}, []
            for o in x["h"]:
                if o["o"] == "wtab":
                    kind[o["f"]] = 0
                    h.append(dict(o, t=[[txt[v - 1] for v in row] for row in o["t"]]))
                elif o["o"] == "wnum":
                    kind[o["f"]] = 1
                    h.append(dict(o, t=[[pal[v - 1] for v in row] for row in o["t"]]))
                else:
                    h.append({"o": o["o"], "f": o["f"], "num": kind[o["f"]]})
            want = []
            for o, e in zip(h, x["exp"]):
                if o["o"][0] == "w":
                    want.append(None)
                    continue
                m = (lambda v: bits(pal[v - 1])) if o["num"] else (lambda v: txt[v - 1])
                want.append({k: [m(a) if not isinstance(a, list) else [m(b) for b in a] for a in v] for k, v in e.items()})
            cmds.append({"h": h})
            exps.append(want)
        for cmd, want, g in zip(cmds, exps, run(c, exe, cmds)):
            if g["all"] != want:
                k = next(k for k in range(len(want)) if g["all"][k] != want[k])
                c.violation("a file does not load as it was written: %s" % cmd["h"][k]["o"], {"history": cmd["h"][:k + 1], "want": want[k], "got": g["all"][k]})
        c.sample({"where": "model", "history": cmds[len(cmds) // 2]["h"]})


def recorded(c, exe):
    """large tables, saved curves; judged by TLC"""
    rng = c.rng
    cmds = []
    for case in range(60 if c.quick else 1500):
        h, kind, nf = [], {}, 3
        if case % 60 == 0:   # tall, wide and long
            for f, (r, k) in enumerate([(1500, 1), (3, 300), (2, 2)]):
                h.append({"o": "wnum", "f": f + 1, "t": [[number(rng) for _ in range(k + 1)] for _ in range(r)]})
                h.append({"o": "load1", "f": f + 1, "num": 1})
                h.append({"o": "wtab", "f": f + 1, "t": [["".join(rng.choice("abX0189 .-+") for _ in range(5000 if k == 2 else 3)) for _ in range(k)] for _ in range(r)]})
                h.append({"o": "load", "f": f + 1, "num": 0})
                kind[f + 1] = (0, 0)
        for _ in range(12):
            f = rng.randint(1, nf)
            o = rng.choice(["wtab", "wnum", "wnum", "save", "load", "load", "load1", "load2"])
            if o == "wtab":
                rows = [["".join(rng.choice("abcXYZ0189 .-+_;:'\"#\t\\/%") for _ in range(rng.choice([1, 2, 7, 40]))) for _ in range(rng.choice([1, 2, 3, 9]))] for _ in range(rng.choice([1, 2, 5, 30]))]
                h.append({"o": o, "f": f, "t": rows})
                kind[f] = (0, 0)
            elif o == "wnum":
                d = rng.choice([1, 2, 3, 7, 12])
                h.append({"o": o, "f": f, "t": [[number(rng) for _ in range(d + 1)] for _ in range(rng.choice([1, 2, 5, 40]))]})
                kind[f] = (1, d)
            elif o == "save":
                op = dict(curve(rng), o="save", f=f)
                if rng.random() < 0.6:
                    lo, hi = op["ts"][0], op["ts"][-1]
                    op["at"] = [rng.choice([lo, hi, rng.uniform(lo, hi), rng.choice(op["ts"])]) for _ in range(rng.choice([1, 3, 10]))]
                h.append(op)
                kind[f] = (1, 7)
            elif f in kind:
                k, d = kind[f]
                if o == "load" or (k and (o == "load1" or d >= 2)):
                    h.append({"o": o, "f": f, "num": k})
        for f, (k, d) in sorted(kind.items()):
            h.append({"o": "load1" if k else "load", "f": f, "num": k})
        cmds.append({"h": h})
    ids = {}

    def n(x):
        return [n(y) for y in x] if isinstance(x, list) else ids.setdefault(x, len(ids) + 1)
    lines, where = [], []
    for cmd, g in zip(cmds, run(c, exe, cmds)):
        lines.append({"o": "new", "f": 3})
        where.append(None)
        for k, (o, r) in enumerate(zip(cmd["h"], g["all"])):
            if o["o"] == "wtab":
                lines.append({"o": "write", "f": o["f"], "rows": n([[s for s in row] for row in o["t"]])})
            elif o["o"] == "wnum":
                lines.append({"o": "write", "f": o["f"], "rows": n([[bits(s) for s in row] for row in o["t"]])})
            elif o["o"] == "save":
                lines.append({"o": "write", "f": o["f"], "rows": n(r["rows"])})
            else:
                lines.append(dict({"o": o["o"], "f": o["f"]}, **{a: n(b) for a, b in r.items()}))
            where.append((cmd["h"][:k + 1], r))
    t = c.tlc("CsvTrace", vf.cfg(postcondition="Accepted"), files={"trace.ndjson": "\n".join(map(json.dumps, lines)) + "\n"})
    for x in t["lines"]:
        h, r = where[x["line"] - 1]
        last = [o for o in h[:-1] if o["f"] == h[-1]["f"] and o["o"] in ("wtab", "wnum", "save")][-1]
        c.violation("a file does not load as it was written: %s after %s" % (h[-1]["o"], last["o"]), {"write": last, "load": h[-1], "got": r})
    c.extra["recorded_calls"] = len(lines)
    c.sample({"where": "recorded", "ops": [o["o"] for o in cmds[0]["h"]]})


def curve(rng, se3=True):
    k = rng.choice([2, 3, 6])
    t = rng.choice([0.0, -3.0, 100.0])
    ts, ps = [], []
    for _ in range(k):
        t += rng.choice([0.25, 1.0, rng.uniform(0.1, 2)])
        ts.append(t)
        q = [rng.gauss(0, 1) for _ in range(4)]
        m = math.sqrt(sum(x * x for x in q))
        ps.append([rng.uniform(-3, 3) for _ in range(3)] + [x / m for x in q])
    return {"ts": ts, "Ps": ps}


def evals(c, exe):
    """the text form of samples: every line is the curve at its time"""
    rng = c.rng
    cmds = []
    for _ in range(30 if c.quick else 600):
        op = dict(curve(rng), o="eval", f=1, n=rng.choice([2, 5, 20, 33, 150]), c=rng.choice(["se3", "e3"]))
        cmds.append({"h": [op]})
    for cmd, g in zip(cmds, run(c, exe, cmds)):
        r = g["all"][0]
        op = cmd["h"][0]
        if r.get("fail"):
            c.violation("writing samples of a curve fails" if r["fail"] == 1 else "writing samples to a file that cannot be opened reports success", {"case": op})
        w = r["want"]
        rows = []
        for l in r["lines"]:
            try:
                rows.append([float(x) for x in l.replace(",", " ").split()])
            except ValueError:
                pass          # a heading
        rows = [x for x in rows if x]
        # the loop may or may not reach the last sample
        bad = None if len(rows) in (op["n"], op["n"] - 1) else "%d samples" % len(rows)
        for a, b in zip(rows, w):
            tol = 2e-5 * (1 + max(abs(x) for x in b))
            if len(a) != len(b) or any(abs(x - y) > tol for x, y in zip(a, b)):
                bad = bad or "want %s got %s" % (b, a)
        if bad:
            c.violation("samples of a curve are not what the curve evaluates to: %s" % bad, {"case": op, "lines": r["lines"][:5]})


def refused(c):
    """C06: in every state of the files, the writes and loads that have to be refused"""
    exe = c.build("csv", ["csv.cpp"], extra_src=c.sources(kindr=True))
    r = c.tlc("CsvMC", vf.cfg(view="View", invariants=["PrintBad"]),
              consts={"F": 2, "Fields": "{1}", "FieldChars": "<<<<1>>>>", "Shapes": "{<<1>>, <<2>>, <<3,3>>, <<1,3>>}", "MaxLen": 2 if c.quick else 4, "Kinds": '{"tab", "num"}'})
    cmds = []
    for x in r["lines"]:
        kind, h = {}, []
        for o in x["h"]:
            if o["o"][0] == "w":
                kind[o["f"]] = int(o["o"] == "wnum")
                o = dict(o, t=[[1.5 if kind[o["f"]] else "ab" for _ in row] for row in o["t"]])
            h.append(dict(o, num=kind.get(o["f"], 0)))
        bad = [dict(o, t=[["ab" for _ in row] for row in o["t"]]) if o["o"] == "wtab" else o for o in x["bad"]]
        cmds.append({"h": h, "bad": bad})
    for cmd, g in zip(cmds, run(c, exe, cmds)):
        for op, st in zip(cmd["bad"], g["bad"]):
            if st != "fatal":
                c.violation("an invalid file operation does not end in a fatal check (%s): %s" % (st, op), {"history": cmd["h"], "op": op, "status": st})
        c.extra["invalid_operations"] = c.extra.get("invalid_operations", 0) + len(cmd["bad"])
    c.sample({"where": "refused file operations", "history": cmds[-1]["h"], "refused": cmds[-1]["bad"][:3]})


def c19(c):
    exe = c.build("csv", ["csv.cpp"], extra_src=c.sources(kindr=True))
    model(c, exe)
    recorded(c, exe)
    evals(c, exe)
    c.assumptions += ["fields are not empty and contain no comma or line break", "numbers are finite", "saved times lie on the curve"]
