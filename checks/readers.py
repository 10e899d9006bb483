"""Reading changes nothing, from any number of threads: C22."""
import json, math
import vf
from mgr import tset
from poly import run
from world import same, value, pick

KINDS = {  # kind: edits, parts of the interface that are asked
    "e3": (["fit", "clr"], 5), "se3": (["fit", "clr", "ext"], 4), "slerp": (["fit", "clr", "ext"], 2), "scalar": (["fit", "clr"], 4),
    "vector": (["fit", "clr"], 4), "cont3": (["fit", "clr", "ext"], 6), "cont5": (["fit", "clr", "ext"], 6), "mgr": (["fit", "clr", "ext"], 6)}


SRC = ["readers.cpp", "readers_a.cpp", "readers_b.cpp", "readers_c.cpp", "readers_d.cpp"]


def build(c, tsan):
    if tsan:
        return c.build("readers_t", SRC, extra_src=c.sources(kindr=True), flags=["-fsanitize=thread"], san=False, libs=["-fsanitize=thread"])
    return c.build("readers", SRC, extra_src=c.sources(kindr=True))


def consts(kind, threads, questions, maxlen, data=2, ext=2):
    return {"Threads": "1..%d" % threads, "Questions": "1..%d" % questions, "Data": "1..%d" % data, "Edits": tset(KINDS[kind][0]), "MaxExt": ext, "MaxLen": maxlen}


def histories(c, kind, threads, questions, maxlen, deep=0, **k):
    key = (tuple(KINDS[kind][0]), threads, questions, maxlen, deep)
    if key not in CACHE:
        CACHE[key] = generate(c, kind, threads, questions, maxlen, deep, **k)
    return CACHE[key]


CACHE = {}


def generate(c, kind, threads, questions, maxlen, deep=0, **k):
    cs = consts(kind, threads, questions, maxlen, **k)
    cfg = vf.cfg(init="MInit", next="MNext", invariants=["AnswerOfContent", "PrintDeep"], properties=[] if deep else ["ReadsArePure", "NoEditUnderReader"])
    return c.tlc("ReadersMC", cfg, simulate=deep, depth=maxlen + 1 if deep else None, consts=cs)["lines"]


def concrete(rng, kind, questions):
    off = rng.choice([0.0, -25.0, 100.0])
    data = []
    for d in range(1, 4):
        k = {1: 3, 2: 5, 3: 2}[d]
        if d == 2 and rng.random() < 0.15:   # a large one
            k = rng.choice([20, 40, 90]) if kind in ("e3", "se3", "slerp", "mgr") else rng.choice([9, 14])
        ts = sorted(x / 8.0 for x in rng.sample(range(8 * (10 * d - 18), 80 * d), k - 1)) + [10 * d] if k > 5 else sorted(rng.sample(range(10 * d - 18, 10 * d), k - 1)) + [10 * d]
        data.append({"ts": [t + off for t in ts], "vs": [value(rng, "se3") for _ in range(k)], "b": [[rng.uniform(-2, 2) for _ in range(3)] for _ in range(2)]})
    base = -off if kind.startswith("cont") else 0.0
    pts = [t for d in data for t in d["ts"]] + [off + x for x in (-30, -5.5, 0, 3.25, 7, 11.5, 14, 19, 21.5, 26, 50)]
    near = [rng.choice(data[0]["ts"]) + x for x in (0.25, 0.5, -0.25)]
    # questions about neighbouring times and about the same time in different ways
    qs = []
    for i in range(questions):
        t = rng.choice(near + pts)
        if qs and rng.random() < 0.4:
            t = qs[-1][1] - base
        qs.append([rng.randrange(KINDS[kind][1]), t + base])
    return {"k": kind, "data": data, "qs": qs, "off": off}


def play(c, exe, kind, lines, threads, questions, what):
    cmds = []
    for h in lines:
        if not any(s["o"] == "end" for s in h):
            continue
        cmd = concrete(c.rng, kind, questions)
        off = cmd.pop("off")
        sh = lambda s: dict(s, t=s["t"] + off) if "t" in s else s
        cmd.update(threads=threads, h=[dict(sh(s), rec=[sh(x) for x in s["rec"]]) if "rec" in s else sh(s) for s in h])
        cmds.append(cmd)
    n = 0
    for cmd, g in zip(cmds, run(c, exe, cmds)):
        ends = [s for s in cmd["h"] if s["o"] == "end"]
        for s, (a, b) in zip(ends, g["ans"]):
            n += 1
            if len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)):
                c.violation("%s: the answer depends on more than the content (%s)" % (kind, what),
                            {"kind": kind, "question": cmd["qs"][s["q"] - 1], "answer": a, "answer of a new object": b, "history": cmd["h"], "data": cmd["data"]})
    c.extra["answers_compared"] = c.extra.get("answers_compared", 0) + n
    if cmds:
        c.sample({"where": "%s, %s" % (kind, what), "history": cmds[len(cmds) // 2]["h"][:8]})


def c22(c):
    # in the model: purity, and every question is answered
    c.tlc("Readers", vf.cfg(spec="Spec", invariants=["AnswerOfContent"], properties=["ReadsArePure", "NoEditUnderReader", "Answered"]),
          consts={k: v for k, v in consts("se3", 2, 2, 0).items() if k != "MaxLen"})
    plain, tsan = build(c, False), build(c, True)
    q = c.quick
    for kind in KINDS:
        one = histories(c, kind, 1, 2, 6 if q else 7, ext=1)
        play(c, plain, kind, pick(c, one, 700 if q else 20000), 1, 2, "one reader")
        long = histories(c, kind, 1, 5, 40, deep=25 if q else 400, data=3, ext=4)
        play(c, plain, kind, pick(c, long, 60 if q else 5000), 1, 5, "one reader, long")
        two = [h for h in histories(c, kind, 2, 2, 5, ext=1) if overlap(h)]
        play(c, tsan, kind, pick(c, two, 250 if q else 6000), 2, 2, "readers at once")
        many = histories(c, kind, 4, 5, 30, deep=12 if q else 200, data=3, ext=4)
        play(c, tsan, kind, pick(c, many, 40 if q else 3000), 4, 5, "many readers")
    c.assumptions += ["nobody edits an object while it is read", "data races between readers are found by the thread sanitizer on the schedules that ran"]


def overlap(h):
    open_ = set()
    for s in h:
        if s["o"] == "begin":
            open_.add(s["r"])
            if len(open_) > 1:
                return True
        elif s["o"] == "end":
            open_.discard(s["r"])
    return False
