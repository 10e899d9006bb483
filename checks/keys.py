"""Keys are never handed out twice: C02."""
import json
import vf
from mgr import tset, graph, traces, build as build_mgr, OPS1
from poly import run

HOOK = ["-fsanitize=thread", "-Dpthread_mutex_lock=vf_mutex_lock", "-Dpthread_mutex_unlock=vf_mutex_unlock", "-Dpthread_mutex_trylock=vf_mutex_trylock"]


def judge(c, lines, where, what):
    # keys are renumbered: they may exceed the integers of TLC
    ids = {}
    for l in lines:
        for f in ("keys", "kept"):
            l[f] = [ids.setdefault(k, len(ids) + 1) for k in l[f]]
    t = c.tlc("KeyTrace", vf.cfg(postcondition="Accepted"), files={"trace.ndjson": "\n".join(map(json.dumps, lines)) + "\n"})
    for x in t["lines"]:
        c.violation("a key is handed out twice (%s)" % what, {"kind": what, "case": where[x["line"] - 1]})


def model(c):
    """the design itself, and that the lock is what makes it hold"""
    base = {"Threads": "1..3", "Draws": 2 if c.quick else 3}
    c.tlc("KeyGen", vf.cfg(spec="Spec", invariants=["Unique", "Exclusive"], properties=["Progress"]), consts=dict(base, Locked="TRUE"), workers=4)
    r = c.tlc("KeyGen", vf.cfg(spec="Spec", invariants=["Unique"]), consts=dict(base, Locked="FALSE"), allow_fail=True)
    if r["ok"] or "Invariant Unique is violated" not in r["text"]:
        raise vf.MachineryError("the unlocked design is not told apart from the locked one")


def schedules(c):
    exe = c.build_parts("keysched", [(vf.HARN / "keysched.cpp", ["-O1"]), (vf.HARN / "keycall.cpp", HOOK + ["-O1"])] +
                        [(s, HOOK + ["-O1"]) for s in c.sources()])
    plans = []
    for threads, draws, limit in ([(2, 1, None), (2, 2, 500), (3, 1, 500)] if c.quick else [(2, 1, None), (2, 2, 6000), (3, 1, 6000), (3, 2, 3000)]):
        if limit is None:
            r = c.tlc("KeySched", vf.cfg(init="SInit", next="SNext", invariants=["Complete"], deadlock=False),
                      consts={"Threads": "1..%d" % threads, "Draws": draws, "Locked": "FALSE", "MaxSched": 100})
        else:
            r = c.tlc("KeySched", vf.cfg(init="SInit", next="SNext", invariants=["Complete"], deadlock=False), simulate=limit, depth=5 * threads * draws + 1,
                      consts={"Threads": "1..%d" % threads, "Draws": draws, "Locked": "FALSE", "MaxSched": 100})
        ss = {tuple(x["sched"]) for x in r["lines"]}
        # the real steps are finer than those of the model: each step stands for one or two points
        for k in (1, 2):
            plans += [{"threads": threads, "draws": draws, "sched": [t for t in s for _ in range(k)]} for s in sorted(ss)]
    reps = run(c, exe, plans)
    lines, where = [], []
    for p, g in zip(plans, reps):
        lines.append({"new": 1, "keys": [k for x in g["got"] for k in x], "kept": []})
        where.append({"schedule": p, "got": g["got"]})
    c.extra["schedules"] = len(plans)
    c.extra["scheduling_points_seen"] = sum(g["points"] for g in reps)
    judge(c, lines, where, "schedule of threads")
    c.sample({"where": "schedules", "schedule": plans[len(plans) // 2]})


def histories(c, exe):
    """all parts of the library that hand out keys"""
    rng = c.rng
    cmds = []
    for _ in range(40 if c.quick else 800):
        h, occ = [], {}
        for _ in range(60):
            i = rng.randint(1, 3)
            o = rng.choice(["ins", "insv", "end", "again", "rm", "clr", "del", "cp", "cpins", "e3", "e3p", "se3", "slf", "sle", "gen", "gen"])
            m = occ.setdefault(i, set())
            top = max(m) if m else 0
            k = rng.randint(1, 3)
            if o in ("ins", "insv"):
                ts = rng.sample([t for t in range(-20, 60) if t not in m], k)
                m |= set(ts)
            elif o == "end":
                ts = [top + 1 + x for x in range(k)]
                m |= set(ts)
            elif o == "again":
                ts = rng.sample(sorted(m), min(k, len(m)))
            elif o == "rm":
                ts = rng.sample(sorted(m), min(k, len(m)))
                m -= set(ts)
            else:
                ts = list(range(k + 1))
                if o in ("clr", "del"):
                    m.clear()
                if o == "sle":       # extends at an ever later time
                    b = len(h) * 10
                    ts = [b, b + 1]
            h.append({"o": o, "i": i, "ts": ts, "d": 5000})
        cmds.append({"k": "run", "h": h})
    lines, where = [], []
    for cmd, g in zip(cmds, run(c, exe, cmds)):
        for n, (o, x) in enumerate(zip(cmd["h"], g["all"])):
            lines.append({"new": 1 if n == 0 else 0, "keys": x["keys"], "kept": x["kept"]})
            where.append({"history": cmd["h"][:n + 1]})
    judge(c, lines, where, "history")
    c.sample({"where": "histories", "history": cmds[0]["h"][:6]})


def stress(c, exe):
    reps = 1 if c.quick else 6
    cmds = [{"k": "par", "how": how, "threads": 8, "draws": d} for how, d in (("gen", 300000), ("mgr", 60000), ("e3", 20000), ("gen", 300000)) for _ in range(reps)]
    for cmd in cmds:
        rep, rc, err = c.replay(exe, [cmd])
        if len(rep) != 1:
            c.violation("the program terminates while threads draw keys (%s)" % rc, {"case": cmd, "stderr": err})
        g = rep[0]
        c.cov["traces_validated_against_impl"] += 1
        judge(c, [{"new": 1, "keys": [], "kept": []}, {"new": 0, "keys": g["dup"] + g["dup"][:1] if g["dup"] else [], "kept": []}], [cmd, dict(cmd, got=g)], "threads")
        if g["total"] != g["distinct"]:
            c.violation("a key is handed out twice (threads)", {"case": cmd, "got": g})
        c.extra["keys_drawn_by_threads"] = c.extra.get("keys_drawn_by_threads", 0) + g["total"]


def long(c, exe):
    """more keys than 32 bits can tell apart"""
    cmd = {"k": "long", "draws": 2 ** 32 + 10}
    rep, rc, err = c.replay(exe, [cmd], timeout=1500)
    if len(rep) != 1:
        c.violation("the program terminates while drawing keys (%s)" % rc, {"case": cmd, "stderr": err})
    if rep[0]["rep"]:
        c.violation("a key is handed out twice (many draws)", {"case": cmd, "got": rep[0]})
    c.extra["keys_drawn_in_a_row"] = cmd["draws"]


def c02(c):
    model(c)
    schedules(c)
    exe = c.build("keystress", ["keystress.cpp"], extra_src=c.sources(kindr=True), san=False, opt="-O2")
    histories(c, exe)
    stress(c, exe)
    if not c.quick:
        long(c, exe)
    m = build_mgr(c)
    if c.quick:
        graph(c, m, 2, [1, 2], 2, 4, 5, ["ins", "rmt", "rmk", "clr", "new"], ["st"], maxval=1, label="two managers")
    else:
        graph(c, m, 2, [1, 2, 3], 3, 5, 6, ["ins", "rmt", "rmk", "clr", "new"], ["st"], maxval=1, label="two managers")
        traces(c, m, 200, 3, 30, 200, ["q_st"], OPS1 + ["new"] * 2, 20, "recorded runs")
    c.assumptions += ["a copy of a coefficient keeps the key of the original", "schedules switch threads at the memory accesses and locks of the key generator"]
