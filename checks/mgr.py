"""Coefficient manager: C01, C03, C04, C05 (managers), C06."""
import json, math, struct
import vf

OPS1 = ["ins", "insm", "insn", "app", "appn", "mov", "rmt", "rmk", "upd", "updm", "bat", "clr"]
OPS2 = ["ins", "mov", "rmt", "rmk", "upd", "clr", "cpa", "cpc", "new"]


def next_up(x, n=1):
    for _ in range(n):
        x = math.nextafter(x, math.inf)
    return x


def palettes(q):
    """strictly increasing reals for the ranks 1..q"""
    mid = (q + 1) // 2
    p = [
        [r * 0.5 for r in range(1, q + 1)],
        [float(r - mid) for r in range(1, q + 1)],
        [next_up(1.0, r) for r in range(1, q + 1)],
        [math.copysign(10.0 ** (abs(r - mid) * (290.0 / q)), r - mid) if r != mid else 0.0 for r in range(1, q + 1)],
        [r * 5e-324 for r in range(1, q + 1)],
        [1.5e9 + r * 1e-6 for r in range(1, q + 1)],
        [-1e-9 * (q + 1 - r) for r in range(1, q + 1)],
        [1.0 / (q + 1 - r) for r in range(1, q + 1)],
    ]
    for x in p:
        assert all(a < b for a, b in zip(x, x[1:]))
    return p


def tset(xs):
    return "{" + ",".join('"%s"' % x if isinstance(x, str) else str(x) for x in xs) + "}"


def build(c):
    return c.build("mgr", ["mgr.cpp"], extra_src=c.sources())


def graph(c, exe, n, ranks, q, keys, length, ops, sections, fatal=False, view=True, maxval=2, simulate=None, label=""):
    """every transition of the model within the bounds, replayed on the real managers"""
    consts = {"N": n, "Ranks": tset(ranks), "Q": q, "MaxKeys": keys, "MaxVal": maxval, "MaxLen": length,
              "OpNames": tset(ops), "Sections": tset(sections), "Fatal": "TRUE" if fatal else "FALSE"}
    r = c.tlc("CoefManagerMC", vf.cfg(view="View" if view else None,
                                      invariants=["InvStore", "PrintState"], properties=["InvFrame", "KeyMono"],
                                      action_constraints=["PrintEdge"] if view else []), consts=consts)
    states, edges = {}, []
    cases = []
    pals = palettes(q)
    for x in r["lines"]:
        if "s" in x:
            states[json.dumps(x["s"])] = x
        else:
            edges.append(x)
    if view:
        for i, x in enumerate(edges):
            cases.append((pals[i % len(pals)], x["h"], states[json.dumps(x["d"])]["obs"], []))
        for i, x in enumerate(states.values()):
            for p in pals:
                cases.append((p, x["h"], x["obs"], []))
    else:
        i = 0
        for x in r["lines"]:
            cases.append((pals[i % len(pals)], x["h"], x["obs"], []))
            i += 1
    if fatal:
        for i, x in enumerate(states.values()):
            cases.append((pals[i % len(pals)], x["h"], x["obs"], x["bad"]))
    run_cases(c, exe, n, q, sections, cases, label)


def run_cases(c, exe, n, q, sections, cases, label):
    cmds = []
    for p, h, o, bad in cases:
        d = {"pal": p, "n": n, "q": q, "h": [s["op"] for s in h], "sec": sections}
        if bad:
            d["bad"] = bad
        cmds.append(d)
    step = 8
    batches = [list(range(k, len(cases), step)) for k in range(step)]
    res = c.replay_parallel(exe, [[cmds[i] for i in b] for b in batches])
    for b, (rep, rc, err) in zip(batches, res):
        for k, i in enumerate(b):
            p, h, o, bad = cases[i]
            if k >= len(rep):
                # the process died on this case: confirm on its own
                rep1, rc1, err1 = c.replay(exe, [cmds[i]])
                if len(rep1) == 1 and rc1 == 0:
                    raise vf.MachineryError("replayer died (%s) but the case passes alone: %s" % (rc, err))
                c.violation("the program terminates on a valid history (%s)" % rc1,
                            {"kind": "crash", "history": cmds[i], "stderr": err1})
            compare(c, cmds[i], h, o, bad, rep[k])
            c.cov["traces_validated_against_impl"] += 1
    if cases:
        c.sample({"where": label, "ops": cmds[len(cmds) // 2]["h"], "expected": cases[len(cases) // 2][2]})


def compare(c, cmd, h, o, bad, got):
    outs = [s["out"] for s in h]
    if got["out"] != outs:
        c.violation("an operation reports the wrong keys", {"kind": "out", "history": cmd, "want": outs, "got": got["out"]})
    if got["obs"] != o:
        diff = first_diff(o, got["obs"])
        c.violation("the manager differs from the model: %s" % (diff,),
                    {"kind": "obs", "history": cmd, "diff": diff})
    for op, st in zip(bad, got.get("bad", [])):
        if st != "fatal":
            c.violation("an invalid operation does not end in a fatal check (%s): %s" % (st, op["o"]),
                        {"kind": "bad", "history": cmd["h"], "pal": cmd["pal"], "op": op, "status": st})
    if bad:
        c.extra["invalid_operations"] = c.extra.get("invalid_operations", 0) + len(bad)


def first_diff(a, b, path=""):
    if type(a) != type(b):
        return "%s: want %r got %r" % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return first_diff(a.get(k), b.get(k), path + "." + str(k))
    elif isinstance(a, list):
        if len(a) != len(b):
            return "%s: want %r got %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, path + "[%d]" % (i + 1))
    return "%s: want %r got %r" % (path, a, b)


# ---- recorded traces ---------------------------------------------------------
def random_palette(rng, q):
    kind = rng.randrange(6)
    if kind == 0:
        xs = {rng.uniform(-10, 10) for _ in range(q)}
    elif kind == 1:
        xs = {float(rng.randrange(-4 * q, 4 * q)) for _ in range(6 * q)}
    elif kind == 2:
        xs = {math.copysign(10 ** rng.uniform(-300, 300), rng.random() - 0.5) for _ in range(q)}
    elif kind == 3:
        b = rng.choice([0.0, 1.0, -3.5, 1e6, 1.5e9])
        xs = {next_up(b, i) for i in range(q)}
    elif kind == 4:
        xs = {1.5e9 + rng.randrange(10 ** 6) * 1e-3 for _ in range(q)}
    else:
        t, xs = rng.uniform(-5, 5), set()
        for _ in range(q):
            t += rng.choice([1e-12, 1e-9, 1e-6, 1e-3, 0.1, 1.0, 100.0])
            xs.add(t)
    xs = sorted(xs)[:q]
    while len(xs) < q:
        xs.append(xs[-1] + max(1.0, abs(xs[-1])))
    return xs


def attempts(rng, i, s, nk, q, pick):
    """operations, most of them not allowed: the model decides"""
    ts = sorted(s)
    V = lambda: rng.randrange(1, 1000)
    O = lambda o, ts=(), vs=(), ks=(): {"o": o, "i": i + 1, "j": i + 1, "ts": list(ts), "vs": list(vs), "ks": list(ks)}
    key = lambda: rng.randrange(1, nk + 2)
    gone = [k for k in range(1, nk + 2) if k not in set(s.values())]
    sizes = [0, 1, 2, len(ts), len(ts) + 1, 64, 100, 255, 256, 257, 512]
    out = []
    for _ in range(4):
        kind = rng.randrange(9)
        if kind == 0:
            out.append(O(rng.choice(["rmk", "getk", "gett"]), ks=[rng.choice([key(), rng.choice(gone)])]))
        elif kind == 1:
            out.append(O("upd", vs=[V()], ks=[rng.choice([key(), rng.choice(gone)])]))
        elif kind == 2:
            out.append(O("rmt", [pick()]))
        elif kind == 3:
            out.append(O(rng.choice(["app", "appn"]), [rng.choice([pick(), ts[-1] if ts else 1])], [V()]))
        elif kind == 4 and ts:
            out.append(O("mov", [rng.choice(ts), rng.choice(ts + [pick()])], [V()]))
        elif kind == 5:
            a = rng.choice(sizes)
            b = max(0, rng.choice([a, a, a - 1, a + 1, a + 256, a - 256, rng.choice(sizes)]))
            out.append(O(rng.choice(["insm", "insn"]), [rng.randrange(1, q + 1) for _ in range(a)], [V() for _ in range(b)]))
        elif kind == 6 and ts:
            a = rng.randrange(len(ts))
            b = rng.randrange(a, len(ts) + 1)
            tt = ts[a:b]
            flaw = rng.randrange(6)
            if flaw == 0 and tt:
                del tt[rng.randrange(len(tt))]
            elif flaw == 1 and tt:
                tt[rng.randrange(len(tt))] = pick()
            elif flaw == 2:
                tt = ts[a:] + [min(q, ts[-1] + 1)]
            elif flaw == 3 and len(tt) > 1:
                k = rng.randrange(len(tt) - 1)
                tt[k], tt[k + 1] = tt[k + 1], tt[k]
            n = max(0, len(tt) + (rng.choice([-1, 1, 256]) if flaw == 4 else 0))
            out.append(O("bat", tt, [V() for _ in range(n)]))
        elif kind == 7:
            kk = rng.sample(sorted(s.values()), rng.randrange(0, len(s) + 1))
            if rng.random() < 0.7:
                kk.insert(rng.randrange(len(kk) + 1), rng.choice(gone))
            out.append(O("updm", vs=[V() for _ in kk], ks=kk))
        elif kind == 8:
            out.append(O("ins", [pick()], [V()]))
    return out


def random_run(rng, n, q, length, queries, ops, stored_cap):
    """a legal operation sequence; the python maps only keep track of what is legal"""
    stores = [dict() for _ in range(n)]   # time -> key
    nk = 0
    seq = []
    free_all = list(range(1, q + 1))
    bias = rng.choice(["mixed", "grow", "seq"])

    def op(o, i, ts=(), vs=(), ks=(), j=None):
        seq.append({"o": o, "i": i + 1, "j": (i if j is None else j) + 1, "ts": list(ts), "vs": list(vs), "ks": list(ks)})

    def V():
        return rng.randrange(1, 1000)
    while len(seq) < length:
        i = rng.randrange(n)
        s = stores[i]
        o = rng.choice(ops)
        if bias == "grow" and rng.random() < 0.5:
            o = rng.choice(["ins", "app"])
        if bias == "seq" and rng.random() < 0.4:
            o = rng.choice(["app", "mov", "bat"])
        if o in ("clr", "new") and rng.random() < 0.7:
            continue
        ts = sorted(s)
        if len(s) > stored_cap and o in ("ins", "insm", "insn", "app", "appn"):
            o = rng.choice(["rmt", "rmk", "clr"])
        if o == "ins":
            t = rng.choice(free_all)
            op(o, i, [t], [V()])
            if t not in s:
                nk += 1
                s[t] = nk
        elif o in ("insm", "insn"):
            k = rng.choice([0, 1, 2, 3, 5, 8] if q < 200 else [3, 60, 150] if q < 1000 else [700, 1500])
            tt = [rng.choice(free_all) for _ in range(k)]
            if rng.random() < 0.4:
                tt.sort()
            op(o, i, tt, [V() for _ in tt])
            for t in tt:
                if t not in s:
                    nk += 1
                    s[t] = nk
        elif o in ("app", "appn"):
            lo = ts[-1] + 1 if ts else 1
            if lo > q:
                continue
            t = min(q, lo + rng.choice([0, 0, 0, 1, 2, 5]))
            op(o, i, [t], [V()])
            nk += 1
            s[t] = nk
        elif o == "mov" and ts:
            t = rng.choice(ts + [ts[-1]] * 2)
            free = [x for x in free_all if x not in s] + [t]
            near = [x for x in free if abs(x - t) <= 2]
            u = rng.choice(near if rng.random() < 0.5 else free)
            op(o, i, [t, u], [V()])
            s[u] = s.pop(t)
        elif o == "rmt" and ts:
            t = rng.choice(ts + [ts[0], ts[-1]])
            op(o, i, [t])
            del s[t]
        elif o == "rmk" and ts:
            t = rng.choice(ts + [ts[0], ts[-1]])
            op(o, i, ks=[s[t]])
            del s[t]
        elif o == "upd" and ts:
            op(o, i, vs=[V()], ks=[s[rng.choice(ts)]])
        elif o == "updm":
            kk = rng.sample(ts, rng.randrange(0, len(ts) + 1))
            op(o, i, vs=[V() for _ in kk], ks=[s[t] for t in kk])
        elif o == "bat" and ts:
            a = rng.randrange(len(ts))
            b = rng.randrange(a, len(ts) + 1)
            op(o, i, ts[a:b], [V() for _ in ts[a:b]])
        elif o in ("clr", "new"):
            op(o, i)
            s.clear()
        elif o in ("cpa", "cpc"):
            j = rng.randrange(n)
            op(o, i, j=j)
            stores[i] = dict(stores[j])
        else:
            continue
        for _ in range(rng.choice([0, 1, 1, 2])):
            i = rng.randrange(n)
            s = stores[i]
            ts = sorted(s)
            qq = rng.choice(queries)
            near = ([max(1, min(q, t + d)) for t in (ts[:2] + ts[-2:] + rng.sample(ts, min(3, len(ts)))) for d in (-1, 0, 1)]
                    or [1])
            pick = lambda: rng.choice(near) if rng.random() < 0.7 else rng.randrange(1, q + 1)
            if qq == "q_st":
                op(qq, i)
            elif qq == "q_br":
                op(qq, i, [pick()])
            elif qq == "q_wi" and ts:
                op(qq, i, [max(ts[0], pick())])
            elif qq == "q_rg":
                op(qq, i, [pick(), pick()])
            elif qq == "q_eq":
                op(qq, i, j=rng.randrange(n))
            elif qq == "try":
                for x in attempts(rng, i, s, nk, q, pick):
                    op("try", i)
                    seq[-1]["op"] = x
    for i in range(n):
        op("q_st", i)
    return seq


def traces(c, exe, count, n, q, length, queries, ops, cap, label):
    """record runs of the real code and check them with TLC"""
    runs, cmds = [], []
    for k in range(count):
        seq = random_run(c.rng, n, q, length, queries, ops, cap)
        cmds.append({"pal": random_palette(c.rng, q), "n": n, "q": q, "h": seq, "trace": True})
    step = 8
    batches = [list(range(k, count, step)) for k in range(step)]
    res = c.replay_parallel(exe, [[cmds[i] for i in b] for b in batches])
    outs = [None] * count
    for b, (rep, rc, err) in zip(batches, res):
        for k, i in enumerate(b):
            if k >= len(rep):
                rep1, rc1, err1 = c.replay(exe, [cmds[i]])
                if len(rep1) == 1 and rc1 == 0:
                    raise vf.MachineryError("replayer died (%s) but the case passes alone: %s" % (rc, err))
                c.violation("the program terminates on a valid history (%s)" % rc1,
                            {"kind": "crash", "history": cmds[i], "stderr": err1})
            outs[i] = rep[k]["out"]
    # TLC in parallel over groups of runs
    from concurrent.futures import ThreadPoolExecutor
    groups = [list(range(k, count, 4)) for k in range(4)]

    def one(g):
        lines, where = [], []
        for i in g:
            lines.append({"o": "rst", "n": n, "q": q})
            where.append((i, -1))
            for k, (op, r) in enumerate(zip(cmds[i]["h"], outs[i])):
                lines.append(dict(op, r=r))
                where.append((i, k))
        if not lines:
            return [], where
        t = c.tlc("CoefManagerTrace", vf.cfg(invariants=["InvStore"], postcondition="Accepted"),
                  files={"trace.ndjson": "\n".join(json.dumps(x) for x in lines) + "\n"})
        return t["lines"], where
    with ThreadPoolExecutor(4) as ex:
        for bad, where in ex.map(one, groups):
            for x in bad:
                i, k = where[x["line"] - 1]
                c.violation("a recorded run is no behaviour of the model, first at call %d: %s" % (
                    k, json.dumps(cmds[i]["h"][k])),
                    {"kind": "trace", "pal": cmds[i]["pal"], "n": n, "q": q, "history": cmds[i]["h"][:k + 1],
                     "want": x["want"], "got": x["op"]["r"]})
    c.cov["traces_validated_against_impl"] += count
    tried = sum(o["o"] == "try" for x in cmds for o in x["h"])
    if tried:
        c.extra["attempts"] = c.extra.get("attempts", 0) + tried
        c.extra["attempts_refused"] = c.extra.get("attempts_refused", 0) + sum(r == "fatal" for o in outs for r in o if isinstance(r, str))
    c.extra["recorded_calls"] = c.extra.get("recorded_calls", 0) + sum(len(x["h"]) for x in cmds)
    c.sample({"where": label, "recorded_run_head": cmds[0]["h"][:6]})


ASSUME = ["times are not NaN", "TLC explores the model within the stated bounds; longer histories are sampled",
          "kindr is not involved; the managers hold Eigen vectors"]


def c01(c):
    exe = build(c)
    if c.quick:
        graph(c, exe, 1, [2, 4, 6], 7, 4, 6, OPS1, ["st"], label="all transitions, 3 times")
        graph(c, exe, 1, [1, 2], 2, 3, 3, OPS1, ["st"], view=False, label="all histories of length 3")
        traces(c, exe, 40, 1, 60, 120, ["q_st", "q_st", "q_br", "q_rg"], OPS1, 40, "recorded runs")
    else:
        graph(c, exe, 1, [2, 4, 6], 7, 5, 8, OPS1, ["st"], label="all transitions, 3 times")
        graph(c, exe, 1, [1, 2, 3, 4], 4, 5, 6, OPS1, ["st"], label="all transitions, 4 times")
        graph(c, exe, 1, [1, 2], 2, 4, 4, OPS1, ["st"], view=False, label="all histories of length 4")
        graph(c, exe, 2, [1, 2], 2, 4, 6, OPS1, ["st"], label="two managers")
        traces(c, exe, 400, 2, 80, 250, ["q_st", "q_st", "q_br", "q_rg"], OPS1, 50, "recorded runs")
    traces(c, exe, 4, 1, 420, 40, ["q_st"], OPS1, 330, "large recorded runs")
    traces(c, exe, 2, 1, 3000, 12, ["q_st"], ["insm", "insm", "insn", "mov", "rmt", "app", "upd"], 2600, "very large recorded runs")
    c.assumptions += ASSUME


def c03(c):
    exe = build(c)
    ops = ["ins", "app", "mov", "rmt", "clr"]
    if c.quick:
        graph(c, exe, 1, [2, 4, 6, 8], 9, 4, 6, ops, ["br"], maxval=1, label="all transitions, 4 times")
        traces(c, exe, 40, 1, 60, 150, ["q_br"], ops + ["rmk", "insm"], 40, "recorded runs")
    else:
        graph(c, exe, 1, [2, 4, 6, 8, 10], 11, 5, 7, ops, ["br"], maxval=1, label="all transitions, 5 times")
        traces(c, exe, 400, 2, 80, 300, ["q_br"], ops + ["rmk", "insm", "insn", "appn", "cpa", "cpc"], 60, "recorded runs")
    traces(c, exe, 4, 1, 420, 80, ["q_br"], ops + ["insm", "insm", "insm"], 330, "large recorded runs")
    traces(c, exe, 2, 1, 3000, 40, ["q_br"], ["insm", "mov", "rmt", "app", "upd"], 2600, "very large recorded runs")
    c.assumptions += ASSUME


def c04(c):
    exe = build(c)
    ops = ["ins", "app", "mov", "rmt", "clr"]
    if c.quick:
        graph(c, exe, 1, [2, 4, 6, 8], 9, 4, 6, ops, ["wi", "rg"], maxval=1, label="all transitions, 4 times")
        traces(c, exe, 40, 1, 60, 150, ["q_wi", "q_rg"], ops + ["rmk", "insm"], 40, "recorded runs")
    else:
        graph(c, exe, 1, [2, 4, 6, 8, 10], 11, 5, 6, ops, ["wi", "rg"], maxval=1, label="all transitions, 5 times")
        traces(c, exe, 400, 2, 80, 300, ["q_wi", "q_rg"], ops + ["rmk", "insm", "insn", "appn", "cpa", "cpc"], 60, "recorded runs")
    traces(c, exe, 4, 1, 420, 60, ["q_wi", "q_rg"], ops + ["insm", "insm", "insm"], 330, "large recorded runs")
    traces(c, exe, 1, 1, 1500, 8, ["q_wi", "q_rg"], ["insm", "mov", "rmt", "app", "upd"], 1400, "very large recorded runs")
    c.assumptions += ASSUME


def c05_managers(c, exe):
    if c.quick:
        graph(c, exe, 2, [1, 2], 2, 3, 5, OPS2, ["st", "eq"], label="two managers, all transitions")
        traces(c, exe, 30, 3, 30, 120, ["q_st", "q_st", "q_eq", "q_br"], OPS1 + ["cpa", "cpc", "new"] * 2, 20, "recorded runs")
    else:
        graph(c, exe, 2, [1, 2, 3], 3, 4, 6, ["ins", "rmk", "upd", "cpa", "cpc", "new"], ["st", "eq"], label="two managers, all transitions")
        graph(c, exe, 2, [1, 2], 2, 4, 6, OPS2, ["st", "eq"], label="two managers, all transitions")
        traces(c, exe, 300, 4, 40, 250, ["q_st", "q_st", "q_eq", "q_br", "q_rg"], OPS1 + ["cpa", "cpc", "new"] * 2, 30, "recorded runs")
    traces(c, exe, 4, 2, 420, 30, ["q_st"], OPS1 + ["insm", "cpa", "cpc"] * 2, 330, "large recorded runs")
    traces(c, exe, 2, 2, 3000, 10, ["q_st"], ["insm", "insm", "cpa", "cpc", "rmt", "upd"], 2600, "very large recorded runs")


def c06(c):
    exe = build(c)
    if c.quick:
        graph(c, exe, 1, [2, 4, 6], 7, 3, 5, ["ins", "app", "mov", "rmt", "rmk", "clr"], ["st"], fatal=True, maxval=1, label="invalid operations in every state")
        traces(c, exe, 30, 2, 60, 150, ["q_st", "q_br", "q_wi", "q_rg", "q_eq"], OPS1 + ["cpa", "cpc"], 40, "valid runs")
    else:
        graph(c, exe, 1, [2, 4, 6, 8], 9, 5, 6, ["ins", "app", "mov", "rmt", "rmk", "clr"], ["st"], fatal=True, maxval=1, label="invalid operations in every state")
        graph(c, exe, 2, [2, 4], 5, 4, 5, ["ins", "rmt", "rmk", "cpa", "cpc"], ["st"], fatal=True, maxval=1, label="invalid operations in every state")
        traces(c, exe, 400, 3, 80, 250, ["q_st", "q_br", "q_wi", "q_rg", "q_eq"], OPS1 + ["cpa", "cpc", "new"], 50, "valid runs")
    m = 1 if c.quick else 8
    traces(c, exe, 24 * m, 1, 60, 60, ["try"], OPS1, 40, "attempts in recorded runs")
    traces(c, exe, 4 * m, 1, 420, 20, ["try"], ["insm", "insn", "mov", "rmt", "rmk", "upd", "bat"], 330, "attempts in large recorded runs")
    import sampling, csv_
    sampling.refused(c)
    csv_.refused(c)
    c.assumptions += ASSUME
