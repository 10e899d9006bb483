#!/usr/bin/env python3
"""Writes and confirms planted changes.  mkseed.py <defs.py> [id ...]
A definition file holds SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=<C++ main source>, kindr=bool)}"""
import sys, subprocess, json, pathlib, shutil, importlib.util, os
V = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
OUT = V / "seeded"

DEMO = """#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -O1 -w %(inc)s -I "$here" -I curves/include -I /usr/include/eigen3 "$here/demo.cpp" %(src)s \\
  -o "$tmp/demo" -lglog -lboost_system -lboost_thread -lpthread || exit 2
cd "$tmp" && timeout 120 ./demo
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.SEEDS)
    base = json.load(open("/opt/vp/BASELINE.json"))
    for sid in ids:
        s = m.SEEDS[sid]
        assert sh("git -C /repo status --porcelain --untracked-files=no").stdout == "", "repo dirty"
        d = OUT / sid
        if d.exists():
            shutil.rmtree(d)
        d.mkdir(parents=True)
        (d / "demo.cpp").write_text(s["demo"])
        inc, src = "", s.get("src", "curves/src/KeyGenerator.cpp")
        if s.get("kindr"):
            shutil.copytree(V / "harness/kindr_shim", d / "kindr_shim")
            inc = '-I "$here/kindr_shim"'
        if s.get("ros"):
            shutil.copytree(V / "harness/ros_shim", d / "ros_shim")
            inc += ' -I "$here/ros_shim" -I curves_ros/include'
        (d / "demo.sh").write_text(DEMO % {"inc": inc, "src": src})
        os.chmod(d / "demo.sh", 0o755)
        (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        ok = True
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r.returncode != 0:
            print(sid, "demo fails on the unchanged tree", r.returncode, r.stdout[-800:])
            ok = False
        try:
            for f, old, new in s["edits"]:
                p = REPO / f
                t = p.read_text()
                if old.startswith("ALL:"):
                    p.write_text(t.replace(old[4:], new))
                    continue
                if t.count(old) != 1:
                    raise SystemExit("%s: %d matches in %s" % (sid, t.count(old), f))
                p.write_text(t.replace(old, new))
            (d / "patch.diff").write_text(sh("git -C /repo diff").stdout)
            r = sh("bash /opt/vp/build.sh")
            if r.returncode:
                print(sid, "does not build", r.stdout[-1500:])
                ok = False
            sh("bash /opt/vp/test.sh /tmp/seed.json")
            res = json.load(open("/tmp/seed.json"))
            if not passed(base) <= passed(res):
                print(sid, "breaks tests", passed(base) - passed(res))
                ok = False
            r = sh("bash %s/demo.sh" % d, cwd="/repo")
            if r.returncode == 0 or r.returncode == 2:
                print(sid, "demo does not fail with the change (%d): %s" % (r.returncode, r.stdout[-800:]))
                ok = False
            if ok and "--nocheck" not in sys.argv:
                c = sh("python3 check.py %s quick" % s["property"], cwd=V)
                print(sid, s["property"], "CAUGHT" if c.returncode == 1 and "VIOLATION property=%s " % s["property"] in c.stdout else "MISSED rc=%d %s" % (c.returncode, c.stdout[-600:]),
                      [l for l in c.stdout.split("\n") if l.startswith("violation")][:1])
        finally:
            sh("git -C /repo checkout -- .")
        if not ok:
            print(sid, "NOT KEPT")
            shutil.rmtree(d)
    sh("bash /opt/vp/build.sh")


def passed(j):
    if isinstance(j, list):
        return set(map(str, j))
    for k in ("passed", "stable", "tests_passed"):
        if k in j:
            return set(map(str, j[k]))
    raise SystemExit("unknown format %s" % list(j))


main()
