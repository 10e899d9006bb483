#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import sys, os, traceback, pathlib
here = pathlib.Path(__file__).resolve().parent
sys.path[:0] = [str(here / "lib"), str(here / "checks")]
import vf

TABLE = {"C01": ("mgr", "c01"), "C02": ("keys", "c02"), "C03": ("mgr", "c03"), "C04": ("mgr", "c04"), "C05": ("world", "c05"), "C06": ("mgr", "c06"),
         "C07": ("sampling", "c07"), "C08": ("sampling", "c08"), "C09": ("hermite", "c09"), "C10": ("hermite", "c10"), "C11": ("pose", "c11"),
         "C12": ("poly", "c12"), "C13": ("poly", "c13"), "C14": ("poly", "c14"), "C15": ("poly", "c15"),
         "C16": ("fit", "c16"), "C17": ("fit", "c17"), "C18": ("polycurve", "c18"), "C19": ("csv_", "c19"), "C20": ("world", "c20"), "C21": ("ros", "c21"), "C22": ("readers", "c22")}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    mod, fn = TABLE[pid]
    c = vf.Check(pid, tier)
    try:
        getattr(__import__(mod), fn)(c)
        c.finish()
    except vf.BuildError as e:
        print(e)
        if str(vf.REPO) + "/" in str(e) and "error:" in str(e):
            c.violation("the library does not compile when this part of it is used", {"kind": "build", "log": str(e)[-2500:]})
        c.cleanup()
        return 2
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        c.cleanup()
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
