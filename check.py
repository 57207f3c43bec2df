#!/usr/bin/env python3
"""Runs the check of one property: check.py C01 [--tier quick|thorough]."""
import argparse
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
from vlib import core  # noqa: E402


def table():
    from vlib import config, fileio, flowchecks, ib, solvers
    t = {p: flowchecks.check_ops for p in flowchecks.OPS}
    t["C11"] = flowchecks.check_c11
    t["C12"] = flowchecks.check_c12
    t["C13"] = flowchecks.check_c13
    t["C14"] = flowchecks.check_c14
    t["C15"] = flowchecks.check_c15
    for p in ("C16", "C17", "C18"):
        t[p] = solvers.check_solver
    t["C19"] = ib.check_c19
    t["C20"] = ib.check_c20
    for p in ("C23", "C24", "C25"):
        t[p] = fileio.check_io
    t["C26"] = config.check_c26
    t["C21"] = t["C22"] = ib.check_force
    return t


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--setup", action="store_true", help="checks that the tools the checks need are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.setup:
        return core.setup()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = core.Run(a.pid, a.tier, seed)
    rc = 2
    try:
        try:
            table()[a.pid](run)
            rc = run.finish()
        except core.DriverDied as e:
            if e.crashed:
                run.violations.append((f"the code under test crashed the process: {e.err[-400:]}",
                                       dict(script=e.script, jobs=e.jobs[:40])))
                rc = run.finish()
            else:
                print(f"BROKEN {a.pid}: {e}", file=sys.stderr)
    except core.Broken as e:
        print(f"BROKEN {a.pid}: {e}", file=sys.stderr)
    except Exception:
        traceback.print_exc()
    finally:
        run.close()
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
