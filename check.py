#!/usr/bin/env python3
"""check.py ID [--thorough]: decides one property on /repo's current working tree."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
import registry_of_checks as reg


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = core.Report(pid, tier)
    fn, level, note = reg.CHECKS[pid]
    from extract import BuildFailed
    try:
        P = core.load_program()
    except BuildFailed as ex:
        rep.bad("build", "compile", "the tree does not compile:\n" + str(ex)[-3000:])
        return core.finish(rep, level, note, t0, seed)
    core.guarded(rep, lambda: fn(P, rep))
    return core.finish(rep, level, note, t0, seed)


sys.exit(main())
