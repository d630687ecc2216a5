#!/usr/bin/env python3
"""check.py <property id>: analyse /repo's current source and decide the property.

Exit 0: every obligation understood is discharged; 1: VIOLATION; 2: the analysis could not be carried out."""
import importlib, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(100000)
import registry, report

def main(pid):
    t0 = time.time()
    if pid not in registry.CHECKS: print("unknown property", pid); return 2
    info = registry.CHECKS[pid]
    rep = report.Report(); shared = {}
    for modname in info["modules"]:
        try:
            mod = importlib.import_module(modname)
            mod.run(rep, shared.get(getattr(mod, "SHARES", None)))
        except Exception as e:
            tr = traceback.format_exc()
            sys.stderr.write(tr)
            rep.und((pid,), "analysis", modname, "the analysis stopped: %s" % tr[-600:])
    rc = report.finish(pid, rep, t0, info["title"], info["rule"], info["trusted"])
    if rc == 0 and not any(pid in v[0] and v[1] == "holds" for v in rep.obl.values()):
        print("no obligation of %s could be analysed" % pid); return 2
    return rc

if __name__ == "__main__":
    if len(sys.argv) != 2: print(__doc__); sys.exit(2)
    sys.exit(main(sys.argv[1]))
