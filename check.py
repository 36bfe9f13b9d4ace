#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current source."""
import importlib, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import threading
import fw


CUR = []
LIMIT = 760     # seconds; a run that takes longer reports what it has decided so far


def main(pid):
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    rep = fw.Report(pid, mod.RULE)
    CUR[:] = [rep, t0]
    try:
        from mir import Prog
        prog = Prog(fw.dump())
        mod.run(prog, rep)
    except fw.BuildFail as e:
        rep.violate("build", "-", str(e))
    except Exception:
        tb = traceback.format_exc()
        rep.undec("analysis", "the analysis could not follow the code it has to judge: " + tb[-600:])
        print("UNDECIDED:", tb.strip().splitlines()[-1][:300])
    return fw.finish(rep, t0)


if __name__ == "__main__":
    rc = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: rc.append(main(sys.argv[1])))
    t.start()
    t.join(LIMIT)
    if t.is_alive():
        CUR[0].undec("analysis", "time limit: the rest was not analysed")
        print("UNDECIDED: time limit")
        rc.append(fw.finish(*CUR))
    sys.stdout.flush()
    os._exit(rc[0] if rc else 1)
