import sys, glob, os, time, threading
from .harness import *

def main(pattern):
    drivers = sorted(glob.glob(os.path.join(os.path.dirname(__file__), "..", "drivers", "*.py")))
    p, mods = load(os.environ.get("REPO", "/repo"), drivers)
    for m in mods:
        for fn in scenarios(m):
            if not fn.name.startswith(pattern):
                continue
            e = Engine(p)
            t = time.time()
            try:
                n = e.run(m, fn)
            except Stop as x:
                print("STOP", fn.name, x)
                n = -1
            print("%-40s ends=%d steps=%d splits=%d %.2fs dropped=%d" % (fn.name, n, e.steps, e.n_splits, time.time() - t, e.dropped))
            for k, r in e.obligations.items():
                print("     ", r, k[1], "  WHY " + str(e.undecided_why.get(k)) if r[1] else "")
            for k, r in e.found.items():
                print("   VIOL", r.msg, r.where, getattr(r, "vals", ""))
                print("      facts", r.facts)
                print("      path", r.path)

if __name__ == "__main__":
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main, args=(sys.argv[1] if len(sys.argv) > 1 else "c",))
    t.start(); t.join()
