import importlib, os, sys, time
if os.environ.get("PYTHONHASHSEED") != "0": os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable, "-m", "cgv.run"] + sys.argv[1:])
from .fe import Program
from .spec import *
def main():
    verbose = "-v" in sys.argv; a = [x for x in sys.argv[1:] if x != "-v"]
    p = Program()
    m = importlib.import_module("contracts." + a[0])
    for c in m.VERIFY:
        if a[1:] and not any(x in c.name() for x in a[1:]): continue
        R = verify(p, c, Registry(c.registry if getattr(c,'registry',None) is not None else m.CONTRACTS), verbose=verbose, budget=c.timeout or 120)
        print("%-12s %-40s %3d obl %4d paths %6.1fs %s" % (R.status, c.name(), len(R.obls), R.paths, R.time, R.msg))
        if verbose and R.ex:
            for w, l in R.ex.loop_obls: print("   loop", w, l)
            for d in R.ex.dropped: print("   dropped", d)
            for o in R.obls:
                if o.result != "proved": print("   !", o.name, o.where, o.result, o.detail)
            print("   inlined:", sorted(R.ex.inlined)); print("   used:", sorted(R.ex.used_specs), sorted(R.ex.used_models))
if __name__ == "__main__": main()
