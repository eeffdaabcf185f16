"""Development driver: python3 -m vt.run <specs module> [function regex] [--show] [--keep]"""
import importlib, os, re, sys, tempfile, time, shutil
from .cxxast import load_ast, ExtractionError
from .gen import Gen
from . import prove


def main():
    mod = importlib.import_module("specs." + sys.argv[1])
    pat = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("--") else ".*"
    t0 = time.time()
    ast = load_ast(mod.ENTRY)
    print("ast %.1fs" % (time.time() - t0))
    g = Gen(ast, mod.unit)
    mods = []
    for q in mod.contracts:
        if not re.search(pat, q) or mod.contracts[q].noproof:
            continue
        try:
            r = g.function(q)
        except ExtractionError as e:
            print("EXTRACTION", q, e)
            continue
        if r["frame"]:
            print("FRAME", q, r["frame"])
        if "--show" in sys.argv:
            print(r["text"])
        mods.append((q, r["text"]))
    work = os.environ.get("VTW", "/tmp/w/vt_") + sys.argv[1]
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    goals, errs = prove.split(mods, work, g.unit_module())
    for n, e in errs:
        print("WHY3 ERROR", n, e[-1500:])
    print("goals %d  %.1fs" % (len(goals), time.time() - t0))
    sched = ((0, 2), (1, 3), (2, 2), (0, 8), (1, 8)) if "--fast" in sys.argv else prove.DEFAULT
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    if only:
        goals = [x for x in goals if re.search(only[0], x.expl) and x.fn != "(lemmas)"]
    prove.discharge(goals, sched)
    by = {}
    for x in goals:
        by.setdefault(x.fn, []).append(x)
    for fn, l in by.items():
        bad = [x for x in l if x.status != "proved"]
        print("%-45s %3d/%3d  %.1fs max" % (fn, len(l) - len(bad), len(l), max(x.time for x in l)))
        for x in bad:
            print("     FAILED", x.expl, x.loc, x.file)
        if "--slow" in sys.argv:
            for x in l:
                if x.time > 4 and x.status == "proved":
                    print("     slow %.1f %s %s %s" % (x.time, x.expl, x.loc, x.solver))
    print("total %.1fs" % (time.time() - t0))


main()
