"""The registered checks: python3 check.py <property> <quick|thorough>."""
import importlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import harness, prove
from .cxxast import load_ast, ExtractionError
from .gen import Gen
from .checks import CHECKS, TRUSTED

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = harness.REPO


def known(pid):
    """Entries of the known-findings file that suppress a violation (fixed entries suppress nothing)."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3).strip()))
    return res


class Proof:
    def __init__(self):
        self.goals, self.unsupported, self.failed, self.functions, self.inlined = [], [], [], [], set()
        self.frames, self.probes = [], []
        self.rejected = []


def prove_all(cfg, work, tier, deadline):
    pr = Proof()
    all_goals, parts = [], []
    for un, (modname, pat) in enumerate(cfg.get("units", [])):
        mod = importlib.import_module("specs." + modname)
        fns = [q for q in mod.contracts if re.fullmatch(pat, q) and not mod.contracts[q].noproof]
        try:
            ast = load_ast(mod.ENTRY, REPO)
        except ExtractionError as e:
            pr.unsupported += [(q, str(e)[-600:]) for q in fns]
            continue
        g = Gen(ast, mod.unit)
        try:
            ut = g.unit_module()
        except ExtractionError as e:
            pr.unsupported += [(q, "memory model: " + str(e)) for q in fns]
            continue
        mods, probes = [], []
        for q in fns:
            try:
                r = g.function(q)
            except ExtractionError as e:
                pr.unsupported.append((q, str(e)))
                continue
            except Exception as e:  # the translator met something it was not written for
                pr.unsupported.append((q, "translator: %s: %s" % (type(e).__name__, e)))
                continue
            pr.inlined |= set(r["inlined"])
            if r["frame"]:
                pr.frames.append((q, r["frame"]))
            mods.append((q, r["text"]))
            probes.append((q, r["probe"]))
        for kind, ms, lem in (("u", mods, True), ("p", [p for p in probes if p[1]], False)):
            wk = os.path.join(work, "%s%d" % (kind, un))
            os.makedirs(wk)
            parts.append((kind, ms, wk, ut, lem))
    with ThreadPoolExecutor(max(1, len(parts))) as ex:
        for (kind, ms, wk, ut, lem), (goals, errs) in zip(parts, ex.map(lambda p: prove.split(p[1], p[2], p[3], lemmas=p[4]), parts)):
            if kind == "p":
                pr.probes += goals
                continue
            for n, e in errs:
                # a text that Why3 rejects is not an obligation that failed
                pr.unsupported.append((n, "rejected by Why3: " + e[-800:]))
            bad = set(n for n, e in errs)
            pr.functions += [q for q, _ in ms if q not in bad]
            all_goals += goals
    pr.goals = all_goals
    prove.discharge(all_goals, deadline=deadline)
    pr.failed = [x for x in all_goals if x.status != "proved"]
    # a precondition from which everything follows would make the proofs worthless
    prove.discharge(pr.probes, schedule=((0, 1), (1, 1)) if tier == "quick" else ((0, 5), (1, 5), (2, 5)))
    return pr


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[pid]
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay_dir = os.path.join(VERIF, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    replay = os.path.join(replay_dir, pid + ".txt")
    if os.path.exists(replay):
        os.unlink(replay)
    try:
        return body(pid, tier, seed, cfg, work, replay, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def body(pid, tier, seed, cfg, work, replay, t0):
    hb = cfg.get("budget", 10) if tier == "quick" else cfg.get("budget_thorough", 180)
    hres = {"exe": None, "err": None, "failed": None, "info": {}}
    hout = os.path.join(work, "case.txt")
    jobs = cfg.get("instances", 1)

    def hthread():
        try:
            hres["exe"] = harness.build(cfg["harness"], work, cfg.get("lib", False), cfg.get("asan", False), only=cfg.get("only"), flags=cfg.get("flags", ()))
        except harness.BuildError as e:
            hres["err"] = str(e)
            return
        runs = []

        def one(i):
            f, info = harness.run(hres["exe"], seed + 1000 * i, hb, hout + (str(i) if i else ""), tier, asan=cfg.get("asan", False))
            runs.append((i, f, info))
        ths = [threading.Thread(target=one, args=(i,)) for i in range(jobs)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        info = {"evaluations": 0, "distinct": 0, "samples": []}
        for i, f, inf in sorted(runs):
            if f and not hres["failed"]:
                hres["failed"] = f
                if i:
                    shutil.copy(hout + str(i), hout)
            info["evaluations"] += inf.get("evaluations", 0)
            info["distinct"] += inf.get("distinct", 0)
            info["samples"] += inf.get("samples", [])
        info["samples"] = info["samples"][:6]
        hres["info"] = info

    th = threading.Thread(target=hthread)
    th.start()
    deadline = t0 + (560 if tier == "quick" else 700)
    pr = prove_all(cfg, work, tier, deadline)
    th.join()
    kn = known(pid)
    # ------------------------------------------------------------------ verdict
    violation, nofail = None, False
    probe_bad = [g for g in pr.probes if g.status == "proved"]
    unsup = pr.unsupported
    if hres["failed"]:
        violation = open(hout, errors="replace").read() if os.path.exists(hout) else hres["failed"]
        sup = [k for k in kn if ("key=" + k[0]) in violation]
        if sup:
            violation = None
    search = None
    if not violation and (pr.failed or pr.frames):
        # look for a concrete input that shows the violation
        if hres["exe"]:
            left = max(20, min(90 if tier == "quick" else 240, t0 + 760 - time.time()))
            found = []

            def more(i):
                o = os.path.join(work, "search%d.txt" % i)
                f, inf = harness.run(hres["exe"], seed + 77777 + i, left, o, "thorough", asan=cfg.get("asan", False))
                if f:
                    found.append(o)
            ths = [threading.Thread(target=more, args=(i,)) for i in range(6)]
            [t.start() for t in ths]
            [t.join() for t in ths]
            search = "%d processes of %d s" % (6, left)
            if found:
                violation = open(found[0], errors="replace").read()
        if not violation:
            nofail = True
    lines = []
    if violation or nofail:
        with open(replay, "w") as f:
            f.write("property %s, tier %s, seed %d\n\n" % (pid, tier, seed))
            if violation:
                f.write("failing input (run by harness/%s on the code in %s):\n%s\n\n" % (cfg["harness"], REPO, violation))
            for q, w in pr.frames:
                f.write("failed obligation: frame of %s: it writes %s, which its contract does not list\n" % (q, w))
            for g in pr.failed:
                f.write("failed obligation: %s, in the verification of %s (%s)\n%s\n" % (g.expl, g.fn, g.loc, g.out))
            for g in pr.failed[:3]:
                try:
                    f.write("\n--- goal of the obligation \"%s\" of %s, as given to the solver (last part)\n%s\n" % (
                        g.expl, g.fn, open(g.file).read()[-4000:]))
                except OSError:
                    pass
            if nofail:
                f.write("\nno failing input was found (search: %s)\n" % search)
    # ------------------------------------------------------------------ evidence
    by = {}
    for g in pr.goals:
        if g.status == "proved":
            by.setdefault(g.solver, [0, 0.0])
            by[g.solver][0] += 1
            by[g.solver][1] += g.time
    n = len(pr.goals)
    ok = sum(1 for g in pr.goals if g.status == "proved")
    info = hres["info"]
    cov = {}
    if pr.goals or cfg.get("units"):
        cov.update({
            "obligations": n, "discharged": ok,
            "checker_cmd": "why3 prove -a split_vc (goals generated from /repo by vt/), raced over z3 4.8.12, cvc5 1.1.2, z3-new",
            "trusted_base": TRUSTED + cfg.get("trusted", []),
            "functions_under_contract": sorted(pr.functions),
            "functions_inlined": sorted(pr.inlined),
            "discharged_by": {k: {"obligations": v[0], "seconds": round(v[1], 1)} for k, v in sorted(by.items())},
            "solver_seconds": round(sum(g.time for g in pr.goals), 1),
            "failed_obligations": ["%s: %s" % (g.fn, g.expl) for g in pr.failed][:50],
            "not_translated": ["%s: %s" % u for u in unsup],
            "vacuity_probes": {"run": len(pr.probes), "contradictory": [g.fn for g in probe_bad]},
        })
    cov["evaluations"] = info.get("evaluations", 0)
    cov["distinct_nontrivial"] = info.get("distinct", 0)
    cov["rule"] = cfg.get("rule", "")
    cov["samples"] = info.get("samples", [])
    cov["bounded"] = cfg.get("bounded", "")
    if hres["err"]:
        cov["harness_not_built"] = hres["err"][-500:]
    expl = cfg.get("explanation", "")
    cov["explanation"] = expl
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
          "violations": 1 if (violation or nofail) else 0}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, what in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s %s: %d/%d obligations in %d functions, %d not translated, %d concrete cases, %.0f s" % (
        pid, tier, ok, n, len(pr.functions), len(unsup), cov["evaluations"], time.time() - t0))
    for q, why in unsup:
        print("  bounded only: %s (%s)" % (q, why.strip().split("\n")[-1][:200]))
    for g in pr.failed[:10]:
        print("  obligation not discharged: %s of %s" % (g.expl, g.fn))
    if hres["err"]:
        print("  harness not built: " + hres["err"].strip()[-600:])
    if probe_bad:
        print("  contradictory precondition: " + ", ".join(sorted(set(g.fn for g in probe_bad))))
    if violation:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if nofail:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
        return 1
    return 0


def entry():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    try:
        rc = main(pid, tier)
    except Exception as e:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
