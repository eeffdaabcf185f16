"""Runs Why3 and races the SMT solvers over the obligations."""
import os, re, shutil, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
DRV = "/usr/share/why3/drivers"
SOLVERS = [
    ("z3-4.8.12", lambda f, t: ["/usr/bin/z3", "-smt2", "-T:%d" % t, "smt.random_seed=42", f]),
    ("cvc5-1.1.2", lambda f, t: ["/usr/bin/cvc5", "-q", "--tlimit=%d" % (t * 1000), f]),
    ("z3-new", lambda f, t: ["/usr/local/bin/z3-new", "-smt2", "-T:%d" % t, "smt.random_seed=7", f]),
]
# the "prover" of Why3 only keeps the text of each obligation, in order; the solvers are run on these texts
CONF = """[main]
magic = 14
memlimit = 4000
running_provers_max = 1
timelimit = 5.0

[prover]
name = "Keep"
version = "1"
alternative = ""
command = "/bin/bash %s/keep.sh %%f"
driver = "z3_487"
in_place = false
interactive = false
shortcut = "keep"
"""
KEEP = """n=$(cat %(d)s/count)
cp "$1" %(d)s/goals/$n.smt2
echo $((n + 1)) > %(d)s/count
"""


class Goal:
    def __init__(self, fn, expl, loc, files):
        self.fn, self.expl, self.loc, self.file = fn, expl, loc, files
        self.status, self.solver, self.time, self.out = None, None, 0.0, ""


SLOTS = threading.Semaphore(8)


def split(modules, work, unit_text="", transf="split_vc", lemmas=True, jobs=8):
    """modules: list of (function name, text). Returns the list of goals and the list of (function, message) that Why3 rejects."""
    lib = os.path.join(work, "lib")
    os.makedirs(lib, exist_ok=True)
    shutil.copy(os.path.join(HERE, "prelude.mlw"), os.path.join(lib, "prelude.mlw"))
    with open(os.path.join(lib, "unit.mlw"), "w") as f:
        f.write(unit_text)
    modules = ([("(lemmas)", unit_text)] if lemmas else []) + list(modules)

    def one(a):
        i, (name, text) = a
        d = os.path.join(work, "f%d" % i)
        os.makedirs(os.path.join(d, "goals"), exist_ok=True)
        src = os.path.join(d, "m.mlw")
        for n, t in (("m.mlw", text), ("why3.conf", CONF % d), ("keep.sh", KEEP % {"d": d}), ("count", "0\n")):
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        with SLOTS:
            r = subprocess.run(["why3", "-C", os.path.join(d, "why3.conf"), "prove", "-L", lib, "-a", transf, "-a", "split_goal_right", "-P", "keep", src],
                               capture_output=True, text=True)
        heads = []
        for blk in re.split(r'(?m)^(?=File )', r.stdout):
            m0 = re.match(r'File (?:"[^"]*"|\S+?)(?:,\s*line\s+(\d+),\s*characters?\s*([^:]*?))?:\s*'
                          r'(?:Sub-goal(.*?)\bof\s+goal|Goal)\s+(\S+?)\.\s+Prover', blk, re.S)
            if m0:
                heads.append((m0.group(1), " ".join((m0.group(3) or "").split()), m0.group(4)))
        if r.returncode not in (0, 2) or "rror" in r.stderr:
            return name, None, (r.stderr + r.stdout)[-4000:]
        kept = len(os.listdir(os.path.join(d, "goals")))
        if kept != len(heads):
            return name, None, "%d goals listed, %d written" % (len(heads), kept)
        return name, [Goal(name, (expl or g).strip(), "m.mlw:%s" % line, os.path.join(d, "goals", "%d.smt2" % n)) for n, (line, expl, g) in enumerate(heads)], None

    res, errs = [], []
    with ThreadPoolExecutor(jobs) as ex:
        for name, goals, err in ex.map(one, sorted(enumerate(modules), key=lambda m: -len(m[1][1]))):
            if goals is None:
                errs.append((name, err))
            else:
                res += goals
    return res, errs


def run_solver(cmd, timeout, mem=6000):
    t0 = time.time()
    p = subprocess.Popen(["/bin/bash", "-c", "ulimit -v %d; exec \"$@\"" % (mem * 1024), "x"] + cmd, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True)
    try:
        out, _ = p.communicate(timeout=timeout + 5)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
    return out, time.time() - t0


DEFAULT = ((0, 2), (1, 3), (2, 2), (0, 15), (1, 15), (2, 15), (0, 60), (1, 60), (2, 60))


def discharge(goals, schedule=DEFAULT, jobs=8, deadline=None):
    def one(g):
        t0 = time.time()
        for s, t in schedule:
            if deadline and time.time() > deadline:
                g.status = g.status or "timeout"
                break
            name, cmd = SOLVERS[s]
            out, dt = run_solver(cmd(g.file, t), t)
            first = out.strip().split("\n")[0] if out.strip() else ""
            g.out += "%s (%ds): %s\n" % (name, t, first)
            if first == "unsat":
                g.status, g.solver = "proved", name
                break
            g.status = "failed"
        g.time = time.time() - t0
        return g
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, goals))
    return goals
