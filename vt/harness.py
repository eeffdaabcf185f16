"""Builds the concrete harnesses from /repo's working tree and runs them."""
import json, os, subprocess, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ["-std=c++20", "-include", "cstdint", "-I" + REPO + "/src", "-I" + VERIF + "/harness", "-D_GLIBCXX_ASSERTIONS", "-w"]


class BuildError(Exception):
    pass


def build(src, work, lib=False, asan=False, opt="-O1", only=None, flags=()):
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-g"] if asan else []
    jobs = [os.path.join(VERIF, "harness", src)]
    if lib:
        allsrc = sorted(glob.glob(REPO + "/src/log_surgeon/*.cpp") + glob.glob(REPO + "/src/log_surgeon/finite_automata/*.cpp"))
        if only is not None:
            allsrc = [s for s in allsrc if os.path.basename(s) in only]
        jobs += allsrc
    objs = []

    def one(s):
        o = os.path.join(work, s.replace("/", "_") + ".o")
        r = subprocess.run(["g++"] + FLAGS + list(flags if s == jobs[0] else ()) + [opt] + san + ["-c", s, "-o", o], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError(r.stderr[-3000:])
        return o

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, jobs))
    exe = os.path.join(work, "harness_" + src.split(".")[0])
    r = subprocess.run(["g++"] + san + objs + ["-lfmt", "-lpthread", "-o", exe], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(r.stderr[-3000:])
    return exe


def run(exe, seed, budget, out, tier, mem_gb=4, asan=False):
    """Returns (failed, info). failed: text of the observation or None."""
    if os.path.exists(out):
        os.unlink(out)
    cwd = out + ".d"
    os.makedirs(cwd, exist_ok=True)
    lim = "" if asan else "ulimit -v %d; " % (mem_gb * 1024 * 1024)
    env = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:allocator_may_return_null=1",
               UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=0")
    try:
        r = subprocess.run(["/bin/bash", "-c", lim + 'exec "$@"', "x", exe, str(seed), str(budget), out, tier], capture_output=True, text=True,
                           errors="replace", timeout=budget * 2 + 200, env=env, cwd=cwd)
    except subprocess.TimeoutExpired:
        return "the harness did not finish in time", {}
    if r.returncode == 0:
        try:
            return None, json.loads(r.stdout.strip().split("\n")[-1])
        except Exception:
            return None, {"evaluations": 0, "distinct": 0, "samples": [r.stdout[-200:]]}
    if not os.path.exists(out):
        with open(out, "w") as f:
            f.write("observed: the program under test ended with status %d\n%s\n" % (r.returncode, r.stderr[-3000:]))
    else:
        with open(out, "a") as f:
            f.write("\nstderr of the harness:\n" + r.stderr[-3000:] + "\n")
    return open(out, errors="replace").read()[:500], {}
