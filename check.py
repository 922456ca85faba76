#!/usr/bin/env python3
"""Deterministic simulation checks of mim_solvers.

  check.py setup                     build the simulator
  check.py check C05                 run the check of one property (VERIF_SEED, VERIF_TIER)
  check.py thorough C05              the same, searching for about twelve minutes
  check.py replay C05 FILE           replay one plan; exit 1 if it violates the property
  check.py determinism [N]           run N seeds of every property several times and compare
"""
import collections
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
P = "/opt/mim-venv/lib/python3.12/site-packages/cmeel.prefix"
BUILD = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
os.environ["LD_LIBRARY_PATH"] = P + "/lib"
NPROC = int(os.environ.get("SIM_JOBS", "8"))
MT_THREADS = 4

DEFS = ["-DBOOST_MPL_LIMIT_LIST_SIZE=30", "-DBOOST_MPL_LIMIT_VECTOR_SIZE=30",
        "-DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL", "-DMIM_SOLVERS_WITH_PROXQP",
        "-DPINOCCHIO_ENABLE_COMPATIBILITY_WITH_VERSION_2",
        "-DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION"]
BASE = ["-std=gnu++17", "-DNDEBUG", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fno-builtin-malloc",
        "-include", V + "/sim/prefix.hpp", "-I" + REPO + "/include", "-isystem", P + "/include",
        "-isystem", P + "/include/eigen3", "-I" + V + "/sim"] + DEFS
SOLVER = ["csqp", "sqp", "ddp", "fddp", "csqp_proxqp", "utils/callbacks"]
SIM = ["rt", "model", "plan", "gen", "exec", "ref", "mon", "main"]


def flavours():
    fl = {"st": {"flags": [], "solver": ["-fsanitize-coverage=trace-pc", "-w"], "sim": SIM}}
    if os.path.exists(V + "/sim/sched.cpp"):
        mt = ["-DCROCODDYL_WITH_MULTITHREADING", "-DCROCODDYL_WITH_NTHREADS=%d" % MT_THREADS,
              "-fopenmp", "-DSIM_MT"]
        fl["mt"] = {"flags": mt,
                    "solver": ["-fsanitize-coverage=trace-pc", "-fsanitize=thread", "-w"],
                    "sim": SIM + ["sched"],
                    "link": ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]}
    return fl


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


def read(f):
    with open(f, "rb") as fh:
        return fh.read()


def tree_hash(globs):
    fs = sorted(f for g in globs for f in glob.glob(g, recursive=True) if os.path.isfile(f))
    return sha(*[x for f in fs for x in (os.path.relpath(f, "/"), read(f))])


def extra_sources():
    """Solver sources of the library beyond the known ones (a file may be split or added)."""
    known = {REPO + "/src/" + s + ".cpp" for s in SOLVER} | {REPO + "/src/kkt.cpp"}
    cm = read(REPO + "/CMakeLists.txt").decode(errors="replace")
    out = []
    for f in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        if f not in known and "/bindings/" not in f and os.path.relpath(f, REPO) in cm:
            out.append(os.path.relpath(f, REPO + "/src")[:-4])
    return out


def build(flavour="st", quiet=True):
    """Compiles the solvers of /repo's working tree with the simulator; returns the binary."""
    fl = flavours()[flavour]
    os.makedirs(BUILD, exist_ok=True)
    repo_h = tree_hash([REPO + "/include/**/*"])
    sim_h = tree_hash([V + "/sim/*.hpp"])
    jobs = []
    for s in SOLVER + extra_sources():
        src = "%s/src/%s.cpp" % (REPO, s)
        if not os.path.exists(src):
            continue
        flags = BASE + fl["flags"] + fl["solver"]
        jobs.append((src, flags, sha(repo_h, sim_h, read(src), " ".join(flags), s)))
    for s in fl["sim"]:
        src = "%s/sim/%s.cpp" % (V, s)
        flags = BASE + fl["flags"] + ["-Wall"]
        key = [sim_h, read(src), " ".join(flags), s]
        if s in ("exec", "mon", "main"):
            key.append(repo_h)
        jobs.append((src, flags, sha(*key)))
    slow = {"ref.cpp": 0, "csqp_proxqp.cpp": 1, "model.cpp": 2, "exec.cpp": 3}
    jobs.sort(key=lambda j: slow.get(os.path.basename(j[0]), 9))
    objs = []

    def cc(job):
        src, flags, h = job
        o = "%s/%s-%s-%s.o" % (BUILD, flavour, os.path.basename(src)[:-4], h)
        if not os.path.exists(o):
            tmp = "%s.%d.tmp" % (o, os.getpid())
            r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return o, r.stdout
            os.rename(tmp, o)
        return o, ""

    with cf.ThreadPoolExecutor(NPROC) as ex:
        for o, err in ex.map(cc, jobs):
            if err:
                sys.stderr.write(err[-6000:])
                raise SystemExit(3)
            objs.append(o)
    # the linker keeps the first copy of an inline function: the instrumented one
    objs.sort(key=lambda o: os.path.basename(o).split("-")[1] in SIM)
    exe = "%s/sim-%s-%s" % (BUILD, flavour, sha(*objs))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", "-rdynamic", "-o", tmp] + fl.get("link", []) + objs + ["-L" + P + "/lib", "-lcrocoddyl",
                            "-Wl,--disable-new-dtags", "-Wl,-rpath," + P + "/lib", "-Wl,-rpath-link," + P + "/lib"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:])
            raise SystemExit(3)
        os.rename(tmp, exe)
    return exe


# ------------------------------------------------------------------ results
class Run:
    def __init__(self, seed=None):
        self.seed = seed
        self.viol, self.fired, self.probe = [], {}, {}
        self.inter = []
        self.hash = self.sig = ""
        self.edges = 0
        self.sim_ns = self.runs = self.solves = self.evals = 0
        self.fatal = None
        self.lost = False


def parse(lines, seed=None):
    r = Run(seed)
    ended = False
    for ln in lines:
        f = ln.rstrip("\n").split("\t")
        if f[0] == "V":
            r.viol.append((f[1], f[2]))
        elif f[0] == "F":
            r.fired[f[1]] = r.fired.get(f[1], 0) + int(f[2])
        elif f[0] == "P":
            r.probe[f[1]] = r.probe.get(f[1], 0) + int(f[2])
        elif f[0] == "H":
            r.hash = f[1]
        elif f[0] == "S":
            r.sig, r.edges = f[1], int(f[2])
        elif f[0] == "I":
            r.inter.append(f[1])
        elif f[0] == "T":
            r.sim_ns, r.runs, r.solves, r.evals = map(int, f[1:5])
        elif f[0].startswith("FATAL "):
            k = f[0].split(" ", 2)
            r.fatal = (k[1], k[2] if len(k) > 2 else "")
        elif f[0] == "END":
            ended = True
        elif f[0] == "LOST":
            r.lost = True
    if not ended and not r.fatal:
        r.lost = True
    return r


def fatal_class(prop, r):
    """The violation class of a run that did not end normally, or None."""
    if not r.fatal:
        return None
    kind = r.fatal[0]
    if kind in ("cpu", "harness", "thirdparty"):
        return None
    if kind == "hang" and prop != "C09":
        return None
    return "%s.%s" % (prop, kind)


def verdicts(prop, r):
    v = [(c, m) for c, m in r.viol]
    fc = fatal_class(prop, r)
    if fc:
        v.append((fc, "%s: %s" % r.fatal))
    return v


def run_plan(exe, prop, text, tag="x"):
    d = os.path.join(BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    f = "%s/%s-%d-%s.plan" % (d, prop, os.getpid(), tag)
    with open(f, "w") as fh:
        fh.write(text)
    try:
        o = subprocess.run([exe, "run", "--prop", prop, "--plan", f], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=300)
        r = parse(o.stdout.splitlines())
        r.rc = o.returncode
        return r
    except subprocess.TimeoutExpired:
        r = Run()
        r.lost = True
        return r
    finally:
        os.unlink(f)


def gen(exe, prop, seed, deep):
    return subprocess.run([exe, "gen", "--prop", prop, "--seed", str(seed)] +
                          (["--deep"] if deep else []), stdout=subprocess.PIPE, text=True,
                          check=True).stdout


def batch(exe, prop, seed, start, count, stride, tlimit, deep, sink):
    cmd = [exe, "batch", "--prop", prop, "--seed", str(seed), "--from", str(start), "--count",
           str(count), "--stride", str(stride), "--time", str(tlimit)]
    if deep:
        cmd.append("--deep")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                         errors="replace")
    cur, cs, done = [], None, False
    for ln in p.stdout:
        if ln.startswith("RUN\t"):
            if cs is not None:
                sink(parse(cur, cs))
            cur, cs = [], int(ln.split("\t")[1])
        elif ln.startswith("DONE"):
            if cs is not None:
                sink(parse(cur, cs))
            done = True
        else:
            cur.append(ln)
    return p.wait() == 0 and done


# ------------------------------------------------------------------ minimise
def minimise(exe, prop, text, cls, budget_s=90):
    """Drops lines, then fields, while the same violation class persists."""
    t0 = time.time()

    def bad(lines):
        if time.time() - t0 > budget_s:
            return False
        r = run_plan(exe, prop, "\n".join(lines) + "\n", "min")
        return any(c == cls for c, _ in verdicts(prop, r))

    lines = [l for l in text.splitlines() if l and not l.startswith("#")]
    n = 2
    while len(lines) >= 2 and time.time() - t0 < budget_s:
        step = max(1, len(lines) // n)
        done = False
        for i in range(0, len(lines), step):
            c = lines[:i] + lines[i + step:]
            if c and bad(c):
                lines, done = c, True
                n = max(2, n - 1)
                break
        if not done:
            if step == 1:
                break
            n = min(len(lines), n * 2)
    # fields
    keep = {"id", "n", "op", "s", "kind", "at", "verb", "prob", "k", "do", "p"}
    for i in range(len(lines)):
        for kv in lines[i].split()[1:]:
            k = kv.split("=")[0]
            if k in keep and not (k == "n" and lines[i].startswith("problem")):
                continue
            c = list(lines)
            c[i] = " ".join(w for w in lines[i].split() if w != kv)
            if bad(c):
                lines = c
    # smaller numbers
    small = {"T": [1, 2, 3], "n": [1], "nu": [1], "maxiter": [1, 2, 3], "len": [1], "nth": [1, 2, 3]}
    for i in range(len(lines)):
        for kv in lines[i].split()[1:]:
            k, _, v = kv.partition("=")
            if k not in small or (k == "n" and not lines[i].startswith("problem")):
                continue
            for s in small[k]:
                if not v.isdigit() or s >= int(v):
                    break
                c = list(lines)
                c[i] = lines[i].replace(" %s" % kv, " %s=%d" % (k, s), 1)
                if bad(c):
                    lines = c
                    break
    return "\n".join(lines) + "\n"


# ------------------------------------------------------------------ findings
def known(prop):
    """KNOWN-FINDING entries: {property, class, match (regex on the plan), what}."""
    out = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r"KNOWN-FINDING: property=(\S+) class=(\S+) plan=/(.*?)/ message=/(.*?)/ (.*)$",
                         ln.strip())
            if m and m.group(1) == prop:
                out.append({"class": m.group(2), "plan": m.group(3), "msg": m.group(4),
                            "what": m.group(5)})
    return out


def is_known(kf, cls, msg, plan):
    for k in kf:
        if k["class"] == cls and re.search(k["plan"], plan, re.S) and re.search(k["msg"], msg):
            return k
    return None


PROPS = json.load(open(os.path.join(V, "props.json")))


def check(prop, deep):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if deep else "quick"
    spec = PROPS[prop]
    parts = spec["parts"]
    tot = collections.Counter()
    fired, probe = collections.Counter(), collections.Counter()
    inter = set()
    sigs, edges_max, cands, skipped = set(), 0, [], collections.Counter()
    samples, hashes, per_flavour = [], {}, {}
    build_s, explore_s = 0.0, 0.0
    all_done = True
    kf = known(prop)
    kf_hit = collections.Counter()
    exes = {}
    for part in parts:
        fl = part["flavour"]
        tb = time.time()
        exe = build(fl)
        exes[fl] = exe
        build_s += time.time() - tb
        count = part["runs"] * (40 if deep else 1)
        tlimit = part["seconds"] * (700 / sum(q["seconds"] for q in parts) if deep else 1)
        runs = []
        te = time.time()

        def sink(r, runs=runs, fl=fl):
            r.flavour = fl
            runs.append(r)

        corpus = sorted(glob.glob("%s/corpus/%s/*.plan" % (V, prop)))
        for c in corpus:
            text = open(c).read()
            m = re.search(r"^# flavour (\w+)", text, re.M)
            if (m.group(1) if m else "st") != fl:
                continue
            r = run_plan(exe, prop, text, "corpus")
            r.flavour, r.seed, r.text = fl, "corpus/" + os.path.basename(c), text
            runs.append(r)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            fs = [ex.submit(batch, exe, prop, seed, w, (count + NPROC - 1 - w) // NPROC, NPROC,
                            tlimit, deep, sink) for w in range(NPROC)]
            for f in fs:
                all_done = f.result() and all_done
        explore_s += time.time() - te
        runs.sort(key=lambda r: str(r.seed))
        for r in runs:
            tot["plans"] += 1
            tot["executions"] += r.runs
            tot["solves"] += r.solves
            tot["evals"] += r.evals
            tot["sim_ns"] += r.sim_ns
            fired.update(r.fired)
            probe.update(r.probe)
            edges_max = max(edges_max, r.edges)
            inter.update(r.inter)
            if r.lost:
                skipped["lost"] += 1
                cands.append((r, prop + ".lost", "the run ended without a result"))
                continue
            if r.fatal and fatal_class(prop, r) is None:
                skipped[r.fatal[0]] += 1
            if any(r.probe.get(k, 0) for k in spec["key_probes"]):
                tot["nontrivial"] += 1
                sigs.add((fl, r.sig))
            for c, m in verdicts(prop, r):
                cands.append((r, c, m))
            hashes[(fl, r.seed)] = r.hash
        per_flavour[fl] = len(runs)
        for r in runs:
            if len(samples) < 4 and isinstance(r.seed, int) and any(r.probe.get(k, 0) for k in spec["key_probes"]):
                samples.append({"seed": r.seed, "flavour": fl, "trace_hash": r.hash,
                                "plan": gen(exe, prop, r.seed, deep).splitlines(),
                                "faults_fired": r.fired, "probes": r.probe})
        # determinism: the same seeds again, in fresh processes
        again = [r for r in runs if isinstance(r.seed, int) and not r.lost][:: max(1, len(runs) // 24)][:24]

        def redo(r):
            q = run_plan(exe, prop, gen(exe, prop, r.seed, deep), "det%d" % r.seed)
            return r, q

        with cf.ThreadPoolExecutor(NPROC) as ex:
            for r, q in ex.map(redo, again):
                tot["determinism_pairs"] += 1
                if q.hash != r.hash or q.fatal != r.fatal:
                    print("NONDETERMINISM property=%s seed=%d %s/%s" % (prop, r.seed, r.hash, q.hash))
                    tot["determinism_diffs"] += 1
    # ---------------------------------------------------------- judgement
    reported, classes, errors = [], {}, []
    for r, c, m in cands:
        exe = exes[r.flavour]
        near = [k for k in kf if k["class"] == c]
        if near:
            k = is_known(near, c, m, getattr(r, "text", None) or gen(exe, prop, r.seed, deep)
                         if any(k["plan"] for k in near) else "")
            if k:
                kf_hit[k["what"]] += 1
                continue
        classes.setdefault(c, []).append((r, m, exe))
    for c, lst in sorted(classes.items()):
        ok = False
        for r, m, exe in lst[:6]:
            text = getattr(r, "text", None) or gen(exe, prop, r.seed, deep)
            # gate: the same plan in fresh processes must fail the same way
            a, b = run_plan(exe, prop, text, "gate"), run_plan(exe, prop, text, "gate")
            ca, cb = [x for x, _ in verdicts(prop, a)], [x for x, _ in verdicts(prop, b)]
            if c in ca and c in cb and a.hash == b.hash:
                ok = True
                break
        if not ok:
            errors.append((c, lst[0][0].seed, lst[0][1]))
            continue
        if len(reported) >= 3:
            reported.append((c, None, m, len(lst)))
            continue
        small = minimise(exe, prop, text, c, 60 if not reported else 20)
        q = run_plan(exe, prop, small, "final")
        if c not in [x for x, _ in verdicts(prop, q)]:
            small = text
            q = a
        msg = [y for x, y in verdicts(prop, q) if x == c][0]
        os.makedirs(V + "/replays", exist_ok=True)
        path = "replays/%s-%s.plan" % (prop, re.sub(r"[^A-Za-z0-9-]", "_", c.split(".", 1)[1]))
        with open(os.path.join(V, path), "w") as fh:
            fh.write("# property %s\n# class %s\n# %s\n# seed %s\n# flavour %s\n# trace %s\n%s" %
                     (prop, c, msg, r.seed, r.flavour, q.hash, small))
        q2 = run_plan(exe, prop, open(os.path.join(V, path)).read(), "replay")
        if q2.hash != q.hash or c not in [x for x, _ in verdicts(prop, q2)]:
            errors.append((c, r.seed, "replay of the minimised plan does not reproduce"))
            continue
        reported.append((c, path, msg, len(lst)))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["plans"],
            "distinct_nontrivial": len(sigs),
            "rule": "one evaluation = one generated plan (problem, solver settings, operations, "
                    "faults, clock and memory environment), executed in every variant the property "
                    "compares. Non-trivial: the oracle of the property was actually consulted (" +
                    ", ".join(spec["key_probes"]) + "). Distinct: different signature of the "
                    "sequence of first-visited control-flow edges of the solver code.",
            "samples": samples,
            "simulated_executions": tot["executions"],
            "solves": tot["solves"],
            "model_evaluations": tot["evals"],
            "nontrivial": tot["nontrivial"],
            **({"distinct_interleavings": len(inter),
                "interleaving_measure": "hash of the sequence (thread chosen, point of the switch) "
                "of one multithreaded execution"} if inter else {}),
            "plans_per_flavour": per_flavour,
            "plans_per_hour": round(3600 * tot["plans"] / max(explore_s, 1e-9)),
            "executions_per_hour": round(3600 * tot["executions"] / max(explore_s, 1e-9)),
            "simulated_seconds": tot["sim_ns"] * 1e-9,
            "faults_fired": dict(sorted(fired.items())),
            "probes": dict(sorted(probe.items())),
            "max_edges_in_one_run": edges_max,
            "determinism_pairs": tot["determinism_pairs"],
            "determinism_differences": tot["determinism_diffs"],
            "discarded_runs": dict(skipped),
            "build_seconds": round(build_s, 1),
            "explore_seconds": round(explore_s, 1),
            "components_real": ["src/csqp.cpp", "src/sqp.cpp", "src/csqp_proxqp.cpp", "src/ddp.cpp",
                                "src/fddp.cpp", "src/utils/callbacks.cpp", "crocoddyl", "proxsuite",
                                "Eigen"],
            "components_stubbed": ["action models and state (simulated, with fault points)",
                                   "clock_gettime", "malloc/free", "std::cout buffer"] +
                                  (["libgomp and threads (coroutines under a seeded scheduler)"]
                                   if "mt" in per_flavour else []),
            "known_findings_hit": dict(kf_hit),
        },
        "assumptions": spec.get("assumptions", []) + [
            "the solvers are compiled with -O1, assertions and a coverage callback, not with the "
            "repository's release flags",
            "model evaluations are pure functions of a seed apart from injected faults"],
        "wall_s": round(wall, 1),
        "violations": len(reported),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (V, prop), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d plans, %d executions, %d solves, %d distinct, %.0f s build, %.0f s search" %
          (prop, tot["plans"], tot["executions"], tot["solves"], len(sigs), build_s, explore_s))
    print("faults fired: " + ", ".join("%s %d" % kv for kv in sorted(fired.items())))
    print("probes: " + ", ".join("%s %d" % kv for kv in sorted(probe.items())))
    if skipped:
        print("discarded: %s" % dict(skipped))
    for c, path, msg, n in reported:
        if path:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  class %s (%d runs): %s" % (c, n, msg))
        else:
            print("  also class %s (%d runs): %s" % (c, n, msg))
    for e in errors:
        print("UNREPRODUCED property=%s class=%s seed=%s %s" % ((prop,) + e))
    if reported:
        return 1
    if errors or tot["determinism_diffs"] or not all_done:
        return 3
    return 0


def python_module():
    """The simulation of the Python module has a harness of its own."""
    sys.path[:0] = [V, V + "/pysim"]
    import pycheck
    return pycheck


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if len(a) > 1 and a[1] == "C22" and a[0] in ("check", "thorough", "replay"):
        pc = python_module()
        return (pc.replay(a[2]) if a[0] == "replay" else
                pc.check(a[0] == "thorough" or os.environ.get("VERIF_TIER") == "thorough"))
    if a[0] == "setup":
        t = time.time()
        print("python", python_module().build(), "%.0f s" % (time.time() - t))
        for f in flavours():
            t = time.time()
            print(f, build(f), "%.0f s" % (time.time() - t))
        return 0
    if a[0] == "build":
        print(build(a[1] if len(a) > 1 else "st"))
        return 0
    if a[0] in ("check", "thorough"):
        return check(a[1], a[0] == "thorough" or os.environ.get("VERIF_TIER") == "thorough")
    if a[0] == "replay":
        text = open(a[2]).read()
        m = re.search(r"^# flavour (\w+)", text, re.M)
        r = run_plan(build(m.group(1) if m else "st"), a[1], text, "replay")
        for c, msg in verdicts(a[1], r):
            print("VIOLATION property=%s class=%s %s" % (a[1], c, msg))
        print("trace %s fired %s probes %s fatal %s" % (r.hash, r.fired, r.probe, r.fatal))
        return 1 if verdicts(a[1], r) else 0
    if a[0] == "min":
        text = open(a[2]).read()
        print(minimise(build("st"), a[1], text, a[3]))
        return 0
    if a[0] == "determinism":
        n = int(a[1]) if len(a) > 1 else 40
        bad = tot = 0
        for prop in PROPS:
            for part in PROPS[prop].get("parts", []):
                exe = build(part["flavour"])
                res = [{}, {}, {}]
                for k, jobs in enumerate((8, 3, 1)):
                    def sink(r, k=k):
                        res[k][r.seed] = (r.hash, r.sig, tuple(r.viol))
                    with cf.ThreadPoolExecutor(jobs) as ex:
                        list(ex.map(lambda w: batch(exe, prop, 4242, w, (n + jobs - 1 - w) // jobs,
                                                    jobs, 1e6, False, sink), range(jobs)))
                d = [s for s in res[0] if not (res[0][s] == res[1].get(s) == res[2].get(s))]
                tot += len(res[0])
                bad += len(d)
                print(prop, part["flavour"], len(res[0]), "seeds,", len(d), "differ", d[:3])
        print("determinism: %d seeds, %d differ" % (tot, bad))
        return 1 if bad else 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
