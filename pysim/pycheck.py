"""Build, search, minimise and report for the simulation of the Python module (property C22)."""
import collections
import concurrent.futures as cf
import glob
import json
import os
import re
import subprocess
import sys
import threading
import time

import check as C

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/mim-venv"
PYINC = ["-isystem", VENV + "/lib/python3.12/site-packages/numpy/_core/include",
         "-isystem", "/usr/include/python3.12"]
FLAGS = ["-std=gnu++17", "-w", "-fPIC", "-O1", "-DNDEBUG", "-DCOAL_HAS_OCTOMAP", "-DCOAL_HAVE_OCTOMAP",
         "-DPINOCCHIO_WITH_HPP_FCL", "-DPINOCCHIO_WITH_URDFDOM", "-I" + C.REPO + "/include",
         "-isystem", C.P + "/include", "-isystem", C.P + "/include/eigen3"] + PYINC + C.DEFS
PROP = "C22"


def build():
    """The module of /repo's working tree and the oracle; returns the directory to import from."""
    os.makedirs(C.BUILD, exist_ok=True)
    inc = C.tree_hash([C.REPO + "/include/**/*", C.REPO + "/bindings/**/*.hpp"])
    b = C.REPO + "/bindings/"
    cm = C.read(b + "CMakeLists.txt").decode(errors="replace")
    srcs = [f for f in sorted(glob.glob(b + "**/*.cpp", recursive=True)) if os.path.relpath(f, b) in cm]
    srcs += ["%s/src/%s.cpp" % (C.REPO, s) for s in C.SOLVER + C.extra_sources()]
    srcs = [s for s in srcs if os.path.exists(s)] + [HERE + "/oracle.cpp"]
    pys = sorted(glob.glob(C.REPO + "/bindings/mim_solvers/*.py"))
    jobs = [(s, C.sha(inc, C.read(s), s, " ".join(FLAGS))) for s in srcs]
    clk = HERE + "/clock.c"
    key = C.sha(*([h for _, h in jobs] + [C.read(f) for f in pys] + [C.read(clk)]))
    d = "%s/py-%s" % (C.BUILD, key)
    if os.path.exists(d + "/ok"):
        return d

    def run(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:])
            raise SystemExit(3)

    def cc(job):
        src, h = job
        o = "%s/py-%s-%s.o" % (C.BUILD, os.path.basename(src)[:-4], h)
        if not os.path.exists(o):
            tmp = "%s.%d.tmp" % (o, os.getpid())
            run(["g++"] + FLAGS + ["-c", src, "-o", tmp])
            os.rename(tmp, o)
        return o

    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(C.NPROC) as ex:
        objs = list(ex.map(cc, jobs))
    os.makedirs(d + "/mim_solvers", exist_ok=True)
    lib = ["-L" + C.P + "/lib", "-leigenpy", "-lcrocoddyl", "-lboost_python312", "-Wl,-rpath," + C.P + "/lib",
           "-Wl,-rpath-link," + C.P + "/lib"]
    wrap = d + "/mim_solvers/mim_solvers_pywrap.so"
    ora = [o for o, j in zip(objs, jobs) if j[0] == HERE + "/oracle.cpp"]
    run(["g++", "-shared", "-Wl,-soname,mim_solvers_pywrap.so", "-o", wrap] + [o for o in objs if o not in ora] + lib)
    run(["g++", "-shared", "-o", d + "/pysim_oracle.so"] + ora + [wrap, "-Wl,-rpath," + d + "/mim_solvers"] + lib)
    run(["gcc", "-shared", "-fPIC", "-O1", "-o", d + "/simclock.so", clk, "-ldl"])
    for f in pys:
        with open(d + "/mim_solvers/" + os.path.basename(f), "wb") as fh:
            fh.write(C.read(f))
    open(d + "/ok", "w").close()
    return d


def command(d, args):
    env = dict(os.environ, LD_LIBRARY_PATH=C.P + "/lib", PYTHONPATH=d, PYSIM_CLOCK=d + "/simclock.so",
               LD_PRELOAD=d + "/simclock.so", MALLOC_PERTURB_="165", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    env.pop("PYTHONMALLOC", None)
    return subprocess.Popen([VENV + "/bin/python", HERE + "/run.py"] + args, env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)


def lines(p, limit):
    """Lines of a process, which is killed when none comes for `limit` seconds."""
    dead = []

    def kill():
        dead.append(1)
        p.kill()

    while True:
        t = threading.Timer(limit, kill)
        t.start()
        ln = p.stdout.readline()
        t.cancel()
        if not ln:
            break
        yield ln
    p.wait()
    if dead:
        yield "HANG\n"


def crash(rc):
    return {"viol": [PROP + ".crash", "the process ended with %s" % (
        "signal %d" % -rc if rc < 0 else "status %d" % rc)], "hash": "crash%d" % rc, "sig": "", "fired": {},
        "probe": {}, "evals": 0, "solves": 0, "inter": []}


def hang():
    r = crash(0)
    r.update(viol=[PROP + ".hang", "no progress for 90 s"], hash="hang")
    return r


def run_plan(d, plan):
    f = "%s/py-%d-%d.plan" % (C.BUILD, os.getpid(), threading.get_ident())
    with open(f, "w") as fh:
        fh.write(plan if isinstance(plan, str) else json.dumps(plan))
    try:
        p = command(d, ["plan", f])
        for ln in lines(p, 90):
            if ln.startswith("RESULT "):
                return json.loads(ln[7:])
            if ln.startswith("HANG"):
                return hang()
        return crash(p.returncode)
    finally:
        os.unlink(f)


def worker(d, seed, first, stride, count, secs, sink):
    end = time.time() + secs
    i, last = first, first + stride * (count - 1)
    crashes = 0
    while i <= last and time.time() < end and crashes < 20:
        p = command(d, ["batch", str(seed), str(i), str((last - i) // stride + 1), str(stride),
                        str(max(1.0, end - time.time()))])
        cur, done, hung = None, False, False
        for ln in lines(p, 90):
            if ln.startswith("START "):
                cur = int(ln[6:])
            elif ln.startswith("RESULT "):
                sink(cur, json.loads(ln[7:]))
                i = cur + stride
                cur = None
            elif ln.startswith("DONE"):
                done = True
            elif ln.startswith("HANG"):
                hung = True
        if done:
            return True
        crashes += 1
        if cur is None:
            if crashes > 3:
                return False
            continue
        sink(cur, hang() if hung else crash(p.returncode))
        i = cur + stride
    return True


def gen(d, seed, i):
    p = command(d, ["gen", str(seed * 1000003 + i)])
    return json.loads("".join(lines(p, 90)))


def minimise(d, plan, cls, budget):
    t0 = time.time()

    def bad(q):
        if time.time() - t0 > budget:
            return False
        r = run_plan(d, q)
        return r["viol"] is not None and r["viol"][0] == cls

    def shrink(get, put, plan):
        n = 2
        while time.time() - t0 < budget:
            l = get(plan)
            if not l:
                break
            step = max(1, len(l) // n)
            for i in range(0, len(l), step):
                q = put(plan, l[:i] + l[i + step:])
                if bad(q):
                    plan, n = q, max(2, n - 1)
                    break
            else:
                if step == 1:
                    break
                n = min(len(l), n * 2)
        return plan

    def cp(p):
        return json.loads(json.dumps(p))

    def put_ops(p, l):
        q = cp(p)
        q["ops"] = l
        return q

    plan = shrink(lambda p: p["ops"], put_ops, plan)
    for k in range(len(plan["problems"])):
        def put_f(p, l, k=k):
            q = cp(p)
            q["problems"][k]["faults"] = l
            return q
        plan = shrink(lambda p, k=k: p["problems"][k]["faults"], put_f, plan)
        for key, v in (("T", 1), ("n", 1), ("nu", 1), ("ng", 0)):
            q = cp(plan)
            q["problems"][k][key] = v
            if q != plan and bad(q):
                plan = q
    for k, o in enumerate(plan["ops"]):
        if o[0] == "cbs":
            def put_c(p, l, k=k):
                q = cp(p)
                q["ops"][k][2] = l
                return q
            plan = shrink(lambda p, k=k: p["ops"][k][2], put_c, plan)
            for j in range(len(plan["ops"][k][2])):
                for key in list(plan["ops"][k][2][j]):
                    if key in ("k", "form", "p"):
                        continue
                    q = cp(plan)
                    del q["ops"][k][2][j][key]
                    if bad(q):
                        plan = q
    return plan


def text_of(plan):
    """One operation per line."""
    return ('{"problems": [\n' + ",\n".join(json.dumps(p) for p in plan["problems"]) + '],\n"ops": [\n' +
            ",\n".join(json.dumps(o) for o in plan["ops"]) + "]}\n")


def check(deep):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = C.PROPS[PROP]
    d = build()
    build_s = time.time() - t0
    count, secs = spec["runs"] * (40 if deep else 1), 650 if deep else spec["seconds"]
    te = time.time()
    res, lock = {}, threading.Lock()

    def sink(i, r):
        with lock:
            res[i] = r

    for f in sorted(glob.glob("%s/corpus/%s/*.plan" % (C.V, PROP))):
        text = "".join(l for l in open(f) if not l.startswith("#"))
        res["corpus/" + os.path.basename(f)] = dict(run_plan(d, text), text=text)
    n = C.NPROC
    with cf.ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(worker, d, seed, w, n, (count + n - 1 - w) // n, secs, sink) for w in range(n)]
        all_done = all([f.result() for f in fs])
    explore_s = time.time() - te
    fired, probe, inter, sigs = collections.Counter(), collections.Counter(), set(), set()
    evals = solves = nontrivial = 0
    samples = []
    for i, r in sorted(res.items(), key=lambda x: str(x[0])):
        fired.update(r["fired"])
        probe.update(r["probe"])
        inter.update(r["inter"])
        evals += r["evals"]
        solves += r["solves"]
        if any(r["probe"].get(k) for k in spec["key_probes"]):
            nontrivial += 1
            sigs.add(r["sig"])
            if len(samples) < 3 and isinstance(i, int):
                samples.append({"seed": i, "trace_hash": r["hash"], "plan": text_of(gen(d, seed, i)).splitlines(),
                                "faults_fired": r["fired"], "probes": r["probe"]})
    # determinism: some seeds again, in fresh processes
    again = [i for i in sorted(x for x in res if isinstance(x, int)) if not res[i]["viol"]]
    again = again[::max(1, len(again) // 16)][:16]
    with cf.ThreadPoolExecutor(n) as ex:
        redo = list(ex.map(lambda i: (i, run_plan(d, gen(d, seed, i))), again))
    diffs = [i for i, r in redo if r["hash"] != res[i]["hash"]]
    for i in diffs:
        print("NONDETERMINISM property=%s seed=%d" % (PROP, i))
    # judgement
    classes = {}
    hangs = 0
    for i, r in sorted(res.items(), key=lambda x: str(x[0])):
        if r["viol"]:
            classes.setdefault(r["viol"][0], []).append(i)
    kf = C.known(PROP)
    kf_hit = collections.Counter()
    reported, errors = [], []
    for c, ids in sorted(classes.items()):
        hit = None
        for i in ids[:6]:
            plan = json.loads(res[i]["text"]) if "text" in res[i] else gen(d, seed, i)
            if c == PROP + ".hang" and any(o[0] == "new" and o[2] == "PROXQP" for o in plan["ops"]):
                hangs += 1  # ProxQP's own loops
                continue
            k = C.is_known(kf, c, res[i]["viol"][1], json.dumps(plan))
            if k:
                kf_hit[k["what"]] += 1
                continue
            a, b = run_plan(d, plan), run_plan(d, plan)
            if a["viol"] and b["viol"] and a["viol"][0] == b["viol"][0] == c and a["hash"] == b["hash"]:
                hit = (i, plan, a)
                break
            errors.append((c, i, res[i]["viol"][1]))
        if not hit:
            continue
        errors = [e for e in errors if e[0] != c]
        i, plan, a = hit
        if len(reported) < 3:
            small = minimise(d, plan, c, 60 if not reported else 20)
            q = run_plan(d, small)
            if not q["viol"] or q["viol"][0] != c:
                small, q = plan, a
            os.makedirs(C.V + "/replays", exist_ok=True)
            path = "replays/%s-%s.plan" % (PROP, c.split(".", 1)[1])
            with open(os.path.join(C.V, path), "w") as fh:
                fh.write("# property %s\n# class %s\n# %s\n# seed %s\n# trace %s\n%s" % (
                    PROP, c, q["viol"][1].replace("\n", " "), i, q["hash"], text_of(small)))
            reported.append((c, path, q["viol"][1], len(ids)))
        else:
            reported.append((c, None, a["viol"][1], len(ids)))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (PROP, k["what"]))
    wall = time.time() - t0
    ev = {
        "property": PROP, "tier": "thorough" if deep else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(res), "distinct_nontrivial": len(sigs),
            "rule": "one evaluation = one generated plan (problems, solvers, settings, callbacks, solves, threads, "
                    "faults, garbage collections), run through the Python module and through C++. Non-trivial: the "
                    "two were compared (" + ", ".join(spec["key_probes"]) + "). Distinct: different sequence of "
                    "(solver type, outcome, printed or not, iterations) over the solves of the plan.",
            "samples": samples, "nontrivial": nontrivial, "solves": solves, "model_evaluations": evals,
            "distinct_interleavings": len(inter),
            "interleaving_measure": "hash of the sequence of threads that held the baton in one group of solves",
            "plans_per_hour": round(3600 * len(res) / max(explore_s, 1e-9)),
            "executions_per_hour": round(7200 * len(res) / max(explore_s, 1e-9)),
            "simulated_seconds": 5.0 * fired.get("clock:jump", 0),
            "faults_fired": dict(sorted(fired.items())), "probes": dict(sorted(probe.items())),
            "determinism_pairs": len(redo), "determinism_differences": len(diffs), "not_reproducible": len(errors),
            "discarded_runs": {"hang in ProxQP": hangs} if hangs else {},
            "build_seconds": round(build_s, 1), "explore_seconds": round(explore_s, 1),
            "components_real": ["bindings/*.cpp", "bindings/mim_solvers/__init__.py", "src/*.cpp", "CPython",
                                "Boost.Python", "eigenpy", "crocoddyl and its module", "proxsuite"],
            "components_stubbed": ["action models (written in Python, with fault points)", "callbacks",
                                   "clock_gettime for the C++ side", "thread scheduling (baton at every model "
                                   "evaluation and callback)", "automatic garbage collection (only where the plan says)"],
            "known_findings_hit": dict(kf_hit)},
        "assumptions": spec.get("assumptions", []) + [
            "the module is compiled with -O1, not with the repository's release flags",
            "the twin is driven through the public C++ members that the module wraps"],
        "wall_s": round(wall, 1), "violations": len(reported)}
    os.makedirs(C.V + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (C.V, PROP), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d plans, %d solves, %d distinct, %d interleavings, %.0f s build, %.0f s search" %
          (PROP, len(res), solves, len(sigs), len(inter), build_s, explore_s))
    print("faults fired: " + ", ".join("%s %d" % kv for kv in sorted(fired.items())))
    print("probes: " + ", ".join("%s %d" % kv for kv in sorted(probe.items())))
    for c, path, msg, k in reported:
        if path:
            print("VIOLATION property=%s replay=%s" % (PROP, path))
            print("  class %s (%d runs): %s" % (c, k, msg))
        else:
            print("  also class %s (%d runs): %s" % (c, k, msg))
    for e in errors:
        # what does not come back when its plan is run again was not decided by
        # the plan (a buffer nothing has been written to yet): no verdict
        print("discarded, not reproducible: property=%s class=%s seed=%s %s" % ((PROP,) + e))
    if reported:
        return 1
    return 3 if len(diffs) > 1 or not all_done else 0


def replay(f):
    text = "".join(l for l in open(f) if not l.startswith("#"))
    r = run_plan(build(), text)
    if r["viol"]:
        print("VIOLATION property=%s class=%s %s" % (PROP, r["viol"][0], r["viol"][1]))
    print("trace %s fired %s probes %s" % (r["hash"], r["fired"], r["probe"]))
    return 1 if r["viol"] else 0
