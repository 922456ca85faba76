"""One process of the Python-module simulation: generates and executes plans.

  run.py batch SEED FROM COUNT STRIDE SECONDS     plans of consecutive seeds, one result line each
  run.py plan FILE                                one plan
  run.py gen SEED                                 print the plan of a seed
"""
import copy
import ctypes
import gc
import hashlib
import json
import os
import random
import sys
import threading
import time
import weakref

TYPES = ["CSQP", "SQP", "DDP", "FDDP", "PROXQP"]

# settings: name -> values to choose from (per type); lists of refused ones among them
F = [0.0, 1e-9, 0.3, 0.5, 2.0, 10.0, -1.0, 1.0]
B = [0, 1]
N = [1, 2, 3, 7]
COMMON = {"th_acceptStep": F, "th_stop": [1e-9, 1e-5, 0.0, -1.0], "th_gapTol": [1e-16, 1e-3, -1.0],
          "preg": [0.0, 1e-9, 1e-3, -1.0], "dreg": [0.0, 1e-9, 1e-3, -1.0],
          "reg_incFactor": [1.0, 2.0, 10.0, 0.5], "reg_decFactor": [1.0, 2.0, 10.0, 0.5],
          "reg_min": [0.0, 1e-9, 1e-3, -1.0], "reg_max": [1.0, 1e9, -1.0],
          "th_stepDec": [0.0, 0.5, 1.0, 2.0, -1.0], "th_stepInc": [0.0, 0.01, 1.0, 2.0, -1.0],
          "th_grad": [0.0, 1e-12, 1e-3, -1.0], "termination_tolerance": [1e-4, 1e-6, 1e-10, 0.0]}
OWN = {
    "DDP": {},
    "FDDP": {"th_acceptNegStep": [0.0, 2.0, -1.0, 0.7], "filter_size": N, "use_filter_line_search": B},
    "SQP": {"filter_size": N, "use_filter_line_search": B, "mu_dynamic": [1.0, 10.0, -1.0],
            "extra_iteration_for_last_kkt": B},
    "CSQP": {"filter_size": N, "use_filter_line_search": B, "mu_dynamic": [1.0, 10.0, -1.0],
             "mu_constraint": [1.0, 10.0, -1.0], "extra_iteration_for_last_kkt": B,
             "with_qp_callbacks": B, "lag_mul_inf_norm_coef": [1.0, 10.0, 3.0],
             "eps_abs": [1e-4, 1e-8, 1e-2], "eps_rel": [1e-4, 1e-8, 0.0],
             "rho_sparse": [0.1, 1.0, 0.01], "equality_qp_initial_guess": B,
             "sigma": [1e-6, 1e-3], "alpha": [1.6, 1.0], "max_qp_iters": [1, 5, 60, 300],
             "rho_update_interval": [1, 5, 25], "adaptive_rho_tolerance": [2, 5],
             "max_solve_time": [1e6, 1e6, 1.0], "reset_y": B, "reset_rho": B,
             "update_rho_with_heuristic": B, "remove_reg": B},
    "PROXQP": {"use_filter_line_search": B, "eps_abs": [1e-6, 1e-8], "max_qp_iters": [50, 300],
               "with_callbacks": B},
}
READ_ONLY = {"n_callbacks"}  # compared between the twins, not a property
# what the module does not offer, by type
NOT_OFFERED = {"PROXQP": {"filter_size", "mu_dynamic", "mu_constraint"}, "FDDP": set(), "DDP": set(),
               "SQP": {"gap_norm"}, "CSQP": set()}
BOOL = {"isFeasible", "use_filter_line_search", "extra_iteration_for_last_kkt", "with_qp_callbacks",
        "equality_qp_initial_guess", "max_solve_time_reached", "reset_y", "reset_rho",
        "update_rho_with_heuristic", "remove_reg", "with_callbacks"}
METHODS = {
    "CSQP": [("calc", [0, 1]), ("computeDirection", [0, 1]), ("checkKKTConditions", None),
             ("update_lagrangian_parameters", [1]), ("update_rho_vec", [1, 25]),
             ("backwardPass", None), ("backwardPass_without_constraints", None),
             ("backwardPass_without_rho_update", None), ("forwardPass", [0.0]), ("tryStep", [1.0, 0.25]),
             ("stoppingCriteria", None)],
    "SQP": [("computeDirection", [0, 1]), ("tryStep", [1.0, 0.5]), ("calcDiff", None),
            ("backwardPass", None), ("forwardPass", [1.0]), ("stoppingCriteria", None)],
    "DDP": [("computeDirection", [0, 1]), ("tryStep", [1.0, 0.5]), ("calcDiff", None),
            ("backwardPass", None), ("forwardPass", [0.5]), ("stoppingCriteria", None),
            ("expectedImprovement", None)],
    "FDDP": [("computeDirection", [0, 1]), ("tryStep", [1.0, 0.5]), ("calcDiff", None),
             ("backwardPass", None), ("forwardPass", [0.5]), ("stoppingCriteria", None),
             ("expectedImprovement", None), ("updateExpectedImprovement", None)],
    "PROXQP": [("calc", [0, 1]), ("tryStep", [1.0, 0.5])],
}
EXC = {"ValueError": ValueError, "RuntimeError": RuntimeError, "MemoryError": MemoryError,
       "KeyboardInterrupt": KeyboardInterrupt, "StopIteration": StopIteration}
LISTS = ["alphas", "xs", "us", "lag_mul", "y", "z"]


# ------------------------------------------------------------------ plans
def gen_cb(r):
    x = r.random()
    if x < 0.12:
        return {"k": "verbose", "p": r.choice([1, 3, 5])}
    if x < 0.27:
        return {"k": "logger"}
    c = {"k": "rec", "form": r.choice(["star", "named", "both"])}
    if r.random() < 0.25:
        c["raise"] = [r.choice([0, 0, 1, 2, 4]), r.choice(sorted(EXC))]
    if r.random() < 0.15:
        c["gc"] = r.randrange(4)
    if r.random() < 0.1:
        c["jump"] = [r.randrange(3), 5]
    if r.random() < 0.1:
        c["swap"] = r.randrange(3)  # the callback reads the list of callbacks
    if r.random() < 0.1:            # the callback changes it
        c["recb"] = [r.choice([0, 0, 1, 2]), r.choice(["clear", "last", "more"])]
    if r.random() < 0.1:
        c["nest"] = r.randrange(3)  # the callback solves a problem of its own
    if r.random() < 0.15:
        c["attr"] = 1               # the callback is a subclass with state of its own
    return c


def gen_solve(r, s, typ, in_par=False):
    k = r.choice([0, 1, 2, 3, 3, 3, 4, 5, 5])
    return ["solve", s, {"n": k, "it": r.choice([0, 1, 2, 3, 5, 8, 20]), "feas": int(r.random() < 0.2),
                         "reg": r.choice([-1.0, 1e-9, 1e-4, 1.0]),
                         "xs": r.choice(["zero", "x0", "rand", "last", "empty", "short", "tuple"])
                         if r.random() < 0.93 else "wrong",
                         "kw": int(r.random() < 0.2), "g": r.randrange(1 << 20)}]


def gen(seed):
    r = random.Random("pysim-%d" % seed)
    nprob = r.choice([1, 2, 2, 3])
    problems = []
    for _ in range(nprob):
        kind = r.choice(["py", "py", "py", "uni"])
        p = {"kind": kind, "n": r.choice([1, 2, 3]), "nu": r.choice([1, 2]), "ng": r.choice([0, 0, 1, 2]),
             "nh": 0, "T": r.choice([1, 2, 3, 4, 6]), "seed": r.randrange(1 << 20),
             "shared": int(r.random() < 0.5), "faults": []}
        if kind == "py" and r.random() < 0.5:
            for _ in range(r.choice([1, 1, 2, 3])):
                p["faults"].append([r.choice([1, 2, 5, 9, 14, 20, 33, 60]) + r.randrange(4),
                                    r.choice(["raise", "raise", "nan", "inf", "gc", "huge"]),
                                    r.choice(sorted(EXC))])
        problems.append(p)
    ops, sol = [], []
    for i in range(r.choice([1, 2, 2, 3])):
        p = r.randrange(nprob)
        types = [t for t in TYPES if not (t == "PROXQP" and any(f[1] in ("nan", "inf", "huge")
                                                                  for f in problems[p]["faults"]))]
        t = r.choice(types)
        sol.append((t, p))
        ops.append(["new", i, t, p])
        if r.random() < 0.7:
            ops.append(["cbs", i, [gen_cb(r) for _ in range(r.choice([0, 1, 1, 2, 3]))]])
    for _ in range(r.randrange(3, 14)):
        i = r.randrange(len(sol))
        t = sol[i][0]
        x = r.random()
        if x < 0.34:
            ops.append(gen_solve(r, i, t))
        elif x < 0.54:
            c = dict(COMMON)
            c.update(OWN[t])
            own = r.random() < 0.6 and OWN[t]
            n = r.choice(sorted(OWN[t] if own else c))
            ops.append(["set", i, n, r.choice(c[n])])
        elif x < 0.60:
            ops.append(["setlist", i, r.choice(LISTS), r.choice(["scaled", "desc", "short", "neg"])])
        elif x < 0.68:
            ops.append(["cbs", i, [gen_cb(r) for _ in range(r.choice([0, 1, 2]))]])
        elif x < 0.74:
            m, a = r.choice(METHODS[t])
            ops.append(["call", i, m, None if a is None else r.choice(a)])
        elif x < 0.80:
            ops.append(["copy", i, r.choice(["xs", "us", "dx", "du", "K", "k", "Vx", "Vxx", "alphas", "callbacks"])])
        elif x < 0.84:
            ops.append(["bad", i, r.randrange(6)])
        elif x < 0.88:
            ops.append(["gc"])
        elif x < 0.91:
            ops.append(["delp", r.randrange(nprob)])
        elif x < 0.93:
            ops.append(["dels", i])
        else:
            group, used = [], set()
            for j in r.sample(range(len(sol)), len(sol)):
                if sol[j][1] not in used:
                    used.add(sol[j][1])
                    group.append(gen_solve(r, j, sol[j][0], True))
            if len(group) > 1:
                ops.append(["par", group, r.randrange(1 << 20)])
    return {"problems": problems, "ops": ops}


# ------------------------------------------------------------------ execution
class Violation(Exception):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg


class Sched:
    """Baton of a group of threads: one runs, the seed decides who goes on at every point."""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.ev, self.live, self.cur = {}, [], None
        self.trace = []

    def run(self, jobs):
        self.live = list(range(len(jobs)))
        self.ev = {i: threading.Event() for i in self.live}
        self.done = threading.Event()
        ts = []
        for i, j in enumerate(jobs):
            def body(i=i, j=j):
                self.ev[i].wait()
                self.ids[threading.get_ident()] = i
                try:
                    j()
                finally:
                    self.live.remove(i)
                    if self.live:
                        self.go(self.r.choice(self.live))
                    else:
                        self.done.set()
            t = threading.Thread(target=body)
            ts.append(t)
        self.ids = {}
        for t in ts:
            t.start()
        self.go(self.r.choice(self.live))
        self.done.wait()
        for t in ts:
            t.join()

    def go(self, i):
        self.cur = i
        self.trace.append(i)
        self.ev[i].set()

    def point(self):
        me = self.ids.get(threading.get_ident())
        if me is None or len(self.live) < 2 or self.r.random() < 0.7:
            return
        nxt = self.r.choice(self.live)
        if nxt == me:
            return
        self.ev[me].clear()
        self.go(nxt)
        self.ev[me].wait()


class Ctl:
    """Evaluation counter and faults of one problem."""

    def __init__(self, x, faults):
        self.x, self.n = x, 0
        self.faults = {}
        for at, kind, exc in faults:
            self.faults.setdefault(at, (kind, exc))

    def hit(self):
        self.n += 1
        x = self.x
        x.evals += 1
        if x.sched:
            x.sched.point()
        f = self.faults.get(self.n)
        if not f:
            return None
        x.fire("model:" + f[0])
        if f[0] == "raise":
            raise EXC[f[1]]("fault at evaluation %d" % self.n)
        if f[0] == "gc":
            gc.collect()
            return None
        return {"nan": float("nan"), "inf": float("inf"), "huge": 1e31}[f[0]]


MODELS = Silent = None


def load():
    """Imports the modules under test and defines the classes that derive from theirs."""
    global crocoddyl, mim, oracle, np, MODELS, Silent, clock
    import numpy as np_
    import crocoddyl as c_
    import mim_solvers as m_
    import pysim_oracle as o_
    crocoddyl, mim, oracle, np = c_, m_, o_, np_
    clock = ctypes.CDLL(os.environ["PYSIM_CLOCK"])
    clock.simclock_set.argtypes = [ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong]
    clock.simclock_jump.argtypes = [ctypes.c_longlong]

    class PyModel(crocoddyl.ActionModelAbstract):
        def __init__(self, p, ctl, i):
            n, nu, ng, nh = p["n"], p["nu"], p["ng"], min(p["nh"], p["nu"])
            crocoddyl.ActionModelAbstract.__init__(self, crocoddyl.StateVector(n), nu, 0, ng, nh)
            r = np.random.RandomState((p["seed"] * 31 + i) % (1 << 31))
            self.ctl, self.c = ctl, 0.3
            self.A = np.eye(n) + 0.3 * r.randn(n, n)
            self.B = r.randn(n, nu)
            self.G = r.randn(ng, n)
            self.H = r.randn(nh, nu)
            self.w = 0.5 + r.rand(n)
            self.ref = r.randn(n)
            if ng:
                self.g_lb = -1.0 - r.rand(ng)
                self.g_ub = np.array([1.0 + r.rand() if r.rand() < 0.7 else np.inf for _ in range(ng)])

        def calc(self, data, x, u=None):
            bad = self.ctl.hit()
            e = x - self.ref
            cost = 0.5 * float(e @ (self.w * e))
            if u is None:
                data.cost = cost
                if self.ng:
                    data.g = self.G @ x
                if self.nh:
                    data.h = np.zeros(self.nh)
                if bad is not None:
                    data.cost = bad
                return
            data.cost = cost + 0.05 * float(u @ u)
            data.xnext = self.A @ x + self.B @ u + self.c * np.sin(x)
            if self.ng:
                data.g = self.G @ x + 0.1 * np.sum(u)
            if self.nh:
                data.h = self.H @ u - 0.1
            if bad is not None:
                if self.ctl.n % 2:
                    data.cost = bad
                else:
                    data.xnext = np.full(len(x), bad)

        def calcDiff(self, data, x, u=None):
            bad = self.ctl.hit()
            n = len(x)
            data.Lx = self.w * (x - self.ref)
            data.Lxx = np.diag(self.w)
            if self.ng:
                data.Gx = self.G
            if u is None:
                if bad is not None:
                    data.Lx = np.full(n, bad)
                return
            nu = len(u)
            data.Lu = 0.1 * u
            data.Luu = 0.1 * np.eye(nu)
            data.Fx = self.A + self.c * np.diag(np.cos(x))
            data.Fu = self.B
            if self.ng:
                data.Gu = 0.1 * np.ones((self.ng, nu))
            if self.nh:
                data.Hu = self.H
            if bad is not None:
                data.Lx = np.full(n, bad)

    class Named(mim.CallbackAbstract):
        """__call__(self, solver, solver_type)"""

        def __init__(self, body):
            mim.CallbackAbstract.__init__(self)
            self.body = body

        def __call__(self, solver, solver_type):
            self.body(solver, solver_type)

    class Star(Named):
        def __call__(self, *a):
            self.body(*a)

    class Both(Named):
        def __call__(self, solver, solver_type=None):
            self.body(solver, solver_type)

    class Attr(Named):
        def __init__(self, body):
            super().__init__(body)
            self.count = 0

        def __call__(self, solver, solver_type):
            self.count += 1
            self.body(solver, solver_type)
            self.body.own = self.count

    class Silent_(mim.CallbackAbstract):
        def __call__(self, *a):
            pass

    Silent = Silent_
    MODELS = {"py": PyModel, "named": Named, "star": Star, "both": Both, "attr": Attr}


def flat(v):
    """A value read from Python, in the form the oracle reports."""
    if isinstance(v, (bool, int, float)):
        return float(v)
    if isinstance(v, np.ndarray):
        return np.ascontiguousarray(v, dtype=np.float64).tobytes()
    l = list(v)
    if l and isinstance(l[0], float):
        return [float(x) for x in l]
    return [np.ascontiguousarray(x, dtype=np.float64).tobytes() for x in l]


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return a == b


def show(v):
    if isinstance(v, bytes):
        return str(np.frombuffer(v).tolist())
    if isinstance(v, list):
        return "[" + ", ".join(show(x) for x in v) + "]"
    return repr(v)


class Side:
    pass


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.h = hashlib.sha256()
        self.fired, self.probe = {}, {}
        self.evals = self.solves = 0
        self.sched = None
        self.inter = []
        self.sig = []

    def fire(self, k, n=1):
        self.fired[k] = self.fired.get(k, 0) + n

    def saw(self, k, n=1):
        self.probe[k] = self.probe.get(k, 0) + n

    def note(self, *a):
        self.h.update(repr(a).encode())

    # -------- set-up
    def problem(self, p):
        r = np.random.RandomState(p["seed"])
        s = Side()
        s.ctl = Ctl(self, p["faults"])
        if p["kind"] == "lqr":
            ms = [crocoddyl.ActionModelLQR(p["n"], min(p["nu"], p["n"])) for _ in range(1 if p["shared"] else p["T"])]
            term = crocoddyl.ActionModelLQR(p["n"], min(p["nu"], p["n"]))
        elif p["kind"] == "uni":
            ms = [crocoddyl.ActionModelUnicycle() for _ in range(1 if p["shared"] else p["T"])]
            term = crocoddyl.ActionModelUnicycle()
        else:
            ms = [MODELS["py"](p, s.ctl, i) for i in range(1 if p["shared"] else p["T"])]
            term = MODELS["py"](p, s.ctl, 99)
        if p["shared"]:
            ms = ms * p["T"]
        x0 = r.randn(ms[0].state.nx)
        s.problem = crocoddyl.ShootingProblem(x0, ms, term)
        s.nx, s.nus, s.T, s.x0 = ms[0].state.nx, [m.nu for m in ms], p["T"], x0
        s.weak = [weakref.ref(m) for m in set(ms)] + [weakref.ref(term)] if p["kind"] == "py" else []
        return s

    # -------- comparison
    def agree(self, s, where):
        a, b = oracle.values(s.a), oracle.values(s.b)
        self.saw("twin.compared")
        self.note(where, sorted((k, v) for k, v in b.items()))
        for k in b:
            if not same(a[k], b[k]):
                raise Violation("C22.twin", "%s: %s is %s, but %s in the solver driven from C++" %
                                (where, k, show(a[k])[:200], show(b[k])[:200]))

    def read(self, s, obj, where, only=None):
        v = oracle.values(obj)
        for k, x in v.items():
            if k in READ_ONLY or k in NOT_OFFERED[s.t]:
                continue
            self.saw("property.read")
            try:
                y = getattr(obj, k)
            except AttributeError:
                raise Violation("C22.property", "%s: Solver%s has no property %s" % (where, s.t, k))
            y = flat(y)
            if not same(x, y):
                raise Violation("C22.property", "%s: the property %s reads %s, the C++ solver says %s" %
                                (where, k, show(y)[:200], show(x)[:200]))

    # -------- callbacks
    def callback(self, s, c, slot):
        """(object for the Python solver, what the twin gets)"""
        if c["k"] == "verbose":
            v = mim.CallbackVerbose(c["p"]) if c["p"] != 3 else mim.CallbackVerbose()
            if v.precision != c["p"]:
                raise Violation("C22.property", "CallbackVerbose(%d).precision is %r" % (c["p"], v.precision))
            return v, c["p"]
        run = self
        reca, recb = slot

        def events(n, side):
            """What happens at call n, on either side."""
            if c.get("jump") and c["jump"][0] == n and not run.sched and not run.par:
                if side == "a":
                    run.fire("clock:jump")
                clock.simclock_jump(c["jump"][1] * 1000000000)
            if c.get("raise") and c["raise"][0] == n:
                if side == "a":
                    run.fire("cb:" + c["raise"][1])
                raise EXC[c["raise"][1]]("fault at call %d" % n)

        def twin(values, typ):
            n = len(recb)
            recb.append((typ, {k: v for k, v in values.items()}))
            if c.get("recb") and c["recb"][0] == n:
                oracle.edit_callbacks(s.b, c["recb"][1])
            events(n, "b")

        if c["k"] == "logger":
            if s.t not in ("CSQP", "SQP"):
                c = dict(c, k="rec", form="star")
            else:
                l = mim.CallbackLogger()
                reca.append(("logger", l))
                return l, twin

        def body(*a):
            if run.sched:
                run.sched.point()
            n = len(reca)
            if len(a) < 1 or len(a) > 2:
                raise Violation("C22.callback", "a callback got %d arguments" % len(a))
            sol = a[0]
            rec = {"type": a[1] if len(a) > 1 else None, "class": type(sol).__name__,
                   "address": oracle.address(sol)}
            rec["values"] = oracle.values(sol)
            if n in (0, 3):
                run.read(s, sol, "in callback")
            reca.append(rec)
            run.note("cb", rec["type"], rec["class"], rec["values"]["iter"])
            if c.get("gc") == n:
                run.fire("gc:callback")
                gc.collect()
            if c.get("swap") == n:
                run.fire("cb:list_read")
                l = sol.getCallbacks()
                if len(l) != s.ncb:
                    raise Violation("C22.callback", "getCallbacks() in a callback has %d entries, not %d" %
                                    (len(l), s.ncb))
                del l
            if c.get("nest") == n:
                run.fire("cb:nested_solve")
                run.nested(n)
            if c.get("recb") and c["recb"][0] == n:
                run.edit(s, sol, c["recb"][1])
            events(n, "a")

        form = "attr" if c.get("attr") else c.get("form", "star")
        return MODELS[form](body), twin

    def edit(self, s, sol, how):
        """The list of callbacks changes while the solver goes through it."""
        self.fire("cb:list_" + how)
        l = list(sol.getCallbacks())
        keep = [] if how == "clear" else l[-1:] if how == "last" else l + [Silent() for _ in range(40)]
        s.gone += s.weak
        s.weak = [weakref.ref(o) for o in keep if not isinstance(o, mim.CallbackVerbose)]
        s.ncb = len(keep)
        del l
        sol.setCallbacks(keep)

    def nested(self, n):
        m = [crocoddyl.ActionModelUnicycle() for _ in range(2)]
        q = crocoddyl.ShootingProblem(np.array([1.0, -0.5, 0.3 * n]), m, m[0])
        t = getattr(mim, "Solver" + ("CSQP", "SQP")[n % 2])(q)
        t.solve([], [], 3)

    def callbacks(self, s, spec):
        objs, tw, recs = [], [], []
        for c in spec:
            slot = ([], [])
            o, t = self.callback(s, c, slot)
            objs.append(o)
            tw.append(t)
            recs.append((c, slot))
        s.a.setCallbacks(objs)
        oracle.set_callbacks(s.b, tw)
        got = list(s.a.getCallbacks())
        if len(got) != len(objs) or any(x is not y for x, y in zip(got, objs) if not isinstance(y, mim.CallbackVerbose)):
            raise Violation("C22.callback", "getCallbacks() does not return the callbacks that were set")
        self.saw("callbacks.set")
        del got
        old = s.weak
        s.weak = [weakref.ref(o) for o in objs if not isinstance(o, mim.CallbackVerbose)]
        s.recs = recs
        s.ncb = len(spec)
        objs = o = None
        for w in old:
            s.gone.append(w)

    def records(self, s, where):
        """The calls of Python callbacks against those of the twin's."""
        for i, (c, (ra, rb)) in enumerate(s.recs):
            n = c.get("recb", [0, ""])[0]
            if c.get("recb", [0, ""])[1] == "clear" and len(rb) > n:
                for j, (_, (xa, xb)) in enumerate(s.recs):
                    if max(0 if xa and isinstance(xa[0], tuple) else len(xa), len(xb)) > n + 1:
                        raise Violation("C22.callback", "%s: callback %d removed all at call %d, callback %d ran %d times" %
                                        (where, i, n, j, len(xb)))
        for i, (c, (ra, rb)) in enumerate(s.recs):
            if c["k"] == "verbose":
                continue
            if ra and isinstance(ra[0], tuple):
                self.logger(s, ra[0][1], rb, where)
                continue
            self.saw("callback.calls", len(ra))
            if len(ra) != len(rb):
                raise Violation("C22.callback", "%s: callback %d ran %d times, in the solver driven from C++ %d" %
                                (where, i, len(ra), len(rb)))
            for n, (x, (typ, vals)) in enumerate(zip(ra, rb)):
                if x["type"] != (typ or None):
                    raise Violation("C22.callback", "%s: call %d of callback %d says solver type %r, not %r" %
                                    (where, n, i, x["type"], typ))
                if x["class"] != "Solver" + s.t:
                    raise Violation("C22.callback", "%s: call %d of callback %d got a %s instead of the Solver%s" %
                                    (where, n, i, x["class"], s.t))
                if x["address"] != s.address:
                    raise Violation("C22.callback", "%s: call %d of callback %d got another solver" % (where, n, i))
                for k in vals:
                    if not same(vals[k], x["values"][k]):
                        raise Violation("C22.callback", "%s: call %d of callback %d sees %s %s, in C++ %s" % (
                            where, n, i, k, show(x["values"][k])[:150], show(vals[k])[:150]))

    LOG = {"us": "us", "xs": "xs", "fs": "fs", "iter": "iter", "cost": "cost", "merit": "merit",
           "preg": "preg", "dreg": "dreg", "step": "stepLength", "gap_norm": "gap_norm",
           "constraint_norm": "constraint_norm", "qp_iter": "qp_iters", "KKT": "KKT"}

    def logger(self, s, l, rb, where):
        data = l.convergence_data
        self.saw("logger.rows", len(rb))
        for k, v in data.items():
            if k not in self.LOG:
                continue
            if len(v) != len(rb):
                raise Violation("C22.logger", "%s: CallbackLogger has %d values of %s after %d iterations" %
                                (where, len(v), k, len(rb)))
            for n, y in enumerate(v):
                if not same(flat(y), rb[n][1][self.LOG[k]]):
                    raise Violation("C22.logger", "%s: CallbackLogger's %s of iteration %d is %s, the solver's was %s" % (
                        where, k, n, show(flat(y))[:150], show(rb[n][1][self.LOG[k]])[:150]))
        want = set(self.LOG) if s.t == "CSQP" else set(self.LOG) - {"gap_norm", "constraint_norm", "qp_iter"}
        if rb and want - set(data):
            raise Violation("C22.logger", "%s: CallbackLogger did not log %s" % (where, sorted(want - set(data))))

    # -------- one operation
    def guess(self, s, a):
        p = s.p
        r = np.random.RandomState(a["g"])
        if a["xs"] == "empty":
            return [], []
        if a["xs"] == "last":
            v = oracle.values(s.b)
            xs = [np.frombuffer(x).tolist() for x in v["xs"]]
            us = [np.frombuffer(x).tolist() for x in v["us"]]
            return xs, us
        f = {"zero": lambda n: [0.0] * n, "rand": lambda n: r.randn(n).tolist()}.get(a["xs"])
        T = p.T
        xs = [f(p.nx) if f else list(map(float, p.x0)) for _ in range(T + 1)]
        us = [f(n) if f else [0.1] * n for n in p.nus]
        if a["xs"] == "wrong":
            xs = xs[:-1] if a["g"] % 2 else [x + [0.0] for x in xs]
        return xs, us

    def args(self, s, a):
        xs, us = self.guess(s, a)
        full = [xs, us, a["it"], bool(a["feas"]), a["reg"]]
        n = a["n"]
        if s.t == "PROXQP" and n in (1, 2):
            n = 3
        b = full[:n]
        py = list(b)
        for i in range(min(2, n)):
            seq = [np.array(v) for v in py[i]]
            if a["xs"] == "tuple":
                vec = crocoddyl.StdVec_VectorX()
                vec.extend(seq)
                seq = vec
            py[i] = seq
        return py, b

    def py_solve(self, s, a, py):
        names = ["init_xs", "init_us", "maxiter", "isFeasible", "regInit"]
        if a["kw"]:
            return s.a.solve(*py[:1], **dict(zip(names[1:], py[1:])))
        return s.a.solve(*py)

    def attempt(self, f):
        try:
            return ("value", f())
        except Violation:
            raise
        except BaseException as e:
            r = ("raised", type(e).__name__, str(e))
            e.__traceback__ = None
            return r

    def base_clock(self):
        clock.simclock_set(1, 10 ** 12, 1000)

    def solve(self, ops, seed=None):
        prep = []
        for _, i, a in ops:
            s = self.s[i]
            py, b = self.args(s, a)
            prep.append((s, a, py, b))
        out_a = [None] * len(prep)
        err = []
        for s, _, _, _ in prep:
            for c, (ra, rb) in s.recs:
                if ra and isinstance(ra[0], tuple):
                    ra[0][1].convergence_data.clear()
                else:
                    ra.clear()
                rb.clear()
        evals0 = self.evals
        # the Python side
        self.base_clock()
        if seed is None:
            oracle.capture()
            s, a, py, b = prep[0]
            out_a[0] = self.attempt(lambda: self.py_solve(s, a, py))
            text_a = oracle.captured()
        else:
            self.sched = Sched(seed)
            oracle.capture()

            def job(k):
                def f():
                    s, a, py, b = prep[k]
                    try:
                        out_a[k] = self.attempt(lambda: self.py_solve(s, a, py))
                    except Violation as v:
                        err.append(v)
                return f

            self.sched.run([job(k) for k in range(len(prep))])
            oracle.captured()
            self.fire("thread_switch", len(self.sched.trace))
            self.inter.append(hashlib.sha256(bytes(self.sched.trace)).hexdigest()[:12])
            self.note("sched", self.sched.trace)
            self.sched = None
            self.par = True
        if err:
            raise err[0]
        # the twins, one after the other
        for k, (s, a, py, b) in enumerate(prep):
            self.base_clock()
            oracle.capture()
            out_b = self.attempt(lambda: oracle.solve(s.b, b))
            text_b = oracle.captured()
            self.solves += 2
            where = "solve of solver %d (%s)" % (s.i, s.t)
            x, y = out_a[k], out_b
            self.note(where, y)
            self.sig.append((s.t, y[:2], len(text_b) > 0))
            if x[0] == "raised":
                self.saw("raised." + x[1])
            else:
                self.saw("solved")
            if x != y:
                raise Violation("C22.result", "%s %s, driven from C++ it %s" %
                                (where, " ".join(map(str, x)), " ".join(map(str, y))))
            if x[0] == "value" and type(x[1]) is not bool:
                raise Violation("C22.result", "%s returns a %s" % (where, type(x[1]).__name__))
            if seed is None and text_a != text_b:
                raise Violation("C22.output", "%s prints %r, driven from C++ %r" % (
                    where, text_a[:200], text_b[:200]))
            self.agree(s, where)
            self.records(s, where)
            self.sig.append(int(oracle.values(s.b)["iter"]))
        self.par = False

    def op(self, o):
        k = o[0]
        if k == "par":
            if any(self.s.get(x[1]) is None for x in o[1]):
                return
            self.solve(o[1], o[2])
            for x in o[1]:
                self.read(self.s[x[1]], self.s[x[1]].a, "after threads")
            return
        if k == "gc":
            self.fire("gc")
            gc.collect()
            return
        if k == "delp":
            # Python forgets the problem; the solvers keep it
            if self.p[o[1]] is not None:
                self.fire("forget:problem")
                self.p[o[1]].problem = None
                gc.collect()
            return
        if k == "new":
            _, i, t, p = o
            side = self.p[p], self.q[p]
            if side[0].problem is None:
                return
            s = Side()
            s.i, s.t, s.p, s.recs, s.ncb, s.gone, s.weak = i, t, self.q[p], [], 0, [], []
            oracle.capture()
            s.a = getattr(mim, "Solver" + t)(side[0].problem)
            oracle.captured()
            s.b = oracle.make(t, side[1].problem)
            s.address = oracle.address(s.a)
            if oracle.problem_of(s.a) != oracle.problem_address(side[0].problem):
                raise Violation("C22.property", "new solver %d: its problem is another one" % i)
            self.s[i] = s
            self.agree(s, "new solver %d (%s)" % (i, t))
            self.read(s, s.a, "new solver %d (%s)" % (i, t))
            return
        s = self.s.get(o[1])
        if s is None:
            return
        where = "%s of solver %d (%s)" % (" ".join(str(x) for x in [k] + o[2:3]), s.i, s.t)
        if k == "solve":
            self.solve([o])
            self.read(s, s.a, where)
        elif k == "cbs":
            self.callbacks(s, o[2])
            self.agree(s, where)
        elif k == "set":
            n, v = o[2], o[3]
            if n not in COMMON and n not in OWN[s.t]:
                return
            v = bool(v) if n in BOOL else v
            x = self.attempt(lambda: setattr(s.a, n, v))
            y = self.attempt(lambda: oracle.set(s.b, n, float(v)))
            self.saw("set.refused" if y[0] == "raised" else "set.done")
            self.note(where, y)
            if x[:2] != y[:2] if y[0] == "raised" else x != y:
                raise Violation("C22.set", "%s to %r %s, from C++ it %s" % (where, v, " ".join(map(str, x)),
                                                                       " ".join(map(str, y))))
            self.agree(s, where)
            self.read(s, s.a, where)
        elif k == "setlist":
            n = o[2]
            v = oracle.values(s.b)
            if n not in v or (n in ("y", "z") and s.t != "CSQP") or (n == "lag_mul" and s.t == "PROXQP") or (
                    n in ("xs", "us") and s.t not in ("CSQP", "PROXQP")):
                return
            if n == "alphas":
                new = {"scaled": [0.9 * a for a in v[n]], "desc": [1.0, 0.5, 0.1], "short": [0.3],
                       "neg": [1.0, 2.0]}[o[3]]
                py = new
            else:
                new = [(1.01 * np.frombuffer(x)).tolist() for x in v[n]]
                if o[3] in ("short",) and n in ("xs", "us"):
                    new = new[:-1]
                py = crocoddyl.StdVec_VectorX()
                py.extend([np.array(x) for x in new])
            if n == "alphas":
                py = list(new)
            x = self.attempt(lambda: setattr(s.a, n, py))
            y = self.attempt(lambda: oracle.set(s.b, n, new))
            self.note(where, y)
            if x[:2] != y[:2] if y[0] == "raised" else x != y:
                raise Violation("C22.set", "%s %s, from C++ it %s" % (where, " ".join(map(str, x)),
                                                                    " ".join(map(str, y))))
            self.agree(s, where)
            self.read(s, s.a, where)
        elif k == "call":
            m, a = o[2], o[3]
            if m not in [n for n, _ in METHODS[s.t]] or not oracle.values(s.b)["iter"] + self.solves:
                return
            if not getattr(s, "ready", False):
                # the members work on what a solve prepared
                self.solve([["solve", s.i, {"n": 3, "it": 2, "feas": 0, "reg": -1.0, "xs": "zero", "kw": 0, "g": 0}]])
                s.ready = True
            isb = m in ("calc", "computeDirection")
            arg = bool(a) if isb else a
            oracle.capture()
            x = self.attempt(lambda: getattr(s.a, m)(*([] if a is None else [arg])))
            oracle.captured()
            oracle.capture()
            y = self.attempt(lambda: oracle.call(s.b, m, float(a or 0)))
            oracle.captured()
            self.saw("member.called")
            self.note(where, y)
            if x[0] == "value":
                x = (x[0], None if x[1] is None or y[0] == "value" and y[1] is None else flat(x[1]))
            if not (x[0] == y[0] and same(x[1], y[1])):
                raise Violation("C22.member", "%s %s, from C++ it %s" % (where, " ".join(map(show, x)), " ".join(map(show, y))))
            self.agree(s, where)
        elif k == "copy":
            n = o[2]
            if n in ("xs", "us") and s.t not in ("CSQP", "PROXQP") or n in ("dx", "du") and s.t in ("DDP", "FDDP"):
                return  # crocoddyl's own properties, or none
            if n == "callbacks":
                l = s.a.getCallbacks()
                before = len(l)
                del l[:]
                now = len(s.a.getCallbacks())
                ok = before == now
            else:
                l = getattr(s.a, n)
                for i in range(len(l)):
                    l[i] = l[i] * 2.0 + 1.0
                ok = True
            self.saw("copy.changed")
            if not ok:
                raise Violation("C22.copy", "changing the list read from %s changed the solver" % where)
            self.agree(s, where + ", whose result was changed")
        elif k == "bad":
            bad = [lambda: s.a.solve(3), lambda: s.a.solve([1, 2]), lambda: s.a.setCallbacks([None, 3]),
                   lambda: setattr(s.a, "KKT", 3.0), lambda: setattr(s.a, "termination_tolerance", "x"),
                   lambda: s.a.solve([], [], -3)][o[2]]
            oracle.capture()
            x = self.attempt(bad)
            oracle.captured()
            self.fire("bad_call")
            if x[0] == "value":
                raise Violation("C22.bad", "%s: a call with wrong arguments was accepted" % where)
            self.agree(s, where)
        elif k == "dels":
            self.fire("forget:solver")
            self.forget(s)

    def forget(self, s):
        gone = s.gone + [w for w in s.weak]
        self.s[s.i] = None
        s.recs, s.a, s.b = [], None, None
        gc.collect()
        self.saw("released", len(gone))
        for w in gone:
            if w() is not None:
                raise Violation("C22.leak", "solver %d (%s) is gone, but a callback it had is not" % (s.i, s.t))

    def go(self):
        self.par = False
        self.s = {}
        self.p = [self.problem(p) for p in self.plan["problems"]]
        self.q = [self.problem(p) for p in self.plan["problems"]]
        for o in self.plan["ops"]:
            self.op(o)
        # callbacks live as long as the solver, no longer
        for s in list(self.s.values()):
            if s is not None:
                for w in s.weak:
                    if w() is None:
                        raise Violation("C22.alive", "a callback of solver %d (%s) is gone while the solver lives" % (s.i, s.t))
                self.forget(s)
        weak = [w for side in self.p for w in side.weak]
        self.p = self.q = None
        gc.collect()
        for w in weak:
            if w() is not None:
                raise Violation("C22.leak", "all solvers and problems are gone, but a model is not")


def execute(plan):
    gc.collect()
    gc.disable()  # collections happen where the plan says
    r = Run(plan)
    viol = None
    try:
        r.go()
    except Violation as v:
        viol = [v.cls, v.msg]
    finally:
        clock.simclock_set(0, 0, 0)
    r.s, r.p, r.q = {}, None, None
    res = {"viol": viol, "hash": hashlib.sha256(r.h.digest() + repr(viol).encode()).hexdigest()[:16],
           "sig": hashlib.sha256(repr(r.sig).encode()).hexdigest()[:12], "fired": r.fired,
           "probe": r.probe, "evals": r.evals, "solves": r.solves, "inter": r.inter}
    return res


def main():
    a = sys.argv[1:]
    if a[0] == "gen":
        print(json.dumps(gen(int(a[1])), indent=None))
        return
    out = os.fdopen(os.dup(1), "w")
    load()
    if a[0] == "plan":
        text = "".join(l for l in open(a[1]) if not l.startswith("#"))
        out.write("START -\n")
        out.flush()
        out.write("RESULT " + json.dumps(execute(json.loads(text))) + "\n")
        out.flush()
        os._exit(0)
    seed, first, count, stride, secs = int(a[1]), int(a[2]), int(a[3]), int(a[4]), float(a[5])
    t0 = time.monotonic()
    i = first
    for _ in range(count):
        if time.monotonic() - t0 > secs:
            break
        s = seed * 1000003 + i
        out.write("START %d\n" % i)
        out.flush()
        out.write("RESULT " + json.dumps(execute(gen(s))) + "\n")
        out.flush()
        i += stride
    out.write("DONE\n")
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
