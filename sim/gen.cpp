// Seeded generation of plans, swarm style: every run draws its own sizes,
// settings, operations and enabled fault kinds.
#include <cmath>

#include <cstring>
#include <map>
#include <algorithm>

#include "plan.hpp"

namespace sim {
namespace {
typedef std::string str;

struct Gen {
  rt::Rng r;
  Plan p;
  str prop;
  bool deep;
  std::map<int, Line> probs;
  std::map<int, str> kinds;
  std::map<int, int> prob_of;
  int nop = 0;
  uint64_t seed0 = 0;

  Gen(const str& prop, uint64_t seed, bool deep)
      : r(rt::mix(seed, 0x9E37 + prop[1] * 256 + prop[2])), prop(prop), deep(deep), seed0(seed) {}

  str pick(std::initializer_list<const char*> l) {
    auto it = l.begin();
    std::advance(it, static_cast<long>(r.below(l.size())));
    return *it;
  }
  double pickd(std::initializer_list<double> l) {
    auto it = l.begin();
    std::advance(it, static_cast<long>(r.below(l.size())));
    return *it;
  }
  // weighted choice of solver kind
  str kind(double csqp, double sqp, double prox, double ddp, double fddp) {
    double u = r.uni() * (csqp + sqp + prox + ddp + fddp);
    if ((u -= csqp) < 0) return "csqp";
    if ((u -= sqp) < 0) return "sqp";
    if ((u -= prox) < 0) return "prox";
    if ((u -= ddp) < 0) return "ddp";
    return "fddp";
  }
  double logu(double a, double b) { return std::exp(r.real(std::log(a), std::log(b))); }
  double round3(double v) {
    char b[32];
    std::snprintf(b, sizeof b, "%.3g", v);
    return std::strtod(b, nullptr);
  }
  long logn(long a, long b) {
    return static_cast<long>(std::floor(logu(static_cast<double>(a), static_cast<double>(b) + 0.999)));
  }

  void env(bool fast = true) {
    Line l;
    l.verb = "env";
    int f = r.chance(0.5) ? 2 : r.range(0, 4);
    l.seti("fill", f).setu("seed", r.below(1u << 20));
    l.setu("cpu", static_cast<uint64_t>(pickd({5000, 20000, 100000})));
    l.setu("read", static_cast<uint64_t>(pickd({0, 20, 50, 1000})));
    if (r.chance(0.3)) l.setu("mono0", 1 + r.below(1000000000000ull));
    l.setu("steps", fast ? 400000000ull : 400000000ull);
    p.lines.push_back(l);
  }
  str cons_letters(int maxn, double pany, const char* from) {
    if (!r.chance(pany)) return "-";
    int n = r.range(1, maxn);
    str s;
    for (int i = 0; i < n; ++i) s += from[r.below(strlen(from))];
    return s;
  }
  struct PStyle {
    int Tmin = 1, Tmax = 5, nmax = 3;
    double pcons = 0.7, phess = 0.1, pnl = 0.6, pwall = 0.05, pcircle = 0.2;
    const char* letters = "l1eouf";
  };
  void problem(int id, const PStyle& st) {
    Line l;
    l.verb = "problem";
    l.seti("id", id);
    int tmax = deep ? st.Tmax + 4 : st.Tmax;
    l.seti("T", r.range(st.Tmin, tmax));
    l.seti("n", r.range(1, st.nmax)).seti("nu", r.range(1, 3));
    l.seti("circle", r.chance(st.pcircle));
    const uint64_t ps = 1 + r.below(1u << 24);
    l.setu("seed", ps);
    if (rt::mix(ps, 0x2E80) % 8 == 0) l.set("zeronu", ps % 3 ? 0.3 : 1.0);
    if (r.chance(st.pnl)) l.set("nl", pickd({0.05, 0.2, 0.5, 1.0, 2.0}));
    if (r.chance(0.4 * st.pnl)) l.set("nlc", pickd({0.3, 1.0, 4.0}));
    str c = cons_letters(3, st.pcons, st.letters);
    l.set("cons", c);
    str tl;
    for (const char* q = st.letters; *q; ++q)
      if (*q != 'u') tl += *q;
    l.set("tcons", cons_letters(2, st.pcons * 0.6, tl.c_str()));
    if (r.chance(st.phess)) l.seti("hess", r.range(1, 2));
    if (r.chance(st.pwall)) l.set("wall", pickd({0.6, 1.2, 2.0}));
    if (r.chance(0.3)) l.set("rscale", pickd({0.02, 0.2, 5.0}));
    l.set("x0", pickd({0.3, 1.0, 2.0}));
    if (r.chance(0.3)) l.set("vary", 0.5);
    if (r.chance(0.2)) l.set("varynu", 0.5);
    if (rt::mix(ps, 0x1A7E) % 3 == 0) l.seti("late", 1);
    probs[id] = l;
    p.lines.push_back(l);
  }
  void solver(int id, const str& kind, int prob, bool late = false) {
    Line l;
    l.verb = "solver";
    l.seti("id", id).set("kind", kind).seti("prob", prob);
    if (late) l.seti("late", 1);
    kinds[id] = kind;
    prob_of[id] = prob;
    p.lines.push_back(l);
  }
  bool set_later = false;
  void set(int s, const char* k, double v) {
    if (set_later) return set_op(s, k, v);
    Line l;
    l.verb = "set";
    l.seti("s", s).set("k", k).set("v", v);
    p.lines.push_back(l);
  }
  void set_op(int s, const char* k, double v) {
    Line l;
    l.verb = "op";
    l.seti("n", nop++).set("do", "set").seti("s", s).set("k", k).set("v", v);
    p.lines.push_back(l);
  }
  // Some settings; ls: those of the line search, qp: of the inner QP, reg: of
  // the regularization.
  void settings(int s, double dens, bool ls, bool qp, bool reg) {
    const str& k = kinds[s];
    const bool sq = k == "csqp" || k == "sqp" || k == "prox";
    auto c = [&](double f = 1) { return r.chance(dens * f); };
    if (ls) {
      if (c() && k != "ddp") set(s, "filter_size", r.range(1, 6));
      if (c() && k != "ddp") set(s, "use_filter", 0);
      if (c() && sq) set(s, "mu_dyn", pickd({0, 0.1, 1, 10, 1000}));
      if (c() && (k == "csqp" || k == "prox")) set(s, "mu_con", pickd({0, 0.1, 1, 10, 1000}));
      if (c(0.6)) set(s, "n_alphas", r.range(1, 14));
      if (c(0.6)) set(s, "a_ratio", pickd({0.1, 0.3, 0.5, 0.8}));
      if (!sq && c(0.4)) set(s, "th_grad", pickd({0, 1e-9, 1e-3, 1}));
      if (k == "fddp" && c(0.4)) set(s, "th_accneg", pickd({0, 0.5, 1, 5}));
      if (c(0.5) && k == "csqp") {
        set(s, "use_filter", 0);
        set(s, "mu_dyn", -1);
        set(s, "lag_coef", pickd({0.1, 1, 10}));
      }
    }
    if (qp && (k == "csqp" || k == "prox")) {
      // seldom the default of a thousand inner iterations
      set(s, "max_qp", static_cast<double>(logn(1, 120)));
      if (c()) set(s, "eps_abs", round3(logu(1e-12, 1e-2)));
      if (c()) set(s, "eps_rel", pickd({0, 1e-10, 1e-6, 1e-3}));
    }
    if (qp && k == "csqp") {
      if (c()) set(s, "alpha", pickd({0.5, 1.0, 1.3, 1.6, 1.9}));
      if (c()) set(s, "sigma", pickd({1e-9, 1e-6, 1e-3, 0.1}));
      if (c()) set(s, "rho_interval", r.range(1, 30));
      if (c()) set(s, "rho_tol", r.range(1, 10));
      if (c()) set(s, "rho_heur", 1);
      if (c()) set(s, "reset_rho", 1);
      if (c(0.5)) set(s, "remove_reg", 1);
    }
    if (qp && (k == "csqp" || k == "sqp") && c()) set(s, "extra", 1);
    if (reg) {
      if (c()) set(s, "reg_min", pickd({1e-12, 1e-9, 1e-6, 1e-3}));
      if (c()) set(s, "reg_max", pickd({1e-2, 1, 1e3, 1e9}));
      if (c()) set(s, "reg_inc", pickd({2, 10, 50}));
      if (c()) set(s, "reg_dec", pickd({2, 10, 50}));
      if (c()) set(s, "th_dec", pickd({0.3, 0.5, 0.9}));
      if (c()) set(s, "th_inc", pickd({0.0005, 0.01, 0.2}));
    }
  }
  // a value that the setter has to refuse
  void bad_set(int s) {
    struct B {
      const char* k;
      double v;
    };
    static const B b[] = {{"reg_min", -1e-9}, {"reg_max", -1},  {"reg_inc", 1},   {"reg_inc", 0.1},
                          {"reg_dec", 1},     {"reg_dec", -2},  {"th_dec", 0},    {"th_dec", 1.5},
                          {"th_inc", 0},      {"th_inc", 1.01}, {"th_grad", -1},  {"alphas", 0},
                          {"alphas", 1},      {"alphas", 2},    {"alphas", 3},    {"th_accneg", -0.5}};
    const B& x = b[r.below(kinds[s] == "fddp" ? 16 : 15)];
    Line l;
    l.verb = "op";
    l.seti("n", nop++).set("do", "badset").seti("s", s).set("k", x.k).set("v", x.v);
    p.lines.push_back(l);
  }
  // the settings that make a reused object comparable bit by bit
  void reset_mode(int s) {
    if (kinds[s] == "csqp") set(s, "reset_y", 1);
  }
  Line& solve(int s, int maxit) {
    Line l;
    l.verb = "op";
    l.seti("n", nop++).set("do", "solve").seti("s", s);
    const str& k = kinds[s];
    const bool dd = k == "ddp" || k == "fddp";
    str g = pick({"none", "keep", "rand", "rand", "rand", "zero", "roll"});
    l.set("guess", g);
    if (g == "rand" || g == "roll") {
      l.setu("gseed", 1 + r.below(100000)).set("gscale", pickd({0.1, 0.5, 1.5}));
      if (g == "rand" && r.chance(0.3)) l.seti("x0first", 1);
    }
    l.seti("maxiter", r.range(1, maxit));
    // no iteration at all is a solve, too
    if (rt::mix(seed0, 0x2E20 + static_cast<uint64_t>(nop)) % 24 == 0) l.seti("maxiter", 0);
    if (dd && g == "roll" && r.chance(0.5)) l.seti("feas", 1);
    if (r.chance(0.25)) l.set("reg", pickd({1e-9, 1e-6, 1e-3, 0.1, 10}));
    l.seti("eval", static_cast<long>(pickd({100, 1000, 20000})));
    p.lines.push_back(l);
    return p.lines.back();
  }
  int T(int s) { return static_cast<int>(probs[prob_of[s]].integer("T", 4)); }
  bool pcons(int s) {
    return probs[prob_of[s]].str("cons", "-") != "-" || probs[prob_of[s]].str("tcons", "-") != "-";
  }
  // nth evaluation that is to fail, biased towards the first iterations
  long when(int s, int maxit) {
    int n = T(s) + 1;
    if (r.chance(0.2)) return 1 + static_cast<long>(r.below(static_cast<uint64_t>(n)));
    return 1 + static_cast<long>(r.below(static_cast<uint64_t>(
                   2 * n * (1 + static_cast<int>(r.below(static_cast<uint64_t>(maxit)))))));
  }
  Line& model_fault(int op, int s, int maxit, std::initializer_list<const char*> ks,
                    const char* meth = nullptr) {
    Line l;
    l.verb = "fault";
    l.seti("op", op).set("at", "model").set("kind", pick(ks));
    l.seti("nth", when(s, maxit));
    double u = r.uni();
    long len = u < 0.5 ? 1 : u < 0.7 ? r.range(2, T(s) + 1) : u < 0.85 ? r.range(5, 40) : 100000;
    l.seti("len", len);
    if (r.chance(0.4)) l.seti("node", r.range(0, T(s)));
    if (meth)
      l.set("meth", meth);
    else if (r.chance(0.3))
      l.set("meth", pick({"calc", "diff", "trial"}));
    p.lines.push_back(l);
    return p.lines.back();
  }
  Line& clock_fault(int op, const char* kind, double arg) {
    Line l;
    l.verb = "fault";
    l.seti("op", op).set("at", "clock").set("kind", kind);
    l.seti("nth", logn(1, 60)).seti("len", r.chance(0.8) ? 1 : r.range(2, 10));
    l.set("arg", std::floor(arg));
    p.lines.push_back(l);
    return p.lines.back();
  }
  Line& cb_fault(int op, const char* kind, double arg, int node = -1) {
    Line l;
    l.verb = "fault";
    l.seti("op", op).set("at", "cb").set("kind", kind).seti("nth", r.range(1, 4));
    if (node >= 0) l.seti("node", node);
    if (arg != 0) l.set("arg", std::floor(arg));
    p.lines.push_back(l);
    return p.lines.back();
  }
  void alloc_fault(int op) {
    Line l;
    l.verb = "fault";
    l.seti("op", op).set("at", "alloc").seti("nth", logn(1, 3000));
    double u = r.uni();
    l.seti("len", u < 0.6 ? 1 : u < 0.85 ? r.range(2, 30) : 1000000);
    p.lines.push_back(l);
  }
  void edit(int prob, bool dims) {
    const Line& pl = probs[prob];
    Line l;
    l.verb = "op";
    l.seti("n", nop++);
    str d = pick({"x0", "bounds", "append", "replace", "append", "replace"});
    l.set("do", d).seti("p", prob).setu("seed", 1 + r.below(1u << 20));
    int Tn = static_cast<int>(pl.integer("T", 4));
    if (d == "x0") l.set("scale", pickd({0.3, 1, 2}));
    if (d == "bounds") l.seti("t", r.range(0, Tn)).seti("type", r.chance(0.5));
    if (d == "append" || d == "replace") {
      if (d == "replace") l.seti("t", r.range(0, Tn));
      if (r.chance(0.5)) l.seti("data", 1);
      if (dims && r.chance(0.6)) {
        if (r.chance(0.6)) {
          const int nu = r.range(1, 4);
          l.seti("nu", l.integer("seed") % 8 == 3 ? 0 : nu);
        }
        if (r.chance(0.7)) l.set("cons", cons_letters(4, 0.8, "l1euf"));
        if (r.chance(0.7)) l.set("tcons", cons_letters(3, 0.8, "l1e"));
      }
    }
    p.lines.push_back(l);
  }
  double ns() { return std::floor(logu(1e3, 1e10)); }
};

const std::initializer_list<const char*> kAllEval = {
    "throw_std", "throw_croc", "throw_mid", "nan_cost", "inf_cost", "huge_cost", "nan_xnext",
    "inf_xnext", "nan_g",      "inf_g",     "nan_lx",   "nan_lu",   "nan_lxx",   "nan_luu",
    "nan_fx",    "nan_fu",     "nan_gx",    "inf_lx",   "inf_fx"};
const std::initializer_list<const char*> kCalc = {"throw_std", "throw_croc", "throw_mid",
                                                  "nan_cost",  "inf_cost",   "huge_cost",
                                                  "nan_xnext", "inf_xnext",  "nan_g", "inf_g"};
const std::initializer_list<const char*> kDiff = {"throw_std", "nan_lx", "nan_lu", "nan_lxx",
                                                  "nan_luu",   "nan_fx", "nan_fu", "nan_gx",
                                                  "inf_lx",    "inf_fx"};
}  // namespace

Plan gen_plan(const std::string& prop, uint64_t seed, bool deep) {
  Gen g(prop, seed, deep);
  rt::Rng& r = g.r;
  Gen::PStyle ps;
  auto one = [&](const str& kind, double dens, bool ls, bool qp, bool reg) {
    if (kind == "sqp" || kind == "ddp" || kind == "fddp") ps.pcons = 0.15;
    g.problem(0, ps);
    g.solver(0, kind, 0);
    g.settings(0, dens, ls, qp, reg);
  };

  if (prop == "C01") {
    g.env(false);
    str k = g.kind(0.45, 0.2, 0.1, 0.125, 0.125);
    ps.phess = 0.1;
    one(k, 0.15, true, true, true);
    if (k == "csqp" || k == "prox") {
      g.set(0, "max_qp", static_cast<double>(g.logn(5, 300)));
      if (r.chance(0.7)) g.set(0, "eps_abs", g.pickd({1e-10, 1e-7, 1e-5}));
      if (r.chance(0.7)) g.set(0, "eps_rel", 0);
    }
    g.set(0, "tol", g.pickd({1e-9, 1e-6, 1e-4, 1e-3, 1e-2, 0.1}));
    int n = r.range(1, 3);
    bool faulty = r.chance(0.75);
    for (int i = 0; i < n; ++i) {
      int mi = r.chance(0.3) ? 3 : 25;
      Line& l = g.solve(0, mi);
      if (k == "csqp" && r.chance(0.15)) l.set("budget", g.round3(g.logu(1e-6, 3e-3)));
      int op = g.nop - 1;
      if (faulty && r.chance(0.7)) g.model_fault(op, 0, std::min(mi, 10), kAllEval);
      if (faulty && r.chance(0.3)) g.model_fault(op, 0, std::min(mi, 10), kDiff);
    }
  } else if (prop == "C02") {
    g.env(false);
    ps.pcons = 0.85;
    one("csqp", 0.2, true, true, true);
    g.set(0, "max_qp", static_cast<double>(g.logn(3, 200)));
    if (r.chance(0.6)) {
      g.set(0, "eps_abs", 1e-12);
      g.set(0, "eps_rel", 0);
    }
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      Line& l = g.solve(0, 6);
      double u = r.uni();
      if (i > 0 && rt::mix(seed, 0xB6D + static_cast<uint64_t>(i)) % 3 == 0)
        l.seti("bkeep", 1);  // whatever the solve before it had
      else if (u < 0.75)
        l.set("bfrac", g.round3(r.real(0, 1.15)));
      else if (u < 0.9)
        l.set("babs", g.pickd({0, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 10}));
      int op = g.nop - 1;
      if (r.chance(0.35)) g.clock_fault(op, "stall", g.logu(1e3, 1e7));
      if (r.chance(0.2)) g.cb_fault(op, "stall", g.logu(1e3, 1e7), 0);
      if (r.chance(0.3)) {
        double a = g.ns();
        g.clock_fault(op, "wall", r.chance(0.5) ? a : -a);
      }
      if (r.chance(0.25)) {
        Line& f = g.model_fault(op, 0, 4, {"stall", "stall", "wall_jump"});
        double a = g.logu(1e3, 1e8);
        f.set("arg", std::floor(f.str("kind") == "wall_jump" && r.chance(0.5) ? -a : a));
        f.seti("len", 1);
      }
      if (r.chance(0.15)) g.model_fault(op, 0, 4, kAllEval).seti("len", r.range(1, 5));
    }
  } else if (prop == "C03") {
    g.env(false);
    str k = g.kind(0.85, 0.04, 0.03, 0.04, 0.04);
    ps.Tmin = 2;
    ps.Tmax = 8;
    ps.pcons = 0.85;
    one(k, 0.15, true, true, false);
    g.p.lines[1].seti("threads", r.range(2, 6));
    {
      Line l;
      l.verb = "sched";
      double u = r.uni();
      l.setu("seed", 1 + r.below(1u << 30)).seti("mode", u < 0.5 ? 0 : u < 0.9 ? 1 : 2);
      if (u < 0.5) l.seti("inv", static_cast<long>(g.pickd({2, 8, 32, 128, 1000})));
      if (r.chance(0.15)) l.seti("cap", r.range(1, 3));
      g.p.lines.push_back(l);
    }
    if (r.chance(0.3)) {
      Line l;
      l.verb = "obs";
      l.seti("s", 0).seti("mask", r.chance(0.7) ? 4 : r.range(1, 7));
      g.p.lines.push_back(l);
    }
    if (k == "csqp" || k == "prox") g.set(0, "max_qp", static_cast<double>(g.logn(1, 40)));
    if (k == "csqp" && r.chance(0.5)) g.set(0, "rho_interval", r.range(1, 8));
    int n = r.range(1, 2);
    for (int i = 0; i < n; ++i) {
      if (i && r.chance(0.4)) g.edit(0, k == "csqp");
      if (i && r.chance(0.15)) {
        Line l;
        l.verb = "op";
        l.seti("n", g.nop++).set("do", "threads").seti("p", 0).seti("n", r.range(1, 6));
        g.p.lines.push_back(l);
      }
      g.solve(0, 5);
      // one fault each: what the serial solver would evaluate after it differs
      if (r.chance(0.6)) {
        Line& f = r.chance(0.6)
                      ? g.model_fault(g.nop - 1, 0, 4, kCalc, "trial")
                      : g.model_fault(g.nop - 1, 0, 4,
                                      {"nan_cost", "nan_xnext", "nan_g", "huge_cost", "inf_cost",
                                       "nan_lx", "nan_luu", "nan_fx", "nan_gx", "inf_fx"}, "any");
        f.seti("node", r.range(0, g.T(0))).seti("nth", g.logn(1, 6));
        if (r.chance(0.7)) f.seti("len", r.range(1, 4));
      }
    }
  } else if (prop == "C04") {
    g.env(false);
    str k = g.kind(0.45, 0.25, 0.1, 0.1, 0.1);
    ps.pwall = 0.2;
    one(k, 0.15, true, true, false);
    int n = r.range(1, 2);
    for (int i = 0; i < n; ++i) {
      g.solve(0, 8);
      int op = g.nop - 1, nf = r.range(1, 3);
      for (int j = 0; j < nf; ++j) {
        Line& f = g.model_fault(op, 0, 6, kCalc, r.chance(0.8) ? "trial" : "calc");
        if (f.str("meth") == "trial" && r.chance(0.5))
          f.seti("nth", r.range(1, 3 * (g.T(0) + 1)));
      }
      if (r.chance(0.2)) g.model_fault(op, 0, 6, kDiff);
    }
    g.solve(0, 4);
  } else if (prop == "C17") {
    g.env(false);
    str k = g.kind(0, 0, 0, 0.4, 0.6);
    ps.pnl = 0.95;
    ps.pwall = 0.1;
    ps.phess = 0.1;
    one(k, 0.35, true, false, r.chance(0.3));
    if (r.chance(0.5)) g.p.lines[1].set("nl", g.pickd({1, 2, 3}));
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      if (i && k == "fddp" && r.chance(0.4)) g.set_op(0, "filter_size", r.range(1, 6));
      if (i && k == "fddp" && r.chance(0.3)) g.set_op(0, "use_filter", r.range(0, 1));
      if (i && r.chance(0.25)) g.edit(0, true);
      Line& l = g.solve(0, 10);
      if (l.has("gscale")) l.set("gscale", g.pickd({0.5, 1.5, 4}));
      int nf = r.chance(0.5) ? r.range(1, 2) : 0;
      for (int j = 0; j < nf; ++j) {
        Line& f = g.model_fault(g.nop - 1, 0, 6, kCalc, r.chance(0.8) ? "trial" : nullptr);
        if (r.chance(0.5)) f.seti("nth", r.range(1, 3 * (g.T(0) + 1)));
      }
      if (r.chance(0.15)) g.model_fault(g.nop - 1, 0, 6, kDiff);
    }
  } else if (prop == "C18") {
    g.env(false);
    str k = g.kind(0, 0.35, 0.15, 0.25, 0.25);
    ps.pnl = 0.9;
    ps.pcons = k == "prox" ? 0.8 : 0.1;
    ps.pwall = 0.1;
    ps.phess = k == "prox" ? 0.05 : 0.2;
    one(k, 0.35, r.chance(0.3), k == "prox", r.chance(0.3));
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      if (i && r.chance(0.4)) g.edit(0, true);
      Line& l = g.solve(0, 8);
      if (r.chance(0.3)) l.set("reg", g.pickd({1e-6, 1e-3, 0.1, 1}));
      int nf = r.chance(0.6) ? r.range(1, 2) : 0;
      for (int j = 0; j < nf; ++j)
        g.model_fault(g.nop - 1, 0, 6, r.chance(0.5) ? kDiff : kCalc, r.chance(0.3) ? "trial" : nullptr);
    }
  } else if (prop == "C19") {
    g.env(false);
    str k = g.kind(0.3, 0.2, 0.15, 0.15, 0.2);
    one(k, 0.1, true, true, true);
    g.reset_mode(0);
    int n = r.range(2, 4);
    for (int i = 0; i < n; ++i) {
      if (r.chance(0.5)) g.bad_set(0);
      if (i && r.chance(0.8)) {
        g.set_later = true;
        g.settings(0, 0.2, r.chance(0.6), r.chance(0.6), r.chance(0.5));
        g.set_later = false;
      }
      if (r.chance(0.5)) g.bad_set(0);
      Line& l = g.solve(0, 6);
      if (i + 1 < n && k == "csqp" && r.chance(0.2)) l.set("budget", g.round3(g.logu(1e-6, 2e-3)));
      int op = g.nop - 1;
      if (i + 1 < n && r.chance(0.5)) {
        if (r.chance(0.8))
          g.model_fault(op, 0, 5, kAllEval);
        else
          g.cb_fault(op, r.chance(0.5) ? "throw" : "throw_int", 0);
      }
    }
  } else if (prop == "C05") {
    g.env(false);
    str k = g.kind(0.5, 0.35, 0.15, 0, 0);
    ps.pnl = 0.95;
    ps.pwall = 0.1;
    ps.phess = 0.05;
    one(k, 0.3, true, true, false);
    if (r.chance(0.5)) g.p.lines[1].set("nl", g.pickd({1, 2, 3}));
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      if (i && r.chance(0.5)) g.set_op(0, "filter_size", r.range(1, 6));
      if (i && r.chance(0.3)) g.set_op(0, "use_filter", r.range(0, 1));
      Line& l = g.solve(0, 10);
      l.set("gscale", g.pickd({0.5, 1.5, 4}));
      if (r.chance(0.2)) g.model_fault(g.nop - 1, 0, 6, kCalc, "trial");
    }
  } else if (prop == "C06") {
    g.env(false);
    ps.pcons = 0.95;
    ps.Tmax = 4;
    one("csqp", 0.35, r.chance(0.3), true, false);
    g.set(0, "max_qp", static_cast<double>(g.logn(1, 90)));
    if (r.chance(0.35)) g.set(0, "eq_guess", 0);
    if (r.chance(0.5)) g.set(0, "reset_y", 1);
    if (r.chance(0.4)) g.set(0, "rho_interval", r.range(1, 8));
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      if (i && r.chance(0.3)) g.edit(0, false);
      if (i && r.chance(0.2)) g.set_op(0, "max_qp", r.range(1, 40));
      if (i && r.chance(0.2)) g.set_op(0, "reset_rho", r.range(0, 1));
      Line& l = g.solve(0, 5);
      if (r.chance(0.3)) l.set("budget", g.round3(g.logu(1e-5, 5e-3)));
      if (r.chance(0.15)) g.clock_fault(g.nop - 1, "stall", g.logu(1e3, 1e7));
      if (r.chance(0.1)) g.model_fault(g.nop - 1, 0, 4, kCalc, "trial");
    }
  } else if (prop == "C07") {
    g.env(false);
    str k = g.kind(0.55, 0.3, 0.15, 0, 0);
    one(k, 0.2, true, true, true);
    if (k == "csqp") {
      if (r.chance(0.65))
        g.reset_mode(0);
      else if (r.chance(0.4))
        g.set(0, "eq_guess", 0);
    }
    // a budget no solve comes near, unless time stands still in one of them
    const bool ample = k == "csqp" && rt::mix(seed, 0xA3B1E) % 6 == 0;
    int n = r.range(2, 4);
    for (int i = 0; i < n; ++i) {
      const bool last = i + 1 == n;
      if (i && r.chance(0.3)) {
        if (k == "csqp" && r.chance(0.5)) {
          g.set_op(0, g.pick({"reset_rho", "rho_heur", "remove_reg", "extra"}).c_str(), r.range(0, 1));
        } else {
          str s = g.pick({"filter_size", "n_alphas"});
          g.set_op(0, s.c_str(), r.range(1, 6));
        }
      }
      Line& l = g.solve(0, 6);
      if (!last && k == "csqp" && r.chance(0.25)) l.set("budget", g.round3(g.logu(1e-6, 2e-3)));
      if (ample) l.set("budget", 1000.0);
      int op = g.nop - 1;
      if (ample && !last && r.chance(0.6)) g.clock_fault(op, "stall", 2e12);
      if (!last && r.chance(0.7)) {
        double u = r.uni();
        if (u < 0.65)
          g.model_fault(op, 0, 5, kAllEval);
        else if (u < 0.75)
          g.model_fault(op, 0, 5, {"throw_int"});
        else if (u < 0.9)
          g.cb_fault(op, r.chance(0.5) ? "throw" : "throw_int", 0);
        else
          g.alloc_fault(op);
      }
    }
  } else if (prop == "C08") {
    g.env(false);
    str k = g.kind(0.5, 0.2, 0.12, 0.09, 0.09);
    one(k, 0.15, true, true, true);
    if (r.chance(0.8)) g.reset_mode(0);
    const bool dims = true;
    // a second solver may share the problem
    const bool two = g.p.lines[1].u64("seed") % 10 < 3;
    if (two) {
      g.solver(1, g.kind(0.35, 0.25, 0.1, 0.15, 0.15), 0);
      g.settings(1, 0.15, true, true, true);
      if (r.chance(0.8)) g.reset_mode(1);
    }
    if (r.chance(0.25)) g.edit(0, dims);
    if (r.chance(0.8)) g.solve(two && r.chance(0.5) ? 1 : 0, 4);
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) {
      int e = r.range(1, 2);
      if (two && r.chance(0.4)) e = 0;
      for (int j = 0; j < e; ++j) {
        g.edit(0, dims);
        Line& q = g.p.lines.back();
        if ((q.str("do") == "append" || q.str("do") == "replace") && q.u64("seed") % 40 == 5)
          q.seti("nh", 1);
      }
      const int s = two && r.chance(0.5) ? 1 : 0;
      g.solve(s, 4);
      if (r.chance(0.1)) g.model_fault(g.nop - 1, s, 3, kAllEval);
    }
  } else if (prop == "C09") {
    g.env(true);
    str k = g.kind(0.3, 0.2, 0.1, 0.2, 0.2);
    ps.phess = 0.5;
    ps.Tmax = 4;
    one(k, 0.3, true, true, true);
    if (k == "csqp" || k == "prox") g.set(0, "max_qp", r.range(1, 20));
    if (r.chance(0.2)) g.set(0, "reg_min", 0);
    int n = r.range(1, 2);
    for (int i = 0; i < n; ++i) {
      Line& l = g.solve(0, 5);
      if (r.chance(0.2)) l.set("reg", 0.0);
      int nf = r.range(0, 2);
      for (int j = 0; j < nf; ++j) {
        Line& f = g.model_fault(g.nop - 1, 0, 4, kAllEval);
        if (r.chance(0.6)) f.seti("len", 1000000);
      }
      if (r.chance(0.1)) g.alloc_fault(g.nop - 1);
    }
  } else if (prop == "C10") {
    g.env(false);
    str k = g.kind(0.35, 0.2, 0.15, 0.15, 0.15);
    ps.pwall = 0.1;
    one(k, 0.2, true, true, true);
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      if (i && r.chance(0.15)) g.edit(0, k != "prox" && k != "ddp" && k != "fddp");
      Line& l = g.solve(0, 6);
      if (k == "csqp" && r.chance(0.2)) l.set("budget", g.round3(g.logu(1e-6, 2e-3)));
      int op = g.nop - 1;
      if (r.chance(0.8)) {
        double u = r.uni();
        if (u < 0.5)
          g.model_fault(op, 0, 5, kAllEval);
        else if (u < 0.6)
          g.model_fault(op, 0, 5, {"throw_int"});
        else if (u < 0.8 && k != "prox")
          g.cb_fault(op, r.chance(0.5) ? "throw" : "throw_int", 0);
        else
          g.alloc_fault(op);
      }
    }
  } else if (prop == "C11") {
    g.env(false);
    str k = g.kind(0.42, 0.32, 0.1, 0.08, 0.08);
    one(k, 0.2, true, true, true);
    if (r.chance(0.4)) g.set(0, "tol", g.pickd({1e-4, 1e-2, 0.1}));
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      Line& l = g.solve(0, 8);
      if (k == "csqp" && r.chance(0.2)) l.set("budget", g.round3(g.logu(1e-6, 2e-3)));
      if (r.chance(0.45)) g.model_fault(g.nop - 1, 0, 6, kAllEval);
      if (r.chance(0.1)) g.cb_fault(g.nop - 1, "throw", 0);
    }
    if (r.chance(0.4)) {
      Line l;
      l.verb = "obs";
      l.seti("s", 0).seti("mask", r.range(1, 3));
      g.p.lines.push_back(l);
    }
  } else if (prop == "C12") {
    g.env(false);
    int m = r.range(2, 3);
    for (int i = 0; i < m; ++i) {
      str k = g.kind(0.5, 0.2, 0.15, 0.075, 0.075);
      Gen::PStyle q;
      q.Tmax = 4;
      if (k != "csqp" && k != "prox") q.pcons = 0.15;
      g.problem(i, q);
    // kinds decided before the problem, so that the problem suits the solver
      g.solver(i, k, i);
      g.settings(i, 0.2, true, true, true);
      if (r.chance(0.3)) {
        Line l;
        l.verb = "obs";
        l.seti("s", i).seti("mask", r.range(0, 3));
        g.p.lines.push_back(l);
      }
    }
    {
      Line l;
      l.verb = "sched";
      double u = r.uni();
      l.setu("seed", 1 + r.below(1u << 30)).seti("mode", u < 0.5 ? 0 : 1);
      if (u < 0.5) l.seti("inv", static_cast<long>(g.pickd({8, 64, 500, 4000})));
      g.p.lines.push_back(l);
    }
    int groups = r.range(1, 2);
    for (int c = 0; c < groups; ++c) {
      // one solve of every solver; from different threads where there are any
      for (int s = 0; s < m; ++s) {
        g.solve(s, 4).seti("conc", c);
        if (r.chance(0.2)) g.model_fault(g.nop - 1, s, 4, kAllEval);
      }
    }
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) {
      int s = r.range(0, m - 1);
      g.solve(s, 4);
      if (r.chance(0.35)) g.cb_fault(g.nop - 1, "nested", 0);
      if (r.chance(0.3)) g.model_fault(g.nop - 1, s, 4, kAllEval);
    }
  } else if (prop == "C13") {
    g.env(false);
    str k = g.kind(0.4, 0.2, 0.15, 0.125, 0.125);
    ps.Tmax = 4;
    one(k, 0.15, true, true, true);
    if (r.chance(0.7)) g.reset_mode(0);
    if (k == "csqp" || k == "prox") g.set(0, "max_qp", r.range(1, 30));
    if (r.chance(0.35)) {
      Line l;
      l.verb = "op";
      l.seti("n", g.nop++).set("do", "new").seti("s", 0);
      g.p.lines.push_back(l);
      g.alloc_fault(g.nop - 1);
      if (r.chance(0.6)) g.p.lines.back().seti("nth", g.logn(1, 300));
    }
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      if (r.chance(0.25)) g.edit(0, k != "prox" && k != "ddp" && k != "fddp");
      g.solve(0, 3);
      if (r.chance(0.85)) g.alloc_fault(g.nop - 1);
      if (r.chance(0.1)) g.model_fault(g.nop - 1, 0, 3, kAllEval);
    }
    g.solve(0, 3);
  } else if (prop == "C14") {
    g.env(false);
    str k = g.kind(0.5, 0.2, 0.1, 0.1, 0.1);
    one(k, 0.2, true, true, true);
    if (r.chance(0.8)) g.reset_mode(0);
    {
      Line l;
      l.verb = "obs";
      l.seti("s", 0).seti("mask", r.range(1, 31));
      g.p.lines.push_back(l);
    }
    const bool thr = k != "prox" && r.chance(0.6);
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      g.solve(0, 5);
      int op = g.nop - 1;
      if (r.chance(0.3)) g.model_fault(op, 0, 4, kAllEval);
      if (thr && r.chance(0.6))
        g.cb_fault(op, r.chance(0.6) ? "throw" : "throw_int", 0, r.range(0, 1));
    }
    if (thr) g.solve(0, 3);
  } else if (prop == "C15") {
    g.env(false);
    str k = g.kind(0.4, 0.2, 0.12, 0.14, 0.14);
    if (k == "csqp" && r.chance(0.15)) ps.letters = "l1eoufx";
    one(k, 0.25, true, true, true);
    if (k == "csqp" && r.chance(0.4)) g.set(0, "eq_guess", 0);
    if (k == "csqp" && r.chance(0.3)) g.set(0, "reset_y", 1);
    if (r.chance(0.5)) {
      Line l;
      l.verb = "obs";
      l.seti("s", 0).seti("mask", r.range(1, 3));
      g.p.lines.push_back(l);
    }
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      if (i && r.chance(0.3)) g.edit(0, k == "csqp" || k == "sqp");
      g.solve(0, 4);
      if (r.chance(0.45)) g.model_fault(g.nop - 1, 0, 3, kAllEval);
    }
  } else if (prop == "C20") {
    g.env(false);
    const str ks[2] = {g.kind(0.3, 0.2, 0.1, 0.2, 0.2), g.kind(0.2, 0.2, 0.1, 0.25, 0.25)};
    const bool two = r.chance(0.35);  // solvers that share the problem
    if (two || (ks[0] != "csqp" && ks[0] != "prox")) ps.pcons = 0.3;
    ps.pwall = 0.1;
    ps.phess = 0.2;
    g.problem(0, ps);
    g.solver(0, ks[0], 0);
    g.settings(0, 0.2, true, true, r.chance(0.4));
    if (r.chance(0.5)) g.set(0, "tol", g.pickd({1e-6, 1e-3, 1e-2, 0.1}));
    if (two) {
      g.solver(1, ks[1], 0);
      g.settings(1, 0.2, true, true, r.chance(0.4));
    }
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) {
      const int s = two ? r.range(0, 1) : 0;
      if (i && r.chance(0.3)) g.edit(0, true);
      Line& l = g.solve(s, 8);
      if (ks[s] == "csqp" && r.chance(0.2)) l.set("budget", g.round3(g.logu(1e-6, 2e-3)));
      int op = g.nop - 1;
      if (r.chance(0.6)) {
        int nf = r.range(1, 2);
        for (int j = 0; j < nf; ++j)
          g.model_fault(op, s, 6, kAllEval, r.chance(0.4) ? "trial" : nullptr);
      }
      if (r.chance(0.15) && ks[s] != "prox") g.cb_fault(op, r.chance(0.5) ? "throw" : "throw_int", 0);
      if (r.chance(0.1)) g.alloc_fault(op);
    }
  } else if (prop == "C21") {
    g.env(false);
    str k = g.kind(0.4, 0.25, 0.1, 0.1, 0.15);
    ps.pwall = 0.15;
    ps.phess = 0.1;
    ps.pnl = 0.9;
    ps.pcircle = 0;  // moving by nothing rounds there, also at the initial state
    one(k, 0.25, true, true, r.chance(0.5));
    g.set(0, "filter_size", 1);
    g.set(0, "extra", 0);
    if (k == "csqp") {
      g.set(0, "reset_rho", 1);
      if (r.chance(0.8)) g.reset_mode(0);
      else if (r.chance(0.5)) g.set(0, "eq_guess", 0);
    }
    if (r.chance(0.5)) g.set(0, "tol", g.pickd({1e-9, 1e-6, 1e-3}));
    Line& l = g.solve(0, 12);
    l.seti("maxiter", r.range(2, 12));
    if (l.str("guess") == "keep") l.set("guess", "none");
    if (l.has("gscale")) l.set("gscale", g.pickd({0.5, 1.5, 3}));
  } else if (prop == "C16") {
    g.env(false);
    str k = g.kind(0.4, 0.27, 0.13, 0.1, 0.1);
    ps.phess = 0.5;
    ps.pnl = 0.8;
    ps.pwall = 0.1;
    one(k, 0.35, true, true, true);
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      Line& l = g.solve(0, 8);
      l.set("gscale", g.pickd({0.5, 1.5, 4}));
      if (r.chance(0.35)) g.model_fault(g.nop - 1, 0, 6, kAllEval).seti("len", r.range(1, 4));
    }
  }
  return g.p;
}
}  // namespace sim
