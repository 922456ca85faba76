#include "exec.hpp"

#include <algorithm>
#include <cmath>
#include <crocoddyl/core/utils/exception.hpp>
#include <crocoddyl/core/utils/stop-watch.hpp>
#include <iostream>
#include <limits>
#include <new>

#include "mim_solvers/utils/callbacks.hpp"
#ifdef SIM_MT
#include "sched.hpp"
#endif

namespace sim {
static const double INF = std::numeric_limits<double>::infinity();

double Cfg::dflt(const std::string& k) {
  static const std::map<std::string, double> d = {
      {"tol", 1e-6},     {"filter_size", 1}, {"use_filter", 1}, {"mu_con", 10},
      {"lag_coef", 10},  {"alpha", 1.6},     {"sigma", 1e-6},   {"max_qp", 1000},
      {"eps_abs", 1e-4}, {"eps_rel", 1e-4},  {"eq_guess", 1},   {"rho_interval", 25},
      {"rho_tol", 5},    {"rho_heur", 0},    {"remove_reg", 0}, {"reset_y", 0},
      {"reset_rho", 0},  {"extra", 0},       {"reg_min", 1e-9}, {"reg_max", 1e9},
      {"reg_inc", 10},   {"reg_dec", 10},    {"th_dec", 0.5},   {"th_inc", 0.01},
      {"th_grad", 1e-12},{"th_accneg", 2},
      {"n_alphas", 10},  {"a_ratio", 0.5},   {"max_time", std::numeric_limits<double>::infinity()}};
  auto i = d.find(k);
  return i == d.end() ? 0.0 : i->second;
}
double Cfg::get(const std::string& k) const {
  auto i = v.find(k);
  return i == v.end() ? dflt(k) : i->second;
}

// ---------------------------------------------------------------- evaluation
Eval eval_traj(const PSnap& p, const Traj& xs, const Traj& us) {
  Eval e;
  const int T = p.T();
  e.fs.assign(static_cast<size_t>(T) + 1, VectorXd::Zero(p.ndx()));
  e.v.resize(static_cast<size_t>(T) + 1);
  for (int t = 0; t <= T; ++t) {
    const size_t i = static_cast<size_t>(t);
    Vals& v = e.v[i];
    core_calc(*p.spec[i], xs[i], t < T ? &us[i] : nullptr, v);
    e.cost += v.cost;
    if (t < T) {
      VectorXd f(p.ndx());
      p.st->diff(xs[i + 1], v.xnext, f);
      e.fs[i + 1] = f;
      for (int k = 0; k < f.size(); ++k) e.gap += std::fabs(f[k]);
    }
    for (int k = 0; k < v.g.size(); ++k) {
      double lo = p.lb[i][k] - v.g[k], hi = v.g[k] - p.ub[i][k];
      if (!(lo <= 0)) e.cons += lo;
      if (!(hi <= 0)) e.cons += hi;
    }
  }
  e.finite = std::isfinite(e.cost) && std::isfinite(e.gap) && std::isfinite(e.cons);
  return e;
}
std::vector<Ders> diff_traj(const PSnap& p, const Traj& xs, const Traj& us) {
  std::vector<Ders> d(xs.size());
  for (size_t i = 0; i < xs.size(); ++i)
    core_diff(*p.spec[i], xs[i], i + 1 < xs.size() ? &us[i] : nullptr, d[i]);
  return d;
}
static double inf_norm(const VectorXd& v, bool& fin) {
  double m = 0;
  for (int i = 0; i < v.size(); ++i) {
    if (!std::isfinite(v[i])) fin = false;
    m = std::max(m, std::fabs(v[i]));
  }
  return m;
}
Kkt kkt_residual(const PSnap& p, const Traj& xs, const Traj& us, const Traj& lag, const Traj* y) {
  Kkt k;
  Eval e = eval_traj(p, xs, us);
  std::vector<Ders> d = diff_traj(p, xs, us);
  const int T = p.T();
  // the residuals do not read the cost
  k.finite = std::isfinite(e.gap) && std::isfinite(e.cons);
  for (int t = 0; t <= T; ++t) {
    const size_t i = static_cast<size_t>(t);
    VectorXd rx = d[i].Lx - lag[i];
    bool f = true;
    k.scale = std::max(k.scale, inf_norm(d[i].Lx, f));
    k.scale = std::max(k.scale, inf_norm(lag[i], f));
    if (t < T) rx += d[i].Fx.transpose() * lag[i + 1];
    if (y && (*y)[i].size()) rx += d[i].Gx.transpose() * (*y)[i];
    if (t > 0) {
      k.stat = std::max(k.stat, inf_norm(rx, k.finite));
    } else {
      bool f0 = true;
      VectorXd r0 = rx;
      if (y && (*y)[i].size()) r0 -= d[i].Gx.transpose() * (*y)[i];
      k.stat0 = inf_norm(r0, f0);
      if (!f0) k.stat0 = INF;
    }
    if (t < T) {
      VectorXd ru = d[i].Lu + d[i].Fu.transpose() * lag[i + 1];
      if (y && (*y)[i].size()) ru += d[i].Gu.transpose() * (*y)[i];
      k.stat = std::max(k.stat, inf_norm(ru, k.finite));
    }
    k.gap = std::max(k.gap, inf_norm(e.fs[i], k.finite));
  }
  VectorXd g0(p.ndx());
  p.st->diff(p.x0, xs[0], g0);
  k.gap = std::max(k.gap, inf_norm(g0, k.finite));
  k.cons = e.cons;
  if (!std::isfinite(e.cons)) k.finite = false;
  return k;
}

// ---------------------------------------------------------------- snapshots
// Whether the nodes' data hold the evaluation (1), the derivatives (2) of a trajectory.
static int data_points(const crocoddyl::ShootingProblem& pb, const Traj& xs, const Traj& us) {
  const size_t T = pb.get_T();
  if (xs.size() != T + 1 || us.size() != T) return 0;
  int m = 3;
  for (size_t t = 0; t <= T; ++t) {
    auto& d = static_cast<SimData&>(t < T ? *pb.get_runningDatas()[t] : *pb.get_terminalData());
    const VectorXd u = t < T ? us[t] : VectorXd();
    if (!d.calc_ok || !same_vec(d.calc_x, xs[t]) || !same_vec(d.calc_u, u)) m &= ~1;
    if (!d.diff_ok || !same_vec(d.diff_x, xs[t]) || !same_vec(d.diff_u, u)) m &= ~2;
  }
  return m;
}
Snap snap_solver(SolverBox& b) {
  Snap s;
  mim_solvers::SolverDDP& d = *b.ddp;
  crocoddyl::SolverAbstract& a = *b.s;
  s.xs = a.get_xs();
  s.us = a.get_us();
  s.fs = a.get_fs();
  s.step = a.get_steplength();
  s.preg = a.get_preg();
  s.dreg = a.get_dreg();
  s.iter = static_cast<int>(a.get_iter());
  s.cost = a.get_cost();
  s.data = data_points(*a.get_problem(), s.xs, s.us);
  s.lag = d.lag_mul_;
  if (b.csqp) {
    auto& c = *b.csqp;
    s.lag = c.lag_mul_;
    s.dx = c.dx_;
    s.du = c.du_;
    s.y = c.y_;
    s.z = c.z_;
    s.rho = c.rho_vec_;
    s.merit = c.get_merit();
    s.gap = c.get_gap_norm();
    s.cons = c.get_constraint_norm();
    s.kkt = c.get_KKT();
    s.np = c.get_norm_primal();
    s.nptol = c.get_norm_primal_tolerance();
    s.nd = c.get_norm_dual();
    s.ndtol = c.get_norm_dual_tolerance();
    s.xg = c.get_xgrad_norm();
    s.ug = c.get_ugrad_norm();
    s.rho_sparse = c.get_rho_sparse();
    s.qp_iters = c.get_qp_iters();
    s.timed = c.get_max_solve_time_reached();
  } else if (b.sqp) {
    auto& c = *b.sqp;
    s.lag = c.lag_mul_;
    s.dx = c.dx_;
    s.du = c.du_;
    s.merit = c.get_merit();
    s.gap = c.get_gap_norm();
    s.kkt = c.get_KKT();
    s.xg = c.get_xgrad_norm();
    s.ug = c.get_ugrad_norm();
  } else if (b.prox) {
    auto& c = *b.prox;
    s.lag = c.get_lag_mul();
    s.dx = c.get_dx();
    s.du = c.get_du();
    s.y = c.get_y();
    s.merit = c.get_merit();
    s.gap = c.get_gap_norm();
    s.cons = c.get_constraint_norm();
    s.kkt = c.get_KKT();
    s.qp_iters = c.get_qp_iters();
    s.np = c.get_norm_primal();
    s.nd = c.get_norm_dual();
    s.xg = c.get_xgrad_norm();
    s.ug = c.get_ugrad_norm();
  } else if (b.fddp) {
    s.lag = b.fddp->lag_mul_;
    s.kkt = b.fddp->get_KKT();
    s.gap = b.fddp->get_gap_norm();
  } else {
    s.kkt = d.get_KKT();
  }
  if (!b.sqp_type()) {
    s.pol = std::make_shared<Policy>();
    for (auto& m : d.get_K()) s.pol->K.push_back(m);
    s.pol->Quu = d.get_Quu();
    s.pol->Vxx = d.get_Vxx();
    s.pol->k = d.get_k();
    s.pol->Qu = d.get_Qu();
    s.pol->Vx = d.get_Vx();
  }
  s.t_ns = rt::now_ns();
  s.bb = rt::S.bb;
  s.extra = rt::S.extra_ns;
  s.log = g_log.size();
  return s;
}

std::pair<Traj, Traj> init_candidate(const SolveRec& r, bool first_is_x0) {
  Traj xs = r.init_xs, us = r.init_us;
  if (xs.empty())
    for (int t = 0; t <= r.p.T(); ++t) xs.push_back(r.p.st->zero());
  if (us.empty())
    for (int t = 0; t < r.p.T(); ++t)
      us.push_back(VectorXd::Zero(r.p.spec[static_cast<size_t>(t)]->k.nu));
  if (first_is_x0 && !xs.empty()) xs[0] = r.p.x0;
  return {xs, us};
}

namespace {
struct FaultSpec {
  int op = 0;
  std::string at, kind;
  long nth = 1, len = 1;
  double arg = 0;
  int node = -1;
  std::string meth;  // calc diff any hash
  long mod = 0, rem = 0;
  long seen = 0;
};

struct Exec;
extern Exec* E;
// Keeps what is printed. The ProxQP based solver has no callback object; the
// flush at the end of its progress line is where it is observed.
struct CapBuf : std::streambuf {
  std::string* text = nullptr;
  int overflow(int c) override {
    rt::Harness h;
    if (text && text->size() < (1u << 20)) text->push_back(static_cast<char>(c));
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    rt::Harness h;
    if (text && text->size() < (1u << 20)) text->append(p, static_cast<size_t>(n));
    return n;
  }
  int sync() override;
};
struct BadBuf : std::streambuf {
  int overflow(int) override { return EOF; }
};
Exec* E = nullptr;

struct Recorder : public mim_solvers::CallbackAbstract {
  Recorder(int who, int box) : who(who), box(box) {}
  int who, box;
  void operator()(crocoddyl::SolverAbstract& s) override { fire(s, "", false); }
  void operator()(crocoddyl::SolverAbstract& s, std::string n) override { fire(s, n, true); }
  void fire(crocoddyl::SolverAbstract& s, const std::string& n, bool named);
};

struct Exec {
  const Plan& plan;
  const Options& opt;
  Record rec;
  std::map<int, std::shared_ptr<Problem>> probs;
  std::map<int, SolverBox> boxes;
  std::vector<FaultSpec> faults;
  int cur_op = -1;
  long evals_in_op = 0, cb_in_op = 0;
  bool diff_seen = false;
  SolveRec* cur = nullptr;  // the solve in progress
  std::map<int, std::pair<std::shared_ptr<Problem>, int>> owner;  // model id -> node
  int depth = 0;
  double held_reg = 0;  // what a solver replaced by a new one left
  bool held_feas = false;

  Exec(const Plan& p, const Options& o) : plan(p), opt(o) {}

  int node_of(int model_id) {
    if (!cur) return -1;
    for (size_t i = 0; i < cur->p.id.size(); ++i)
      if (cur->p.id[i] == model_id) return static_cast<int>(i);
    return -1;
  }
  void hit(const FaultSpec& f, const std::string& kind) {
    rec.fired[f.at + ":" + kind]++;
    if (cur) cur->hits.push_back(FaultHit{g_log.size(), f.at, kind, static_cast<int>(f.seen)});
    rt::trace(0xFA01, static_cast<uint64_t>(f.seen), static_cast<uint64_t>(f.at[0]));
  }

  FK eval_fault(int model, bool diff, double& arg, const VectorXd* x);

  std::shared_ptr<Problem> make_problem(const Line& l) {
    auto p = std::make_shared<Problem>();
    const int T = static_cast<int>(l.integer("T", 4)), n = static_cast<int>(l.integer("n", 2));
    const bool circle = l.integer("circle", 0) != 0;
    p->state = std::make_shared<SimState>(n, circle);
    for (int t = 0; t <= T; ++t) {
      auto m = std::make_shared<SimModel>(make_spec(node_knobs(l, t, T), p->state));
      if (t < T)
        p->run.push_back(m);
      else
        p->term = m;
    }
    rt::Rng r(rt::mix(l.u64("seed", 1), 0xF0F0));
    VectorXd q(n);
    for (int i = 0; i < n; ++i) q[i] = r.real(-1, 1) * l.num("x0", 1.0);
    p->build(p->state->exp(q));
#ifdef CROCODDYL_WITH_MULTITHREADING
    long th = opt.threads ? opt.threads : l.integer("threads", 1);
    p->pb->set_nthreads(static_cast<int>(th));
#endif
    return p;
  }
  static Knobs node_knobs(const Line& l, int t, int T) {
    Knobs k;
    k.term = t == T;
    k.seed = rt::mix(l.u64("seed", 1), static_cast<uint64_t>(t) + 17);
    k.n = static_cast<int>(l.integer("n", 2));
    k.nu = static_cast<int>(l.integer("nu", 1));
    k.circle = l.integer("circle", 0) != 0;
    k.cons = t < T ? l.str("cons", "") : l.str("tcons", "");
    if (k.cons == "-") k.cons = "";
    k.nl = l.num("nl", 0);
    k.nlc = l.num("nlc", 0);
    k.hess = static_cast<int>(l.integer("hess", 0));
    k.wall = l.num("wall", 0);
    k.rscale = l.num("rscale", 1);
    k.late = l.integer("late", 0) != 0;
    rt::Rng r(rt::mix(k.seed, 0xABC));
    double vary = l.num("vary", 0);
    if (t < T && r.chance(vary)) k.cons = k.cons.substr(0, r.below(k.cons.size() + 1));
    double vnu = l.num("varynu", 0);
    if (t < T && r.chance(vnu)) k.nu = 1 + static_cast<int>(r.below(3));
    rt::Rng rz(rt::mix(k.seed, 0x2E80));
    if (t < T && rz.chance(l.num("zeronu", 0))) k.nu = 0;
    if (t < T && k.hess && !r.chance(0.5)) k.hess = 0;
    return k;
  }

  void apply_cfg(SolverBox& b, const std::string& k, double v);
  void bad_set(SolverBox& b, const std::string& k, double v);
  void check_settings(SolverBox& b, const std::string& when);
  void set_cfg(SolverBox& b, const std::string& k, double v);
  void attach(SolverBox& b, int id);
  bool make_solver(int id, const Line& l);
  void do_solve(const Line& l, int op, int sid);
  bool refused(SolverBox& b, SolveRec* r);
  void prepare_problem_edit(const Line& l);
  PSnap psnap(const Problem& p);
  std::string problem_change(const Problem& p, const PSnap& was);
  void run();
  Traj guess_xs(const Line& l, SolverBox& b, Problem& p, uint64_t seed);
  void nested_solve();
  size_t text_seen = 0;
  // The last line printed since this was asked last.
  std::string last_row() {
    const std::string& t = rec.text;
    const size_t from = text_seen;
    text_seen = t.size();
    if (t.size() >= (1u << 20) || t.size() <= from || t.back() != '\n') return "";
    size_t i = t.rfind('\n', t.size() - 2);
    i = i == std::string::npos ? 0 : i + 1;
    return t.substr(i, t.size() - 1 - i);
  }
  bool conc = false;
  // what belongs to a solve in progress, when several are
  struct Ctx {
    SolveRec* cur = nullptr;
    int depth = 0, cur_op = -1, api = 0;
    long evals_in_op = 0, cb_in_op = 0;
    bool diff_seen = false, dl_hit = false;
    uint64_t eval_ns = 0, allocs = 0, clock_reads = 0, dl_bb = 0, deadline = ~0ull;
  };
  std::map<int, Ctx> ctx;
  void swap_ctx(int from, int to);
  void do_concurrent(const std::vector<const Line*>& ops);
};

FK hook(int model, bool diff, double& arg) {
  if (!E || !E->cur) return FK::none;
  return E->eval_fault(model, diff, arg, nullptr);
}
void clk(uint64_t ord, bool) {
  if (!E || !E->cur) return;
  for (auto& f : E->faults) {
    if (f.op != E->cur_op || f.at != "clock" || E->depth > 1) continue;
    long o = static_cast<long>(ord);
    if (o < f.nth || o >= f.nth + f.len) continue;
    // a stall before the solver has read its starting time is not its own
    if (f.kind == "stall" && o <= 2) continue;
    f.seen = o;
    E->hit(f, f.kind);
    if (f.kind == "stall")
      rt::advance_ns(static_cast<uint64_t>(f.arg));
    else
      rt::S.wall_off += static_cast<int64_t>(f.arg);
  }
}

#ifdef SIM_MT
// Evaluations of a parallel region are logged in the order of the nodes,
// whatever the schedule.
size_t region_log = 0;
void region(bool begins) {
  if (begins) {
    region_log = g_log.size();
  } else if (region_log <= g_log.size() && E) {
    std::stable_sort(g_log.begin() + static_cast<long>(region_log), g_log.end(),
                     [](const Call& a, const Call& b) {
                       return E->node_of(a.model) < E->node_of(b.model);
                     });
  }
}
#endif

int CapBuf::sync() {
  rt::Harness h;
  if (!E || !E->cur) return 0;
  SolverBox& b = E->boxes[E->cur->solver];
  if (!b.prox) return 0;
  Snap s = snap_solver(b);
  s.row = E->last_row();
  auto& it = E->cur->it;
  // a header line is flushed before the line of the iteration
  if (!it.empty() && it.back().iter == s.iter)
    it.back() = std::move(s);
  else
    it.push_back(std::move(s));
  return 0;
}

FK Exec::eval_fault(int model, bool diff, double& arg, const VectorXd*) {
  FK out = FK::none;
  if (depth > 1) return out;
  int node = -2;
  if (diff) diff_seen = true;
  for (auto& f : faults) {
    if (f.op != cur_op || f.at != "model") continue;
    FK k = fk_parse(f.kind);
    if (diff ? !fk_is_diff(k) : !fk_is_calc(k)) continue;
    if (f.meth == "calc" && diff) continue;
    if (f.meth == "diff" && !diff) continue;
    if (f.meth == "trial" && (diff || !diff_seen)) continue;
#ifdef SIM_MT
    // an exception in a parallel region of crocoddyl ends the process
    if (fk_throws(k) && sched::foreign_region()) continue;
#endif
    if (f.node >= 0) {
      if (node == -2) node = node_of(model);
      if (node != f.node) continue;
    }
    ++f.seen;
    if (f.seen >= f.nth && f.seen < f.nth + f.len && k == FK::wall_jump) {
      // stepping the wall clock leaves room for another fault
      hit(f, f.kind);
      rt::S.wall_off += static_cast<int64_t>(f.arg);
    } else if (f.seen >= f.nth && f.seen < f.nth + f.len && out == FK::none) {
      out = k;
      arg = f.arg;
      hit(f, f.kind);
    }
  }
  return out;
}

void Recorder::fire(crocoddyl::SolverAbstract& s, const std::string& n, bool named) {
  rt::Harness h;
  if (!E) return;
  if (!E->cur || s.get_iter() > 1000000000) {
    E->rec.problems.push_back("C11 callback invoked outside solve");
    return;
  }
  SolveRec& r = *E->cur;
  if (r.solver != box) {
    E->rec.problems.push_back("C12 callback of solver " + std::to_string(box) +
                              " invoked during a solve of solver " + std::to_string(r.solver));
    return;
  }
  r.calls.push_back(CbCall{who, static_cast<int>(s.get_iter()), named, n});
  if (who == 0) {
    Snap sn = snap_solver(E->boxes[box]);
    sn.name = n;
    if (E->boxes[box].verbose) sn.row = E->last_row();
    r.it.push_back(std::move(sn));
    rt::trace(0xCB00, static_cast<uint64_t>(r.it.size()), bits(r.it.back().cost));
    rt::trace(0xCB01, bits(r.it.back().kkt), bits(r.it.back().preg));
  }
  if (E->depth > 1) return;
  ++E->cb_in_op;
  for (auto& f : E->faults) {
    if (f.op != E->cur_op || f.at != "cb") continue;
    if (f.node >= 0 && f.node != who) continue;
    ++f.seen;
    if (f.seen < f.nth || f.seen >= f.nth + f.len) continue;
    E->hit(f, f.kind);
    if (f.kind == "stall")
      rt::advance_ns(static_cast<uint64_t>(f.arg));
    else if (f.kind == "wall")
      rt::S.wall_off += static_cast<int64_t>(f.arg);
    else if (f.kind == "throw")
      throw InjectedError("injected callback failure");
    else if (f.kind == "throw_int")
      throw 43;
    else if (f.kind == "nested")
      E->nested_solve();
  }
}

void Exec::set_cfg(SolverBox& b, const std::string& k, double v) {
  b.cfg.v[k] = v;
  apply_cfg(b, k, v);
}

// A value the documentation rules out: the setter must throw and leave
// everything as it was (check_settings looks at that).
void Exec::bad_set(SolverBox& b, const std::string& k, double v) {
  bool threw = false;
  try {
    if (k == "alphas") {
      std::vector<double> a = {1, 0.5, 0.25, 0.125};
      const int how = static_cast<int>(v);
      if (how == 0) a[2] = 0.5;
      if (how == 1) a[1] = 1.5;
      if (how == 2) a[3] = 0;
      if (how == 3) a[3] = -0.125;
      b.ddp->set_alphas(a);
    } else {
      apply_cfg(b, k, v);
    }
  } catch (const std::exception&) {
    threw = true;
  }
  rec.fired[threw ? "set:refused" : "set:accepted"]++;
  if (!threw)
    rec.problems.push_back("C19 " + b.kind + ": setting " + k + " accepted " + std::to_string(v) +
                           ", which is out of range");
}

void Exec::check_settings(SolverBox& b, const std::string& when) {
  std::vector<std::pair<std::string, double>> g;
  auto& d = *b.ddp;
  g = {{"reg_min", d.get_reg_min()},       {"reg_max", d.get_reg_max()},
       {"reg_inc", d.get_reg_incfactor()}, {"reg_dec", d.get_reg_decfactor()},
       {"th_dec", d.get_th_stepdec()},     {"th_inc", d.get_th_stepinc()},
       {"th_grad", d.get_th_grad()}};
  auto common = [&](auto& c) {
    g.push_back({"tol", c.get_termination_tolerance()});
    g.push_back({"use_filter", c.get_use_filter_line_search()});
    g.push_back({"filter_size", static_cast<double>(c.get_filter_size())});
  };
  if (b.csqp) {
    auto& c = *b.csqp;
    common(c);
    std::vector<std::pair<std::string, double>> h = {
        {"mu_dyn", c.get_mu_dynamic()},
        {"mu_con", c.get_mu_constraint()},
        {"extra", c.get_extra_iteration_for_last_kkt()},
        {"max_qp", static_cast<double>(c.get_max_qp_iters())},
        {"eps_abs", c.get_eps_abs()},
        {"eps_rel", c.get_eps_rel()},
        {"alpha", c.get_alpha()},
        {"sigma", c.get_sigma()},
        {"lag_coef", c.get_lag_mul_inf_norm_coef()},
        {"eq_guess", c.get_equality_qp_initial_guess()},
        {"rho_interval", static_cast<double>(c.get_rho_update_interval())},
        {"rho_tol", static_cast<double>(c.get_adaptive_rho_tolerance())},
        {"rho_heur", c.update_rho_with_heuristic_},
        {"remove_reg", c.remove_reg_},
        {"reset_y", c.get_reset_y()},
        {"reset_rho", c.get_reset_rho()}};
    if (c.get_max_solve_time() != b.max_time)
      rec.problems.push_back("C19 csqp: " + when + " the time budget reads " +
                             std::to_string(c.get_max_solve_time()) + " instead of " +
                             std::to_string(b.max_time));
    g.insert(g.end(), h.begin(), h.end());
  } else if (b.sqp) {
    common(*b.sqp);
    g.push_back({"mu_dyn", b.sqp->get_mu_dynamic()});
    g.push_back({"extra", b.sqp->get_extra_iteration_for_last_kkt()});
  } else if (b.prox) {
    common(*b.prox);
    g.push_back({"mu_dyn", b.prox->get_mu_dynamic()});
    g.push_back({"mu_con", b.prox->get_mu_constraint()});
    g.push_back({"eps_abs", b.prox->get_eps_abs()});
    g.push_back({"eps_rel", b.prox->get_eps_rel()});
  } else if (b.fddp) {
    common(*b.fddp);
    g.push_back({"th_accneg", b.fddp->get_th_acceptnegstep()});
  } else {
    g.push_back({"tol", d.get_termination_tolerance()});
  }
  for (auto& x : g)
    if (bits(x.second) != bits(b.cfg.get(x.first)))
      rec.problems.push_back("C19 " + b.kind + ": " + when + " setting " + x.first + " reads " +
                             std::to_string(x.second) + " instead of " +
                             std::to_string(b.cfg.get(x.first)));
  const auto& al = d.get_alphas();
  double a = 1, ra = b.cfg.get("a_ratio");
  bool same = al.size() == static_cast<size_t>(b.cfg.get("n_alphas"));
  for (size_t i = 0; same && i < al.size(); ++i, a *= ra) same = bits(al[i]) == bits(a);
  if (!same) rec.problems.push_back("C19 " + b.kind + ": " + when + " the step lengths are others than set");
  ++rec.settings_checked;
}

void Exec::apply_cfg(SolverBox& b, const std::string& k, double v) {
  auto& d = *b.ddp;
  auto sz = static_cast<std::size_t>(v > 0 ? v : 0);
  if (k == "reg_min") d.set_reg_min(v);
  if (k == "reg_max") d.set_reg_max(v);
  if (k == "reg_inc") d.set_reg_incfactor(v);
  if (k == "reg_dec") d.set_reg_decfactor(v);
  if (k == "th_dec") d.set_th_stepdec(v);
  if (k == "th_inc") d.set_th_stepinc(v);
  if (k == "th_grad") d.set_th_grad(v);
  if (k == "th_accneg" && b.fddp) b.fddp->set_th_acceptnegstep(v);
  if (k == "n_alphas" || k == "a_ratio") {
    int na = static_cast<int>(b.cfg.get("n_alphas"));
    double ra = b.cfg.get("a_ratio"), a = 1;
    std::vector<double> al;
    for (int i = 0; i < na; ++i, a *= ra) al.push_back(a);
    d.set_alphas(al);
  }
  if (k == "tol") {
    d.set_termination_tolerance(v);
    if (b.csqp) b.csqp->set_termination_tolerance(v);
    if (b.sqp) b.sqp->set_termination_tolerance(v);
    if (b.prox) b.prox->set_termination_tolerance(v);
    if (b.fddp) b.fddp->set_termination_tolerance(v);
  }
  if (k == "filter_size") {
    if (b.csqp) b.csqp->set_filter_size(sz);
    if (b.sqp) b.sqp->set_filter_size(sz);
    if (b.prox) b.prox->set_filter_size(sz);
    if (b.fddp) b.fddp->set_filter_size(sz);
  }
  if (k == "use_filter") {
    if (b.csqp) b.csqp->set_use_filter_line_search(v != 0);
    if (b.sqp) b.sqp->set_use_filter_line_search(v != 0);
    if (b.prox) b.prox->set_use_filter_line_search(v != 0);
    if (b.fddp) b.fddp->set_use_filter_line_search(v != 0);
  }
  if (k == "mu_dyn") {
    if (b.csqp) b.csqp->set_mu_dynamic(v);
    if (b.sqp) b.sqp->set_mu_dynamic(v);
    if (b.prox) b.prox->set_mu_dynamic(v);
  }
  if (k == "mu_con") {
    if (b.csqp) b.csqp->set_mu_constraint(v);
    if (b.prox) b.prox->set_mu_constraint(v);
  }
  if (k == "extra") {
    if (b.csqp) b.csqp->set_extra_iteration_for_last_kkt(v != 0);
    if (b.sqp) b.sqp->set_extra_iteration_for_last_kkt(v != 0);
  }
  if (k == "max_qp") {
    if (b.csqp) b.csqp->set_max_qp_iters(static_cast<int>(v));
    if (b.prox) b.prox->set_max_qp_iters(static_cast<int>(v));
  }
  if (k == "eps_abs") {
    if (b.csqp) b.csqp->set_eps_abs(v);
    if (b.prox) b.prox->set_eps_abs(v);
  }
  if (k == "eps_rel") {
    if (b.csqp) b.csqp->set_eps_rel(v);
    if (b.prox) b.prox->set_eps_rel(v);
  }
  if (b.csqp) {
    auto& c = *b.csqp;
    if (k == "alpha") c.set_alpha(v);
    if (k == "sigma") c.set_sigma(v);
    if (k == "lag_coef") c.set_lag_mul_inf_norm_coef(v);
    if (k == "eq_guess") c.set_equality_qp_initial_guess(v != 0);
    if (k == "rho_interval") c.set_rho_update_interval(sz);
    if (k == "rho_tol") c.set_adaptive_rho_tolerance(sz);
    if (k == "rho_heur") c.update_rho_with_heuristic_ = v != 0;
    if (k == "remove_reg") c.remove_reg_ = v != 0;
    if (k == "reset_y") c.reset_y_ = v != 0;
    if (k == "reset_rho") c.reset_rho_ = v != 0;
    if (k == "max_time") c.set_max_solve_time(b.max_time = v);
  }
}

void Exec::attach(SolverBox& b, int id) {
  b.recs.clear();
  int obs = opt.observers;
  if (!opt.strip_observers)
    for (auto l : plan.all("obs"))
      if (l->integer("s") == id) obs |= static_cast<int>(l->integer("mask"));
  std::vector<std::shared_ptr<mim_solvers::CallbackAbstract>> v;
  if (b.prox) {
    b.prox->setCallbacks((obs & 1) != 0 || opt.recorders > 0);
    return;
  }
  // the verbose printer understands what the SQP-type solvers pass to it
  b.verbose = (obs & 1) != 0;
  if (b.verbose) v.push_back(std::make_shared<mim_solvers::CallbackVerbose>());
  int n = opt.recorders + ((obs & 8) ? 2 : 0);
  for (int i = 0; i < n; ++i) {
    auto r = std::make_shared<Recorder>(i, id);
    b.recs.push_back(r);
    v.push_back(r);
  }
  b.ddp->setCallbacks(v);
  if (b.csqp) b.csqp->setQPCallbacks((obs & 2) != 0);
}

bool Exec::make_solver(int id, const Line& l) {
  SolverBox b;
  b.kind = l.str("kind", "csqp");
  b.prob = static_cast<int>(l.integer("prob", 0));
  if (!probs.count(b.prob)) return false;
  auto pb = probs[b.prob]->pb;
  {
    rt::Api api;
    if (b.kind == "csqp") {
      auto s = std::make_shared<mim_solvers::SolverCSQP>(pb);
      b.csqp = s.get();
      b.s = s;
    } else if (b.kind == "sqp") {
      auto s = std::make_shared<mim_solvers::SolverSQP>(pb);
      b.sqp = s.get();
      b.s = s;
    } else if (b.kind == "prox") {
      auto s = std::make_shared<mim_solvers::SolverPROXQP>(pb);
      b.prox = s.get();
      b.s = s;
    } else if (b.kind == "fddp") {
      auto s = std::make_shared<mim_solvers::SolverFDDP>(pb);
      b.fddp = s.get();
      b.s = s;
    } else {
      auto s = std::make_shared<mim_solvers::SolverDDP>(pb);
      b.s = s;
    }
  }
  b.ddp = static_cast<mim_solvers::SolverDDP*>(b.s.get());
  b.cfg.v["mu_dyn"] = b.sqp ? 1 : 10;
  if (b.prox) b.cfg.v["tol"] = 1e-8;
  rec.solver_objects++;
  {
    rt::Api api;
    for (auto st : plan.all("set"))
      if (st->integer("s") == id && !st->has("op"))
        set_cfg(b, st->str("k"), st->num("v"));
  }
  boxes[id] = b;
  {
    rt::Harness h;
    check_settings(boxes[id], "of a new solver");
  }
  attach(boxes[id], id);
  return true;
}

PSnap Exec::psnap(const Problem& p) {
  PSnap s;
  s.st = p.state;
  auto add = [&](const std::shared_ptr<SimModel>& m) {
    s.spec.push_back(m->spec());
    s.id.push_back(m->id());
    s.lb.push_back(m->lb());
    s.ub.push_back(m->ub());
  };
  for (auto& m : p.run) add(m);
  add(p.term);
  s.x0 = p.pb->get_x0();
  return s;
}

// What of a problem differs from what it was
std::string Exec::problem_change(const Problem& p, const PSnap& was) {
  const auto& pb = *p.pb;
  auto same = [](const VectorXd& a, const VectorXd& b) {
    if (a.size() != b.size()) return false;
    for (int i = 0; i < a.size(); ++i)
      if (bits(a[i]) != bits(b[i])) return false;
    return true;
  };
  if (!same(pb.get_x0(), was.x0)) return "the initial state";
  if (pb.get_T() != static_cast<size_t>(was.T())) return "the number of nodes";
  for (size_t t = 0; t < was.spec.size(); ++t) {
    const bool term = t + 1 == was.spec.size();
    const std::shared_ptr<crocoddyl::ActionModelAbstract> m =
        term ? pb.get_terminalModel() : pb.get_runningModels()[t];
    const std::shared_ptr<SimModel> mine = term ? p.term : p.run[t];
    const std::string at = "node " + std::to_string(t);
    if (m != mine) return at;
    if (!same(mine->lb(), was.lb[t]) || !same(mine->ub(), was.ub[t]))
      return "the bounds at " + at;
  }
  return "";
}

#ifdef SIM_MT
void Exec::swap_ctx(int from, int to) {
  rt::Harness h;
  Ctx& a = ctx[from];
  a.cur = cur;
  a.depth = depth;
  a.cur_op = cur_op;
  a.api = rt::S.api;
  a.evals_in_op = evals_in_op;
  a.cb_in_op = cb_in_op;
  a.diff_seen = diff_seen;
  a.eval_ns = g_eval_ns;
  a.allocs = rt::S.allocs;
  a.clock_reads = rt::S.clock_reads;
  const Ctx& b = ctx[to];
  cur = b.cur;
  depth = b.depth;
  cur_op = b.cur_op;
  rt::S.api = b.api;
  evals_in_op = b.evals_in_op;
  cb_in_op = b.cb_in_op;
  diff_seen = b.diff_seen;
  g_eval_ns = b.eval_ns;
  rt::S.allocs = b.allocs;
  rt::S.clock_reads = b.clock_reads;
}
void Exec::do_concurrent(const std::vector<const Line*>& ops) {
  std::vector<std::function<void()>> fs;
  std::function<void(int, int)> sw;
  {
    rt::Harness h;
    ctx.clear();
    for (auto l : ops)
      fs.push_back([this, l]() {
        do_solve(*l, static_cast<int>(l->integer("n", 0)), static_cast<int>(l->integer("s", 0)));
      });
    sw = [this](int a, int b) { swap_ctx(a, b); };
    rec.fired["schedule:concurrent"] += fs.size();
    conc = true;
  }
  sched::run_concurrent(fs, sw);
  rt::Harness h;
  conc = false;
  fs.clear();
  sw = nullptr;
}
#endif

void Exec::nested_solve() {
  // another solver and problem, solved to the end from inside a callback
  int id = -1;
  for (auto& kv : boxes)
    if (kv.first != cur->solver && kv.second.prob != boxes[cur->solver].prob)
      id = kv.first;
  if (id < 0 || depth > 1 || conc) return;
  Line l;
  l.verb = "op";
  l.seti("s", id).set("guess", "rand").seti("gseed", 99).seti("maxiter", 3);
  SolveRec* saved = cur;
  const int api = rt::S.api;
  ++rt::S.harness;
  uint64_t allocs = rt::S.allocs, ff = rt::S.fail_from, ft = rt::S.fail_to;
  rt::S.fail_from = rt::S.fail_to = 0;
  const int hs = rt::S.harness;
  rt::S.harness = 0;  // the inner solve is solver code like any other
  do_solve(l, cur_op, id);
  rt::S.harness = hs;
  --rt::S.harness;
  rt::S.api = api;
  rt::S.allocs = allocs;
  rt::S.fail_from = ff;
  rt::S.fail_to = ft;
  cur = saved;
}

// Constructors of the constrained solvers refuse problems with equality constraints
// of crocoddyl's; so must their solve() when a node got some since.
bool Exec::refused(SolverBox& b, SolveRec* r) {
  if (!b.csqp && !b.prox) return false;
  bool any = false;
  for (auto& s : r->p.spec) any = any || s->k.nh;
  if (!any) return false;
  bool threw = false;
  {
    rt::Api api;
    try {
      b.s->solve(r->init_xs, r->init_us, static_cast<std::size_t>(r->maxiter), r->feas, r->reg);
    } catch (const std::exception& e) {
      threw = true;
    }
  }
  rt::Harness h;
  rec.fired["edit:equality"]++;
  const std::string where = b.kind + " solver " + std::to_string(r->solver) + " op " +
                            std::to_string(r->op) + ": a problem with equality constraints ";
  if (!threw)
    rec.problems.push_back("C08 " + where + "was solved without them, a new solver refuses it");
  else if (g_log.size() != r->log0 || !same_traj(b.s->get_xs(), r->entry.xs) ||
           !same_traj(b.s->get_us(), r->entry.us))
    rec.problems.push_back("C08 " + where + "was refused, but not before it left its mark");
  rt::S.fail_from = rt::S.fail_to = 0;
  --depth;
  cur = nullptr;
  return true;
}

void Exec::do_solve(const Line& l, int op, int sid) {
  if (!boxes.count(sid)) return;
  SolverBox& b = boxes[sid];
  SolveRec local;
  SolveRec* r = &local;
  {
    rt::Harness h;
    Problem& p = *probs[b.prob];
    r->op = op;
    r->solver = sid;
    r->kind = b.kind;
    r->nested = depth > 0;
    // budget
    if (b.csqp) {
      double bud = b.cfg.get("max_time");
      if (l.has("budget")) bud = l.num("budget");
      auto it = opt.budget.find(op);
      if (it != opt.budget.end() && depth == 0) bud = it->second;
      if (opt.no_budget) bud = INF;
      // a solve with the budget of the one before it is not told again
      if (!(b.max_time == bud)) b.csqp->set_max_solve_time(b.max_time = bud);
      r->budget = bud;
    } else {
      r->budget = INF;
    }
    r->cfg = b.cfg;
    r->p = psnap(p);
    r->recorders = static_cast<int>(b.recs.size());
    r->maxiter = static_cast<int>(l.integer("maxiter", 5));
    r->feas = l.integer("feas", 0) != 0;
    r->reg = l.has("reg") ? l.num("reg") : std::nan("");
    // a solve that resumes another one starts with what that one left
    if (l.integer("resume", 0)) {
      const bool fresh = op == opt.fresh_op;
      r->reg = fresh ? held_reg : b.s->get_preg();
      r->feas = !b.sqp_type() && (fresh ? held_feas : b.s->get_is_feasible());
    }
    r->entry = snap_solver(b);
    r->updated = b.edits != p.edits;
    // initial guess
    std::string g = l.str("guess", "none");
    rt::Rng rng(rt::mix(l.u64("gseed", 1), 0x6E55));
    double sc = l.num("gscale", 0.5);
    const int T = p.T();
    if (g == "keep") {
      r->init_xs = r->entry.xs;
      r->init_us = r->entry.us;
      bool ok = r->init_us.size() == static_cast<size_t>(T);
      for (int t = 0; ok && t < T; ++t) {
        int nu = r->p.spec[static_cast<size_t>(t)]->k.nu;
        auto& u = r->init_us[static_cast<size_t>(t)];
        if (u.size() != nu) u = VectorXd::Zero(nu);
      }
    } else if (g == "rand" || g == "zero" || g == "roll") {
      for (int t = 0; t <= T; ++t) {
        VectorXd q(r->p.ndx());
        for (int i = 0; i < q.size(); ++i) q[i] = g == "rand" ? rng.real(-sc, sc) : 0.0;
        r->init_xs.push_back(p.state->exp(q));
        if (t < T) {
          VectorXd u(r->p.spec[static_cast<size_t>(t)]->k.nu);
          for (int i = 0; i < u.size(); ++i) u[i] = g == "zero" ? 0.0 : rng.real(-sc, sc);
          r->init_us.push_back(u);
        }
      }
      if (g == "roll") {
        r->init_xs[0] = r->p.x0;
        for (int t = 0; t < T; ++t) {
          Vals v;
          size_t i = static_cast<size_t>(t);
          core_calc(*r->p.spec[i], r->init_xs[i], &r->init_us[i], v);
          r->init_xs[i + 1] = v.xnext;
        }
      } else if (l.integer("x0first", 0)) {
        r->init_xs[0] = r->p.x0;
      }
    }
    r->init_finite = all_finite(r->init_xs) && all_finite(r->init_us);
    r->log0 = g_log.size();
    g_eval_ns = static_cast<uint64_t>(l.num("eval", 1000));
    for (auto& f : faults)
      if (f.op == op && depth == 0) f.seen = 0;
    if (depth == 0) {
      diff_seen = false;
      cb_in_op = 0;
      cur_op = op;
      rt::op_reset();
      if (!opt.no_alloc_faults)
        for (auto& f : faults)
          if (f.op == op && f.at == "alloc") {
            rt::S.fail_from = static_cast<uint64_t>(f.nth);
            rt::S.fail_to = static_cast<uint64_t>(f.nth + f.len);
          }
    }
    rt::stack_junk(rt::S.env.fill, rt::S.env.fill_seed);
    cur = r;
    ++depth;
    if (depth == 1)
      rt::set_deadline(std::isfinite(r->budget)
                           ? rt::now_ns() + static_cast<uint64_t>(r->budget * 1e9)
                           : ~0ull);
  }
  if (refused(b, r)) return;
  r->t0 = rt::now_ns();
  r->bb0 = rt::S.bb;
  r->extra0 = rt::S.extra_ns;
  uint64_t af0 = rt::S.alloc_faults;
  {
    rt::Api api;
    try {
      r->ret = b.s->solve(r->init_xs, r->init_us, static_cast<std::size_t>(r->maxiter), r->feas,
                          r->reg);
    } catch (const std::bad_alloc&) {
      r->threw = true;
      r->what = "bad_alloc";
    } catch (const std::exception& e) {
      rt::Harness h;
      r->threw = true;
      r->what = "std";
      r->msg = e.what();
    } catch (int) {
      r->threw = true;
      r->what = "int";
    }
  }
  rt::Harness h;
  r->t1 = rt::now_ns();
  r->bb1 = rt::S.bb;
  r->extra1 = rt::S.extra_ns;
  if (depth == 1) {
    r->dl_hit = rt::S.dl_hit;
    r->dl_bb = rt::S.dl_bb;
    rt::set_deadline(~0ull);
  }
  r->allocs = rt::S.allocs;
  r->alloc_faults = rt::S.alloc_faults - af0;
  r->clock_reads = rt::S.clock_reads;
  rt::S.fail_from = rt::S.fail_to = 0;
  if (r->alloc_faults) rec.fired["alloc:fail"] += r->alloc_faults;
  if (!r->alloc_faults && !r->threw) b.edits = probs[b.prob]->edits;
  --depth;
  cur = nullptr;
  r->log1 = g_log.size();
  r->fin = snap_solver(b);
  check_settings(b, "after a solve");
  const std::string what = problem_change(*probs[b.prob], r->p);
  if (!what.empty())
    g_contract.push_back("the solve of op " + std::to_string(op) + " changed " + what +
                         " of its problem");
  if (b.prox) {
    // snapshots were taken after the line search of their iteration
    Traj xs = init_candidate(*r, true).first, us = init_candidate(*r, true).second;
    double step = r->entry.step;
    double preg = std::isnan(r->reg) ? r->cfg.get("reg_min") : r->reg, dreg = preg;
    for (auto& s : r->it) {
      std::swap(xs, s.xs);
      std::swap(us, s.us);
      std::swap(step, s.step);
      std::swap(preg, s.preg);
      std::swap(dreg, s.dreg);
    }
    // A solve that ends because the regularization reached its maximum after a
    // line search prints nothing for that iteration
    const bool moved = !same_traj(xs, r->fin.xs) || !same_traj(us, r->fin.us);
    if (moved && !r->threw && !r->ret && r->fin.iter == r->it.size() &&
        r->it.size() < static_cast<size_t>(r->maxiter)) {
      Snap s = r->fin;
      s.xs = xs;
      s.us = us;
      s.step = step;
      s.preg = preg;
      s.dreg = dreg;
      r->it.push_back(std::move(s));
    }
  }
  rt::trace(0x501F, r->ret, r->threw);
  rt::trace(0x501E, bits(r->fin.cost), bits(r->fin.kkt));
  for (auto& x : r->fin.xs)
    for (int i = 0; i < x.size(); ++i) rt::trace(0x5, bits(x[i]));
  for (auto& x : r->fin.us)
    for (int i = 0; i < x.size(); ++i) rt::trace(0x6, bits(x[i]));
  std::string why;
  if (!rt::check_heap(why)) rt::fatal("heap", why);
  rec.solves.push_back(std::move(local));
}

void Exec::prepare_problem_edit(const Line& l) {
  int id = static_cast<int>(l.integer("p", 0));
  if (!probs.count(id)) return;
  Problem& p = *probs[id];
  std::string d = l.str("do");
  const Line* pl = nullptr;
  for (auto x : plan.all("problem"))
    if (x->integer("id") == id) pl = x;
  rt::Rng r(rt::mix(l.u64("seed", 1), 0xED17));
  if (d == "x0") {
    VectorXd q(static_cast<int>(p.state->get_ndx()));
    for (int i = 0; i < q.size(); ++i) q[i] = r.real(-1, 1) * l.num("scale", 1.0);
    p.pb->set_x0(p.state->exp(q));
  } else if (d == "bounds") {
    int t = static_cast<int>(l.integer("t", 0)) % (p.T() + 1);
    auto m = t < p.T() ? p.run[static_cast<size_t>(t)] : p.term;
    int g = m->spec()->ng();
    if (!g) return;
    VectorXd lb = m->lb(), ub = m->ub();
    bool type = l.integer("type", 0) != 0;  // may change the kind of a row
    for (int i = 0; i < g; ++i) {
      if (type) {
        switch (r.below(4)) {
          case 0:
            lb[i] = ub[i] = r.real(-0.3, 0.3);
            break;
          case 1:
            lb[i] = -r.real(0.05, 1.0);
            ub[i] = r.real(0.05, 1.0);
            break;
          case 2:
            lb[i] = -INF;
            ub[i] = r.real(0.0, 0.6);
            break;
          default:
            lb[i] = -INF;
            ub[i] = INF;
        }
      } else {
        double s = r.real(0.5, 1.5);
        if (std::isfinite(lb[i])) lb[i] *= s;
        if (std::isfinite(ub[i])) ub[i] *= s;
      }
    }
    m->set_bounds(lb, ub);
  } else if (d == "append" || d == "replace") {
    if (!pl) return;
    ++p.edits;
    int t = d == "append" ? p.T() - 1 : static_cast<int>(l.integer("t", 0)) % (p.T() + 1);
    Knobs k = node_knobs(*pl, t, p.T());
    k.seed = rt::mix(l.u64("seed", 1), 0xBEE);
    if (l.has("nu") && t < p.T()) k.nu = static_cast<int>(l.integer("nu"));
    if (l.has("cons")) k.cons = l.str("cons") == "-" ? "" : l.str("cons");
    k.nh = static_cast<int>(l.integer("nh", 0));
    if (t == p.T() && l.has("tcons")) k.cons = l.str("tcons") == "-" ? "" : l.str("tcons");
    auto m = std::make_shared<SimModel>(make_spec(k, p.state));
    if (d == "append") {
      if (l.integer("data", 0))
        p.pb->circularAppend(m, m->createData());
      else
        p.pb->circularAppend(m);
      p.run.erase(p.run.begin());
      p.run.push_back(m);
    } else {
      if (l.integer("data", 0))
        p.pb->updateNode(static_cast<std::size_t>(t), m, m->createData());
      else
        p.pb->updateModel(static_cast<std::size_t>(t), m);
      if (t < p.T())
        p.run[static_cast<size_t>(t)] = m;
      else
        p.term = m;
    }
  } else if (d == "threads") {
#ifdef CROCODDYL_WITH_MULTITHREADING
    if (!opt.threads) p.pb->set_nthreads(static_cast<int>(l.integer("n", 1)));
#endif
  }
}

void Exec::run() {
  E = this;
  g_log.clear();
  g_next_model_id = 0;
  g_fault_hook = hook;
  noise_reset(opt.noise);
  rt::clock_hook = clk;
  for (auto l : plan.all("fault")) {
    FaultSpec f;
    f.op = static_cast<int>(l->integer("op", -1));
    f.at = l->str("at", "model");
    f.kind = l->str("kind", "none");
    f.nth = l->integer("nth", 1);
    f.len = l->integer("len", 1);
    f.arg = l->num("arg", 0);
    f.node = static_cast<int>(l->integer("node", -1));
    f.meth = l->str("meth", "any");
    faults.push_back(f);
  }
  rt::Env env = plan_env(plan);
  rt::begin_run(env);
  rt::S.trace = rt::Hash();
#ifdef SIM_MT
  {
    sched::Config c;
    if (auto l = plan.first("sched")) {
      c.seed = l->u64("seed", 1);
      c.mode = static_cast<int>(l->integer("mode", 0));
      c.inv = static_cast<uint32_t>(std::max(1l, l->integer("inv", 64)));
      c.cap = static_cast<int>(l->integer("cap", 0));
    }
    if (opt.sched_seed) {
      c.seed = rt::mix(c.seed, opt.sched_seed);
      c.mode = static_cast<int>(c.seed % 3);
    }
    sched::begin(c);
    sched::set_region_hook(region);
  }
#endif
  const uint64_t t_begin = rt::now_ns();
  static CapBuf nullbuf;
  static BadBuf badbuf;
  nullbuf.text = &rec.text;
  std::streambuf* old_out = std::cout.rdbuf();
  std::streambuf* old_err = std::cerr.rdbuf();
  std::ios::iostate old_state = std::cout.rdstate();
  std::cout.clear();
  std::cout.rdbuf(&nullbuf);
  std::cerr.rdbuf(&nullbuf);
  bool broken = (opt.observers & 16) != 0;
  bool prof = (opt.observers & 4) != 0;
  if (!opt.strip_observers)
    for (auto l : plan.all("obs")) {
      if (l->integer("mask") & 16) broken = true;
      if (l->integer("mask") & 4) prof = true;
    }
  if (broken) std::cout.rdbuf(&badbuf);
  if (prof)
    crocoddyl::getProfiler().enable_profiler();
  else
    crocoddyl::getProfiler().disable_profiler();

  {
    rt::Harness h;
    for (auto l : plan.all("problem"))
      probs[static_cast<int>(l->integer("id", 0))] = make_problem(*l);
  }
  const uint64_t live0 = rt::S.live_blocks, liveb0 = rt::S.live_bytes;
  for (auto l : plan.all("solver")) {
    int id = static_cast<int>(l->integer("id", 0));
    if (l->integer("late", 0)) continue;
    if (opt.only_solver >= 0 && id != opt.only_solver) continue;
    make_solver(id, *l);
  }
  std::set<int> done;  // as part of a concurrent group
  for (auto l : plan.all("op")) {
    int op = static_cast<int>(l->integer("n", 0));
    if (opt.skip_ops.count(op)) continue;
    std::string d = l->str("do", "solve");
    int sid = static_cast<int>(l->integer("s", 0));
    rt::trace(0x0B, static_cast<uint64_t>(op));
    if (d == "solve") {
      if (opt.only_solver >= 0 && sid != opt.only_solver) continue;
      if (!boxes.count(sid)) continue;
#ifdef SIM_MT
      if (done.count(op)) continue;
      if (l->has("conc") && opt.only_solver < 0 && opt.fresh_op < 0) {
        // the solves of one group, of different solvers and problems
        std::vector<const Line*> group;
        {
          rt::Harness h;
          std::set<int> pr;
          for (auto q : plan.all("op")) {
            int s = static_cast<int>(q->integer("s", 0));
            if (q->str("do", "solve") != "solve" || q->str("conc") != l->str("conc") ||
                !q->has("conc") || !boxes.count(s) || !pr.insert(boxes[s].prob).second)
              continue;
            int n = static_cast<int>(q->integer("n", 0));
            if (done.count(n) || opt.skip_ops.count(n)) continue;
            group.push_back(q);
          }
          if (group.size() > 1)
            for (auto q : group) done.insert(static_cast<int>(q->integer("n", 0)));
        }
        if (group.size() > 1) {
          do_concurrent(group);
          continue;
        }
      }
#endif
      if (op == opt.fresh_op) {
        // the same situation met by newly built objects
        rt::Harness h;
        int pid = boxes[sid].prob;
        probs[pid] = probs[pid]->clone();
        Cfg keep = boxes[sid].cfg;
        Traj gx = boxes[sid].s->get_xs(), gu = boxes[sid].s->get_us();
        held_reg = boxes[sid].s->get_preg();
        held_feas = boxes[sid].s->get_is_feasible();
        Line nl;
        nl.verb = "solver";
        nl.set("kind", boxes[sid].kind).seti("prob", pid);
        int hs = rt::S.harness;
        rt::S.harness = 0;
        make_solver(sid, nl);
        rt::S.harness = hs;
        for (auto& kv : keep.v) set_cfg(boxes[sid], kv.first, kv.second);
        if (l->str("guess", "none") == "keep") {
          // the arguments are part of the call, not of the object's history
          bool ok = gu.size() == static_cast<size_t>(probs[pid]->T());
          if (ok) {
            for (int t = 0; t < probs[pid]->T(); ++t) {
              int nu = probs[pid]->run[static_cast<size_t>(t)]->spec()->k.nu;
              auto& u = gu[static_cast<size_t>(t)];
              if (u.size() != nu) u = VectorXd::Zero(nu);
            }
            boxes[sid].s->setCandidate(gx, gu, false);
          }
        }
      }
      do_solve(*l, op, sid);
    } else if (d == "new") {
      // construction, possibly under allocation failure
      int hit = 0;
      const Line* sl = nullptr;
      for (auto x : plan.all("solver"))
        if (x->integer("id") == sid) sl = x;
      if (!sl || (opt.only_solver >= 0 && sid != opt.only_solver)) continue;
      boxes.erase(sid);
      cur_op = op;
      rt::op_reset();
      if (!opt.no_alloc_faults)
        for (auto& f : faults)
          if (f.op == op && f.at == "alloc") {
            rt::S.fail_from = static_cast<uint64_t>(f.nth);
            rt::S.fail_to = static_cast<uint64_t>(f.nth + f.len);
          }
      uint64_t af = rt::S.alloc_faults;
      try {
        make_solver(sid, *sl);
      } catch (const std::bad_alloc&) {
        hit = 1;
      } catch (const std::exception&) {
        hit = 2;
      }
      rt::S.fail_from = rt::S.fail_to = 0;
      rt::Harness h;
      if (rt::S.alloc_faults > af) {
        rec.fired["alloc:ctor"] += rt::S.alloc_faults - af;
        rec.ctor_faults++;
      } else if (hit) {
        rec.problems.push_back("C13 construction failed without an allocation failure");
      }
      rt::trace(0xC7, static_cast<uint64_t>(hit));
      if (hit || !boxes.count(sid)) {
        rt::S.harness--;
        make_solver(sid, *sl);
        rt::S.harness++;
      }
    } else if (d == "set") {
      rt::Harness h;
      if (opt.only_solver >= 0 && sid != opt.only_solver) continue;
      if (boxes.count(sid)) {
        set_cfg(boxes[sid], l->str("k"), l->num("v"));
        check_settings(boxes[sid], "after another was set");
      }
    } else if (d == "badset") {
      rt::Harness h;
      if (opt.only_solver >= 0 && sid != opt.only_solver) continue;
      if (boxes.count(sid)) {
        bad_set(boxes[sid], l->str("k"), l->num("v"));
        check_settings(boxes[sid], "after a refused value");
      }
    } else {
      rt::Harness h;
      prepare_problem_edit(*l);
    }
  }
  {
    rt::Api api;
    boxes.clear();
  }
  {
    rt::Harness h;
    probs.clear();
  }
  rec.live_blocks = rt::S.live_blocks - live0;
  rec.live_bytes = rt::S.live_bytes - liveb0;
  rec.contract = std::move(g_contract);
  g_contract.clear();
  rec.log = std::move(g_log);
  g_log.clear();
  rec.sim_ns = rt::now_ns() - t_begin;
  rt::end_run();
#ifdef SIM_MT
  sched::end();
  sched::set_region_hook(nullptr);
  rec.races = sched::races;
  rec.regions = sched::stats.regions;
  rec.switches = sched::stats.switches;
  rec.accesses = sched::stats.accesses;
  rec.race_count = sched::stats.races;
  rec.sched_sig = sched::stats.sig;
  rec.overflow = sched::stats.overflow;
#endif
  crocoddyl::getProfiler().disable_profiler();
  std::cout.rdbuf(old_out);
  std::cerr.rdbuf(old_err);
  std::cout.clear(old_state);
  rt::S.trace.u64(rt::S.bb);
  rec.hash = rt::S.trace.h;
  E = nullptr;
  g_fault_hook = nullptr;
  noise_reset(0);
  rt::clock_hook = nullptr;
}
}  // namespace

Record run_plan(const Plan& plan, const Options& o) {
  Exec e(plan, o);
  e.run();
  return std::move(e.rec);
}
}  // namespace sim
