#include "model.hpp"

#include <cfenv>
#include <cmath>
#include <crocoddyl/core/utils/exception.hpp>
#include <limits>

#ifdef SIM_MT
#include "sched.hpp"
#endif

namespace sim {
static const double INF = std::numeric_limits<double>::infinity();
static const double NANV = std::numeric_limits<double>::quiet_NaN();

std::vector<Call> g_log;
FK (*g_fault_hook)(int, bool, double&) = nullptr;
double g_noise = 0;
static rt::Rng g_noise_rng(1);
static int g_rounding = 0;  // 0 to nearest, 1 changes with every evaluation, 2.. one direction
static const int g_modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
// Variant 0 is exact; 1 and 2 perturb what evaluations return; all others (and
// these) round in other directions, in the solver's own arithmetic too.
void noise_reset(uint64_t v) {
  g_noise_rng = rt::Rng(v);
  g_noise = v == 1 || v == 2 ? 1e-14 : 0;
  g_rounding = v == 0 ? 0 : v < 4 ? 1 : static_cast<int>(2 + (v - 4) % 3);
  fesetround(g_rounding > 1 ? g_modes[g_rounding - 1] : FE_TONEAREST);
}
static void next_rounding() {
  if (g_rounding == 1) fesetround(g_modes[g_noise_rng.next() % 4]);
}
uint64_t g_eval_ns = 1000;
int g_next_model_id = 0;
std::vector<std::string> g_contract;
static SimData& sim_data(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d) {
  return static_cast<SimData&>(*d);
}
static void broken(int id, const char* what) {
  if (g_contract.size() < 8) g_contract.push_back("model " + std::to_string(id) + ": " + what);
}
std::shared_ptr<crocoddyl::ActionDataAbstract> SimModel::createData() {
  rt::Harness h;
  return std::allocate_shared<SimData>(Eigen::aligned_allocator<SimData>(), this, id_);
}

VectorXd SimState::zero() const {
  VectorXd x = VectorXd::Zero(static_cast<Eigen::Index>(get_nx()));
  if (circle_) x[0] = 1.0;
  return x;
}
VectorXd SimState::log(const Eigen::Ref<const VectorXd>& x) const {
  if (!circle_) return x;
  VectorXd q(n_);
  q[0] = std::atan2(x[1], x[0]);
  for (int i = 1; i < n_; ++i) q[i] = x[i + 1];
  return q;
}
VectorXd SimState::exp(const VectorXd& q) const {
  if (!circle_) return q;
  VectorXd x(n_ + 1);
  x[0] = std::cos(q[0]);
  x[1] = std::sin(q[0]);
  for (int i = 1; i < n_; ++i) x[i + 1] = q[i];
  return x;
}
void SimState::diff(const Eigen::Ref<const VectorXd>& x0, const Eigen::Ref<const VectorXd>& x1,
                    Eigen::Ref<VectorXd> o) const {
  rt::Harness h;
  if (!circle_) {
    o = x1 - x0;
    return;
  }
  // angle of conj(x0) * x1
  double cr = x0[0] * x1[0] + x0[1] * x1[1], ci = x0[0] * x1[1] - x0[1] * x1[0];
  o[0] = std::isfinite(cr) && std::isfinite(ci) ? std::atan2(ci, cr)
                                                : std::numeric_limits<double>::quiet_NaN();
  for (int i = 1; i < n_; ++i) o[i] = x1[i + 1] - x0[i + 1];
}
void SimState::integrate(const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& dx,
                         Eigen::Ref<VectorXd> o) const {
  rt::Harness h;
  if (!circle_) {
    o = x + dx;
    return;
  }
  double c = std::cos(dx[0]), s = std::sin(dx[0]);
  double a = x[0] * c - x[1] * s, b = x[0] * s + x[1] * c;
  double r = 1.0 / std::sqrt(a * a + b * b);
  o[0] = a * r;
  o[1] = b * r;
  for (int i = 1; i < n_; ++i) o[i + 1] = x[i + 1] + dx[i];
}
void SimState::Jdiff(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&,
                     Eigen::Ref<MatrixXd> J1, Eigen::Ref<MatrixXd> J2,
                     const crocoddyl::Jcomponent) const {
  J1.setZero();
  J1.diagonal().array() = -1;
  J2.setIdentity();
}
void SimState::Jintegrate(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&,
                          Eigen::Ref<MatrixXd> J1, Eigen::Ref<MatrixXd> J2,
                          const crocoddyl::Jcomponent, const crocoddyl::AssignmentOp) const {
  J1.setIdentity();
  J2.setIdentity();
}

static MatrixXd rmat(rt::Rng& r, int a, int b, double s) {
  MatrixXd m(a, b);
  for (int i = 0; i < a; ++i)
    for (int j = 0; j < b; ++j) m(i, j) = r.real(-s, s);
  return m;
}
static VectorXd rvec(rt::Rng& r, int a, double s) {
  VectorXd m(a);
  for (int i = 0; i < a; ++i) m[i] = r.real(-s, s);
  return m;
}

std::shared_ptr<const Spec> make_spec(const Knobs& k, std::shared_ptr<SimState> st) {
  auto s = std::make_shared<Spec>();
  s->k = k;
  s->state = st;
  rt::Rng r(rt::mix(k.seed, 0x5EC));
  const int n = k.n, m = k.nu, g = static_cast<int>(k.cons.size());
  const double dt = 0.3;
  s->A = dt * rmat(r, n, n, 1.0);
  for (int i = 0; i + 1 < n; ++i) s->A(i, i + 1) += dt;
  s->B = rmat(r, n, m, 1.0);
  s->c = rvec(r, n, 0.1);
  s->a = k.nl * rvec(r, n, 1.0);
  s->W = rmat(r, n, n, 1.5);
  s->V = rmat(r, n, m, 1.0);
  s->ph = rvec(r, n, 3.0);
  MatrixXd L = rmat(r, n, n, 1.0);
  s->Q = L * L.transpose() + 0.2 * MatrixXd::Identity(n, n);
  MatrixXd M = rmat(r, m, m, 0.6);
  s->R = k.rscale * (M * M.transpose() + 0.3 * MatrixXd::Identity(m, m));
  s->N = rmat(r, n, m, 0.05);
  s->lx = rvec(r, n, 1.0);
  s->lu = rvec(r, m, 0.5);
  s->hq = rvec(r, n, 1.5);
  if (k.hess == 1) s->Q -= r.real(0.5, 3.0) * MatrixXd::Identity(n, n);
  if (k.hess == 2) s->R -= r.real(0.5, 4.0) * MatrixXd::Identity(m, m);
  s->Gq = MatrixXd::Zero(g, n);
  s->Gw = MatrixXd::Zero(g, m);
  s->oc = MatrixXd::Zero(n, g);
  s->lb = VectorXd::Constant(g, -INF);
  s->ub = VectorXd::Constant(g, INF);
  s->off = VectorXd::Zero(g);
  for (int i = 0; i < g; ++i) {
    switch (k.cons[static_cast<size_t>(i)]) {
      case 'l':  // two-sided linear
        s->Gq.row(i) = rvec(r, n, 1.0).transpose();
        s->Gw.row(i) = rvec(r, m, 0.7).transpose();
        s->lb[i] = -r.real(0.05, 1.0);
        s->ub[i] = r.real(0.05, 1.0);
        break;
      case '1':  // one-sided linear
        s->Gq.row(i) = rvec(r, n, 1.0).transpose();
        s->Gw.row(i) = rvec(r, m, 0.7).transpose();
        if (r.chance(0.5))
          s->lb[i] = -r.real(0.0, 0.6);
        else
          s->ub[i] = r.real(0.0, 0.6);
        break;
      case 'e':  // equality
        s->Gq.row(i) = rvec(r, n, 0.6).transpose();
        s->Gw.row(i) = rvec(r, m, 1.0).transpose();
        s->lb[i] = s->ub[i] = r.real(-0.3, 0.3);
        break;
      case 'o':  // stay outside a ball (nonconvex)
        s->oc.col(i) = rvec(r, n, 1.2);
        s->lb[i] = r.real(0.1, 0.8);
        break;
      case 'u': {  // control bound
        if (m > 0) s->Gw(i, static_cast<int>(r.below(static_cast<uint64_t>(m)))) = 1.0;
        double b = r.real(0.1, 0.8);
        s->lb[i] = -b;
        s->ub[i] = b;
        break;
      }
      case 'x':  // contradictory bounds: no value satisfies both
        s->Gq.row(i) = rvec(r, n, 1.0).transpose();
        s->Gw.row(i) = rvec(r, m, 0.7).transpose();
        s->lb[i] = r.real(0.05, 0.5);
        s->ub[i] = -r.real(0.05, 0.5);
        break;
      default:  // 'f': unbounded row
        s->Gq.row(i) = rvec(r, n, 1.0).transpose();
        s->Gw.row(i) = rvec(r, m, 0.7).transpose();
        break;
    }
  }
  return s;
}

// Features: q with the angle entering through its sine, so that everything is
// smooth on the manifold.
static void feat(const Spec& s, const VectorXd& q, VectorXd& f, double& df0) {
  f = q;
  df0 = 1.0;
  if (s.k.circle) {
    f[0] = std::sin(q[0]);
    df0 = std::cos(q[0]);
  }
}

void core_calc(const Spec& s, const Eigen::Ref<const VectorXd>& x, const VectorXd* u, Vals& v) {
  VectorXd q = s.state->log(x), f;
  double df0;
  feat(s, q, f, df0);
  VectorXd qn = q + s.A * f + s.c;
  VectorXd arg = s.W * f + s.ph;
  if (u && u->size()) {
    qn += s.B * (*u);
    arg += s.V * (*u);
  }
  for (int i = 0; i < s.k.n; ++i) qn[i] += s.a[i] * std::sin(arg[i]);
  v.xnext = s.state->exp(qn);
  double c = 0.5 * f.dot(s.Q * f) + s.lx.dot(f);
  if (u && u->size()) c += 0.5 * u->dot(s.R * (*u)) + s.lu.dot(*u) + f.dot(s.N * (*u));
  if (s.k.nlc != 0.0) c += s.k.nlc * (1.0 - std::cos(s.hq.dot(f)));
  if (s.k.wall > 0 && std::fabs(q[0]) > s.k.wall) c = NANV;
  v.cost = c;
  const int g = s.ng();
  v.g = VectorXd::Zero(g);
  for (int i = 0; i < g; ++i) {
    if (s.k.cons[static_cast<size_t>(i)] == 'o') {
      v.g[i] = (f - s.oc.col(i)).squaredNorm();
    } else {
      v.g[i] = s.Gq.row(i).dot(f);
      if (u && u->size()) v.g[i] += s.Gw.row(i).dot(*u);
    }
  }
}

void core_diff(const Spec& s, const Eigen::Ref<const VectorXd>& x, const VectorXd* u, Ders& d) {
  VectorXd q = s.state->log(x), f;
  double df0;
  feat(s, q, f, df0);
  const int n = s.k.n, m = s.k.nu, g = s.ng();
  VectorXd arg = s.W * f + s.ph;
  const bool hu = u && u->size();
  if (hu) arg += s.V * (*u);
  d.Fx = s.A;
  d.Fu = s.B;
  for (int i = 0; i < n; ++i) {
    double co = s.a[i] * std::cos(arg[i]);
    d.Fx.row(i) += co * s.W.row(i);
    d.Fu.row(i) += co * s.V.row(i);
  }
  d.Fx.col(0) *= df0;
  d.Fx += MatrixXd::Identity(n, n);
  d.Lx = s.Q * f + s.lx;
  d.Lu = VectorXd::Zero(m);
  if (hu) {
    d.Lx += s.N * (*u);
    d.Lu = s.R * (*u) + s.lu + s.N.transpose() * f;
  } else if (m) {
    d.Lu = s.lu + s.N.transpose() * f;
  }
  d.Lxx = s.Q;
  d.Lxu = s.N;
  d.Luu = s.R;
  if (s.k.nlc != 0.0) {
    double w = s.hq.dot(f);
    d.Lx += s.k.nlc * std::sin(w) * s.hq;
    // exact curvature if indefiniteness is wanted, its convex part otherwise
    double cw = std::cos(w);
    if (s.k.hess == 0 && cw < 0) cw = 0;
    d.Lxx += s.k.nlc * cw * s.hq * s.hq.transpose();
  }
  d.Lx[0] *= df0;
  d.Lxx.row(0) *= df0;
  d.Lxx.col(0) *= df0;
  d.Lxu.row(0) *= df0;
  d.Gx = s.Gq;
  d.Gu = s.Gw;
  for (int i = 0; i < g; ++i)
    if (s.k.cons[static_cast<size_t>(i)] == 'o')
      d.Gx.row(i) = 2.0 * (f - s.oc.col(i)).transpose();
  if (g) d.Gx.col(0) *= df0;
}

static const char* kNames[] = {"none",      "throw_std", "throw_croc", "throw_mid", "throw_int",
                               "nan_cost",  "inf_cost",  "huge_cost",  "nan_xnext", "inf_xnext",
                               "nan_g",     "inf_g",     "nan_lx",     "nan_lu",    "nan_lxx",
                               "nan_luu",   "nan_fx",    "nan_fu",     "nan_gx",    "inf_lx",
                               "inf_fx",    "stall",     "wall_jump"};
const char* fk_name(FK k) { return kNames[static_cast<int>(k)]; }
FK fk_parse(const std::string& s) {
  for (int i = 0; i < static_cast<int>(FK::count); ++i)
    if (s == kNames[i]) return static_cast<FK>(i);
  return FK::none;
}
bool fk_throws(FK k) {
  return k == FK::throw_std || k == FK::throw_croc || k == FK::throw_mid || k == FK::throw_int;
}
bool fk_is_calc(FK k) { return k != FK::none && (k <= FK::inf_g || k >= FK::stall); }
bool fk_is_diff(FK k) {
  return k != FK::none && (k <= FK::throw_int || k >= FK::nan_lx);
}
bool fk_is_fault(FK k) { return k != FK::none && k < FK::stall; }

SimModel::SimModel(std::shared_ptr<const Spec> s)
    : crocoddyl::ActionModelAbstract(s->state, static_cast<std::size_t>(s->k.nu), 0,
                                     s->k.cons.size(), static_cast<size_t>(s->k.nh), 0, 0),
      spec_(s),
      id_(g_next_model_id++) {
  if (s->ng()) {
    if (s->k.late) {
      set_g_lb(VectorXd::Constant(s->ng(), 3.75));
      set_g_ub(VectorXd::Constant(s->ng(), -2.5));
    }
    set_bounds(s->lb, s->ub);
  }
}

void SimModel::set_bounds(const VectorXd& lb, const VectorXd& ub) {
  if (spec_->k.late) {
    next_lb_ = lb;
    next_ub_ = ub;
    late_ = true;
  } else {
    set_g_lb(lb);
    set_g_ub(ub);
  }
}

static void do_throw(FK k) {
  switch (k) {
    case FK::throw_croc:
      throw crocoddyl::Exception("injected", __FILE__, __PRETTY_FUNCTION__, __LINE__);
    case FK::throw_int:
      throw 42;
    default:
      throw InjectedError("injected evaluation failure");
  }
}

void SimModel::do_calc(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
                       const Eigen::Ref<const VectorXd>& x, const VectorXd* u) {
  double arg = 0;
  rt::advance_ns(g_eval_ns);
  FK k = g_fault_hook ? g_fault_hook(id_, false, arg) : FK::none;
  g_log.push_back(Call{rt::now_ns(), id_, false, spec_->k.term, k, x, u ? *u : VectorXd()});
  rt::trace(0xCA1C, static_cast<uint64_t>(id_), static_cast<uint64_t>(k));
  if (k == FK::stall) rt::advance_ns(static_cast<uint64_t>(arg));
  if (k == FK::wall_jump) rt::S.wall_off += static_cast<int64_t>(arg);
  next_rounding();
  if (late_) {
    set_g_lb(next_lb_);
    set_g_ub(next_ub_);
    late_ = false;
  }
  SimData& sd = sim_data(d);
  if (sd.owner != id_) broken(id_, "calc was given the data of another node");
  sd.calc_ok = false;
  sd.calc_x = x;
  sd.calc_u = u ? *u : VectorXd();
  if (!fk_throws(k)) sd.calc_ok = true;
  Vals v;
  core_calc(*spec_, x, u, v);
  if (g_noise > 0) {
    v.cost += g_noise * (1 + std::fabs(v.cost)) * g_noise_rng.real(-1, 1);
    for (auto* q : {&v.xnext, &v.g})
      for (Eigen::Index i = 0; i < q->size(); ++i)
        (*q)[i] += g_noise * (1 + std::fabs((*q)[i])) * g_noise_rng.real(-1, 1);
  }
  rt::trace(0xCA1D, bits(v.cost), bits(v.xnext.sum()));
#ifdef SIM_MT
  sched::access(x.data(), sizeof(double) * static_cast<size_t>(x.size()), false);
  sched::access(&d->cost, sizeof d->cost, true);
  sched::access(d->xnext.data(), sizeof(double) * static_cast<size_t>(d->xnext.size()), true);
  sched::access(d->g.data(), sizeof(double) * static_cast<size_t>(d->g.size()), true);
#endif
  if (k == FK::throw_mid) {
    d->cost = 1e7 * (1.0 + v.cost);
    d->xnext = v.xnext * 17.0;
    if (d->g.size()) d->g.setConstant(-1e6);
  }
  if (fk_throws(k)) do_throw(k);
  d->cost = v.cost;
  d->xnext = v.xnext;
  d->g = v.g;
  switch (k) {
    case FK::nan_cost:
      d->cost = NANV;
      break;
    case FK::inf_cost:
      d->cost = INF;
      break;
    case FK::huge_cost:
      d->cost = 3e31;
      break;
    case FK::nan_xnext:
      d->xnext[d->xnext.size() - 1] = NANV;
      break;
    case FK::inf_xnext:
      d->xnext[d->xnext.size() - 1] = INF;
      break;
    case FK::nan_g:
      if (d->g.size()) d->g[0] = NANV;
      break;
    case FK::inf_g:
      if (d->g.size()) d->g[0] = INF;
      break;
    default:
      break;
  }
}
void SimModel::do_diff(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
                       const Eigen::Ref<const VectorXd>& x, const VectorXd* u) {
  double arg = 0;
  rt::advance_ns(2 * g_eval_ns);
  FK k = g_fault_hook ? g_fault_hook(id_, true, arg) : FK::none;
  g_log.push_back(Call{rt::now_ns(), id_, true, spec_->k.term, k, x, u ? *u : VectorXd()});
  rt::trace(0xD1FF, static_cast<uint64_t>(id_), static_cast<uint64_t>(k));
  if (k == FK::stall) rt::advance_ns(static_cast<uint64_t>(arg));
  if (k == FK::wall_jump) rt::S.wall_off += static_cast<int64_t>(arg);
  next_rounding();
  SimData& sd = sim_data(d);
  sd.diff_ok = !fk_throws(k);
  sd.diff_x = x;
  sd.diff_u = u ? *u : VectorXd();
  if (sd.owner != id_)
    broken(id_, "calcDiff was given the data of another node");
  else if (!sd.calc_ok)
    broken(id_, "calcDiff came without a calc that succeeded before it");
  else if (!same_vec(sd.calc_x, sd.diff_x) || !same_vec(sd.calc_u, sd.diff_u))
    broken(id_, "calcDiff came at another point than the calc before it");
  Ders v;
  core_diff(*spec_, x, u, v);
  if (g_noise > 0)
    for (auto* q : {&v.Lx, &v.Lu})
      for (Eigen::Index i = 0; i < q->size(); ++i)
        (*q)[i] += g_noise * (1 + std::fabs((*q)[i])) * g_noise_rng.real(-1, 1);
#ifdef SIM_MT
  auto wr = [](auto& m) {
    sched::access(m.data(), sizeof(double) * static_cast<size_t>(m.size()), true);
  };
  sched::access(x.data(), sizeof(double) * static_cast<size_t>(x.size()), false);
  wr(d->Lx), wr(d->Lu), wr(d->Lxx), wr(d->Lxu), wr(d->Luu);
  wr(d->Fx), wr(d->Fu), wr(d->Gx), wr(d->Gu);
#endif
  if (k == FK::throw_mid) {
    d->Lx = 1e5 * v.Lx;
    d->Fx = -3.0 * v.Fx;
  }
  if (fk_throws(k)) do_throw(k);
  d->Lx = v.Lx;
  d->Lxx = v.Lxx;
  d->Lu = v.Lu;
  d->Luu = v.Luu;
  d->Lxu = v.Lxu;
  d->Fx = v.Fx;
  d->Fu = v.Fu;
  d->Gx = v.Gx;
  d->Gu = v.Gu;
  switch (k) {
    case FK::nan_lx:
      d->Lx[0] = NANV;
      break;
    case FK::nan_lu:
      if (d->Lu.size()) d->Lu[0] = NANV;
      break;
    case FK::nan_lxx:
      d->Lxx(0, 0) = NANV;
      break;
    case FK::nan_luu:
      if (d->Luu.size()) d->Luu(0, 0) = NANV;
      break;
    case FK::nan_fx:
      d->Fx(0, d->Fx.cols() - 1) = NANV;
      break;
    case FK::nan_fu:
      if (d->Fu.cols()) d->Fu(0, 0) = NANV;
      break;
    case FK::nan_gx:
      if (d->Gx.rows()) d->Gx(0, 0) = NANV;
      break;
    case FK::inf_lx:
      d->Lx[0] = INF;
      break;
    case FK::inf_fx:
      d->Fx(0, 0) = INF;
      break;
    default:
      break;
  }
}

// Other threads may run before and after an evaluation.
struct SwitchPoint {
#ifdef SIM_MT
  SwitchPoint() { sched::point(); }
  ~SwitchPoint() {
    if (!std::uncaught_exceptions()) sched::point();
  }
#else
  ~SwitchPoint() {}
#endif
};
void SimModel::calc(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
                    const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) {
  SwitchPoint sp;
  rt::Harness h;
  if (x.size() != static_cast<Eigen::Index>(get_state()->get_nx()))
    rt::fatal("dimension", "calc called with a state of the wrong size");
  if (u.size() != static_cast<Eigen::Index>(get_nu()))
    rt::fatal("dimension", "calc called with a control of the wrong size");
#ifdef SIM_MT
  sched::access(u.data(), sizeof(double) * static_cast<size_t>(u.size()), false);
#endif
  VectorXd uu = u;
  do_calc(d, x, &uu);
}
void SimModel::calc(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
                    const Eigen::Ref<const VectorXd>& x) {
  SwitchPoint sp;
  rt::Harness h;
  if (x.size() != static_cast<Eigen::Index>(get_state()->get_nx()))
    rt::fatal("dimension", "calc called with a state of the wrong size");
  // without controls the call without them is the same evaluation
  const VectorXd none(0);
  if (!spec_->k.term && get_nu() != 0)
    rt::fatal("dimension", "calc called without the controls of a running node");
  do_calc(d, x, spec_->k.term ? nullptr : &none);
}
void SimModel::calcDiff(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
                        const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) {
  SwitchPoint sp;
  rt::Harness h;
  if (x.size() != static_cast<Eigen::Index>(get_state()->get_nx()))
    rt::fatal("dimension", "calcDiff called with a state of the wrong size");
  if (u.size() != static_cast<Eigen::Index>(get_nu()))
    rt::fatal("dimension", "calcDiff called with a control of the wrong size");
#ifdef SIM_MT
  sched::access(u.data(), sizeof(double) * static_cast<size_t>(u.size()), false);
#endif
  VectorXd uu = u;
  do_diff(d, x, &uu);
}
void SimModel::calcDiff(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
                        const Eigen::Ref<const VectorXd>& x) {
  SwitchPoint sp;
  rt::Harness h;
  const VectorXd none(0);
  if (!spec_->k.term && get_nu() != 0)
    rt::fatal("dimension", "calcDiff called without the controls of a running node");
  do_diff(d, x, spec_->k.term ? nullptr : &none);
}

void Problem::build(const VectorXd& x0) {
  std::vector<std::shared_ptr<crocoddyl::ActionModelAbstract>> r(run.begin(), run.end());
  pb = std::make_shared<crocoddyl::ShootingProblem>(x0, r, term);
}
std::shared_ptr<Problem> Problem::clone() const {
  auto p = std::make_shared<Problem>();
  p->state = state;
  auto cp = [](const std::shared_ptr<SimModel>& m) {
    auto c = std::make_shared<SimModel>(m->spec());
    if (m->spec()->ng()) c->set_bounds(m->lb(), m->ub());
    return c;
  };
  for (auto& m : run) p->run.push_back(cp(m));
  p->term = cp(term);
  p->build(pb->get_x0());
#ifdef CROCODDYL_WITH_MULTITHREADING
  p->pb->set_nthreads(static_cast<int>(pb->get_nthreads()));
#endif
  return p;
}

uint64_t bits(double d) {
  if (d != d) return 0x7ff8000000000000ull;
  if (d == 0) d = 0;
  uint64_t v;
  std::memcpy(&v, &d, 8);
  return v;
}
bool same_vec(const VectorXd& a, const VectorXd& b) {
  if (a.size() != b.size()) return false;
  for (Eigen::Index i = 0; i < a.size(); ++i)
    if (bits(a[i]) != bits(b[i])) return false;
  return true;
}
bool same_traj(const Traj& a, const Traj& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!same_vec(a[i], b[i])) return false;
  return true;
}
bool all_finite(const Traj& t) {
  for (auto& v : t)
    for (Eigen::Index i = 0; i < v.size(); ++i)
      if (!std::isfinite(v[i])) return false;
  return true;
}
double max_abs_diff(const Traj& a, const Traj& b) {
  if (a.size() != b.size()) return INF;
  double m = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].size() != b[i].size()) return INF;
    for (Eigen::Index j = 0; j < a[i].size(); ++j) {
      double d = std::fabs(a[i][j] - b[i][j]);
      if (!(d == d)) {
        if (bits(a[i][j]) == bits(b[i][j])) continue;
        return INF;
      }
      m = std::max(m, d);
    }
  }
  return m;
}
double max_abs(const Traj& a) {
  double m = 0;
  for (auto& v : a)
    for (Eigen::Index j = 0; j < v.size(); ++j) m = std::max(m, std::fabs(v[j]));
  return m;
}
}  // namespace sim
