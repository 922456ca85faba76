// What the C++ objects behind the Python module say, read and driven without the module's bindings.
//
// The solvers of a run exist twice: one is made, set and solved through mim_solvers' Python module,
// its twin through the functions below, which call the C++ members directly.
#include <boost/python.hpp>

#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>

#include <crocoddyl/core/optctrl/shooting.hpp>

#include "mim_solvers/csqp.hpp"
#include "mim_solvers/csqp_proxqp.hpp"
#include "mim_solvers/ddp.hpp"
#include "mim_solvers/fddp.hpp"
#include "mim_solvers/sqp.hpp"
#include "mim_solvers/utils/callbacks.hpp"

namespace bp = boost::python;
using namespace mim_solvers;
typedef std::vector<Eigen::VectorXd> Vecs;

// ---- values -> Python
template <class M>
static bp::object bytes(const M& m) {
  std::string s;
  for (Eigen::Index i = 0; i < m.rows(); ++i)
    for (Eigen::Index j = 0; j < m.cols(); ++j) {
      double v = m(i, j);
      s.append(reinterpret_cast<const char*>(&v), sizeof v);
    }
  return bp::object(bp::handle<>(PyBytes_FromStringAndSize(s.data(), (Py_ssize_t)s.size())));
}
template <class V>
static bp::object many(const V& v) {
  bp::list l;
  for (const auto& m : v) l.append(bytes(m));
  return l;
}
static Vecs vecs(const bp::object& o) {
  Vecs r;
  for (long i = 0; i < bp::len(o); ++i) {
    bp::object e = o[i];
    Eigen::VectorXd v(bp::len(e));
    for (long j = 0; j < v.size(); ++j) v[j] = bp::extract<double>(bp::object(e[j]));
    r.push_back(v);
  }
  return r;
}

enum Kind { CSQP, SQP, DDP, FDDP, PROXQP };

template <class F>
static auto with(const bp::object& o, F f) {
  bp::extract<SolverCSQP&> c(o);
  if (c.check()) return f(static_cast<SolverCSQP&>(c()));
  bp::extract<SolverSQP&> q(o);
  if (q.check()) return f(static_cast<SolverSQP&>(q()));
  bp::extract<SolverPROXQP&> p(o);
  if (p.check()) return f(static_cast<SolverPROXQP&>(p()));
  bp::extract<SolverFDDP&> g(o);
  if (g.check()) return f(static_cast<SolverFDDP&>(g()));
  SolverDDP& d = bp::extract<SolverDDP&>(o)();
  return f(d);
}
template <class S>
static constexpr Kind kind_of() {
  if (std::is_same<S, SolverCSQP>::value) return CSQP;
  if (std::is_same<S, SolverSQP>::value) return SQP;
  if (std::is_same<S, SolverPROXQP>::value) return PROXQP;
  if (std::is_same<S, SolverFDDP>::value) return FDDP;
  return DDP;
}

template <class S>
static bp::dict values_of(S& s) {
  constexpr Kind k = kind_of<S>();
  bp::dict d;
  d["iter"] = (double)s.get_iter();
  d["cost"] = s.SolverAbstract::get_cost();
  d["stop"] = s.get_stop();
  d["preg"] = s.get_preg();
  d["dreg"] = s.get_dreg();
  d["stepLength"] = s.get_steplength();
  d["th_acceptStep"] = s.get_th_acceptstep();
  d["th_stop"] = s.get_th_stop();
  d["th_gapTol"] = s.get_th_gaptol();
  d["isFeasible"] = (double)s.get_is_feasible();
  d["xs"] = many(s.get_xs());
  d["us"] = many(s.get_us());
  d["fs"] = many(s.get_fs());
  d["Vxx"] = many(s.get_Vxx());
  d["Vx"] = many(s.get_Vx());
  d["Qxx"] = many(s.get_Qxx());
  d["Qxu"] = many(s.get_Qxu());
  d["Quu"] = many(s.get_Quu());
  d["Qx"] = many(s.get_Qx());
  d["Qu"] = many(s.get_Qu());
  d["K"] = many(s.get_K());
  d["k"] = many(s.get_k());
  d["reg_incFactor"] = s.get_reg_incfactor();
  d["reg_decFactor"] = s.get_reg_decfactor();
  d["reg_min"] = s.get_reg_min();
  d["reg_max"] = s.get_reg_max();
  d["th_stepDec"] = s.get_th_stepdec();
  d["th_stepInc"] = s.get_th_stepinc();
  d["th_grad"] = s.get_th_grad();
  bp::list al;
  for (double a : s.get_alphas()) al.append(a);
  d["alphas"] = al;
  d["termination_tolerance"] = s.get_termination_tolerance();
  d["lag_mul"] = many(s.lag_mul_);
  d["KKT"] = s.get_KKT();
  d["n_callbacks"] = (double)s.SolverDDP::getCallbacks().size();
  if constexpr (k == FDDP) {
    d["th_acceptNegStep"] = s.get_th_acceptnegstep();
    d["use_filter_line_search"] = (double)s.get_use_filter_line_search();
    d["filter_size"] = (double)s.get_filter_size();
  }
  if constexpr (k == SQP || k == CSQP || k == PROXQP) {
    d["use_filter_line_search"] = (double)s.get_use_filter_line_search();
    d["mu_dynamic"] = s.get_mu_dynamic();
    d["filter_size"] = (double)s.get_filter_size();
    d["merit"] = s.get_merit();
    d["gap_norm"] = s.get_gap_norm();
    d["dx"] = many(s.get_dx());
    d["du"] = many(s.get_du());
    d["xs_try"] = many(s.xs_try_);
    d["us_try"] = many(s.us_try_);
    d["fs_try"] = many(s.fs_try_);
    d["cost_try"] = s.cost_try_;
  }
  if constexpr (k == SQP || k == CSQP)
    d["extra_iteration_for_last_kkt"] = (double)s.get_extra_iteration_for_last_kkt();
  if constexpr (k == CSQP || k == PROXQP) {
    d["constraint_norm"] = s.get_constraint_norm();
    d["qp_iters"] = (double)s.get_qp_iters();
    d["eps_abs"] = s.get_eps_abs();
    d["max_qp_iters"] = (double)s.get_max_qp_iters();
    d["mu_constraint"] = s.get_mu_constraint();
    d["y"] = many(s.get_y());
  }
  if constexpr (k == CSQP) {
    d["z"] = many(s.get_z());
    d["rho_vec"] = many(s.get_rho_vec());
    d["dx_tilde"] = many(s.get_dx_tilde());
    d["du_tilde"] = many(s.get_du_tilde());
    d["with_qp_callbacks"] = (double)s.getQPCallbacks();
    d["lag_mul_inf_norm_coef"] = s.get_lag_mul_inf_norm_coef();
    d["eps_rel"] = s.get_eps_rel();
    d["rho_sparse"] = s.get_rho_sparse();
    d["equality_qp_initial_guess"] = (double)s.get_equality_qp_initial_guess();
    d["sigma"] = s.get_sigma();
    d["alpha"] = s.get_alpha();
    d["rho_update_interval"] = (double)s.get_rho_update_interval();
    d["adaptive_rho_tolerance"] = (double)s.get_adaptive_rho_tolerance();
    d["max_solve_time"] = s.get_max_solve_time();
    d["max_solve_time_reached"] = (double)s.get_max_solve_time_reached();
    d["norm_primal"] = s.get_norm_primal();
    d["norm_dual"] = s.get_norm_dual();
    d["norm_primal_rel"] = s.norm_primal_rel_;
    d["norm_dual_rel"] = s.norm_dual_rel_;
    d["reset_y"] = (double)s.get_reset_y();
    d["reset_rho"] = (double)s.get_reset_rho();
    d["update_rho_with_heuristic"] = (double)s.update_rho_with_heuristic_;
    d["remove_reg"] = (double)s.remove_reg_;
  }
  if constexpr (k == PROXQP) {
    d["with_callbacks"] = (double)s.getCallbacks();
    d["KKT_norm"] = s.get_KKT();
    d["P"] = bytes(s.get_P());
    d["A"] = bytes(s.get_A());
    d["C"] = bytes(s.get_C());
    d["q"] = bytes(s.get_q());
    d["b"] = bytes(s.get_b());
    d["l"] = bytes(s.get_l());
    d["u"] = bytes(s.get_u());
  }
  return d;
}

static bp::dict values(const bp::object& o) {
  return with(o, [](auto& s) { return values_of(s); });
}

static double num(const bp::object& v) { return bp::extract<double>(v); }

template <class S>
static void set_of(S& s, const std::string& n, const bp::object& v) {
  constexpr Kind k = kind_of<S>();
#define SET(NAME, CALL) \
  if (n == NAME) {      \
    CALL;               \
    return;             \
  }
  SET("th_acceptStep", s.set_th_acceptstep(num(v)))
  SET("th_stop", s.set_th_stop(num(v)))
  SET("th_gapTol", s.set_th_gaptol(num(v)))
  SET("preg", s.set_preg(num(v)))
  SET("dreg", s.set_dreg(num(v)))
  SET("reg_incFactor", s.set_reg_incfactor(num(v)))
  SET("reg_decFactor", s.set_reg_decfactor(num(v)))
  SET("reg_min", s.set_reg_min(num(v)))
  SET("reg_max", s.set_reg_max(num(v)))
  SET("th_stepDec", s.set_th_stepdec(num(v)))
  SET("th_stepInc", s.set_th_stepinc(num(v)))
  SET("th_grad", s.set_th_grad(num(v)))
  SET("termination_tolerance", s.set_termination_tolerance(num(v)))
  if (n == "alphas") {
    std::vector<double> a;
    for (long i = 0; i < bp::len(v); ++i) a.push_back(bp::extract<double>(bp::object(v[i])));
    s.set_alphas(a);
    return;
  }
  SET("xs", s.set_xs(vecs(v)))
  SET("us", s.set_us(vecs(v)))
  SET("lag_mul", s.lag_mul_ = vecs(v))
  if constexpr (k == FDDP) {
    SET("th_acceptNegStep", s.set_th_acceptnegstep(num(v)))
    SET("filter_size", s.set_filter_size((std::size_t)num(v)))
    SET("use_filter_line_search", s.set_use_filter_line_search(num(v) != 0.))
  }
  if constexpr (k == SQP || k == CSQP || k == PROXQP) {
    SET("filter_size", s.set_filter_size((std::size_t)num(v)))
    SET("use_filter_line_search", s.set_use_filter_line_search(num(v) != 0.))
    SET("mu_dynamic", s.set_mu_dynamic(num(v)))
  }
  if constexpr (k == SQP || k == CSQP)
    SET("extra_iteration_for_last_kkt", s.set_extra_iteration_for_last_kkt(num(v) != 0.))
  if constexpr (k == CSQP || k == PROXQP) {
    SET("eps_abs", s.set_eps_abs(num(v)))
    SET("max_qp_iters", s.set_max_qp_iters((int)num(v)))
    SET("mu_constraint", s.set_mu_constraint(num(v)))
  }
  if constexpr (k == PROXQP) SET("with_callbacks", s.setCallbacks(num(v) != 0.))
  if constexpr (k == CSQP) {
    SET("with_qp_callbacks", s.setQPCallbacks(num(v) != 0.))
    SET("lag_mul_inf_norm_coef", s.set_lag_mul_inf_norm_coef(num(v)))
    SET("eps_rel", s.set_eps_rel(num(v)))
    SET("rho_sparse", s.set_rho_sparse(num(v)))
    SET("equality_qp_initial_guess", s.set_equality_qp_initial_guess(num(v) != 0.))
    SET("sigma", s.set_sigma(num(v)))
    SET("alpha", s.set_alpha(num(v)))
    SET("rho_update_interval", s.set_rho_update_interval((std::size_t)num(v)))
    SET("adaptive_rho_tolerance", s.set_adaptive_rho_tolerance((std::size_t)num(v)))
    SET("max_solve_time", s.set_max_solve_time(num(v)))
    SET("reset_y", s.reset_y_ = num(v) != 0.)
    SET("reset_rho", s.reset_rho_ = num(v) != 0.)
    SET("update_rho_with_heuristic", s.update_rho_with_heuristic_ = num(v) != 0.)
    SET("remove_reg", s.remove_reg_ = num(v) != 0.)
    SET("y", s.y_ = vecs(v))
    SET("z", s.z_ = vecs(v))
  }
#undef SET
  throw std::logic_error("oracle: no setting " + n);
}
static void set(const bp::object& o, const std::string& n, const bp::object& v) {
  with(o, [&](auto& s) { set_of(s, n, v); });
}

// solve with the first n of (init_xs, init_us, maxiter, feasible, reg); the others by default
static bool solve(const bp::object& o, const bp::list& a) {
  return with(o, [&](auto& s) -> bool {
    const long n = bp::len(a);
    if (n == 0) return s.solve();
    const Vecs xs = vecs(a[0]);
    if (n == 1) return s.solve(xs);
    const Vecs us = vecs(a[1]);
    if (n == 2) return s.solve(xs, us);
    const std::size_t it = bp::extract<std::size_t>(bp::object(a[2]));
    if (n == 3) return s.solve(xs, us, it);
    const bool f = bp::extract<bool>(bp::object(a[3]));
    if (n == 4) return s.solve(xs, us, it, f);
    return s.solve(xs, us, it, f, bp::extract<double>(bp::object(a[4])));
  });
}

// members the module offers besides solve(); returns what they return (None: nothing)
static bp::object call(const bp::object& o, const std::string& m, double arg) {
  return with(o, [&](auto& s) -> bp::object {
    typedef typename std::decay<decltype(s)>::type S;
    constexpr Kind k = kind_of<S>();
    if constexpr (k == CSQP) {
      if (m == "calc") return s.calc(arg != 0.), bp::object();
      if (m == "computeDirection") return s.computeDirection(arg != 0.), bp::object();
      if (m == "checkKKTConditions") return s.checkKKTConditions(), bp::object();
      if (m == "update_lagrangian_parameters")
        return s.update_lagrangian_parameters((int)arg), bp::object();
      if (m == "update_rho_vec") return s.update_rho_vec((int)arg), bp::object();
      if (m == "forwardPass") return s.forwardPass(arg), bp::object();
      if (m == "backwardPass") return s.backwardPass(), bp::object();
      if (m == "backwardPass_without_constraints")
        return s.backwardPass_without_constraints(), bp::object();
      if (m == "backwardPass_without_rho_update")
        return s.backwardPass_without_rho_update(), bp::object();
    } else if constexpr (k == PROXQP) {
      if (m == "calc") return s.calc(arg != 0.), bp::object();
      if (m == "computeDirection") return s.computeDirection(arg != 0.), bp::object();
    } else {
      if (m == "computeDirection") return s.computeDirection(arg != 0.), bp::object();
      if (m == "calcDiff") return bp::object(s.calcDiff());
      if (m == "backwardPass") return s.backwardPass(), bp::object();
      if (m == "forwardPass") return s.forwardPass(arg), bp::object();
    }
    if (m == "tryStep") return bp::object(s.tryStep(arg));
    if (m == "stoppingCriteria") return bp::object(s.stoppingCriteria());
    if (m == "expectedImprovement") return bytes(s.expectedImprovement());
    if constexpr (k == FDDP)
      if (m == "updateExpectedImprovement") return s.updateExpectedImprovement(), bp::object();
    throw std::logic_error("oracle: no member " + m);
  });
}

static bp::object make(const std::string& t, const std::shared_ptr<crocoddyl::ShootingProblem>& p) {
  if (t == "CSQP") return bp::object(std::make_shared<SolverCSQP>(p));
  if (t == "SQP") return bp::object(std::make_shared<SolverSQP>(p));
  if (t == "DDP") return bp::object(std::make_shared<SolverDDP>(p));
  if (t == "FDDP") return bp::object(std::make_shared<SolverFDDP>(p));
  return bp::object(std::make_shared<SolverPROXQP>(p));
}

// ---- callbacks of the twin
struct Recorder : CallbackAbstract {
  bp::object on_call;  // (values, type) -> None: what happens at that call
  void operator()(crocoddyl::SolverAbstract& s) override { (*this)(s, ""); }
  void operator()(crocoddyl::SolverAbstract& s, std::string t) override {
    bp::dict d;
    if (auto* c = dynamic_cast<SolverCSQP*>(&s)) d = values_of(*c);
    else if (auto* q = dynamic_cast<SolverSQP*>(&s)) d = values_of(*q);
    else if (auto* p = dynamic_cast<SolverPROXQP*>(&s)) d = values_of(*p);
    else if (auto* f = dynamic_cast<SolverFDDP*>(&s)) d = values_of(*f);
    else d = values_of(dynamic_cast<SolverDDP&>(s));
    on_call(d, t);
  }
};
static void set_callbacks(const bp::object& o, const bp::list& l) {
  std::vector<std::shared_ptr<CallbackAbstract>> v;
  for (long i = 0; i < bp::len(l); ++i) {
    bp::object e = l[i];
    bp::extract<int> precision(e);
    if (precision.check()) {
      v.push_back(std::make_shared<CallbackVerbose>(precision()));
    } else {
      auto r = std::make_shared<Recorder>();
      r->on_call = e;
      v.push_back(r);
    }
  }
  with(o, [&](auto& s) { s.SolverDDP::setCallbacks(v); });
}

// the same change of the list as Run.edit makes
struct Silent : CallbackAbstract {
  void operator()(crocoddyl::SolverAbstract&) override {}
  void operator()(crocoddyl::SolverAbstract&, std::string) override {}
};
static void edit_callbacks(const bp::object& o, const std::string& how) {
  with(o, [&](auto& s) {
    auto v = s.SolverDDP::getCallbacks();
    if (how == "clear") v.clear();
    if (how == "last") v.erase(v.begin(), v.end() - (v.empty() ? 0 : 1));
    if (how == "more")
      for (int i = 0; i < 40; ++i) v.push_back(std::make_shared<Silent>());
    s.SolverDDP::setCallbacks(v);
  });
}

static std::size_t address(const bp::object& o) {
  return with(o, [](auto& s) { return reinterpret_cast<std::size_t>(static_cast<crocoddyl::SolverAbstract*>(&s)); });
}
static std::size_t problem_of(const bp::object& o) {
  return with(o, [](auto& s) { return reinterpret_cast<std::size_t>(s.get_problem().get()); });
}
static std::size_t problem_address(const std::shared_ptr<crocoddyl::ShootingProblem>& p) {
  return reinterpret_cast<std::size_t>(p.get());
}

// ---- std::cout
static std::ostringstream cap, dev_null;
static std::streambuf* old_out = nullptr;
static void capture() {
  if (!old_out) old_out = std::cout.rdbuf();
  std::cout.rdbuf(cap.rdbuf());
  std::cerr.rdbuf(dev_null.rdbuf());
  dev_null.str("");
  cap.str("");
}
static bp::object captured() {
  std::string s = cap.str();
  cap.str("");
  return bp::object(bp::handle<>(PyBytes_FromStringAndSize(s.data(), (Py_ssize_t)s.size())));
}

BOOST_PYTHON_MODULE(pysim_oracle) {
  bp::import("crocoddyl");
  bp::import("mim_solvers");
  bp::def("values", &values);
  bp::def("set", &set);
  bp::def("solve", &solve);
  bp::def("call", &call);
  bp::def("make", &make);
  bp::def("set_callbacks", &set_callbacks);
  bp::def("edit_callbacks", &edit_callbacks);
  bp::def("address", &address);
  bp::def("problem_of", &problem_of);
  bp::def("problem_address", &problem_address);
  bp::def("capture", &capture);
  bp::def("captured", &captured);
}
