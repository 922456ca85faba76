// Simulated shooting problems: the "environment" of a solver. Deterministic
// functions of a seed, with fault points on every evaluation.
#pragma once
#include <Eigen/Dense>
#include <crocoddyl/core/action-base.hpp>
#include <crocoddyl/core/optctrl/shooting.hpp>
#include <crocoddyl/core/state-base.hpp>
#include <memory>
#include <string>
#include <vector>

#include "rt.hpp"

namespace sim {
using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef std::vector<VectorXd> Traj;

// n-dimensional state; if circle, component 0 is an angle stored as (cos,sin).
class SimState : public crocoddyl::StateAbstract {
 public:
  SimState(int n, bool circle)
      : crocoddyl::StateAbstract(static_cast<std::size_t>(n + (circle ? 1 : 0)),
                                 static_cast<std::size_t>(n)),
        n_(n),
        circle_(circle) {}
  VectorXd zero() const override;
  VectorXd rand() const override { return zero(); }
  void diff(const Eigen::Ref<const VectorXd>& x0, const Eigen::Ref<const VectorXd>& x1,
            Eigen::Ref<VectorXd> dxout) const override;
  void integrate(const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& dx,
                 Eigen::Ref<VectorXd> xout) const override;
  void Jdiff(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&,
             Eigen::Ref<MatrixXd> J1, Eigen::Ref<MatrixXd> J2,
             const crocoddyl::Jcomponent) const override;
  void Jintegrate(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&,
                  Eigen::Ref<MatrixXd> J1, Eigen::Ref<MatrixXd> J2, const crocoddyl::Jcomponent,
                  const crocoddyl::AssignmentOp) const override;
  void JintegrateTransport(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&,
                           Eigen::Ref<MatrixXd>, const crocoddyl::Jcomponent) const override {}
  bool circle() const { return circle_; }
  VectorXd log(const Eigen::Ref<const VectorXd>& x) const;
  VectorXd exp(const VectorXd& q) const;

 private:
  int n_;
  bool circle_;
};

struct Knobs {
  bool term = false;  // the terminal node

  uint64_t seed = 1;
  int n = 2, nu = 1;
  bool circle = false;
  std::string cons;  // one letter per constraint row: l e o u f 1
  double nl = 0.0;   // strength of the nonlinearity of the dynamics
  double nlc = 0.0;  // non-quadratic part of the cost
  int hess = 0;      // 0 convex, 1 indefinite in x, 2 indefinite in u
  double wall = 0;   // >0: the cost is NaN where |q_0| exceeds it
  double rscale = 1.0;
  // The bounds take effect at the next calc, as those of crocoddyl's constraint
  // managers do; before the first one they are whatever was in memory.
  bool late = false;
  int nh = 0;  // rows of crocoddyl's equality constraints, which the solvers refuse
};

struct Vals {
  double cost = 0;
  VectorXd xnext, g;
};
struct Ders {
  VectorXd Lx, Lu;
  MatrixXd Lxx, Lxu, Luu, Fx, Fu, Gx, Gu;
};

// Immutable parameters of one node.
struct Spec {
  Knobs k;
  std::shared_ptr<SimState> state;
  MatrixXd A, B, Q, R, N, W, V, Gq, Gw;
  VectorXd c, a, lx, lu, ph, hq, lb, ub, off;
  MatrixXd oc;  // obstacle centres, one column per row of g
  int ng() const { return static_cast<int>(k.cons.size()); }
};
std::shared_ptr<const Spec> make_spec(const Knobs& k, std::shared_ptr<SimState> st);
void core_calc(const Spec& s, const Eigen::Ref<const VectorXd>& x, const VectorXd* u, Vals& v);
void core_diff(const Spec& s, const Eigen::Ref<const VectorXd>& x, const VectorXd* u, Ders& d);

enum class FK : int {
  none,
  throw_std,
  throw_croc,
  throw_mid,
  throw_int,
  nan_cost,
  inf_cost,
  huge_cost,
  nan_xnext,
  inf_xnext,
  nan_g,
  inf_g,
  nan_lx,
  nan_lu,
  nan_lxx,
  nan_luu,
  nan_fx,
  nan_fu,
  nan_gx,
  inf_lx,
  inf_fx,
  stall,
  wall_jump,
  count
};
const char* fk_name(FK k);
FK fk_parse(const std::string& s);
bool fk_is_calc(FK k);   // applies to calc
bool fk_is_diff(FK k);   // applies to calcDiff
bool fk_is_fault(FK k);  // changes what the solver gets (not stall/wall)
bool fk_throws(FK k);

struct InjectedError : std::runtime_error {
  explicit InjectedError(const std::string& s) : std::runtime_error(s) {}
};

// One evaluation as the model saw it.
struct Call {
  uint64_t t_ns;  // virtual time at entry
  int model;      // global model id
  bool diff;
  bool term;
  FK fault;
  VectorXd x, u;
};
extern std::vector<Call> g_log;
// Decides the fault of an evaluation; set by the executor.
extern FK (*g_fault_hook)(int model, bool diff, double& arg);
void noise_reset(uint64_t seed);
extern double g_noise;  // relative noise of what evaluations return
extern uint64_t g_eval_ns;  // virtual cost of an evaluation
extern int g_next_model_id;

// What models promise each other through their data: calcDiff may use whatever
// calc left there.
struct SimData : crocoddyl::ActionDataAbstract {
  SimData(crocoddyl::ActionModelAbstract* m, int owner)
      : crocoddyl::ActionDataAbstract(m), owner(owner) {}
  int owner;                       // the model it was made for
  bool calc_ok = false;            // the last calc ended well,
  VectorXd calc_x, calc_u;         // here
  bool diff_ok = false;            // calcDiff, too
  VectorXd diff_x, diff_u;
};
extern std::vector<std::string> g_contract;  // how evaluations broke the rules

class SimModel : public crocoddyl::ActionModelAbstract {
 public:
  explicit SimModel(std::shared_ptr<const Spec> s);
  void calc(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
            const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override;
  void calc(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
            const Eigen::Ref<const VectorXd>& x) override;
  void calcDiff(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
                const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override;
  void calcDiff(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
                const Eigen::Ref<const VectorXd>& x) override;
  std::shared_ptr<crocoddyl::ActionDataAbstract> createData() override;
  bool checkData(const std::shared_ptr<crocoddyl::ActionDataAbstract>&) override { return true; }
  const std::shared_ptr<const Spec>& spec() const { return spec_; }
  int id() const { return id_; }
  // the bounds that hold in the next evaluation
  const VectorXd& lb() const { return late_ ? next_lb_ : get_g_lb(); }
  const VectorXd& ub() const { return late_ ? next_ub_ : get_g_ub(); }
  void set_bounds(const VectorXd& lb, const VectorXd& ub);

 private:
  void do_calc(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
               const Eigen::Ref<const VectorXd>& x, const VectorXd* u);
  void do_diff(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
               const Eigen::Ref<const VectorXd>& x, const VectorXd* u);
  std::shared_ptr<const Spec> spec_;
  int id_;
  bool late_ = false;  // the next bounds are not in effect yet
  VectorXd next_lb_, next_ub_;
};

// A shooting problem together with what is needed to evaluate it cleanly.
struct Problem {
  std::shared_ptr<SimState> state;
  std::vector<std::shared_ptr<SimModel>> run;
  std::shared_ptr<SimModel> term;
  std::shared_ptr<crocoddyl::ShootingProblem> pb;
  int edits = 0;  // nodes changed so far
  int T() const { return static_cast<int>(run.size()); }
  int ndx() const { return static_cast<int>(state->get_ndx()); }
  std::shared_ptr<Problem> clone() const;  // same specs, bounds, x0; new objects
  void build(const VectorXd& x0);
};

bool all_finite(const Traj& t);
bool same_traj(const Traj& a, const Traj& b);  // bitwise, NaN equals NaN
uint64_t bits(double d);
bool same_vec(const VectorXd& a, const VectorXd& b);
double max_abs_diff(const Traj& a, const Traj& b);
double max_abs(const Traj& a);
}  // namespace sim
