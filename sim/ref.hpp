// Small executable reference models.
#pragma once
#include "exec.hpp"

namespace sim {
// The documented ADMM recursion on the QP at one iterate, solved densely.
struct AdmmIn {
  const PSnap* p;
  Traj xs, us;
  Traj y0, dx0, du0;  // duals and proximal centre to start from
  double rho0 = 0.1, preg = 0, dreg = 0;
  Cfg cfg;
  int iters = 0;  // iterations to run
};
struct AdmmOut {
  bool ok = false;         // reference usable (well conditioned, no NaN)
  bool ambiguous = false;  // a branch was too close to call
  bool noise = false;      // the last residual ratio is rounding noise
  double mag = 0;  // largest number that occurred
  Traj dx, du, y, z;
  double rho = 0, np = 0, nd = 0, npr = 0, ndr = 0;
  int should_stop = 0;  // first iteration at which the tolerances are met (0: none)
  double err = 0;       // estimated relative rounding error
  double rho_err = 0;   // the part of it that comes from penalty updates
};
AdmmOut admm(const AdmmIn& in);
// Smallest eigenvalue of the stage Hessians met by the Riccati recursion of
// the equality constrained QP, relative to their size; NaN if not computable.
double riccati_margin(const PSnap& p, const Traj& xs, const Traj& us, double preg, double dreg);
// The exact direction of the equality constrained QP with its multipliers.
struct EqQp {
  bool ok = false;
  Traj dx, du, lag;
  double err = 0;
};
// (dx0: displacement of the initial state, none if empty; fs: the gaps at
// nodes 1..T, those of the trajectory if empty)
EqQp eq_qp(const PSnap& p, const Traj& xs, const Traj& us, double preg, double dreg,
           const VectorXd& dx0 = VectorXd(), const Traj& fs = Traj());
// How far a step and multipliers are from solving the constrained QP at an
// iterate; scale: size of the terms that are added up.
struct QpRes {
  bool ok = false;
  double primal = 0, dual = 0, scale = 1;
};
// The residual ProxQP, asked directly, leaves of that QP; negative if it does
// not solve it (it may find it infeasible, or give up).
double proxqp_residual(const PSnap& p, const Traj& xs, const Traj& us, const Cfg& cfg);
QpRes qp_residual(const PSnap& p, const Traj& xs, const Traj& us, const Traj& dx, const Traj& du,
                  const Traj& lag, const Traj& y);
}  // namespace sim
