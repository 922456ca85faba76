// Executes a plan against the real solvers and records what happened.
#pragma once
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "mim_solvers/csqp.hpp"
#include "mim_solvers/csqp_proxqp.hpp"
#include "mim_solvers/ddp.hpp"
#include "mim_solvers/fddp.hpp"
#include "mim_solvers/sqp.hpp"
#include "model.hpp"
#include "plan.hpp"

namespace sim {

// The settings of one solver as the plan set them, never read back.
struct Cfg {
  std::map<std::string, double> v;
  double get(const std::string& k) const;
  static double dflt(const std::string& k);
};

// The feedback policy of DDP and FDDP and what it was computed from.
struct Policy {
  std::vector<MatrixXd> K, Quu, Vxx;
  Traj k, Qu, Vx;
};

struct Snap {
  std::shared_ptr<Policy> pol;
  Traj xs, us, fs, dx, du, lag, y, z, rho;
  double cost = 0, merit = 0, gap = 0, cons = 0, kkt = 0, step = 0, preg = 0, dreg = 0;
  double np = 0, nptol = 0, nd = 0, ndtol = 0, xg = 0, ug = 0, rho_sparse = 0;
  int iter = 0;
  double qp_iters = 0;
  bool timed = false;
  int data = 0;  // the nodes' data hold 1 the values, 2 the derivatives at xs, us
  uint64_t t_ns = 0, bb = 0, extra = 0;
  size_t log = 0;  // evaluations logged before this moment
  std::string name;
  std::string row;  // the line printed for this iteration, if any
};

// What a problem was when a solve started.
struct PSnap {
  std::shared_ptr<SimState> st;
  std::vector<std::shared_ptr<const Spec>> spec;  // T+1, terminal last
  std::vector<int> id;                            // model ids
  std::vector<VectorXd> lb, ub;
  VectorXd x0;
  int T() const { return static_cast<int>(spec.size()) - 1; }
  int ndx() const { return static_cast<int>(st->get_ndx()); }
};

struct FaultHit {
  size_t log;  // index into the evaluation log at the time
  std::string at, kind;
  int nth = 0;
};
struct CbCall {
  int who;
  int iter;
  bool named;
  std::string name;
};

struct SolveRec {
  int op = 0, solver = 0;
  std::string kind;
  Cfg cfg;
  PSnap p;
  Traj init_xs, init_us;  // arguments
  bool init_finite = true;
  int maxiter = 0;
  bool feas = false;
  double reg = 0;
  Snap entry, fin;
  std::vector<Snap> it;         // one per callback round (first recorder)
  std::vector<CbCall> calls;    // every recorder call, in order
  std::vector<FaultHit> hits;   // faults fired during the solve
  int recorders = 0;
  bool ret = false, threw = false;
  std::string what;  // "" | std | bad_alloc | int
  std::string msg;
  bool updated = false;         // the problem reported an update before
  size_t log0 = 0, log1 = 0;
  uint64_t t0 = 0, t1 = 0, bb0 = 0, bb1 = 0, extra0 = 0, extra1 = 0;
  uint64_t allocs = 0, alloc_faults = 0;
  uint64_t clock_reads = 0;
  double budget = 0;            // resolved time budget, seconds (inf: none)
  bool dl_hit = false;          // the deadline passed during the solve
  uint64_t dl_bb = 0;           // basic blocks executed when it did
  bool nested = false;
};

struct Record {
  std::vector<SolveRec> solves;
  std::vector<Call> log;
  std::vector<std::string> problems;  // protocol violations seen while running
  uint64_t hash = 0;
  uint64_t sim_ns = 0;
  std::map<std::string, uint64_t> fired;
  uint64_t live_blocks = 0, live_bytes = 0;
  uint64_t ctor_faults = 0;
  std::string text;             // everything printed
  size_t solver_objects = 0;
  uint64_t settings_checked = 0;
  std::vector<std::string> contract;  // how models were evaluated against the rules
  // of the multithreaded build
  std::vector<std::string> races;
  uint64_t regions = 0, switches = 0, accesses = 0, race_count = 0, sched_sig = 0, overflow = 0;
};

struct SolverBox {
  std::string kind;
  int prob = 0;
  Cfg cfg;
  double max_time = std::numeric_limits<double>::infinity();  // of the next solve
  int edits = 0;  // of the problem, seen by a solve that went well
  std::shared_ptr<crocoddyl::SolverAbstract> s;
  bool verbose = false;  // prints a row in each callback round
  mim_solvers::SolverDDP* ddp = nullptr;  // every solver of the library is one
  mim_solvers::SolverCSQP* csqp = nullptr;
  mim_solvers::SolverSQP* sqp = nullptr;
  mim_solvers::SolverPROXQP* prox = nullptr;
  mim_solvers::SolverFDDP* fddp = nullptr;
  std::vector<std::shared_ptr<mim_solvers::CallbackAbstract>> recs;
  bool sqp_type() const { return csqp || sqp || prox; }
};

struct Options {
  int only_solver = -1;       // run only the operations of one solver
  bool strip_observers = false;
  int observers = 0;          // bit mask: 1 verbose 2 qp prints 4 profiler 8 extra 16 broken stream
  bool no_budget = false;
  std::map<int, double> budget;  // op -> seconds, overrides fractions
  int threads = 0;            // >0: override
  uint64_t sched_seed = 0;    // >0: another schedule than the plan's
  int recorders = 1;
  std::set<int> skip_ops;
  bool no_alloc_faults = false;
  uint64_t noise = 0;         // > 0: evaluations are off by rounding errors, seeded
  bool concurrent = false;    // solves of one group run as simulated threads
  bool keep = false;          // keep solvers alive after the run (see Exec)
  int fresh_op = -1;          // this solve runs on a newly built solver and problem
};

Record run_plan(const Plan& plan, const Options& o);

// clean evaluation of a whole trajectory
struct Eval {
  double cost = 0, gap = 0, cons = 0;  // l1 norms
  Traj fs;                             // T+1, fs[0] = 0
  std::vector<Vals> v;
  bool finite = true;
};
Eval eval_traj(const PSnap& p, const Traj& xs, const Traj& us);
std::vector<Ders> diff_traj(const PSnap& p, const Traj& xs, const Traj& us);
// max-norm stationarity, gap and 1-norm constraint residuals; rows at t=0 of x
// are given apart
struct Kkt {
  double stat = 0, stat0 = 0, gap = 0, cons = 0, scale = 1;
  bool finite = true;
};
Kkt kkt_residual(const PSnap& p, const Traj& xs, const Traj& us, const Traj& lag, const Traj* y);
Snap snap_solver(SolverBox& b);
// what setCandidate() makes of the arguments of a solve
std::pair<Traj, Traj> init_candidate(const SolveRec& r, bool first_is_x0);
}  // namespace sim
