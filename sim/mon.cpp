#include "mon.hpp"

#include <cmath>
#include <limits>
#include <sstream>

namespace sim {
namespace {
const double INF = std::numeric_limits<double>::infinity();
typedef std::string str;

str num(double d) {
  char b[40];
  std::snprintf(b, sizeof b, "%.6g", d);
  return b;
}
str where(const SolveRec& r) {
  return r.kind + " solver " + std::to_string(r.solver) + " op " + std::to_string(r.op);
}
str at(const SolveRec& r, size_t k) {
  return where(r) + " iteration " + std::to_string(k);
}
bool sqp_type(const SolveRec& r) { return r.kind == "csqp" || r.kind == "sqp" || r.kind == "prox"; }
bool close(double a, double b, double rel) {
  if (bits(a) == bits(b)) return true;
  if (!(std::isfinite(a) && std::isfinite(b))) return false;
  return std::fabs(a - b) <= rel * (1.0 + std::max(std::fabs(a), std::fabs(b)));
}

Record go(const Plan& p, const Options& o, Report& R) {
  Record rec = run_plan(p, o);
  R.runs++;
  R.sim_ns += rec.sim_ns;
  R.solves += rec.solves.size();
  R.evals += rec.log.size();
  R.hash.u64(rec.hash);
  for (auto& f : rec.fired) R.fired[f.first] += f.second;
  if (rec.regions) {
    R.p("mt.regions", rec.regions);
    R.p("mt.switches", rec.switches);
    R.p("mt.accesses", rec.accesses);
    if (rec.overflow) R.p("mt.shadow_full", rec.overflow);
    if (rec.switches) R.inter.push_back(rec.sched_sig);
  }
  for (auto& s : rec.solves) {
    R.p("iterations", s.it.size());
    if (s.ret) R.p("converged");
    if (s.threw) R.p("threw." + s.what);
    if (s.fin.timed && !s.nested) R.p("timed_out");
  }
  return rec;
}
void protocol(const str& prop, const Record& rec, Report& R) {
  for (auto& p : rec.problems)
    if (p.compare(0, prop.size(), prop) == 0) R.v(prop + ".protocol", p);
}

// The rules of evaluation: calcDiff comes after a calc that succeeded at the
// same point, with the data of that node; what callbacks and, after success,
// the caller find in the data belongs to the trajectory the solver stores.
void mon_contract(const str& P, const Record& rec, Report& R) {
  for (auto& c : rec.contract) R.v(P + ".rules", c);
  for (auto& c : rec.log)
    if (c.diff) R.p("contract.derivatives");
  for (auto& r : rec.solves) {
    const bool shooting = r.kind == "sqp" || r.kind == "csqp";
    for (size_t k = 0; k < r.it.size() && shooting; ++k) {
      R.p("contract.callbacks");
      if (r.it[k].data != 3)
        R.v(P + ".callback-data",
            at(r, k) + ": the data of the nodes do not hold the " +
                (r.it[k].data & 1 ? "derivatives" : "evaluation") + " of the iterate reported");
    }
    if (!r.ret) continue;
    const int want = r.kind == "ddp" || r.kind == "fddp" ? 2 : 3;
    R.p("contract.success");
    if ((r.fin.data & want) != want)
      R.v(P + ".result-data",
          where(r) + ": reported success, but the data of the nodes do not hold the " +
              (r.fin.data & want & 1 ? "derivatives" : "evaluation") + " of the solution");
  }
}

bool extra_round(const SolveRec& r, size_t k) {
  if (r.cfg.get("extra") == 0 || k + 1 != r.it.size()) return false;
  return r.it[k].iter == r.maxiter || (k > 0 && r.it[k].iter == r.it[k - 1].iter);
}
bool cb_threw(const SolveRec& r) {
  for (auto& h : r.hits)
    if (h.at == "cb" && h.kind.compare(0, 5, "throw") == 0) return true;
  return false;
}
bool line_search_ran(const SolveRec& r, size_t k) {
  const bool last = k + 1 == r.it.size();
  if (last && r.ret) return false;
  if (extra_round(r, k)) return false;
  if (last && cb_threw(r)) return false;
  if (last && r.threw && r.what == "int") return false;
  return true;
}
int node_of(const SolveRec& r, int model) {
  for (size_t i = 0; i < r.p.id.size(); ++i)
    if (r.p.id[i] == model) return static_cast<int>(i);
  return -1;
}
bool value_fault(FK k) { return fk_is_fault(k) && !fk_throws(k); }
// a fault that has an effect on this node for this kind of solver
bool effective(const SolveRec& r, int node, FK k) {
  if (!fk_is_fault(k)) return false;
  if (k == FK::nan_g || k == FK::inf_g || k == FK::nan_gx)
    return r.kind != "sqp" && r.kind != "ddp" && r.kind != "fddp" &&
           r.p.spec[static_cast<size_t>(node)]->ng() > 0;
  const bool term = node == r.p.T();
  if (k == FK::nan_lu || k == FK::nan_luu || k == FK::nan_fu)
    return r.p.spec[static_cast<size_t>(node)]->k.nu > 0;
  if (k == FK::nan_xnext || k == FK::inf_xnext) return !term;
  return true;
}
size_t win_begin(const SolveRec& r, size_t k) { return k ? r.it[k - 1].log : r.log0; }
bool same_point(const Call& c, const Traj& xs, const Traj& us, int node) {
  const size_t i = static_cast<size_t>(node);
  if (i >= xs.size() || !same_vec(c.x, xs[i])) return false;
  return c.term || (i < us.size() && same_vec(c.u, us[i]));
}
// Was something the solver knows about iterate k delivered wrong?
bool tainted(const Record& rec, const SolveRec& r, size_t k) {
  const Snap& s = r.it[k];
  for (size_t i = win_begin(r, k); i < s.log && i < rec.log.size(); ++i) {
    const Call& c = rec.log[i];
    if (!value_fault(c.fault)) continue;
    int n = node_of(r, c.model);
    if (n >= 0 && same_point(c, s.xs, s.us, n)) return true;
  }
  return false;
}
bool any_fault(const Record& rec, size_t a, size_t b) {
  for (size_t i = a; i < b && i < rec.log.size(); ++i)
    if (fk_is_fault(rec.log[i].fault)) return true;
  return false;
}
std::vector<double> alphas(const Cfg& c) {
  std::vector<double> a;
  double v = 1;
  for (int i = 0; i < static_cast<int>(c.get("n_alphas")); ++i, v *= c.get("a_ratio"))
    a.push_back(v);
  return a;
}
std::pair<Traj, Traj> candidate(const PSnap& p, const Snap& s, double al) {
  std::pair<Traj, Traj> o;
  for (size_t t = 0; t < s.xs.size(); ++t) {
    VectorXd x(s.xs[t].size());
    p.st->integrate(s.xs[t], al * s.dx[t], x);
    o.first.push_back(x);
  }
  for (size_t t = 0; t < s.us.size(); ++t) o.second.push_back(s.us[t] + al * s.du[t]);
  return o;
}
bool near(const VectorXd& a, const VectorXd& b, double rel) {
  if (a.size() != b.size()) return false;
  for (Eigen::Index i = 0; i < a.size(); ++i)
    if (!close(a[i], b[i], rel)) return false;
  return true;
}
bool near(const Traj& a, const Traj& b, double rel) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!near(a[i], b[i], rel)) return false;
  return true;
}
bool dims_ok(const SolveRec& r, const Traj& xs, const Traj& us) {
  const int T = r.p.T();
  if (xs.size() != static_cast<size_t>(T) + 1 || us.size() != static_cast<size_t>(T)) return false;
  for (auto& x : xs)
    if (x.size() != static_cast<Eigen::Index>(r.p.st->get_nx())) return false;
  for (int t = 0; t < T; ++t)
    if (us[static_cast<size_t>(t)].size() != r.p.spec[static_cast<size_t>(t)]->k.nu) return false;
  return true;
}
bool snap_dims(const SolveRec& r, const Snap& s) {
  if (!dims_ok(r, s.xs, s.us)) return false;
  if (s.lag.size() != s.xs.size()) return false;
  if (sqp_type(r) && (s.dx.size() != s.xs.size() || s.du.size() != s.us.size())) return false;
  for (size_t t = 0; t < s.us.size() && sqp_type(r); ++t)
    if (s.du[t].size() != s.us[t].size()) return false;
  if (r.kind == "csqp" || r.kind == "prox") {
    if (s.y.size() != s.xs.size()) return false;
    for (size_t t = 0; t < s.y.size(); ++t)
      if (s.y[t].size() != r.p.spec[t]->ng()) return false;
  }
  return true;
}
const Traj& next_xs(const SolveRec& r, size_t k) {
  return k + 1 < r.it.size() ? r.it[k + 1].xs : r.fin.xs;
}
const Traj& next_us(const SolveRec& r, size_t k) {
  return k + 1 < r.it.size() ? r.it[k + 1].us : r.fin.us;
}
double lag_norm(const Snap& s) {
  return std::max(max_abs(s.lag), max_abs(s.y));
}

// ------------------------------------------------------------ line search
struct LsOut {
  std::vector<int> match;     // step lengths (indices) the next iterate equals
  bool unchanged = false;
  bool definite = false;      // one accepted step, no doubt
  bool sure = false;          // that, or no step, no doubt
  int accepted = -1;
};
void line_search(const str& P, const Record& rec, const SolveRec& r, size_t k, Report& R,
                 bool report, LsOut* out) {
  const Snap& s = r.it[k];
  const Traj &nx = next_xs(r, k), &nu = next_us(r, k);
  const std::vector<double> al = alphas(r.cfg);
  const size_t n = al.size();
  std::vector<std::pair<Traj, Traj>> cand;
  for (double a : al) cand.push_back(candidate(r.p, s, a));
  std::vector<char> failed(n, 0), amb(n, 0);
  size_t w0 = s.log, w1 = k + 1 < r.it.size() ? r.it[k + 1].log : r.log1;
  if (r.kind == "prox") {
    w0 = win_begin(r, k);
    w1 = s.log;
  }
  std::map<std::pair<int, size_t>, int> seen;
  bool any_failed = false, last_is_trial_throw = false;
  for (size_t i = w0; i < w1 && i < rec.log.size(); ++i) {
    const Call& c = rec.log[i];
    last_is_trial_throw = false;
    if (c.diff) continue;
    int nd = node_of(r, c.model);
    if (nd < 0) continue;
    const size_t t = static_cast<size_t>(nd);
    std::vector<size_t> m;
    for (size_t a = 0; a < n; ++a)
      if (near(c.x, cand[a].first[t], 1e-12) && (c.term || near(c.u, cand[a].second[t], 1e-12)))
        m.push_back(a);
    const bool bad = effective(r, nd, c.fault);
    for (size_t a : m) {
      int times = seen[{nd, a}]++;
      if (!bad) continue;
      // a huge cost can be outweighed when everything else is as large
      const bool sure = c.fault != FK::huge_cost ||
                        (max_abs(cand[a].first) < 1e6 && max_abs(cand[a].second) < 1e6);
      if (sure && m.size() == 1 && times == 0 && !same_point(c, s.xs, s.us, nd)) {
        failed[a] = 1;
        any_failed = true;
        if (fk_throws(c.fault)) last_is_trial_throw = true;
      } else if (!sure || m.size() > 1 || same_point(c, s.xs, s.us, nd)) {
        amb[a] = 1;
      }
    }
  }
  if (any_failed) R.p("ls.failed_trial");
  LsOut lo;
  lo.unchanged = same_traj(nx, s.xs) && same_traj(nu, s.us);
  for (size_t a = 0; a < n; ++a)
    if (near(nx, cand[a].first, 1e-11) && near(nu, cand[a].second, 1e-11))
      lo.match.push_back(static_cast<int>(a));
  // the rule
  const bool filter = r.cfg.get("use_filter") != 0;
  const bool has_cons = r.kind != "sqp";
  const size_t fsz = static_cast<size_t>(r.cfg.get("filter_size"));
  const double mu = r.cfg.get("mu_dyn"), muc = has_cons ? r.cfg.get("mu_con") : 0;
  double wd = mu, wc = muc;
  if (r.kind == "csqp" && (mu < 0 || muc < 0)) wd = wc = r.cfg.get("lag_coef") * lag_norm(s);
  // what the iterates so far are worth, from the models where those told the truth
  auto worth = [&](size_t j) {
    const Snap& q = r.it[j];
    Eval e;
    e.finite = false;
    if (!tainted(rec, r, j) && all_finite(q.xs) && all_finite(q.us)) e = eval_traj(r.p, q.xs, q.us);
    if (!e.finite) {
      e.cost = q.cost;
      e.gap = q.gap;
      e.cons = q.cons;
    }
    return e;
  };
  const Eval now = worth(k);
  const double merit = now.cost + wd * now.gap + wc * (has_cons ? now.cons : 0);
  // first k entries of this solve, the extra round aside
  std::vector<int> allowed;
  bool may_none = true, decided = false;
  str rule;
  for (size_t a = 0; a < n && !decided; ++a) {
    if (failed[a]) continue;
    Eval e;
    if (!all_finite(cand[a].first) || !all_finite(cand[a].second)) {
      continue;  // a non-finite step cannot be evaluated to finite numbers
    }
    e = eval_traj(r.p, cand[a].first, cand[a].second);
    if (!e.finite) {
      R.p("ls.nonfinite_trial");
      continue;
    }
    int verdict;  // 1 accept 0 reject -1 close
    if (std::fabs(e.cost) > 1e28 || e.gap > 1e28 || e.cons > 1e28) {
      verdict = -1;
    } else if (filter) {
      verdict = 1;
      for (size_t j = 0; j <= k && j < fsz; ++j) {
        const Eval q = j ? worth(k - j) : now;
        double m1 = 1e-9 * (1 + std::fabs(e.cost) + std::fabs(q.cost)),
               m2 = 1e-9 * (1 + e.gap + q.gap), m3 = 1e-9 * (1 + e.cons + q.cons);
        if (!has_cons) m3 = 0;
        double d1 = e.cost - q.cost, d2 = e.gap - q.gap, d3 = has_cons ? e.cons - q.cons : 0;
        if (!has_cons) {
          d3 = 1;
          m3 = 0;
        }
        if (d1 != d1 || d2 != d2 || d3 != d3) continue;  // not comparable: does not dominate
        bool surely = d1 > m1 && d2 > m2 && d3 > m3;
        bool surely_not = d1 < -m1 || d2 < -m2 || d3 < -m3;
        if (surely) {
          verdict = 0;
          break;
        }
        if (!surely_not) verdict = -1;
      }
    } else {
      double mt = e.cost + wd * e.gap + wc * (has_cons ? e.cons : 0);
      double m = 1e-9 * (1 + std::fabs(merit) + std::fabs(mt) + wd * (e.gap + now.gap) +
                         wc * (e.cons + now.cons));
      verdict = mt < merit - m ? 1 : (mt > merit + m || !(merit == merit)) ? 0 : -1;
    }
    if (amb[a] && verdict != 0) verdict = -1;
    if (verdict == 1) {
      allowed.push_back(static_cast<int>(a));
      may_none = false;
      decided = true;
    } else if (verdict < 0) {
      allowed.push_back(static_cast<int>(a));
      R.p("ls.close");
    } else {
      R.p("ls.rejected");
    }
  }
  bool ok = may_none && lo.unchanged;
  for (int a : allowed)
    for (int m : lo.match)
      if (a == m) {
        ok = true;
        lo.accepted = a;
      }
  lo.definite = decided && allowed.size() == 1;
  lo.sure = lo.definite || allowed.empty();
  if (lo.accepted > 0) R.p("ls.shorter_step");
  if (lo.accepted < 0 && lo.unchanged) R.p("ls.no_step");
  if (out) *out = lo;
  R.p("ls.checked");
  if (!report) return;
  if (k + 1 == r.it.size() && r.threw && r.what != "int" && last_is_trial_throw && !cb_threw(r)) {
    R.v(P + ".exception-left-line-search",
        at(r, k) + ": an exception thrown while evaluating a trial step left solve()");
    return;
  }
  if (ok) return;
  for (int m : lo.match)
    if (failed[static_cast<size_t>(m)]) {
      R.v(P + ".failed-trial-accepted",
          at(r, k) + ": step length " + num(al[static_cast<size_t>(m)]) +
              " was accepted although its evaluation failed");
      return;
    }
  str want = "no step";
  if (!allowed.empty()) {
    want = "step";
    for (int a : allowed) want += " " + num(al[static_cast<size_t>(a)]);
    if (may_none) want += " or none";
  }
  str got = lo.unchanged ? "none" : "something that is no configured step";
  if (!lo.match.empty() && !lo.unchanged) got = num(al[static_cast<size_t>(lo.match[0])]);
  R.v(P + (lo.match.empty() && !lo.unchanged ? ".not-a-candidate" : ".wrong-step"),
      at(r, k) + ": the rule asks for " + want + ", the solver took " + got);
}

void mon_line_search(const str& P, const Record& rec, Report& R) {
  for (auto& r : rec.solves) {
    if (!sqp_type(r) || r.alloc_faults) continue;
    for (size_t k = 0; k < r.it.size(); ++k) {
      const Snap& s = r.it[k];
      if (!snap_dims(r, s)) {
        R.v(P + ".dims", at(r, k) + ": stored trajectories have wrong dimensions");
        break;
      }
      if (all_finite(s.xs) && all_finite(s.us) &&
          !(all_finite(next_xs(r, k)) && all_finite(next_us(r, k)))) {
        R.v(P + ".nonfinite-trajectory",
            at(r, k) + ": a finite iterate was replaced by one that is not");
        break;
      }
      if (!line_search_ran(r, k)) {
        if (!(same_traj(next_xs(r, k), s.xs) && same_traj(next_us(r, k), s.us)))
          R.v(P + ".moved-without-line-search",
              at(r, k) + ": the trajectory changed after the last check");
        continue;
      }
      if (tainted(rec, r, k)) {
        R.p("skip.tainted");
        continue;
      }
      if (!dims_ok(r, next_xs(r, k), next_us(r, k))) {
        R.v(P + ".dims", at(r, k) + ": the next trajectory has wrong dimensions");
        break;
      }
      line_search(P, rec, r, k, R, true, nullptr);
    }
  }
}

// ------------------------------------------------------------ DDP and FDDP
// One roll-out of a line search, as the models saw it.
struct Trial {
  Traj xs, us;
  bool complete = false, failed = false, unsure = false, threw = false;
};
// the trials evaluated in a stretch of the log, after the last derivatives; none
// if those are needed and never completed (the direction was then given up)
std::vector<Trial> trials(const Record& rec, const SolveRec& r, size_t a, size_t b,
                          bool need_diffs) {
  b = std::min(b, rec.log.size());
  bool have = !need_diffs;
  for (size_t i = a; i < b; ++i) {
    if (!rec.log[i].diff || node_of(r, rec.log[i].model) < 0) continue;
    have = rec.log[i].term && !fk_throws(rec.log[i].fault);
    a = i + 1;
  }
  std::vector<Trial> out;
  if (!have) return out;
  int want = 0;
  for (size_t i = a; i < b; ++i) {
    const Call& c = rec.log[i];
    int n = node_of(r, c.model);
    if (n < 0) continue;
    if (n == 0) {
      out.push_back(Trial());
      want = 0;
    }
    if (out.empty() || n != want) return {};  // another solver's evaluations between
    Trial& t = out.back();
    t.xs.push_back(c.x);
    if (!c.term) t.us.push_back(c.u);
    if (effective(r, n, c.fault)) {
      if (c.fault == FK::huge_cost)
        t.unsure = true;
      else
        t.failed = true;
      t.threw = fk_throws(c.fault);
    }
    t.complete = c.term && !t.threw;
    ++want;
  }
  return out;
}
// rule: also decide which trial is the first acceptable one
void mon_rollouts(const str& P, const Record& rec, bool rule, Report& R) {
  for (auto& r : rec.solves) {
    if (sqp_type(r) || r.alloc_faults || r.nested) continue;
    const std::vector<double> al = alphas(r.cfg);
    auto base = init_candidate(r, false);
    const size_t T = static_cast<size_t>(r.p.T());
    bool feasible = r.feas, cost_known = true, need_diffs = true;
    std::vector<double> costs, gaps;
    size_t nit = r.it.size();
    // a search that ended at the regularization limit is followed by no callback
    const bool tail = !r.ret && !r.threw && r.fin.preg >= r.cfg.get("reg_max") &&
                      static_cast<int>(nit) < r.maxiter;
    for (size_t k = 0; k < nit + (tail ? 1 : 0) + (r.threw ? 1 : 0); ++k) {
      const bool last = k >= nit;
      const Snap& s = last ? r.fin : r.it[k];
      const size_t w0 = win_begin(r, k), w1 = last ? r.log1 : s.log;
      const str here = at(r, k);
      std::vector<Trial> ts = trials(rec, r, w0, w1, need_diffs);
      // evaluations of the iterate itself: a direction that was tried again
      auto again = [&](const Trial& t) {
        for (size_t i = 0; i < t.xs.size(); ++i)
          if (!same_vec(t.xs[i], base.first[i])) return false;
        for (size_t i = 0; i < t.us.size(); ++i)
          if (!same_vec(t.us[i], base.second[i])) return false;
        return true;
      };
      if (last && dims_ok(r, base.first, base.second) &&
          std::any_of(ts.begin(), ts.end(), again))
        ts.clear();
      if (last && r.threw) {
        if (!ts.empty() && ts.back().threw && r.what == "std" && !cb_threw(r))
          R.v(P + ".exception-left-line-search",
              here + ": an exception thrown while evaluating a trial step left solve()");
        break;
      }
      if (!dims_ok(r, s.xs, s.us)) {
        R.v(P + ".dims", here + ": stored trajectories have wrong dimensions");
        break;
      }
      if (all_finite(base.first) && all_finite(base.second) &&
          !(all_finite(s.xs) && all_finite(s.us))) {
        R.v(P + ".nonfinite-trajectory", here + ": a finite iterate was replaced by one that is not");
        break;
      }
      const bool unchanged = same_traj(s.xs, base.first) && same_traj(s.us, base.second);
      need_diffs = !unchanged;
      size_t ld = w0;
      bool diffs = false;
      for (size_t i = w0; i < w1 && i < rec.log.size(); ++i)
        if (rec.log[i].diff) ld = i + 1, diffs = true;
      if (diffs) {
        cost_known = true;
        for (size_t i = w0; i < ld; ++i)
          if (fk_is_fault(rec.log[i].fault)) cost_known = false;
      }
      if (ts.empty()) {
        if (!unchanged)
          R.v(P + ".moved-without-line-search", here + ": the trajectory changed without a trial");
        if (last) break;
        R.p("roll.no_trials");
        // (the direction may have been given up at the regularization limit)
        base = {s.xs, s.us};
        continue;
      }
      R.p("roll.searches");
      const Trial& end = ts.back();
      const size_t n = ts.size();
      bool accepted = !unchanged;
      if (accepted && !(end.complete && same_traj(s.xs, end.xs) && same_traj(s.us, end.us))) {
        R.v(P + ".not-a-trial", here + ": the new iterate is not the last trial");
        break;
      }
      if (accepted && end.failed) {
        R.v(P + ".failed-trial-accepted",
            here + ": step length " + num(s.step) + " was accepted although its evaluation failed");
        break;
      }
      if (n > al.size()) {
        R.v(P + ".trials", here + ": " + std::to_string(n) + " trials of " +
                               std::to_string(al.size()) + " step lengths");
        break;
      }
      if (bits(s.step) != bits(al[n - 1])) {
        R.v(P + ".step", here + ": trial " + std::to_string(n) + " has step length " + num(al[n - 1]) +
                             ", the solver reports " + num(s.step));
        break;
      }
      if (end.failed && n < al.size()) {
        R.v(P + ".search-ended", here + ": the search ended at a trial that failed, with step lengths "
                                        "left");
        break;
      }
      for (auto& t : ts)
        if (t.failed) R.p("roll.failed_trial");
      Eval e0 = eval_traj(r.p, base.first, base.second);
      bool ok_policy = s.pol && s.pol->K.size() == T && s.pol->Vxx.size() == T + 1 && s.fs.size() == T + 1;
      if (!rule || !ok_policy) {
        if (accepted) feasible = true;
        base = {s.xs, s.us};
        continue;
      }
      const Policy& p = *s.pol;
      const bool fddp = r.kind == "fddp", filter = fddp && r.cfg.get("use_filter") != 0;
      // gaps of the current iterate, from the models
      Traj fs(T + 1);
      for (size_t t = 0; t <= T; ++t) {
        fs[t] = VectorXd::Zero(r.p.ndx());
        if (feasible) continue;
        if (t == 0)
          r.p.st->diff(base.first[0], r.p.x0, fs[0]);
        else
          fs[t] = e0.fs[t];
      }
      double gap0 = 0;
      for (auto& f : fs) gap0 += f.lpNorm<1>();
      if (diffs || costs.empty()) {
        // (what the solver was told, when that was spoilt, decides nothing)
        costs.push_back(cost_known ? e0.cost : std::nan(""));
        gaps.push_back(cost_known ? gap0 : std::nan(""));
      } else {
        costs.push_back(costs.back());
        gaps.push_back(gaps.back());
      }
      const bool sane = all_finite(base.first) && all_finite(base.second) && e0.finite && cost_known &&
                        max_abs(base.first) < 1e6 && all_finite(p.k) && max_abs(p.k) < 1e6;
      if (!sane) R.p("roll.skip_rule");
      bool over = !sane;
      double d0 = 0, d1 = 0, dsc = 1;
      for (size_t t = 0; t < T && sane; ++t) {
        double a = p.Qu[t].dot(p.k[t]), b = p.k[t].dot(p.Quu[t] * p.k[t]);
        d0 += a;
        d1 -= b;
        dsc += std::fabs(a) + std::fabs(b);
      }
      if (fddp && !feasible && sane)
        for (size_t t = 0; t <= T; ++t) {
          double a = p.Vx[t].dot(fs[t]), b = fs[t].dot(p.Vxx[t] * fs[t]);
          d0 -= a;
          d1 += b;
          dsc += std::fabs(a) + std::fabs(b);
        }
      for (size_t j = 0; j < n && !over; ++j) {
        const Trial& t = ts[j];
        const double a = al[j];
        const bool contract = fddp && !feasible && a != 1;
        // the roll-out
        VectorXd hat = r.p.x0;
        double gap = 0, worst = 0;
        bool cut = false;
        for (size_t i = 0; i < t.xs.size(); ++i) {
          if (!t.xs[i].allFinite() || !hat.allFinite()) {
            cut = true;
            break;
          }
          VectorXd x = hat, dx(r.p.ndx()), g(r.p.ndx());
          if (contract) r.p.st->integrate(hat, fs[i] * (a - 1), x);
          worst = std::max(worst, (x - t.xs[i]).lpNorm<Eigen::Infinity>() /
                                      (1 + x.lpNorm<Eigen::Infinity>()));
          r.p.st->diff(t.xs[i], hat, g);
          if (contract) gap += g.lpNorm<1>();
          if (i == T) break;
          r.p.st->diff(base.first[i], t.xs[i], dx);
          VectorXd u = base.second[i] - a * p.k[i] - p.K[i] * dx;
          if (!u.allFinite() || !t.us[i].allFinite()) {
            cut = true;
            break;
          }
          double usc = 1 + u.lpNorm<Eigen::Infinity>() + (p.K[i] * dx).lpNorm<Eigen::Infinity>();
          worst = std::max(worst, (u - t.us[i]).lpNorm<Eigen::Infinity>() / usc);
          Vals v;
          core_calc(*r.p.spec[i], t.xs[i], &t.us[i], v);
          hat = v.xnext;
        }
        R.p("roll.compared");
        if (worst > 1e-8) {
          R.v(P + ".not-a-rollout", here + " trial " + std::to_string(j + 1) +
                                        ": differs from the roll-out of the policy by " + num(worst));
          over = true;
          break;
        }
        int verdict = 0;  // 1 accept 0 reject -1 close
        Eval e;
        if (t.complete && !t.failed && !cut) e = eval_traj(r.p, t.xs, t.us);
        if (t.failed || cut || !t.complete || !e.finite) {
          verdict = t.unsure ? -1 : 0;
        } else if (t.unsure || std::fabs(e.cost) > 1e25 || max_abs(t.xs) > 1e25) {
          verdict = -1;
        } else if (filter) {
          verdict = 1;
          const size_t fsz = static_cast<size_t>(r.cfg.get("filter_size"));
          for (size_t q = 0; q < costs.size() && q < fsz; ++q) {
            const double c = costs[costs.size() - 1 - q], g = gaps[gaps.size() - 1 - q];
            double m1 = 1e-9 * (1 + std::fabs(c) + std::fabs(e.cost)), m2 = 1e-9 * (1 + g + gap);
            // (no gap at all is never larger than another)
            if (c < e.cost - m1 && (g == 0 || g < gap - m2)) {
              verdict = 0;
              break;
            }
            if (!(c > e.cost + m1 || (g != 0 && g > gap + m2))) verdict = -1;
          }
        } else {
          double x0 = d0, x1 = d1, sc = dsc;
          if (fddp && !feasible) {
            double dv = 0;
            for (size_t i = 0; i <= T; ++i) {
              VectorXd dx(r.p.ndx());
              r.p.st->diff(t.xs[i], base.first[i], dx);
              double q = fs[i].dot(p.Vxx[i] * dx);
              dv -= q;
              sc += std::fabs(q);
            }
            x0 += dv;
            x1 -= 2 * dv;
          }
          const double dV = e0.cost - e.cost, dVexp = a * (x0 + 0.5 * a * x1);
          const double m = 1e-9 * (sc + std::fabs(e0.cost) + std::fabs(e.cost));
          auto sure = [&](bool c, double v, double w) { return std::fabs(v - w) <= m ? -1 : c ? 1 : 0; };
          const double up = r.cfg.get("th_accneg");
          int down = sure(dVexp >= 0, dVexp, 0), small = sure(x0 < r.cfg.get("th_grad"), x0, r.cfg.get("th_grad"));
          int dec = sure(dV > 0.1 * dVexp, dV, 0.1 * dVexp),
              inc = sure(dV > up * dVexp, dV, up * dVexp);
          auto or3 = [](int u, int v) { return u == 1 || v == 1 ? 1 : u < 0 || v < 0 ? -1 : 0; };
          int acc_down = or3(small, dec);
          if (!fddp && !feasible) acc_down = 1;
          int acc_up = fddp ? inc : 0;
          verdict = down < 0 ? (acc_down == acc_up ? acc_down : -1) : down ? acc_down : acc_up;
        }
        const bool taken = accepted && j + 1 == n;
        // (a step too short to change anything shows as none)
        const bool still = same_traj(t.xs, base.first) && same_traj(t.us, base.second);
        if (verdict < 0) {
          R.p("roll.close");
        } else if (verdict == 1 && !taken && !still) {
          R.v(P + ".wrong-step",
              here + ": step length " + num(a) + " is acceptable but was passed over");
          over = true;
        } else if (verdict == 0 && taken) {
          R.v(P + ".wrong-step", here + ": step length " + num(a) + " is not acceptable but was taken");
          over = true;
        } else {
          R.p(verdict ? "roll.accepted" : "roll.rejected");
        }
        if (still) over = true;
      }
      if (!accepted && n < al.size() && sane && !over) {
        R.v(P + ".search-ended", here + ": no step was taken with step lengths left");
        break;
      }
      if (accepted) feasible = fddp ? (filter ? false : (feasible || al[n - 1] == 1)) : true;
      base = {s.xs, s.us};
    }
  }
}

// ------------------------------------------------------------ C18
// Is every direction the solution of the (regularized) LQ model at its iterate?
void mon_direction(const str& P, const Record& rec, Report& R) {
  for (auto& r : rec.solves) {
    if (r.kind == "csqp" || r.alloc_faults || r.nested) continue;
    const bool sqp = r.kind == "sqp", prox = r.kind == "prox", roll = !sqp && !prox;
    const Cfg& c = r.cfg;
    auto base = init_candidate(r, !roll);
    bool feasible = roll && r.feas, known = true;
    const std::vector<double> al = alphas(c);
    const size_t T = static_cast<size_t>(r.p.T()), nit = r.it.size();
    const int n = r.p.ndx();
    double preg0 = std::isnan(r.reg) ? c.get("reg_min") : r.reg;
    for (size_t k = 0; k < nit + (roll && r.ret ? 1 : 0); ++k) {
      const bool last = k >= nit;
      const Snap& s = last ? r.fin : r.it[k];
      const size_t w0 = win_begin(r, k), w1 = last ? r.log1 : s.log;
      const str here = at(r, k);
      const std::pair<Traj, Traj> cur = roll ? base : std::make_pair(s.xs, s.us);
      const double pr = preg0;
      auto next = [&] {
        const bool moved = !same_traj(s.xs, base.first) || !same_traj(s.us, base.second);
        if (moved && roll) {
          const bool filter = r.kind == "fddp" && c.get("use_filter") != 0;
          feasible = filter ? false : r.kind == "fddp" ? (feasible || s.step == 1) : true;
        }
        base = {s.xs, s.us};
        preg0 = s.preg;
      };
      if (!dims_ok(r, s.xs, s.us) || !dims_ok(r, cur.first, cur.second)) break;
      // was anything the direction depends on delivered wrong?
      size_t ld = w0;
      bool diffs = false;
      for (size_t i = w0; i < w1 && i < rec.log.size(); ++i)
        if (rec.log[i].diff) ld = i + 1, diffs = true;
      if (diffs || sqp || prox) {
        known = true;
        for (size_t i = w0; i < std::max(ld, sqp ? w1 : ld) && i < rec.log.size(); ++i)
          if (value_fault(rec.log[i].fault)) {
            int nd = node_of(r, rec.log[i].model);
            if (nd >= 0 && same_point(rec.log[i], cur.first, cur.second, nd)) known = false;
          }
      }
      if (!known) {
        R.p("dir.tainted");
        next();
        continue;
      }
      Eval e = eval_traj(r.p, cur.first, cur.second);
      if (!all_finite(cur.first) || !all_finite(cur.second) || !e.finite || max_abs(cur.first) > 1e4) {
        R.p("dir.skip");
        next();
        continue;
      }
      if (prox) {
        if (!snap_dims(r, s) || s.dx.size() != T + 1 || s.du.size() != T) break;
        QpRes q = qp_residual(r.p, cur.first, cur.second, s.dx, s.du, s.lag, s.y);
        const double ea = c.get("eps_abs"), er = c.get("eps_rel");
        if (!q.ok || s.dx[0].lpNorm<Eigen::Infinity>() != 0) {
          if (s.dx[0].lpNorm<Eigen::Infinity>() != 0)
            R.v(P + ".moves-x0", here + ": the step moves the initial state");
          R.p("dir.skip");
        } else {
          const double m = ea + er * q.scale + 1e-8 * q.scale;
          const double worst = std::max(q.primal, q.dual);
          if (!(worst > m)) {
            R.p("dir.compared_prox");
          } else if (double q1 = proxqp_residual(r.p, s.xs, s.us, c); q1 >= 0 && worst > 3 * q1 + m) {
            R.v(P + ".not-qp-step", here + ": step and multipliers do not solve the QP of the iterate (primal "
                                        "residual " + num(q.primal) + ", dual " + num(q.dual) + ")");
          } else {
            R.p("dir.no_qp_solution");
          }
        }
        next();
        continue;
      }
      // gaps the solver is to see
      Traj fs(T + 1);
      for (size_t t = 0; t <= T; ++t) {
        fs[t] = VectorXd::Zero(n);
        if (feasible) continue;
        if (t == 0) {
          if (roll) r.p.st->diff(cur.first[0], r.p.x0, fs[0]);
        } else {
          fs[t] = e.fs[t];
        }
      }
      if (sqp) {
        if (!snap_dims(r, s) || s.dx.size() != T + 1 || s.du.size() != T) break;
        EqQp o = eq_qp(r.p, cur.first, cur.second, s.preg, s.dreg);
        const double mg = riccati_margin(r.p, cur.first, cur.second, s.preg, s.dreg);
        if (!o.ok || o.err > 1e-7 || !(mg > 1e-9)) {
          R.p("dir.ill_conditioned");
        } else {
          R.p("dir.compared");
          const double tol = std::max(1e-8, 1e3 * o.err);
          const double a = max_abs_diff(s.dx, o.dx), b = max_abs_diff(s.du, o.du);
          double l = 0;
          for (size_t t = 1; t <= T; ++t)
            l = std::max(l, (s.lag[t] - o.lag[t]).lpNorm<Eigen::Infinity>());
          if (!(a <= tol * (1 + max_abs(o.dx))) || !(b <= tol * (1 + max_abs(o.du))))
            R.v(P + ".direction", here + ": the step differs from the solution of the LQ model by " +
                                      num(a) + " (states), " + num(b) + " (controls)");
          else if (!(l <= tol * (1 + max_abs(o.lag))))
            R.v(P + ".multipliers", here + ": the multipliers differ from those of the LQ model by " + num(l));
        }
        next();
        continue;
      }
      // DDP, FDDP: the policy, for displacements of the initial state
      if (!s.pol || s.pol->K.size() != T || s.pol->k.size() != T || s.pol->Vxx.size() != T + 1 ||
          s.pol->Vx.size() != T + 1) {
        next();
        continue;
      }
      const Policy& p = *s.pol;
      if (!all_finite(p.k) || !all_finite(p.Vx)) {
        R.p("dir.skip");
        next();
        continue;
      }
      // the regularization of the schedule (after some retries) this was made with
      std::vector<Ders> d = diff_traj(r.p, cur.first, cur.second);
      const double seen = (p.Vxx[T] - d[T].Lxx).diagonal().mean();
      double reg = pr, best = std::fabs(pr - seen);
      bool retried = false;
      if (n > 0) {
        double q = pr;
        for (int j = 0; j < 80; ++j) {
          q = q > 0 ? q * c.get("reg_inc") : c.get("reg_min");
          q = std::min(q, c.get("reg_max"));
          if (std::fabs(q - seen) < best) best = std::fabs(q - seen), reg = q, retried = true;
          if (q >= c.get("reg_max")) break;
        }
      }
      if (retried) R.p("dir.after_retry");
      const double mg = riccati_margin(r.p, cur.first, cur.second, reg, reg);
      bool compared = false;
      for (int j = 0; j < 3; ++j) {
        // displacements: that of the gap at the first node, then fixed others
        VectorXd dx0 = fs[0];
        for (int i = 0; j && i < n; ++i) dx0[i] += j == 1 ? 0.7 - 0.4 * i : -0.3 + 0.9 * ((i * 7) % 3);
        EqQp o = eq_qp(r.p, cur.first, cur.second, reg, reg, dx0, fs);
        if (!o.ok || o.err > 1e-7 || !(mg > 1e-9) || max_abs(o.dx) > 1e5) {
          R.p("dir.ill_conditioned");
          continue;
        }
        compared = true;
        const double tol = std::max(1e-8, 1e3 * o.err);
        double du = 0, dl = 0, us = 1, ls = 1;
        for (size_t t = 0; t < T; ++t) {
          VectorXd a = p.K[t] * o.dx[t], u = -p.k[t] - a;
          us = std::max(us, p.k[t].size() ? p.k[t].lpNorm<Eigen::Infinity>() + a.lpNorm<Eigen::Infinity>() : 0);
          if (u.size()) du = std::max(du, (u - o.du[t]).lpNorm<Eigen::Infinity>());
        }
        for (size_t t = 1; t <= T; ++t) {
          VectorXd a = p.Vxx[t] * (o.dx[t] - fs[t]);
          ls = std::max(ls, p.Vx[t].lpNorm<Eigen::Infinity>() + a.lpNorm<Eigen::Infinity>());
          dl = std::max(dl, (p.Vx[t] + a - o.lag[t]).lpNorm<Eigen::Infinity>());
        }
        if (!(du <= tol * us)) {
          R.v(P + ".policy", here + ": the feedback policy differs from that of the LQ model by " + num(du));
          break;
        }
        if (!(dl <= tol * ls)) {
          R.v(P + ".value", here + ": the gradient of the value function differs from that of the LQ model by " +
                                num(dl));
          break;
        }
      }
      if (compared) R.p("dir.compared");
      next();
    }
  }
}

// ------------------------------------------------------------ C01
void mon_kkt(const str& P, const Record& rec, Report& R) {
  for (auto& r : rec.solves) {
    if (r.alloc_faults) continue;
    const double tol = r.cfg.get("tol");
    const bool has_y = r.kind == "csqp" || r.kind == "prox";
    if (r.ret) {
      const Snap& f = r.fin;
      bool taint = false;
      if (sqp_type(r)) {
        taint = !r.it.empty() && tainted(rec, r, r.it.size() - 1);
      } else {
        for (size_t i = r.log0; i < r.log1; ++i) {
          int n = node_of(r, rec.log[i].model);
          if (n >= 0 && value_fault(rec.log[i].fault) && same_point(rec.log[i], f.xs, f.us, n))
            taint = true;
        }
      }
      if (!snap_dims(r, f)) {
        R.v(P + ".dims", where(r) + ": converged with trajectories of wrong dimensions");
        continue;
      }
      if (!(f.kkt <= tol))
        R.v(P + ".stored-kkt", where(r) + ": solve() returned true but the stored KKT residual is " +
                                   num(f.kkt) + " > " + num(tol));
      if (!all_finite(f.xs) || !all_finite(f.us) || !all_finite(f.lag) ||
          (has_y && !all_finite(f.y))) {
        R.v(P + ".nonfinite",
            where(r) + ": solve() returned true with non-finite states, controls or multipliers");
        continue;
      }
      if (taint) {
        // what the model reported there was not finite, so it cannot have
        // been at a KKT point in the solver's eyes either
        bool bad = false;
        // the residuals do not depend on curvature, nor on everything at the
        // fixed initial state, nor on a terminal dynamics
        auto matters = [&](const Call& c, int n) {
          if (!value_fault(c.fault) || !effective(r, n, c.fault)) return false;
          const FK k = c.fault;
          if (k == FK::huge_cost || k == FK::nan_cost || k == FK::inf_cost) return false;
          if (k == FK::nan_lxx || k == FK::nan_luu) return false;
          if (n == 0 && k == FK::nan_gx) return false;
          if (n == r.p.T() && (k == FK::nan_fx || k == FK::nan_fu || k == FK::inf_fx ||
                               k == FK::nan_lu || k == FK::nan_xnext || k == FK::inf_xnext))
            return false;
          if (n == 0 && r.kind == "prox" &&
              (k == FK::nan_lx || k == FK::nan_fx || k == FK::inf_lx || k == FK::inf_fx))
            return false;
          return true;
        };
        for (size_t i = sqp_type(r) ? win_begin(r, r.it.size() - 1) : r.log0; i < r.log1; ++i) {
          const Call& c = rec.log[i];
          int n = node_of(r, c.model);
          if (n < 0 || !matters(c, n) || !same_point(c, f.xs, f.us, n)) continue;
          // a trial that is not differentiated afterwards tells nothing about
          // the iterate
          bool used = c.diff;
          for (size_t j = i + 1; j < r.log1 && !used; ++j)
            used = rec.log[j].model == c.model && rec.log[j].diff &&
                   same_point(rec.log[j], f.xs, f.us, n);
          if (!used) continue;
          // superseded by a later good evaluation of the same node?
          bool later = false;
          for (size_t j = i + 1; j < r.log1; ++j)
            if (rec.log[j].model == c.model && rec.log[j].diff == c.diff &&
                !fk_throws(rec.log[j].fault) && !matters(rec.log[j], n) &&
                same_point(rec.log[j], f.xs, f.us, n))
              later = true;
          if (!later) bad = true;
        }
        R.p("kkt.tainted");
        if (bad)
          R.v(P + ".converged-on-nan",
              where(r) + ": solve() returned true on an iterate whose last evaluation gave "
                         "non-finite values");
        continue;
      }
      Kkt q = kkt_residual(r.p, f.xs, f.us, f.lag, has_y ? &f.y : nullptr);
      double lim = tol + 1e-9 * q.scale;
      R.p("kkt.converged");
      if (!q.finite || q.stat > lim || q.gap > lim || (has_y && q.cons > lim))
        R.v(P + ".not-kkt", where(r) + ": solve() returned true but at the returned point the "
                                       "residuals are stationarity " +
                                num(q.stat) + ", gap " + num(q.gap) + ", constraints " +
                                num(q.cons) + " (tolerance " + num(tol) + ")");
    }
    // The roll-out solvers check an iterate with the multipliers of the trial
    // before; that a callback follows says that it was found wanting.
    if (!sqp_type(r))
      for (size_t k = 1; k < r.it.size(); ++k) {
        const Snap &s = r.it[k - 1], &n = r.it[k];
        if (!snap_dims(r, s) || any_fault(rec, r.log0, n.log)) break;
        if (!all_finite(s.lag)) continue;
        Kkt q = kkt_residual(r.p, s.xs, s.us, s.lag, nullptr);
        double m = std::max(std::max(q.stat, q.stat0), q.gap);
        if (q.finite && m < 0.5 * tol && tol > 1e-7 * q.scale)
          R.v(P + ".missed", at(r, k) + ": all residuals are below " + num(m) +
                                 " but the iteration was not reported converged");
        R.p("kkt.not_yet_roll");
      }
    if (!sqp_type(r)) continue;
    for (size_t k = 0; k < r.it.size(); ++k) {
      const Snap& s = r.it[k];
      const bool last_true = r.ret && k + 1 == r.it.size();
      if (last_true) continue;
      if (k + 1 == r.it.size() && r.threw) continue;
      if (s.kkt <= tol) {
        R.v(P + ".missed", at(r, k) + ": the KKT residual " + num(s.kkt) +
                               " meets the tolerance but the iteration was not reported converged");
        continue;
      }
      if (r.kind == "prox" || !snap_dims(r, s) || tainted(rec, r, k)) continue;
      Kkt q = kkt_residual(r.p, s.xs, s.us, s.lag, has_y ? &s.y : nullptr);
      double m = std::max(std::max(q.stat, q.stat0), std::max(q.gap, has_y ? q.cons : 0.0));
      if (q.finite && m < 0.5 * tol && tol > 1e-7 * q.scale)
        R.v(P + ".missed", at(r, k) + ": all residuals are below " + num(m) +
                               " but the iteration was not reported converged");
      R.p("kkt.not_yet");
    }
  }
}

// ------------------------------------------------------------ C06
void mon_qp(const str& P, const Record& rec, Report& R) {
  for (auto& r : rec.solves) {
    if (r.kind != "csqp" || r.alloc_faults) continue;
    const Cfg& c = r.cfg;
    const int maxqp = static_cast<int>(c.get("max_qp"));
    const int interval = static_cast<int>(c.get("rho_interval"));
    for (size_t k = 0; k < r.it.size(); ++k) {
      const Snap& s = r.it[k];
      if (!snap_dims(r, s)) {
        R.v(P + ".dims", at(r, k) + ": QP variables have wrong dimensions");
        break;
      }
      const int n = static_cast<int>(s.qp_iters);
      if (n > maxqp) {
        R.v(P + ".count", at(r, k) + ": " + std::to_string(n) +
                              " inner iterations reported, the limit is " + std::to_string(maxqp));
        continue;
      }
      if (tainted(rec, r, k)) {
        R.p("skip.tainted");
        continue;
      }
      if (!all_finite(s.xs) || !all_finite(s.us)) continue;
      const bool nan = !all_finite(s.dx) || !all_finite(s.du) || !all_finite(s.y) || !all_finite(s.z);
      const Traj& y0p = k ? r.it[k - 1].y : r.entry.y;
      if (nan) {
        if (all_finite(y0p) || c.get("reset_y") != 0) {
          Eval e0 = eval_traj(r.p, s.xs, s.us);
          if (e0.finite && max_abs(s.xs) < 1e6 && c.get("eq_guess") != 0)
            R.v(P + ".nonfinite", at(r, k) + ": the QP step or its duals are not finite");
        }
        continue;
      }
      if (n == 0) {
        R.p("qp.cut_at_0");
        continue;
      }
      Eval e = eval_traj(r.p, s.xs, s.us);
      std::vector<Ders> d = diff_traj(r.p, s.xs, s.us);
      const int T = r.p.T();
      // invariants at every cut
      double lin = 0, sc = 1;
      for (int t = 0; t < T; ++t) {
        const size_t i = static_cast<size_t>(t);
        VectorXd q = d[i].Fx * s.dx[i] + d[i].Fu * s.du[i] + e.fs[i + 1] - s.dx[i + 1];
        lin = std::max(lin, q.lpNorm<Eigen::Infinity>());
        sc = std::max(sc, (d[i].Fx.cwiseAbs() * s.dx[i].cwiseAbs()).lpNorm<Eigen::Infinity>() +
                              (d[i].Fu.cwiseAbs() * s.du[i].cwiseAbs()).lpNorm<Eigen::Infinity>());
      }
      if (s.dx[0].lpNorm<Eigen::Infinity>() != 0)
        R.v(P + ".dynamics", at(r, k) + ": the step moves the initial state");
      if (lin > 1e-8 * sc)
        R.v(P + ".dynamics", at(r, k) + ": the step violates the linearized dynamics by " + num(lin));
      for (int t = 0; t <= T; ++t) {
        const size_t i = static_cast<size_t>(t);
        for (int j = 0; j < s.z[i].size(); ++j) {
          double lo = r.p.lb[i][j] - e.v[i].g[j], hi = r.p.ub[i][j] - e.v[i].g[j];
          double z = s.z[i][j], y = s.y[i][j];
          double m = 1e-9 * (1 + std::fabs(z) + std::fabs(e.v[i].g[j]));
          if (z < lo - m || z > hi + m) {
            R.v(P + ".slack", at(r, k) + ": slack " + num(z) + " outside its bounds [" + num(lo) +
                                  "," + num(hi) + "]");
            continue;
          }
          double my = 1e-7 * (1 + std::fabs(y) + s.rho[i][j] * (1 + std::fabs(z)));
          if (std::isfinite(hi) && hi - lo < 1e-12) continue;
          if ((y > my && !(z >= hi - m)) || (y < -my && !(z <= lo + m)))
            R.v(P + ".complementarity",
                at(r, k) + ": dual " + num(y) + " with slack " + num(z) +
                    " away from the bound it points out of, [" + num(lo) + "," + num(hi) + "]");
        }
      }
      // did the solver retry with more regularization half way?
      bool retried = false;
      {
        // the regularization it would have without retries
        double base;
        if (c.get("remove_reg") != 0)
          base = 0;
        else if (k == 0)
          base = std::isnan(r.reg) ? c.get("reg_min") : r.reg;
        else
          base = -1;
        if (base >= 0) {
          retried = base != s.preg;
        } else {
          LsOut lo;
          line_search(P, rec, r, k - 1, R, false, &lo);
          std::vector<double> opts = {
              std::max(r.it[k - 1].preg / c.get("reg_dec"), c.get("reg_min")),
              std::min(r.it[k - 1].preg * c.get("reg_inc"), c.get("reg_max"))};
          std::vector<double> al = alphas(c);
          if (lo.match.size() == 1) {
            double a = al[static_cast<size_t>(lo.match[0])];
            retried = !close(s.preg, a > c.get("th_dec") ? opts[0] : opts[1], 1e-12);
          } else {
            retried = true;
          }
        }
      }
      if (retried && maxqp > interval) {
        R.p("qp.skip_retried");
        continue;
      }
      if (any_fault(rec, win_begin(r, k), s.log)) {
        // a failed evaluation on the way here: the state kept between
        // iterations is still what the previous snapshot says
        R.p("qp.after_fault");
      }
      AdmmIn in;
      in.p = &r.p;
      in.xs = s.xs;
      in.us = s.us;
      in.cfg = c;
      in.preg = s.preg;
      in.dreg = s.dreg;
      in.iters = n;
      in.y0 = y0p;
      if (c.get("reset_y") != 0 || retried)
        for (auto& y : in.y0) y.setZero();
      if (retried && c.get("reset_y") == 0) continue;
      in.dx0 = k ? r.it[k - 1].dx : r.entry.dx;
      in.du0 = k ? r.it[k - 1].du : r.entry.du;
      for (size_t t = 0; t < in.y0.size(); ++t)
        if (in.y0[t].size() != r.p.spec[t]->ng()) in.y0[t] = VectorXd::Zero(r.p.spec[t]->ng());
      bool skip = !all_finite(in.y0);
      if (c.get("eq_guess") == 0) {
        for (size_t t = 0; t < in.du0.size(); ++t)
          if (in.du0[t].size() != s.du[t].size()) skip = true;
        if (!all_finite(in.dx0) || !all_finite(in.du0)) skip = true;
      }
      if (skip) continue;
      in.rho0 = (k == 0 || c.get("reset_rho") != 0) ? 0.1 : r.it[k - 1].rho_sparse;
      if (n > 400) continue;
      AdmmOut o = admm(in);
      if (!o.ok || o.err > 1e-6 || !(o.mag < 1e6)) {
        R.p("qp.ill_conditioned");
        continue;
      }
      if (o.ambiguous) {
        R.p("qp.ambiguous");
        continue;
      }
      R.p("qp.compared");
      if (s.timed && k + 1 == r.it.size()) R.p("qp.compared_cut_by_time");
      if (n == maxqp) R.p("qp.compared_cut_by_limit");
      const double tol = std::max(1e-7, 1e3 * o.err);
      auto cmp = [&](const Traj& a, const Traj& b, const char* what) {
        double df = max_abs_diff(a, b);
        if (!(df <= tol * (1 + max_abs(b)))) {
          R.v(P + ".recursion", at(r, k) + ": after " + std::to_string(n) + " inner iterations " +
                                    what + " differs from the ADMM recursion by " + num(df));
          return false;
        }
        return true;
      };
      if (!cmp(s.dx, o.dx, "dx") || !cmp(s.du, o.du, "du") || !cmp(s.z, o.z, "z") ||
          !cmp(s.y, o.y, "y"))
        continue;
      if (!o.noise && !(std::fabs(s.rho_sparse - o.rho) <= std::max(1e-6, 1e3 * o.err) * o.rho)) {
        // residuals may be so small that rounding decides
        R.v(P + ".rho", at(r, k) + ": penalty " + num(s.rho_sparse) + " instead of " + num(o.rho));
        continue;
      }
      bool has_cons = false;
      for (auto& sp : r.p.spec) has_cons = has_cons || sp->ng() > 0;
      if (n % interval == 0 && has_cons) {
        const double ty = tol * (1 + max_abs(o.y) + max_abs(o.z) * std::max(o.rho, 1.) * 1e3);
        if (!(std::fabs(s.np - o.np) <= tol * (1 + o.npr) + 1e-6 * o.np) ||
            !(std::fabs(s.nd - o.nd) <= ty + 1e-6 * o.nd))
          R.v(P + ".residuals", at(r, k) + ": reported residuals " + num(s.np) + ", " + num(s.nd) +
                                    " instead of " + num(o.np) + ", " + num(o.nd));
      }
      const bool cut = s.timed && k + 1 == r.it.size();
      if (o.should_stop && o.should_stop < n)
        R.v(P + ".late", at(r, k) + ": the tolerances were met after " +
                             std::to_string(o.should_stop) + " inner iterations, not used until " +
                             std::to_string(n));
      if (!o.should_stop && n < maxqp && !cut)
        R.v(P + ".early", at(r, k) + ": the QP stopped after " + std::to_string(n) +
                              " inner iterations without meeting its tolerances");
    }
  }
}

// ------------------------------------------------------------ C10
void mon_trajectory(const str& P, const Record& rec, Report& R) {
  for (auto& r : rec.solves) {
    const Snap& f = r.fin;
    // memory ran out while the buffers followed a change of the problem
    if (r.alloc_faults && r.updated && r.it.empty()) continue;
    if (!dims_ok(r, f.xs, f.us)) {
      R.v(P + ".dims", where(r) + ": the stored trajectory does not have the problem's dimensions");
      continue;
    }
    bool entry_finite = all_finite(r.entry.xs) && all_finite(r.entry.us);
    bool fin = all_finite(f.xs) && all_finite(f.us);
    if (!fin && r.init_finite && entry_finite) {
      R.v(P + ".nonfinite", where(r) + ": the stored trajectory contains a non-finite number");
      continue;
    }
    if (!fin) continue;
    const bool early = r.it.empty() && r.alloc_faults;  // may have failed before the guess was taken
    auto init0 = init_candidate(r, sqp_type(r));
    bool is_init = same_traj(f.xs, init0.first) && same_traj(f.us, init0.second);
    if (sqp_type(r)) {
      // (a manifold's integrate() may round, even for a zero step)
      if (!(max_abs_diff({f.xs[0]}, {r.p.x0}) < 1e-12) && !early) {
        R.v(P + ".x0", where(r) + ": the first stored state is not the initial state");
        continue;
      }
      bool ok = is_init || early;
      // PROXQP shows its iterates only at the end of an iteration: when the
      // call ended in the first one there is nothing to compare with
      if (r.kind == "prox" && r.it.empty()) ok = true;
      for (size_t k = 0; k < r.it.size() && !ok; ++k) {
        const Snap& s = r.it[k];
        if (same_traj(f.xs, s.xs) && same_traj(f.us, s.us)) ok = true;
        if (ok || k + 1 != r.it.size() || !snap_dims(r, s)) continue;
        for (double a : alphas(r.cfg)) {
          auto c = candidate(r.p, s, a);
          if (near(f.xs, c.first, 1e-11) && near(f.us, c.second, 1e-11)) ok = true;
        }
      }
      R.p("traj.checked");
      if (!ok)
        R.v(P + ".mixture", where(r) + ": the stored trajectory is neither the initial guess nor "
                                       "an iterate nor a step of it");
    } else {
      // accepted steps of DDP are roll-outs from the initial state
      bool ok = is_init || early;
      if (!ok) {
        Eval e = eval_traj(r.p, f.xs, f.us);
        double sc = 1 + max_abs(f.xs) + max_abs(f.us);
        double g = 0;
        for (auto& v : e.fs) g = std::max(g, v.lpNorm<Eigen::Infinity>());
        if (r.kind == "ddp") ok = same_vec(f.xs[0], r.p.x0) && g <= 1e-9 * sc;
        if (r.kind == "fddp") {
          for (auto& q : r.it) ok = ok || (same_traj(f.xs, q.xs) && same_traj(f.us, q.us));
          auto ts = trials(rec, r, win_begin(r, r.it.size()), r.log1, false);
          for (auto& t : ts)
            ok = ok || (t.complete && same_traj(f.xs, t.xs) && same_traj(f.us, t.us));
        }
      }
      R.p("traj.checked");
      if (!ok)
        R.v(P + ".mixture", where(r) + ": the stored trajectory is neither the initial guess nor a "
                                       "complete roll-out");
    }
  }
}

// ------------------------------------------------------------ C11
// A printed row shows, in the order of its columns, what the getters say; a column without a number
// (no step after convergence) is not judged.
void check_row(const str& P, const SolveRec& r, size_t k, Report& R) {
  const Snap& s = r.it[k];
  if (s.row.empty()) return;
  std::vector<std::pair<const char*, double>> col;
  const double it = s.iter + (r.kind == "prox" ? 1 : 0);
  if (r.kind == "csqp")
    col = {{"iter", it}, {"merit", s.merit}, {"cost", s.cost}, {"gap", s.gap}, {"constraint", s.cons},
           {"direction", (s.xg + s.ug) / 2}, {"step", s.step}, {"KKT", s.kkt}, {"QP-iterations", s.qp_iters}};
  else if (r.kind == "sqp")
    col = {{"iter", it}, {"merit", s.merit}, {"cost", s.cost}, {"gap", s.gap}, {"step", s.step}, {"KKT", s.kkt}};
  else if (r.kind == "prox")
    col = {{"iter", it}, {"merit", s.merit}, {"cost", s.cost}, {"direction", s.xg + s.ug}, {"step", s.step},
           {"gap", s.gap}, {"KKT", s.kkt}, {"constraint", s.cons}, {"QP-iterations", s.qp_iters}};
  else
    col = {{"iter", it}, {"cost", s.cost}, {"step", s.step}, {"KKT", s.kkt}};
  std::vector<str> tok;
  std::istringstream in(s.row);
  for (str t; in >> t;) tok.push_back(t);
  auto bad = [&](const str& m) { R.v(P + ".row", at(r, k) + ": " + m + " (printed: " + s.row + ")"); };
  if (tok.size() != col.size()) return bad("a row of " + std::to_string(tok.size()) + " columns is printed");
  R.p("cb.rows");
  for (size_t i = 0; i < col.size(); ++i) {
    char* end = nullptr;
    const double got = std::strtod(tok[i].c_str(), &end), want = col[i].second;
    if (end == tok[i].c_str() || *end) continue;  // a dash, or END
    const bool digits = str(col[i].first) == "step";
    const bool same = std::isfinite(want) ? std::fabs(got - want) <= (digits ? 6e-4 : 6e-4 * std::fabs(want))
                                          : std::isnan(want) ? std::isnan(got) : got == want;
    if (!same) bad(str(col[i].first) + " is printed as " + tok[i] + ", its getter says " + num(want));
  }
}
void mon_callbacks(const str& P, const Record& rec, Report& R) {
  for (auto& r : rec.solves) {
    for (size_t k = 0; k < r.it.size(); ++k) check_row(P, r, k, R);
    if (r.kind == "prox") {
      // no callbacks: what its getters say at the end of an iteration
      if (r.alloc_faults) continue;
      std::vector<const Snap*> sn;
      for (auto& s : r.it) sn.push_back(&s);
      if (r.ret) sn.push_back(&r.fin);
      for (size_t k = 0; k < sn.size(); ++k) {
        const Snap& s = *sn[k];
        if (!snap_dims(r, s) || (!r.it.empty() && tainted(rec, r, std::min(k, r.it.size() - 1)))) continue;
        if (!all_finite(s.xs) || !all_finite(s.us)) continue;
        Eval e = eval_traj(r.p, s.xs, s.us);
        if (!e.finite) continue;
        R.p("cb.prox");
        auto bad = [&](const char* what, double got, double want) {
          R.v(P + "." + what, at(r, k) + ": " + what + " of the solver is " + num(got) +
                                  ", that of the iterate is " + num(want));
        };
        if (!close(s.cost, e.cost, 1e-9)) bad("cost", s.cost, e.cost);
        if (!close(s.gap, e.gap, 1e-9)) bad("gap", s.gap, e.gap);
        if (!close(s.cons, e.cons, 1e-9)) bad("constraint", s.cons, e.cons);
        const double m = r.cfg.get("mu_dyn") * e.gap + r.cfg.get("mu_con") * e.cons;
        if (!(std::fabs(s.merit - (e.cost + m)) <= 1e-9 * (1 + std::fabs(e.cost) + std::fabs(m))))
          bad("merit", s.merit, e.cost + m);
      }
      continue;
    }
    // order
    const size_t n = static_cast<size_t>(r.recorders);
    int prev = -1;
    for (size_t i = 0; n && i < r.calls.size(); ++i) {
      const CbCall& c = r.calls[i];
      const size_t pos = i % n;
      if (c.who != static_cast<int>(pos)) {
        R.v(P + ".order", where(r) + ": callback " + std::to_string(c.who) + " called at place " +
                              std::to_string(pos) + " of its round");
        break;
      }
      if (pos == 0) {
        const bool lastround = i + n >= r.calls.size();
        const bool extra = lastround && r.cfg.get("extra") != 0;
        if (c.iter != prev + 1 && !(extra && c.iter == prev)) {
          R.v(P + ".iteration-number", where(r) + ": callback round with iteration number " +
                                           std::to_string(c.iter) + " after " +
                                           std::to_string(prev));
          break;
        }
        prev = c.iter;
      } else if (c.iter != prev) {
        R.v(P + ".iteration-number", where(r) + ": two iteration numbers in one callback round");
        break;
      }
    }
    if (n && r.calls.size() % n != 0 && !(r.threw))
      R.v(P + ".incomplete-round", where(r) + ": the last callback round is incomplete");
    if (r.kind != "csqp" && r.kind != "sqp") {
      for (size_t k = 0; k < r.it.size(); ++k)
        if (!dims_ok(r, r.it[k].xs, r.it[k].us))
          R.v(P + ".dims", at(r, k) + ": wrong dimensions seen from a callback");
      // the line search has stored the cost of the step it took
      if (r.alloc_faults || r.nested || (r.kind == "fddp" && r.cfg.get("use_filter") != 0)) continue;
      for (size_t k = 0; k < r.it.size(); ++k) {
        const Snap& s = r.it[k];
        if (!dims_ok(r, s.xs, s.us) || !all_finite(s.xs) || !all_finite(s.us)) continue;
        bool spoilt = false;
        for (size_t i = r.log0; i < s.log && i < rec.log.size() && !spoilt; ++i) {
          const int n = node_of(r, rec.log[i].model);
          spoilt = n >= 0 && fk_is_fault(rec.log[i].fault) && same_point(rec.log[i], s.xs, s.us, n);
        }
        Eval e = eval_traj(r.p, s.xs, s.us);
        if (spoilt || !e.finite) continue;
        R.p("cb.ddp_cost");
        if (!close(s.cost, e.cost, 1e-9))
          R.v(P + ".cost", at(r, k) + ": cost read from a callback is " + num(s.cost) +
                               ", that of the iterate is " + num(e.cost));
      }
      continue;
    }
    if (r.alloc_faults) continue;
    for (size_t k = 0; k < r.it.size(); ++k) {
      const Snap& s = r.it[k];
      if (!snap_dims(r, s)) {
        R.v(P + ".dims", at(r, k) + ": wrong dimensions seen from a callback");
        break;
      }
      if (tainted(rec, r, k)) {
        R.p("skip.tainted");
        continue;
      }
      if (!all_finite(s.xs) || !all_finite(s.us)) continue;
      Eval e = eval_traj(r.p, s.xs, s.us);
      R.p("cb.checked");
      auto bad = [&](const char* what, double got, double want) {
        R.v(P + "." + what, at(r, k) + ": " + what + " read from a callback is " + num(got) +
                                ", that of the iterate is " + num(want));
      };
      if (!close(s.cost, e.cost, 1e-9)) bad("cost", s.cost, e.cost);
      if (!close(s.gap, e.gap, 1e-9)) bad("gap", s.gap, e.gap);
      if (r.kind == "csqp" && !close(s.cons, e.cons, 1e-9)) bad("constraint", s.cons, e.cons);
      if (e.finite && all_finite(s.lag) && all_finite(s.y)) {
        double wd = r.cfg.get("mu_dyn"), wc = r.kind == "csqp" ? r.cfg.get("mu_con") : 0;
        if (r.kind == "csqp" && (wd < 0 || wc < 0)) wd = wc = r.cfg.get("lag_coef") * lag_norm(s);
        const double m = wd * e.gap + (wc != 0 ? wc * e.cons : 0);
        if (!(std::fabs(s.merit - (e.cost + m)) <= 1e-9 * (1 + std::fabs(e.cost) + std::fabs(m))))
          bad("merit", s.merit, e.cost + m);
      }
      if (!all_finite(s.dx) || !all_finite(s.du) || !all_finite(s.lag)) continue;
      const bool cut0 = r.kind == "csqp" && s.qp_iters == 0;
      if (!cut0) {
        double xg = 0, ug = 0;
        for (auto& v : s.dx) xg += v.lpNorm<1>();
        for (auto& v : s.du) ug += v.lpNorm<1>();
        xg /= static_cast<double>(s.dx.size());
        ug /= static_cast<double>(s.du.size());
        if (!close(s.xg, xg, 1e-9)) bad("state-step-norm", s.xg, xg);
        if (!close(s.ug, ug, 1e-9)) bad("control-step-norm", s.ug, ug);
      }
      Kkt q = kkt_residual(r.p, s.xs, s.us, s.lag, r.kind == "csqp" ? &s.y : nullptr);
      double lo = std::max(q.stat, std::max(q.gap, r.kind == "csqp" ? q.cons : 0.0));
      double hi = std::max(lo, q.stat0), m = 1e-8 * q.scale;
      if (q.finite && !(s.kkt >= lo - m && s.kkt <= hi + m)) bad("KKT", s.kkt, lo);
      if (k > 0 && line_search_ran(r, k - 1) && !tainted(rec, r, k - 1) && snap_dims(r, r.it[k - 1])) {
        LsOut l;
        line_search(P, rec, r, k - 1, R, false, &l);
        std::vector<double> al = alphas(r.cfg);
        if (l.match.size() == 1 && !l.unchanged) {
          double a = al[static_cast<size_t>(l.match[0])];
          if (!close(s.step, a, 1e-12)) bad("step-length", s.step, a);
        }
      }
    }
    if (!r.it.empty() && !r.threw) {
      const Snap &a = r.it.back(), &b = r.fin;
      if (r.ret) {
        R.p("cb.end_state");
        if (bits(a.cost) != bits(b.cost) || bits(a.kkt) != bits(b.kkt) ||
            bits(a.gap) != bits(b.gap) || bits(a.cons) != bits(b.cons) ||
            !same_traj(a.xs, b.xs) || !same_traj(a.us, b.us) || !same_traj(a.lag, b.lag) ||
            !same_traj(a.y, b.y))
          R.v(P + ".end-state",
              where(r) + ": the state after solve() is not that of the last callback");
      }
      // (a last KKT round that ran into the regularization limit checks nothing)
      if (static_cast<int>(r.it.size()) == r.maxiter && !r.ret && a.iter == r.maxiter - 1 &&
          !b.timed && !(r.cfg.get("extra") != 0 && b.preg >= r.cfg.get("reg_max"))) {
        // (a last round that a fault cut short has evaluated but not checked)
        if (!any_fault(rec, a.log, r.log1) &&
            (bits(a.kkt) != bits(b.kkt) || bits(a.cost) != bits(b.cost)))
          R.v(P + ".end-state",
              where(r) + ": cost or KKT residual after solve() is not that of the last check");
      }
    }
  }
}

// ------------------------------------------------------------ C16
void mon_reg(const str& P, const Record& rec, Report& R) {
  for (auto& r : rec.solves) {
    if (r.alloc_faults) continue;
    const Cfg& c = r.cfg;
    const double rmin = c.get("reg_min"), rmax = c.get("reg_max"), inc = c.get("reg_inc"),
                 dec = c.get("reg_dec"), thd = c.get("th_dec"), thi = c.get("th_inc");
    const bool rem = r.kind == "csqp" && c.get("remove_reg") != 0;
    const double start = rem ? 0 : std::isnan(r.reg) ? rmin : r.reg;
    const std::vector<double> al = alphas(c);
    auto up = [&](double p) { return std::min(p * inc, rmax); };
    auto eq = [](double a, double b) { return std::fabs(a - b) <= 1e-12 * std::fabs(b); };
    auto all = r.it;
    all.push_back(r.fin);
    for (size_t k = 0; k < all.size(); ++k) {
      const Snap& s = all[k];
      const bool fin = k + 1 == all.size();
      if (fin && r.it.empty() && r.threw) continue;
      if (r.kind != "prox" && bits(s.preg) != bits(s.dreg))
        R.v(P + ".unequal", at(r, k) + ": state and control regularization differ: " +
                                num(s.preg) + ", " + num(s.dreg));
      if (rem) {
        if (s.preg != 0 || s.dreg != 0)
          R.v(P + ".not-removed",
              at(r, k) + ": regularization " + num(s.preg) + " although removal was requested");
        continue;
      }
      double lo = std::min(rmin, start), hi = std::max(rmax, start);
      if (!(s.preg >= lo && s.preg <= hi))
        R.v(P + ".range", at(r, k) + ": regularization " + num(s.preg) + " outside [" + num(lo) +
                              "," + num(hi) + "]");
    }
    if (rem || start > rmax) continue;
    if (r.kind != "csqp" && r.kind != "sqp") {
      // seen after the update of the regularization: retries come first
      double p = start;
      for (size_t k = 0; k <= r.it.size(); ++k) {
        const bool last = k == r.it.size();
        // PROXQP: the value found by iteration k, DDP: the value it leaves
        if (r.kind == "prox") {
          if (k + 1 >= r.it.size()) break;
        } else if (last) {
          break;
        }
        const Snap& s = r.it[k];
        const double step = r.kind == "prox" ? r.it[k + 1].step : s.step;
        const double got = r.kind == "prox" ? r.it[k + 1].preg : s.preg;
        const bool dn = step > thd, u = step <= thi;
        int j = -1;
        double q = p;
        for (int i = 0; i < 400 && j < 0; ++i) {
          double v = q;
          if (dn) v = std::max(v / dec, rmin);
          if (u) v = v > 0 ? up(v) : std::max(rmin, 1e-9);
          if (eq(got, v) || got == v) j = i;
          if (q >= rmax) break;
          q = q > 0 ? up(q) : std::min(rmax, std::max(rmin, 1e-9));
        }
        R.p(dn ? "reg.decrease" : u ? "reg.short_step" : "reg.same");
        if (j < 0) {
          R.v(P + ".schedule", at(r, k) + ": regularization " + num(got) +
                                   " is not on the schedule; it was " + num(p) +
                                   " and the step length " + num(step));
          break;
        }
        R.p("reg.checked");
        if (u && got >= rmax * (1 + 1e-12))
          R.v(P + ".range", at(r, k) + ": regularization above its maximum");
        if (j > 0) {
          R.p("reg.retried");
          bool convex = true;
          for (auto& sp : r.p.spec) convex = convex && !sp->k.hess;
          if (convex && !any_fault(rec, win_begin(r, k), s.log) && all_finite(s.xs) &&
              all_finite(s.us) && max_abs(s.xs) < 1e6 && r.kind == "prox")
            R.v(P + ".needless-increase",
                at(r, k) + ": regularization was increased without cause");
        }
        // the maximum ends the solve: there is no later iteration
        if (u && j == 0) {
          double v = p;
          if (dn) v = std::max(v / dec, rmin);
          v = v > 0 ? up(v) : std::max(rmin, 1e-9);
          if (v >= rmax)
            R.v(P + ".max-not-final",
                at(r, k) + ": iterating on after the regularization reached its maximum");
        }
        p = got;
      }
    }
    if (r.kind != "csqp" && r.kind != "sqp") goto end_checks;
    for (size_t k = 0; k < r.it.size(); ++k) {
      const Snap& s = r.it[k];
      if (!snap_dims(r, s)) break;
      std::vector<double> sched;
      str why;
      if (k == 0) {
        sched = {start};
        why = "the start value";
      } else {
        if (!line_search_ran(r, k - 1) || !snap_dims(r, r.it[k - 1])) break;
        if (tainted(rec, r, k - 1)) continue;
        const double p = r.it[k - 1].preg;
        LsOut l;
        line_search(P, rec, r, k - 1, R, false, &l);
        const double down = std::max(p / dec, rmin);
        if (l.unchanged) {
          if (r.kind == "csqp") {
            if (extra_round(r, k)) sched = {p};
          } else if (l.match.empty()) {
            // the length tried last decides
            double v = p;
            if (al.back() > thd) v = std::max(v / dec, rmin);
            if (al.back() <= thi) v = up(v);
            sched = {v};
          }
          why = "no accepted step";
        } else if (l.match.size() == 1) {
          const double a = al[static_cast<size_t>(l.match[0])];
          why = "the accepted step " + num(a);
          if (a > thd)
            sched = {down};
          else if (r.kind == "csqp" || a <= thi)
            sched = {up(p)};
          else
            sched = {p};
          R.p(a > thd ? "reg.decrease" : "reg.short_step");
        }
        if (sched.empty()) {
          R.p("reg.ambiguous");
          continue;
        }
        bool all_max = true;
        for (double v : sched) all_max = all_max && v == rmax && p * inc > rmax * (1 + 1e-9) && v != p && !(l.match.size() == 1 && al[static_cast<size_t>(l.match[0])] > thd);
        if (all_max && !extra_round(r, k))
          R.v(P + ".max-not-final", at(r, k) + ": iterating on after the regularization reached "
                                               "its maximum");
      }
      // retries multiply
      int j = -1;
      double from = 0;
      for (double v : sched) {
        double q = v;
        for (int i = 0; i < 400; ++i) {
          if (eq(s.preg, q) || (q == 0 && s.preg == 0)) {
            if (j < 0 || i < j) {
              j = i;
              from = v;
            }
            break;
          }
          if (q >= rmax) break;
          q = q == 0 ? 0 : up(q);
          if (q == 0) {
            // leaving zero: any positive value within the range will do
            if (s.preg > 0 && s.preg <= rmax) {
              j = 1;
              from = v;
            }
            break;
          }
        }
      }
      if (j < 0) {
        R.v(P + ".schedule", at(r, k) + ": regularization " + num(s.preg) + " is not on the "
                                 "schedule; after " + why + " it should be " + num(sched[0]) +
                                 (sched.size() > 1 ? " or " + num(sched[1]) : str()));
        continue;
      }
      R.p("reg.checked");
      if (j == 0) continue;
      R.p("reg.retried");
      if (s.preg >= rmax)
        R.v(P + ".max-not-final",
            at(r, k) + ": iterating on after the regularization reached its maximum");
      if (any_fault(rec, win_begin(r, k), s.log) || from == 0) continue;
      if (!all_finite(s.xs) || !all_finite(s.us) || !eval_traj(r.p, s.xs, s.us).finite) continue;
      // diverging to where rounding decides
      if (!(max_abs(s.xs) < 1e6) || !(max_abs(s.us) < 1e6)) continue;
      double q = from;
      for (int i = 0; i < j; ++i, q = up(q)) {
        double m = riccati_margin(r.p, s.xs, s.us, q, q);
        if (m > 1e-6) {
          R.v(P + ".needless-increase",
              at(r, k) + ": regularization was increased from " + num(q) +
                  " although every stage Hessian is positive definite (margin " + num(m) + ")");
          break;
        }
      }
      // and the accepted level must not have been indefinite
      if (c.get("eq_guess") != 0 || r.kind == "sqp") {
        double m = riccati_margin(r.p, s.xs, s.us, s.preg, s.dreg);
        if (m < -1e-6)
          R.v(P + ".indefinite", at(r, k) + ": a direction was computed with an indefinite stage "
                                            "Hessian (margin " + num(m) + ")");
      }
    }
  end_checks:
    // the end: reaching the maximum means false
    if (r.ret && !r.it.empty() && r.it.back().preg >= rmax && start < rmax && rmin < rmax)
      R.v(P + ".max-not-final", where(r) + ": returned true at the maximum regularization");
    if (!r.it.empty() && !r.threw && !r.ret && !r.fin.timed && sqp_type(r) &&
        static_cast<int>(r.it.size()) < r.maxiter && r.cfg.get("extra") == 0 && r.kind != "csqp") {
      // stopped before the limit without convergence: only the maximum explains it
      if (!(r.fin.preg >= rmax))
        R.v(P + ".stopped", where(r) + ": gave up with regularization " + num(r.fin.preg) +
                                " below its maximum");
      R.p("reg.gave_up");
    }
  }
}

// ------------------------------------------------------------ C09
void mon_work(const str& P, const Record& rec, Report& R) {
  for (auto& r : rec.solves) {
    const Cfg& c = r.cfg;
    const double rmax = c.get("reg_max"), inc = c.get("reg_inc");
    double lo = std::max(c.get("reg_min"), 1e-300);
    double p0 = std::isnan(r.reg) ? c.get("reg_min") : r.reg;
    if (p0 > 0) lo = std::min(lo, p0);
    lo = std::max(std::min(lo, 1e-9), 1e-18);
    double steps = std::log(std::max(rmax, lo) / lo) / std::log(inc) + 3;
    double nodes = r.p.T() + 1;
    double diffs = (r.maxiter + 2.0) * (steps + 2.0) * nodes;
    double calcs = (r.maxiter + 2.0) * (c.get("n_alphas") + steps + 3.0) * nodes;
    double nd = 0, nc = 0;
    for (size_t i = r.log0; i < r.log1; ++i) (rec.log[i].diff ? nd : nc) += 1;
    if (!r.nested && (nd > diffs || nc > calcs))
      R.v(P + ".evaluations", where(r) + ": " + num(nd) + " derivative and " + num(nc) +
                                  " value evaluations exceed the bounds " + num(diffs) + ", " +
                                  num(calcs));
    if (static_cast<int>(r.it.size()) > r.maxiter + (c.get("extra") != 0 ? 1 : 0))
      R.v(P + ".iterations", where(r) + ": " + std::to_string(r.it.size()) +
                                 " iterations, the limit is " + std::to_string(r.maxiter));
    R.p("work.checked");
    // a first direction that no regularization of the range can factorize
    if (r.maxiter > 0 && !r.threw && !r.alloc_faults && !any_fault(rec, r.log0, r.log1) &&
        r.kind != "prox" && c.get("eq_guess") != 0 && c.get("remove_reg") == 0 && p0 < rmax &&
        p0 > 0) {
      auto ini = init_candidate(r, sqp_type(r));
      if (all_finite(ini.first) && all_finite(ini.second)) {
        double m = riccati_margin(r.p, ini.first, ini.second, rmax, rmax);
        double m2 = riccati_margin(r.p, ini.first, ini.second, p0, p0);
        if (m < -1e-6 && m2 < -1e-6) {
          R.p("work.unfactorizable");
          if (r.ret || !r.it.empty() || !(r.fin.preg >= rmax))
            R.v(P + ".retry", where(r) + ": the first factorization fails for every allowed "
                                         "regularization but solve() went on");
        }
      }
    }
  }
}

// ------------------------------------------------------------ comparison
bool diff_snap(const Snap& a, const Snap& b, bool timing, str& why) {
  auto t = [&](const Traj& x, const Traj& y, const char* n) {
    if (same_traj(x, y)) return false;
    why = n;
    double d = max_abs_diff(x, y);
    if (std::isfinite(d)) why += " (by " + num(d) + ")";
    for (size_t i = 0; !std::isfinite(d) && i < x.size() && i < y.size(); ++i)
      for (Eigen::Index j = 0; j < x[i].size() && j < y[i].size(); ++j)
        if (bits(x[i][j]) != bits(y[i][j])) {
          why += " at node " + std::to_string(i) + " (" + num(x[i][j]) + " and " + num(y[i][j]) + ")";
          return true;
        }
    return true;
  };
  auto d = [&](double x, double y, const char* n) {
    if (bits(x) == bits(y)) return false;
    why = str(n) + " (" + num(x) + " and " + num(y) + ")";
    return true;
  };
  if (t(a.xs, b.xs, "xs") || t(a.us, b.us, "us") || t(a.lag, b.lag, "multipliers of the dynamics") ||
      t(a.y, b.y, "multipliers of the constraints") || t(a.z, b.z, "slacks") ||
      t(a.dx, b.dx, "dx") || t(a.du, b.du, "du") || t(a.rho, b.rho, "penalties") ||
      t(a.fs, b.fs, "gaps"))
    return true;
  if (d(a.cost, b.cost, "cost") || d(a.kkt, b.kkt, "KKT residual") || d(a.gap, b.gap, "gap norm") ||
      d(a.cons, b.cons, "constraint violation") || d(a.step, b.step, "step length") ||
      d(a.preg, b.preg, "regularization") || d(a.dreg, b.dreg, "control regularization") ||
      d(a.merit, b.merit, "merit") || d(a.np, b.np, "primal residual") ||
      d(a.nd, b.nd, "dual residual") || d(a.xg, b.xg, "state step norm") ||
      d(a.ug, b.ug, "control step norm") || d(a.rho_sparse, b.rho_sparse, "penalty") ||
      d(a.qp_iters, b.qp_iters, "inner iterations") || d(a.iter, b.iter, "iteration number"))
    return true;
  (void)timing;
  return false;
}
// every observable of two solves, bit by bit
bool diff_solve(const SolveRec& a, const SolveRec& b, bool its, bool fresh, str& why) {
  if (a.ret != b.ret || a.threw != b.threw || a.what != b.what) {
    why = "the verdict (" + str(a.threw ? "exception " + a.what : a.ret ? "true" : "false") +
          " and " + (b.threw ? "exception " + b.what : b.ret ? "true" : "false") + ")";
    return true;
  }
  if (its) {
    const size_t n = std::min(a.it.size(), b.it.size());
    for (size_t k = 0; k < n; ++k) {
      Snap x = a.it[k], y = b.it[k];
      if (fresh && k == 0) {
        x.step = y.step;  // no step was taken yet
      }
      if (fresh && x.qp_iters == 0) x = y;
      if (diff_snap(x, y, false, why)) {
        why = "iteration " + std::to_string(k) + ": " + why;
        return true;
      }
    }
    if (a.it.size() != b.it.size()) {
      why = "the number of iterations";
      return true;
    }
  }
  Snap x = a.fin, y = b.fin;
  // the penalties have no value before the first QP
  if (a.it.empty() && a.fin.qp_iters == 0 && b.fin.qp_iters == 0) x.rho = y.rho;
  if (fresh) {
    // before the first step is accepted, or the first check made, these
    // still belong to the previous solve
    if (a.it.size() <= 1) x.step = y.step;
    if (a.it.empty()) x.merit = y.merit;
    if (a.it.empty()) {
      x = Snap();
      x.xs = a.fin.xs;
      x.us = a.fin.us;
      y = Snap();
      y.xs = b.fin.xs;
      y.us = b.fin.us;
    }
    if (a.kind == "csqp" && a.fin.qp_iters == 0) x = y;
    if (a.threw) {
      x = Snap();
      x.xs = a.fin.xs;
      x.us = a.fin.us;
      y = Snap();
      y.xs = b.fin.xs;
      y.us = b.fin.us;
    }
  }
  if (diff_snap(x, y, false, why)) {
    why = "the final state: " + why;
    return true;
  }
  return false;
}
const SolveRec* find(const Record& r, int op, bool nested = false) {
  for (auto& s : r.solves)
    if (s.op == op && s.nested == nested) return &s;
  return nullptr;
}
bool bitwise_reusable(const SolveRec& r) {
  if (r.kind == "csqp") return r.cfg.get("reset_y") != 0 && r.cfg.get("eq_guess") != 0;
  return r.kind == "sqp" || r.kind == "prox";
}

// DDP and FDDP check the first iterates with multipliers that contain the state
// steps of the solve before. What they iterate over depends on the problem and
// the arguments alone.
bool diff_ddp(const SolveRec& a, const SolveRec& b, str& why) {
  auto d = [&](double x, double y, const char* n) {
    if (bits(x) == bits(y)) return false;
    why = str(n) + " (" + num(x) + " and " + num(y) + ")";
    return true;
  };
  const size_t n = std::min(a.it.size(), b.it.size());
  for (size_t k = 0; k < n; ++k) {
    const Snap &x = a.it[k], &y = b.it[k];
    if (!same_traj(x.xs, y.xs))
      why = "xs";
    else if (!same_traj(x.us, y.us))
      why = "us";
    else if (!d(x.cost, y.cost, "cost") && !d(x.step, y.step, "step length") &&
             !d(x.preg, y.preg, "regularization") && !d(x.iter, y.iter, "iteration number"))
      continue;
    why = "iteration " + std::to_string(k) + ": " + why;
    return true;
  }
  if (a.ret || b.ret || a.threw || b.threw) return false;
  if (a.it.size() != b.it.size()) {
    why = "the number of iterations";
    return true;
  }
  if (!same_traj(a.fin.xs, b.fin.xs) || !same_traj(a.fin.us, b.fin.us)) {
    why = "the final state";
    return true;
  }
  return false;
}

// A solve cut short and resumed, by the same object or a new one that is given
// only the trajectory and the regularization, against the same solve uncut.
void prop_resume(const str& P, const Plan& plan, Report& R) {
  Options o;
  Record base = go(plan, o, R);
  protocol(P, base, R);
  if (base.solves.size() != 1) return;
  const SolveRec& b = base.solves[0];
  if (b.threw || !b.hits.empty() || b.alloc_faults || std::isfinite(b.budget)) return;
  const Cfg& c = b.cfg;
  const bool ddp = b.kind == "ddp" || b.kind == "fddp";
  if (c.get("extra") != 0) return;
  if (b.kind != "ddp" && c.get("use_filter") != 0 && c.get("filter_size") != 1) return;
  if (b.kind == "csqp" && c.get("reset_rho") == 0) return;
  const bool anew = b.kind != "csqp" || (c.get("reset_y") != 0 && c.get("eq_guess") != 0);
  const size_t n = b.it.size();
  R.p("resume.uncut");
  if (n < 2) return;
  rt::Rng r(rt::mix(b.t1, n * 77 + b.p.T()));
  for (int rep = 0; rep < 3; ++rep) {
    // where and how it is cut
    const int how = anew && b.kind != "prox" ? static_cast<int>(r.below(4)) : 0;
    const bool fresh = anew && r.chance(0.5);
    size_t m = 1 + r.below(n - 1);  // rounds of callbacks seen before the cut
    size_t j = m;                   // of which these are not repeated
    Plan q = plan;
    Line *first = nullptr, fault;
    for (auto& l : q.lines)
      if (l.verb == "op" && l.str("do", "solve") == "solve") first = &l;
    if (!first) return;
    const int op = b.op;
    Line second = *first;
    fault.verb = "fault";
    fault.seti("op", op).set("kind", "throw_int").seti("len", 1);
    if (how == 0) {
      first->seti("maxiter", static_cast<long>(m));
    } else if (how == 1) {  // by a callback
      fault.set("at", "cb").seti("nth", static_cast<long>(m)).seti("node", 0);
      if (!ddp) j = m - 1;
      q.lines.push_back(fault);
    } else {  // by the model, anywhere
      uint64_t evals = 0;
      for (size_t i = b.log0; i < b.log1; ++i) evals += base.log[i].diff == (how == 2);
      if (!evals) return;
      fault.set("at", "model").seti("nth", 1 + static_cast<long>(r.below(evals)));
      fault.set("meth", how == 2 ? "diff" : "calc");
      q.lines.push_back(fault);
    }
    second.seti("n", op + 1).set("guess", "keep").seti("resume", 1);
    q.lines.push_back(second);
    Options o2;
    if (fresh) o2.fresh_op = op + 1;
    // the limit of what is left is known once the first part has run
    Record w;
    for (int pass = 0; pass < 2; ++pass) {
      w = go(q, o2, R);
      if (w.solves.size() != 2) return;
      const SolveRec& a = w.solves[0];
      if (how >= 2) {
        if (!a.threw) break;
        // the iterate it stopped at
        m = a.it.size();
        j = m;
        const Call& l = w.log[a.log1 - 1];
        const int t = node_of(a, l.model);
        if (m > 0 && !ddp && t >= 0 && !l.diff) {
          // a trial is evaluated somewhere else than the iterate
          const size_t i = static_cast<size_t>(t);
          if (!same_vec(l.x, a.fin.xs[i]) || !same_vec(l.u, t < a.p.T() ? a.fin.us[i] : VectorXd()))
            j = m - 1;
          else if (a.kind != "prox" && a.it[m - 1].dx[i].lpNorm<Eigen::Infinity>() < 1e-9 &&
                   (t == a.p.T() || a.it[m - 1].du[i].lpNorm<Eigen::Infinity>() < 1e-9))
            j = static_cast<size_t>(b.maxiter);  // a step too short to tell
        }
      }
      q.lines.back().seti("maxiter", b.maxiter - static_cast<long>(j));
      if (b.maxiter - static_cast<long>(j) < 1) break;
    }
    const SolveRec &a = w.solves[0], &z = w.solves[1];
    if (a.ret || z.maxiter != b.maxiter - static_cast<int>(j)) continue;
    if (how > 0 && !a.threw) continue;
    if (how == 0 && a.it.size() != m) {
      R.v(P + ".cut", where(a) + ": made " + std::to_string(a.it.size()) +
                          " iterations where " + std::to_string(m) + " were allowed");
      continue;
    }
    const str name = str(how == 0   ? "the iteration limit"
                         : how == 1 ? "a callback"
                                    : "the model") +
                     " cut the solve in iteration " + std::to_string(j) +
                     (fresh ? ", a new object" : ", the same object") + " resumed it: ";
    R.p(how == 0 ? "resume.limit" : how == 1 ? "resume.callback" : "resume.model");
    if (fresh) R.p("resume.new_object");
    // the two parts as one solve
    SolveRec s = b, t = b;
    s.it.assign(b.it.begin(), b.it.end());
    t.it.assign(a.it.begin(), a.it.begin() + static_cast<long>(j));
    const size_t at0 = t.it.size();
    t.it.insert(t.it.end(), z.it.begin(), z.it.end());
    t.fin = z.fin;
    t.ret = z.ret, t.threw = z.threw, t.what = z.what;
    for (size_t k = at0; k < t.it.size() && k < s.it.size(); ++k) t.it[k].iter = s.it[k].iter;
    if (at0 < t.it.size() && at0 < s.it.size()) {
      if (!ddp) t.it[at0].step = s.it[at0].step;
      if (b.kind == "prox") t.it[at0].kkt = s.it[at0].kkt;
    }
    t.fin.iter = s.fin.iter;
    if (z.it.size() <= 1) t.fin.step = s.fin.step;
    if (z.it.empty() && !z.ret) {
      // it ended before any direction was found: the rest is of the iteration before
      Snap f = s.fin;
      f.xs = z.fin.xs, f.us = z.fin.us;
      f.preg = z.fin.preg, f.dreg = z.fin.dreg;
      t.fin = f;
    }
    str why;
    if (b.kind == "prox" && (z.it.size() < 2 || s.it.size() < at0 + 2)) continue;
    if (ddp ? diff_ddp(s, t, why) : diff_solve(s, t, true, false, why))
      R.v(P + ".differs-from-uncut", where(b) + ": " + name + "it differs in " + why);
  }
}
// A solve of a used object against the same solve of new objects.
void fresh_equal(const str& P, const Plan& plan, const Record& base, const Options& o0, Report& R) {
  std::set<int> first;
  for (auto& r : base.solves) {
    if (r.nested) continue;
    if (!first.count(r.solver)) {
      first.insert(r.solver);
      // an edit may come before the first solve, too
      bool edited = false;
      for (auto l : plan.all("op")) {
        if (static_cast<int>(l->integer("n")) == r.op) break;
        str d = l->str("do", "solve");
        if (d == "append" || d == "replace" || d == "bounds" || d == "x0") edited = true;
        // nor may the solve of another solver before it matter
        if (d == "solve" && l->integer("s", 0) != r.solver) edited = true;
      }
      if (!edited) continue;
    }
    const bool ddp = r.kind == "ddp" || r.kind == "fddp";
    if (!ddp && (!sqp_type(r) || !bitwise_reusable(r))) continue;
    if (r.alloc_faults || (std::isfinite(r.budget) && r.budget < 1000)) continue;
    Options o = o0;
    o.fresh_op = r.op;
    Record f = go(plan, o, R);
    const SolveRec* q = find(f, r.op);
    if (!q || q->alloc_faults) continue;
    // PROXQP tests convergence with the multipliers it has, which a new
    // object does not have in its first iteration
    if (r.kind == "prox" && (r.it.size() < 2 || q->it.size() < 2)) {
      R.p("fresh.skip_prox");
      continue;
    }
    // the n-th allocation of a first solve is another one when this process has
    // solved before: such a history may part before the solve compared
    if (!same_traj(r.init_xs, q->init_xs) || !same_traj(r.init_us, q->init_us)) {
      R.p("fresh.skip_other_history");
      continue;
    }
    SolveRec a = r, b = *q;
    if (r.kind == "prox" && !a.it.empty() && !b.it.empty()) a.it[0].kkt = b.it[0].kkt;
    str why;
    R.p("fresh.compared");
    if (std::isfinite(r.budget)) R.p("fresh.compared_with_budget");
    if (ddp) R.p("fresh.compared_ddp");
    if (!r.hits.empty()) R.p("fresh.compared_with_faults");
    if (ddp ? diff_ddp(a, b, why) : diff_solve(a, b, true, true, why))
      R.v(P + ".differs-from-new", where(r) + ": a newly built solver behaves differently in " + why);
  }
}
bool has_fault(const Record& rec, const SolveRec& r) {
  return !r.hits.empty() || r.alloc_faults || any_fault(rec, r.log0, r.log1);
}
// after the faults stopped, a warm-started solver uses finite values only
void healthy_after(const str& P, const Record& rec, Report& R) {
  std::map<int, bool> bad;
  for (auto& r : rec.solves) {
    if (r.nested) continue;
    if (has_fault(rec, r)) {
      bad[r.solver] = true;
      continue;
    }
    if (!bad[r.solver] || r.maxiter < 1 || !r.init_finite || r.budget < 1e-9) continue;
    if (!sqp_type(r)) continue;
    auto ini = init_candidate(r, true);
    if (!all_finite(ini.first) || !all_finite(ini.second)) continue;
    if (!eval_traj(r.p, ini.first, ini.second).finite || max_abs(ini.first) > 1e3) continue;
    R.p("healthy.checked");
    // ProxQP may give non-finite steps for a QP without solution
    if (r.kind == "prox" && !r.threw) continue;
    // without regularization, a Hessian that cannot be factorized is thrown out
    if (r.threw && r.kind == "csqp" && r.cfg.get("remove_reg") != 0) continue;
    if (r.threw) {
      R.v(P + ".unusable", where(r) + ": a healthy solve after a failure threw (" + r.what + ")");
      continue;
    }
    if (r.kind == "csqp" && r.cfg.get("remove_reg") != 0) continue;
    for (size_t k = 0; k < r.it.size() && k < 1; ++k) {
      const Snap& s = r.it[k];
      if (r.kind == "csqp" && s.qp_iters == 0) continue;
      if (!all_finite(s.dx) || !all_finite(s.du) || !all_finite(s.y) || !all_finite(s.lag) ||
          !(s.kkt < INF))
        R.v(P + ".poisoned", at(r, k) + ": a healthy solve after a failure works with "
                                        "non-finite multipliers or steps");
    }
    if (r.it.empty() && !r.fin.timed && r.fin.preg >= r.cfg.get("reg_max") && !r.ret) {
      double m = riccati_margin(r.p, ini.first, ini.second, r.cfg.get("reg_min"),
                                r.cfg.get("reg_min"));
      if (m > 1e-6 && r.cfg.get("reg_min") < r.cfg.get("reg_max"))
        R.v(P + ".unusable", where(r) + ": a healthy solve after a failure cannot compute any "
                                        "direction");
    }
  }
}

void races(const str& P, const Record& r, Report& R) {
  std::set<str> seen;
  for (auto& x : r.races)
    if (seen.insert(x).second) R.v(P + ".race", x);
}

// ------------------------------------------------------------ C02
double budget_of(const Line& l, double base_ns) {
  if (l.has("bfrac")) return l.num("bfrac") * base_ns * 1e-9;
  if (l.has("babs")) return l.num("babs");
  return INF;
}
Plan without_wall(const Plan& p) {
  Plan q;
  for (auto& l : p.lines) {
    if (l.verb == "fault" && (l.str("kind") == "wall" || l.str("kind") == "wall_jump")) continue;
    q.lines.push_back(l);
  }
  return q;
}
void prop_budget(const str& P, const Plan& plan, Report& R) {
  // One run per budgeted solve establishes what the unlimited solve does
  // after the same (budgeted) history.
  Options o;
  o.no_budget = false;
  std::map<int, SolveRec> base;
  std::map<int, double> qp_cost;
  double kept = INF;  // the budget of the solve before
  std::vector<const Line*> ops;
  for (auto l : plan.all("op"))
    if (l->str("do", "solve") == "solve" && (l->has("bfrac") || l->has("babs") || l->has("bkeep")))
      ops.push_back(l);
  for (auto l : ops) {
    int op = static_cast<int>(l->integer("n"));
    Options q = o;
    for (auto m : ops) {
      int n = static_cast<int>(m->integer("n"));
      if (!q.budget.count(n)) q.budget[n] = INF;
    }
    Record r = go(plan, q, R);
    const SolveRec* s = find(r, op);
    if (!s || s->kind != "csqp") {
      o.budget[op] = kept = INF;
      continue;
    }
    base[op] = *s;
    kept = o.budget[op] =
        l->has("bkeep") ? kept : budget_of(*l, static_cast<double>(s->t1 - s->t0));
    if (l->has("bkeep") && std::isfinite(kept)) R.p("budget.kept");
    // cost of one inner iteration with all that surrounds it: the same solve
    // cut after its first inner iteration
    Plan one = plan;
    Line st;
    st.verb = "set";
    st.seti("s", s->solver).set("k", "max_qp").set("v", 1.0);
    one.lines.push_back(st);
    Record r1 = go(one, q, R);
    const SolveRec* s1 = find(r1, op);
    double a = 0;
    uint64_t prev = s1 ? s1->bb0 : 0;
    if (s1)
      for (auto& it : s1->it) {
        a = std::max(a, static_cast<double>(it.bb - prev));
        prev = it.bb;
      }
    qp_cost[op] = a;
  }
  Record rec = go(plan, o, R);
  for (auto& r : rec.solves) {
    if (r.kind != "csqp" || r.nested) continue;
    if (!std::isfinite(r.budget)) {
      if (r.fin.timed)
        R.v(P + ".false-timeout", where(r) + ": claims a timeout without a time limit");
      continue;
    }
    if (!base.count(r.op)) continue;
    const SolveRec& b = base[r.op];
    const double D = static_cast<double>(r.t0) + r.budget * 1e9;
    const double slop = 2000 + 4 * static_cast<double>(rt::S.env.read_ns);
    R.p("budget.checked");
    if (r.fin.timed && static_cast<double>(r.t1) < D - slop) {
      R.v(P + ".false-timeout", where(r) + ": claims a timeout " +
                                    num((D - static_cast<double>(r.t1)) * 1e-3) +
                                    " us before its deadline");
      continue;
    }
    str why;
    const bool eq = !diff_solve(r, b, true, false, why);
    if (!r.fin.timed) {
      if (!eq) {
        R.v(P + ".differs", where(r) + ": no timeout reported, yet the solve differs from the "
                                       "unlimited one in " + why);
        continue;
      }
      if (static_cast<double>(r.t1) < D) R.p("budget.not_reached");
    } else {
      R.p("budget.timed_out");
    }
    // prefix
    for (size_t k = 0; k < r.it.size(); ++k) {
      if (k >= b.it.size()) {
        R.v(P + ".not-a-prefix", where(r) + ": more iterations than without a limit");
        break;
      }
      Snap x = r.it[k], y = b.it[k];
      const bool last = k + 1 == r.it.size();
      str w;
      if (!last || x.qp_iters == y.qp_iters || !x.timed) {
        if (diff_snap(x, y, false, w)) {
          R.v(P + ".not-a-prefix", at(r, k) + ": differs from the unlimited run in " + w);
          break;
        }
      } else {
        R.p("budget.cut_inside_qp");
        if (!same_traj(x.xs, y.xs) || !same_traj(x.us, y.us) || bits(x.cost) != bits(y.cost) ||
            bits(x.preg) != bits(y.preg) || x.qp_iters > y.qp_iters) {
          R.v(P + ".not-a-prefix",
              at(r, k) + ": the interrupted iteration is not that of the unlimited run");
          break;
        }
      }
    }
    if (!r.threw && !same_traj(r.fin.xs, b.fin.xs)) {
      bool ok = false;
      for (auto& y : b.it)
        if (same_traj(y.xs, r.fin.xs) && same_traj(y.us, r.fin.us)) ok = true;
      if (r.it.size() && r.fin.timed) {
        const Snap& s = r.it.back();
        if (s.timed)
          for (double a : alphas(r.cfg)) {
            auto c = candidate(r.p, s, a);
            if (near(r.fin.xs, c.first, 1e-11)) ok = true;
          }
      }
      if (r.it.empty()) {
        auto c = init_candidate(r, true);
        if (same_traj(r.fin.xs, c.first)) ok = true;
      }
      if (!ok)
        R.v(P + ".not-a-prefix", where(r) + ": the returned trajectory is no iterate of the "
                                            "unlimited run and no step of the interrupted QP");
    }
    // promptness
    if (r.dl_hit && !r.threw) {
      R.p("budget.deadline_passed");
      size_t diffs = 0, rounds = 0;
      for (size_t i = r.log0; i < r.log1; ++i)
        if (rec.log[i].diff && static_cast<double>(rec.log[i].t_ns) > D + slop +
                                                       3 * static_cast<double>(g_eval_ns))
          ++diffs;
      double cb_bb = -1;
      for (auto& s : r.it)
        if (static_cast<double>(s.t_ns) > D + slop && s.bb > r.dl_bb) {
          ++rounds;
          if (cb_bb < 0) cb_bb = static_cast<double>(s.bb - r.dl_bb);
        }
      const double A = qp_cost.count(r.op) ? qp_cost[r.op] : 0;
      bool stalled = false;
      for (auto& h : r.hits)
        if (h.kind == "stall") stalled = true;
      (void)stalled;
      const size_t nodes = static_cast<size_t>(r.p.T()) + 1;
      if (diffs > nodes)
        R.v(P + ".overrun", where(r) + ": " + std::to_string(diffs) +
                                " derivative evaluations started after the deadline");
      if (rounds > 1)
        R.v(P + ".overrun", where(r) + ": " + std::to_string(rounds) +
                                " iterations completed after the deadline");
      if (cb_bb > 1.25 * A + 2000)
        R.v(P + ".overrun", where(r) + ": the QP went on for " + num(cb_bb) +
                                " steps after the deadline; one inner iteration with all its "
                                "surroundings takes " + num(A));
      if (cb_bb >= 0) R.p("budget.callback_after_deadline");
    }
  }
  // stepping the wall clock must not matter
  bool wall = false;
  for (auto l : plan.all("fault"))
    if (l->str("kind") == "wall" || l->str("kind") == "wall_jump") wall = true;
  if (wall) {
    Record w = go(without_wall(plan), o, R);
    for (auto& r : rec.solves) {
      const SolveRec* s = find(w, r.op, r.nested);
      str why;
      if (!s) continue;
      R.p("budget.wall_compared");
      if (diff_solve(r, *s, true, false, why) || r.fin.timed != s->fin.timed) {
        R.v(P + ".wall-clock", where(r) + ": stepping the wall clock changes " +
                                   (why.empty() ? str("the timeout flag") : why));
        break;
      }
    }
  }
}

// ------------------------------------------------------------ C12
void prop_independent(const str& P, const Plan& plan, Report& R) {
  Options o;
  Record all = go(plan, o, R);
  protocol(P, all, R);
  races(P, all, R);
  std::set<int> nested_ids;
  for (auto& r : all.solves)
    if (r.nested) nested_ids.insert(r.solver);
  std::set<int> ids;
  for (auto& r : all.solves) ids.insert(r.solver);
  for (int id : ids) {
    if (nested_ids.count(id)) continue;
    Options q = o;
    q.only_solver = id;
    Record one = go(plan, q, R);
    for (auto& r : all.solves) {
      if (r.solver != id || r.nested) continue;
      const SolveRec* s = find(one, r.op);
      str why;
      if (!s) continue;
      R.p("indep.compared");
      if (diff_solve(r, *s, true, false, why))
        R.v(P + ".influence", where(r) + ": solving other, unrelated problems changes " + why);
    }
  }
  // a nested solve gives what the same solve gives on its own
  for (auto& r : all.solves) {
    if (!r.nested) continue;
    R.p("indep.nested");
    Plan q;
    int op = -1;
    for (auto& l : plan.lines) {
      if (l.verb == "fault" || l.verb == "op") continue;
      q.lines.push_back(l);
    }
    int n = 0;
    for (auto& x : all.solves) {
      if (x.solver != r.solver) continue;
      if (!x.nested) break;
      Line l;
      l.verb = "op";
      l.seti("n", n).set("do", "solve").seti("s", r.solver).set("guess", "rand");
      l.seti("gseed", 99).seti("maxiter", 3);
      q.lines.push_back(l);
      if (&x == &r) {
        op = n;
        break;
      }
      ++n;
    }
    if (op < 0) continue;
    Options w = o;
    w.only_solver = r.solver;
    Record one = go(q, w, R);
    const SolveRec* s = find(one, op);
    str why;
    if (s && diff_solve(r, *s, true, false, why))
      R.v(P + ".nested", where(r) + ": started from a callback of another solver, the solve "
                                    "differs in " + why);
  }
}

// ------------------------------------------------------------ C03
// How far the runs with rounding noise are from the exact one before iteration
// k of a solve; infinite once they take another decision.
// values that differ by more than rounding: another branch was taken
bool decision(double a, double b) {
  return bits(a) != bits(b) && !(std::fabs(a - b) <= 1e-6 * std::fabs(a));
}
double spread(const SolveRec& a, const std::vector<const SolveRec*>& ns, size_t k) {
  double m = 0;
  for (auto n : ns) {
    if (!n || n->it.size() <= k) return INF;
    const Snap &x = a.it[k], &y = n->it[k];
    if (decision(x.step, y.step) || decision(x.preg, y.preg) || decision(x.qp_iters, y.qp_iters))
      return INF;
    for (auto p : {std::make_pair(&x.xs, &y.xs), std::make_pair(&x.us, &y.us),
                   std::make_pair(&x.dx, &y.dx), std::make_pair(&x.du, &y.du),
                   std::make_pair(&x.lag, &y.lag), std::make_pair(&x.y, &y.y),
                   std::make_pair(&x.z, &y.z)})
      m = std::max(m, max_abs_diff(*p.first, *p.second) / (1 + max_abs(*p.first)));
    if (!std::isfinite(x.kkt) || !std::isfinite(y.kkt)) return INF;
    for (auto p : {std::make_pair(x.kkt, y.kkt), std::make_pair(x.gap, y.gap),
                   std::make_pair(x.cons, y.cons), std::make_pair(x.cost, y.cost)})
      m = std::max(m, std::fabs(p.first - p.second) / (1 + std::fabs(p.first)));
    if (!(m < 1e-4)) return INF;
  }
  return m;
}
void prop_threads(const str& P, const Plan& plan, Report& R) {
  Options o;
  Record a = go(plan, o, R);
  protocol(P, a, R);
  races(P, a, R);
  mon_kkt(P, a, R);
  mon_line_search(P, a, R);
  mon_qp(P, a, R);
  o.sched_seed = 1 + a.sched_sig % 1000003;
  Record b = go(plan, o, R);
  races(P, b, R);
  Options q;
  q.threads = 1;
  Record s = go(plan, q, R);
  std::vector<Record> noisy;
  for (uint64_t i = 1; i <= 6; ++i) {
    q.noise = i;
    noisy.push_back(run_plan(plan, q));
    R.runs++;
  }
  for (auto& r : s.solves) {
    std::vector<const SolveRec*> ns;
    for (auto& x : noisy) ns.push_back(find(x, r.op, r.nested));
    // the guess of a solve may come from the one before
    bool stable = true;
    double sp = 0;
    for (auto n : ns) {
      if (!n) return;
      double e = std::max(max_abs_diff(r.init_xs, n->init_xs), max_abs_diff(r.init_us, n->init_us));
      if (r.init_xs.empty() && n->init_xs.empty()) e = 0;
      e = std::max(e, max_abs_diff(r.entry.y, n->entry.y) / (1 + max_abs(r.entry.y)));
      e = std::max(e, max_abs_diff(r.entry.lag, n->entry.lag) / (1 + max_abs(r.entry.lag)));
      if (!(e < 1e-6)) stable = false;
      sp = std::max(sp, e);
    }
    if (!stable) {
      R.p("mt.unstable_start");
      return;
    }
    for (const Record* w : {&a, &b}) {
      const SolveRec* t = find(*w, r.op, r.nested);
      if (!t) {
        R.v(P + ".missing", where(r) + ": a solve got lost");
        return;
      }
      size_t k = 0;
      bool cut = false;
      for (; k < r.it.size(); ++k) {
        double e = spread(r, ns, k);
        if (!(e < 1e-6)) cut = true;
        if (cut) break;
        sp = std::max(sp, e);
        if (t->it.size() <= k) {
          R.v(P + ".iterations", where(r) + ": with threads the solve ends after " +
                                     std::to_string(t->it.size()) + " iterations");
          return;
        }
        const Snap &x = r.it[k], &y = t->it[k];
        const double tol = 1e-8 + 1e3 * sp;
        auto cmp = [&](const Traj& p, const Traj& q2, const char* n) {
          double d = max_abs_diff(p, q2) / (1 + max_abs(p));
          if (d <= tol) return true;
          R.v(P + ".differs", at(r, k) + ": with threads, " + n + " differ by " + num(d) +
                                  ", rounding explains " + num(tol));
          return false;
        };
        auto cmpd = [&](double p, double q2, const char* n) {
          if (bits(p) == bits(q2) || close(p, q2, tol)) return true;
          R.v(P + ".differs", at(r, k) + ": with threads, " + n + " is " + num(q2) +
                                  " instead of " + num(p));
          return false;
        };
        R.p("mt.compared");
        if (!r.hits.empty()) R.p("mt.compared_with_faults");
        if (!cmp(x.xs, y.xs, "the states") || !cmp(x.us, y.us, "the controls") ||
            !cmp(x.dx, y.dx, "the state steps") || !cmp(x.du, y.du, "the control steps") ||
            !cmp(x.lag, y.lag, "the multipliers of the dynamics") ||
            !cmp(x.y, y.y, "the multipliers of the constraints") ||
            !cmp(x.z, y.z, "the slacks") ||
            !cmpd(x.kkt, y.kkt, "the KKT residual") || !cmpd(x.cost, y.cost, "the cost") ||
            !cmpd(x.gap, y.gap, "the gap norm") || !cmpd(x.cons, y.cons, "the violation") ||
            !cmpd(x.step, y.step, "the step length") || !cmpd(x.preg, y.preg, "the regularization") ||
            !cmpd(x.np, y.np, "the primal residual") || !cmpd(x.nd, y.nd, "the dual residual"))
          return;
        // residuals that are exactly zero in one run and a rounding error in another stop the QP at
        // another of its checks, with the same solution
        if (bits(x.qp_iters) != bits(y.qp_iters)) {
          if (std::max({x.np, y.np, x.nd, y.nd}) > 1e-9 &&
              !cmpd(x.qp_iters, y.qp_iters, "the number of inner iterations"))
            return;
          R.p("mt.close_iterations");
          cut = true;
          break;
        }
        // decisions on steps of rounding size are up to rounding
        if (max_abs(x.dx) < 1e-7 && max_abs(x.du) < 1e-7 && sqp_type(r)) {
          cut = true;
          break;
        }
        // so are acceptances that compare equal numbers
        if (sqp_type(r) && line_search_ran(r, k) && !tainted(s, r, k) &&
            dims_ok(r, next_xs(r, k), next_us(r, k))) {
          LsOut lo;
          Report dummy;
          line_search(P, s, r, k, dummy, false, &lo);
          if (!lo.sure) {
            R.p("mt.close_acceptance");
            cut = true;
            break;
          }
        }
      }
      if (cut) {
        R.p("mt.cut");
        return;
      }
      for (auto n : ns)
        if (n->ret != r.ret || n->threw != r.threw || n->it.size() != r.it.size() ||
            decision(r.fin.step, n->fin.step) || decision(r.fin.preg, n->fin.preg)) {
          R.p("mt.cut");
          return;
        }
      R.p("mt.verdicts");
      if (t->ret != r.ret || t->threw != r.threw || t->what != r.what || t->msg != r.msg ||
          t->it.size() != r.it.size()) {
        R.v(P + ".verdict", where(r) + ": with threads, the solve returns " +
                                (t->threw ? "an exception (" + t->what + " " + t->msg + ")"
                                          : t->ret ? "true" : "false") +
                                " after " + std::to_string(t->it.size()) + " iterations instead of " +
                                (r.threw ? "an exception (" + r.what + " " + r.msg + ")"
                                         : r.ret ? "true" : "false") +
                                " after " + std::to_string(r.it.size()));
        return;
      }
      double d = std::max(max_abs_diff(r.fin.xs, t->fin.xs) / (1 + max_abs(r.fin.xs)),
                          max_abs_diff(r.fin.us, t->fin.us) / (1 + max_abs(r.fin.us)));
      double e = 0;
      for (auto n : ns)
        e = std::max({e, max_abs_diff(r.fin.xs, n->fin.xs), max_abs_diff(r.fin.us, n->fin.us)});
      if (e < 1e-6 && d > 1e-8 + 1e3 * std::max(e, sp)) {
        R.v(P + ".differs", where(r) + ": with threads, the result differs by " + num(d));
        return;
      }
    }
  }
}

// ------------------------------------------------------------ C14
void prop_observers(const str& P, const Plan& plan, Report& R) {
  Options o;
  o.strip_observers = true;
  o.recorders = 0;
  Record base = go(plan, o, R);
  bool throwing = false;
  for (auto l : plan.all("fault"))
    if (l->str("at") == "cb") throwing = true;
  std::vector<int> masks;
  for (auto l : plan.all("obs")) masks.push_back(static_cast<int>(l->integer("mask")));
  masks.push_back(31);
  Plan clean;
  for (auto& l : plan.lines)
    if (!(l.verb == "fault" && l.str("at") == "cb") && l.verb != "obs") clean.lines.push_back(l);
  std::set<int> done;
  for (int m : masks) {
    if (!done.insert(m).second) continue;
    Options q;
    q.observers = m;
    q.recorders = 1;
    Record w = go(clean, q, R);
    for (auto& r : base.solves) {
      const SolveRec* s = find(w, r.op, r.nested);
      str why;
      if (!s) {
        R.v(P + ".missing", where(r) + ": the observed run lost a solve");
        continue;
      }
      R.p("obs.compared");
      if (diff_solve(r, *s, false, false, why))
        R.v(P + ".changed", where(r) + ": observing with mask " + std::to_string(m) + " changes " + why);
    }
  }
  if (!throwing) return;
  Options q;
  q.recorders = 2;
  Record w = go(plan, q, R);
  for (auto& r : w.solves) {
    bool t = false, ti = false;
    for (auto& h : r.hits) {
      if (h.at == "cb" && h.kind == "throw") t = true;
      if (h.at == "cb" && h.kind == "throw_int") ti = true;
    }
    if (t || ti) {
      R.p("obs.callback_threw");
      if (!r.threw || (ti && r.what != "int") ||
          (t && !ti && r.msg != "injected callback failure"))
        R.v(P + ".swallowed", where(r) + ": the exception of a callback did not reach the caller");
      if (!r.it.empty() && (!same_traj(r.fin.xs, r.it.back().xs) ||
                            !same_traj(r.fin.us, r.it.back().us)) && r.kind != "ddp" && r.kind != "fddp")
        R.v(P + ".moved", where(r) + ": the trajectory changed after a callback threw");
    }
  }
  fresh_equal(P, plan, w, q, R);
}

// ------------------------------------------------------------ C15
void prop_bits(const str& P, const Plan& plan, Report& R) {
  Options o;
  Record base = go(plan, o, R);
  auto variant = [&](const char* name, int fill, uint64_t seed, uint64_t mono, uint64_t wall,
                     uint64_t cpu) {
    Plan q = plan;
    Line* e = nullptr;
    for (auto& l : q.lines)
      if (l.verb == "env") e = &l;
    if (!e) e = &q.add("env");
    if (fill >= 0) e->seti("fill", fill);
    if (seed) e->setu("seed", seed);
    if (mono) e->setu("mono0", mono);
    if (wall) e->setu("wall0", wall);
    if (cpu) e->setu("cpu", cpu);
    Record w = go(q, o, R);
    if (w.solves.size() != base.solves.size()) {
      R.v(P + ".solves", str(name) + ": a different number of solves");
      return;
    }
    for (size_t i = 0; i < base.solves.size(); ++i) {
      str why;
      R.p("bits.compared");
      if (diff_solve(base.solves[i], w.solves[i], true, false, why)) {
        R.v(P + ".differs", where(base.solves[i]) + ": with " + name + ", the result differs in " + why);
        return;
      }
    }
    if (w.text != base.text)
      R.v(P + ".text", str("with ") + name + ", what the solvers print differs");
  };
  variant("memory filled with NaN", 1, 0, 0, 0, 0);
  variant("memory filled with zeros", 0, 0, 0, 0, 0);
  variant("memory filled with large numbers", 3, 0, 0, 0, 0);
  variant("memory filled with other numbers", 2, 0xABCDEF, 0, 0, 0);
  variant("other clocks", -1, 0, 77777777777ull, 946684800000000000ull, 90000);
  variant("a second run in the process", -1, 0, 0, 0, 0);
}

// ------------------------------------------------------------ C13
void prop_memory(const str& P, const Plan& plan, Report& R) {
  Options o;
  Record a = go(plan, o, R);
  protocol(P, a, R);
  for (auto& r : a.solves) {
    if (!r.alloc_faults) continue;
    R.p("mem.faulted_solve");
    if (r.threw && r.what == "int") R.v(P + ".exception", where(r) + ": unexpected exception");
    if (r.threw && r.what == "bad_alloc") R.p("mem.bad_alloc");
    if (!r.threw) R.p("mem.absorbed");
  }
  if (a.ctor_faults) R.p("mem.faulted_construction");
  mon_trajectory(P, a, R);
  // as before afterwards
  fresh_equal(P, plan, a, o, R);
  healthy_after(P, a, R);
  // What every run leaves behind is a leak. A few runs may leave something
  // once: a function-local static is built by the first run that gets there,
  // and a failing allocation can put that off.
  // So can a solve without iterations: crocoddyl's stopwatches have not met the
  // names they are to keep when memory fails, and lose them each time.
  Plan warm = plan;
  bool idle = false;
  for (auto& l : warm.lines)
    if (l.verb == "op" && l.has("maxiter") && l.integer("maxiter") == 0)
      l.seti("maxiter", 2), idle = true;
  if (idle) {
    Options w = o;
    w.no_alloc_faults = true;
    go(warm, w, R);
  }
  Record c = go(plan, o, R);
  for (int i = 0; i < 16 && c.live_blocks != 0; ++i) c = go(plan, o, R);
  if (c.live_blocks != 0)
    R.v(P + ".leak", std::to_string(c.live_blocks) + " blocks, " + std::to_string(c.live_bytes) +
                         " bytes are left over after everything was destroyed");
}
}  // namespace

void check_prop(const std::string& prop, const Plan& plan, Report& R) {
  Options o;
  if (prop == "C21") return prop_resume(prop, plan, R);
  if (prop == "C02") return prop_budget(prop, plan, R);
  if (prop == "C03") return prop_threads(prop, plan, R);
  if (prop == "C12") return prop_independent(prop, plan, R);
  if (prop == "C13") return prop_memory(prop, plan, R);
  if (prop == "C14") return prop_observers(prop, plan, R);
  if (prop == "C15") return prop_bits(prop, plan, R);
  if (prop == "C11") o.recorders = 3;
  Record rec = go(plan, o, R);
  protocol(prop, rec, R);
  if (prop == "C01") mon_kkt(prop, rec, R);
  if (prop == "C04" || prop == "C05") mon_line_search(prop, rec, R);
  if (prop == "C04") mon_rollouts(prop, rec, false, R);
  if (prop == "C17") mon_rollouts(prop, rec, true, R);
  if (prop == "C19") {
    fresh_equal(prop, plan, rec, o, R);
    R.p("set.checked", rec.settings_checked);
  }
  if (prop == "C18") mon_direction(prop, rec, R);
  if (prop == "C06") mon_qp(prop, rec, R);
  if (prop == "C07" || prop == "C08") {
    fresh_equal(prop, plan, rec, o, R);
    healthy_after(prop, rec, R);
    if (prop == "C08") mon_trajectory(prop, rec, R);
  }
  if (prop == "C09") mon_work(prop, rec, R);
  if (prop == "C10") mon_trajectory(prop, rec, R);
  if (prop == "C20") mon_contract(prop, rec, R);
  if (prop == "C11") mon_callbacks(prop, rec, R);
  if (prop == "C16") mon_reg(prop, rec, R);
}
}  // namespace sim
