// Monitors: what each property demands of recorded executions.
#pragma once
#include "exec.hpp"
#include "ref.hpp"

namespace sim {
struct Report {
  std::vector<std::pair<std::string, std::string>> viol;  // class, text
  std::map<std::string, uint64_t> probe, fired;
  rt::Hash hash;
  std::vector<uint64_t> inter;  // interleavings met
  uint64_t sim_ns = 0, runs = 0, solves = 0, evals = 0;
  void v(const std::string& cls, const std::string& msg) {
    if (viol.size() < 20) viol.emplace_back(cls, msg);
  }
  void p(const std::string& n, uint64_t k = 1) { probe[n] += k; }
};
// Runs the plan in every variant the property needs and judges the records.
void check_prop(const std::string& prop, const Plan& plan, Report& R);
}  // namespace sim
