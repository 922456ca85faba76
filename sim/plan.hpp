// A plan is the complete, replayable description of one simulated execution:
// problems, solvers, operations, faults, scheduler seed and memory/clock
// environment, one per line, so that it can be minimised line by line.
#pragma once
#include <string>
#include <utility>
#include <vector>

#include "rt.hpp"

namespace sim {
struct Line {
  std::string verb;
  std::vector<std::pair<std::string, std::string>> kv;
  bool has(const std::string& k) const;
  std::string str(const std::string& k, const std::string& d = "") const;
  double num(const std::string& k, double d = 0) const;
  long integer(const std::string& k, long d = 0) const;
  uint64_t u64(const std::string& k, uint64_t d = 0) const;
  Line& set(const std::string& k, const std::string& v);
  Line& set(const std::string& k, double v);
  Line& seti(const std::string& k, long v);
  Line& setu(const std::string& k, uint64_t v);
  std::string text() const;
};
struct Plan {
  std::vector<Line> lines;
  Line& add(const std::string& verb) {
    lines.push_back(Line{verb, {}});
    return lines.back();
  }
  std::vector<const Line*> all(const std::string& verb) const;
  const Line* first(const std::string& verb) const;
  std::string text() const;
};
Plan parse_plan(const std::string& text);
Plan gen_plan(const std::string& prop, uint64_t seed, bool deep);
rt::Env plan_env(const Plan& p);
}  // namespace sim
