#include "plan.hpp"

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <sstream>

namespace sim {
bool Line::has(const std::string& k) const {
  for (auto& p : kv)
    if (p.first == k) return true;
  return false;
}
std::string Line::str(const std::string& k, const std::string& d) const {
  for (auto& p : kv)
    if (p.first == k) return p.second;
  return d;
}
double Line::num(const std::string& k, double d) const {
  return has(k) ? std::strtod(str(k).c_str(), nullptr) : d;
}
long Line::integer(const std::string& k, long d) const {
  return has(k) ? std::strtol(str(k).c_str(), nullptr, 10) : d;
}
uint64_t Line::u64(const std::string& k, uint64_t d) const {
  return has(k) ? std::strtoull(str(k).c_str(), nullptr, 10) : d;
}
Line& Line::set(const std::string& k, const std::string& v) {
  for (auto& p : kv)
    if (p.first == k) {
      p.second = v;
      return *this;
    }
  kv.emplace_back(k, v);
  return *this;
}
Line& Line::set(const std::string& k, double v) {
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", v);
  double s = std::strtod(b, nullptr);
  for (int p = 1; p < 17; ++p) {  // shortest exact form
    char c[40];
    std::snprintf(c, sizeof c, "%.*g", p, v);
    if (std::strtod(c, nullptr) == s || (s != s)) {
      std::snprintf(b, sizeof b, "%s", c);
      break;
    }
  }
  return set(k, std::string(b));
}
Line& Line::seti(const std::string& k, long v) { return set(k, std::to_string(v)); }
Line& Line::setu(const std::string& k, uint64_t v) { return set(k, std::to_string(v)); }
std::string Line::text() const {
  std::string s = verb;
  for (auto& p : kv) s += " " + p.first + "=" + p.second;
  return s;
}
std::vector<const Line*> Plan::all(const std::string& verb) const {
  std::vector<const Line*> r;
  for (auto& l : lines)
    if (l.verb == verb) r.push_back(&l);
  return r;
}
const Line* Plan::first(const std::string& verb) const {
  for (auto& l : lines)
    if (l.verb == verb) return &l;
  return nullptr;
}
std::string Plan::text() const {
  std::string s;
  for (auto& l : lines) s += l.text() + "\n";
  return s;
}
Plan parse_plan(const std::string& text) {
  Plan p;
  std::istringstream is(text);
  std::string line;
  while (std::getline(is, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ls(line);
    Line l;
    ls >> l.verb;
    std::string w;
    while (ls >> w) {
      auto e = w.find('=');
      if (e == std::string::npos)
        l.kv.emplace_back(w, "1");
      else
        l.kv.emplace_back(w.substr(0, e), w.substr(e + 1));
    }
    if (!l.verb.empty()) p.lines.push_back(l);
  }
  return p;
}
rt::Env plan_env(const Plan& p) {
  rt::Env e;
  if (const Line* l = p.first("env")) {
    e.fill = static_cast<int>(l->integer("fill", 2));
    e.fill_seed = l->u64("seed", 1);
    e.cpu_ps = l->u64("cpu", 20000);
    e.read_ns = l->u64("read", 50);
    e.mono0_ns = l->u64("mono0", 1000000000ull);
    e.wall0_ns = static_cast<int64_t>(l->u64("wall0", 1700000000000000000ull));
    e.bb_limit = l->u64("steps", 400000000ull);
  }
  return e;
}
}  // namespace sim
