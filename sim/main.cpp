// Command line of the simulator.
//   sim gen   --prop P --seed S [--deep]          print the plan of a seed
//   sim run   --prop P --plan FILE                execute one plan, report on stdout
//   sim batch --prop P --seed S --from A --count N --stride K --time SEC [--deep]
//             one forked process per run; a summary line per run on stdout
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <locale>
#include <sstream>

#include "mon.hpp"

using sim::Plan;
using sim::Report;

static Report* g_report = nullptr;
static std::string g_prop;

static std::string clean(std::string s) {
  for (char& c : s)
    if (c == '\n' || c == '\t') c = ' ';
  return s;
}
static std::string hex(uint64_t v) {
  char b[20];
  snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(v));
  return b;
}
// Emits what is known of the run; also called when it dies half way.
static void flush_report() {
  if (!g_report) return;
  Report& R = *g_report;
  std::string o;
  for (auto& v : R.viol) o += "V\t" + v.first + "\t" + clean(v.second) + "\n";
  for (auto& f : R.fired) o += "F\t" + f.first + "\t" + std::to_string(f.second) + "\n";
  for (auto& f : R.probe) o += "P\t" + f.first + "\t" + std::to_string(f.second) + "\n";
  o += "H\t" + hex(R.hash.h) + "\n";
  o += "S\t" + hex(rt::cov_signature()) + "\t" + std::to_string(rt::cov_edges()) + "\n";
  for (auto i : R.inter) o += "I\t" + hex(i) + "\n";
  o += "T\t" + std::to_string(R.sim_ns) + "\t" + std::to_string(R.runs) + "\t" +
       std::to_string(R.solves) + "\t" + std::to_string(R.evals);
  rt::out(o);
}
static void one(const std::string& prop, const Plan& plan, int cpu_s) {
  struct itimerval tv = {{0, 0}, {cpu_s, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
  rt::cov_reset();
  Report R;
  g_report = &R;
  rt::fatal_hook = flush_report;
  sim::check_prop(prop, plan, R);
  flush_report();
  rt::out("END");
}

int main(int argc, char** argv) {
  // one address layout for every process
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    if (personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  // fill the caches of the character facets, which would otherwise make the
  // first run of a process take other branches than later ones
  std::use_facet<std::ctype<char>>(std::locale()).widen('\n');
  std::use_facet<std::ctype<char>>(std::locale()).narrow('a', 'b');
  {
    std::ostringstream o;
    o << 1.5 << std::endl << 3;
    std::istringstream is("1.5 abc");
    double d;
    is >> d;
  }
  std::string mode = argc > 1 ? argv[1] : "", prop = "C01", planf;
  uint64_t seed = 1, from = 0, count = 10, stride = 1;
  double tlimit = 1e9;
  int cpu = 60;
  bool deep = false;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") prop = val();
    else if (a == "--plan") planf = val();
    else if (a == "--seed") seed = std::stoull(val());
    else if (a == "--from") from = std::stoull(val());
    else if (a == "--count") count = std::stoull(val());
    else if (a == "--stride") stride = std::stoull(val());
    else if (a == "--time") tlimit = std::stod(val());
    else if (a == "--cpu") cpu = std::stoi(val());
    else if (a == "--deep") deep = true;
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  if (mode == "gen") {
    std::string t = sim::gen_plan(prop, seed, deep).text();
    fputs(t.c_str(), stdout);
    return 0;
  }
  if (mode == "run") {
    std::ifstream f(planf);
    if (!f) {
      fprintf(stderr, "cannot read %s\n", planf.c_str());
      return 2;
    }
    std::stringstream ss;
    ss << f.rdbuf();
    rt::install_handlers();
    one(prop, sim::parse_plan(ss.str()), cpu);
    return 0;
  }
  if (mode != "batch") {
    fprintf(stderr, "usage: sim gen|run|batch ...\n");
    return 2;
  }
  const double t0 = rt::real_seconds();
  for (uint64_t i = 0; i < count; ++i) {
    if (rt::real_seconds() - t0 > tlimit) break;
    const uint64_t s = rt::mix(seed, from + i * stride) >> 1;
    int fd[2];
    if (pipe(fd)) return 3;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) return 3;
    if (pid == 0) {
      close(fd[0]);
      rt::result_fd = fd[1];
      rt::install_handlers();
      one(prop, sim::gen_plan(prop, s, deep), cpu);
      _exit(0);
    }
    close(fd[1]);
    std::string buf;
    char tmp[65536];
    ssize_t n;
    while ((n = read(fd[0], tmp, sizeof tmp)) > 0) buf.append(tmp, static_cast<size_t>(n));
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    printf("RUN\t%llu\n%s", static_cast<unsigned long long>(s), buf.c_str());
    if (buf.find("END\n") == std::string::npos && buf.find("FATAL ") == std::string::npos)
      printf("LOST\t%d\n", st);
  }
  printf("DONE\n");
  return 0;
}
