// Runtime seams of the simulator: virtual clock, heap, step budget, PRNG,
// trace hash, fatal-event reporting.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>

namespace rt {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + static_cast<int>(below(b - a + 1)); }
  double uni() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
  double real(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull);
  r.next();
  return r.next();
}

struct Hash {
  uint64_t h = 0xcbf29ce484222325ull;
  void u64(uint64_t v) {
    h ^= v;
    h *= 0x100000001b3ull;
    h ^= h >> 29;
  }
  void dbl(double d) {
    uint64_t v;
    if (d != d) {
      v = 0x7ff8000000000000ull;  // every NaN counts as one value
    } else {
      if (d == 0.0) d = 0.0;
      std::memcpy(&v, &d, 8);
    }
    u64(v);
  }
  void str(const std::string& s) {
    for (unsigned char c : s) u64(c);
  }
};

struct Env {
  int fill = 2;             // heap fill mode
  uint64_t fill_seed = 1;
  uint64_t cpu_ps = 20000;  // virtual picoseconds per basic block
  uint64_t read_ns = 50;    // virtual cost of a clock reading
  uint64_t mono0_ns = 1000000000ull;
  int64_t wall0_ns = 1700000000000000000ll;
  uint64_t bb_limit = 400000000ull;  // step budget of a run
};

// All mutable runtime state of a run.
struct State {
  bool active = false;
  int api = 0;      // >0 while inside a solver call
  int harness = 0;  // >0 while harness code runs (exempt from everything)
  Env env;
  uint64_t bb = 0;        // basic blocks of solver code executed
  uint64_t bb_stop = ~0ull;
  uint64_t bb_alarm = ~0ull;       // next basic block count that needs attention
  uint64_t deadline_ns = ~0ull;    // moment to note, see dl_*
  bool dl_hit = false;
  uint64_t dl_bb = 0;              // basic blocks executed when it passed
  uint64_t extra_ns = 0;  // stalls and model evaluation time
  int64_t wall_off = 0;
  uint64_t clock_reads = 0;  // in the current op
  uint64_t wall_reads = 0, mono_reads = 0;
  uint64_t allocs = 0;  // tracked allocations in the current op
  uint64_t live_blocks = 0, live_bytes = 0;
  uint64_t fail_from = 0, fail_to = 0;  // allocation ordinals that fail
  uint64_t alloc_faults = 0;
  Hash trace;
};
extern State S;

uint64_t now_ns();  // virtual monotonic time
void advance_ns(uint64_t d);
void set_deadline(uint64_t ns);  // ~0: none
void begin_run(const Env& e);
void end_run();
void op_reset();  // per-op counters
// called on every virtual clock reading with its ordinal in the op
extern void (*clock_hook)(uint64_t ordinal, bool wall);
bool check_heap(std::string& why);  // walks live tracked blocks
void stack_junk(int mode, uint64_t seed);
void cov_reset();
uint64_t cov_signature();
unsigned cov_edges();

// Reporting. out() appends to the result stream of the run.
extern int result_fd;
void out(const std::string& line);
[[noreturn]] void fatal(const char* kind, const std::string& msg);
void install_handlers();
double real_seconds();
extern void (*fatal_hook)();  // flush of probes before dying

struct Api {
  Api() { ++S.api; }
  ~Api() { --S.api; }
};
struct Harness {
  Harness() { ++S.harness; }
  ~Harness() { --S.harness; }
};

inline void trace(uint64_t tag, uint64_t a = 0, uint64_t b = 0) {
  S.trace.u64(tag);
  S.trace.u64(a);
  S.trace.u64(b);
}

}  // namespace rt
