// The thread runtime of the multithreaded build: OpenMP teams (and solves
// running at the same time) become coroutines of one OS thread. A seeded
// scheduler decides every switch; memory accesses, as reported by the
// compiler's -fsanitize=thread instrumentation, are the switch points, and are
// checked for data races with vector clocks.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sched {
struct Config {
  uint64_t seed = 1;
  int mode = 0;       // 0 random switches, 1 priorities with change points, 2 only at blocking points
  uint32_t inv = 64;  // mode 0: one switch in so many accesses
  int cap = 0;        // > 0: teams get at most so many threads
};
struct Stats {
  uint64_t regions = 0, threads = 0, switches = 0, accesses = 0, races = 0, overflow = 0;
  uint64_t sig = 0;  // of the interleaving
};
extern Stats stats;
extern std::vector<std::string> races;
void begin(const Config& c);
void end();
bool in_worker();  // inside a team of more than one
bool concurrent();
int slot();        // of the concurrent solve that runs now
// A region opened by crocoddyl itself, where an exception ends the process.
bool foreign_region();
// Called when a region with more than one thread begins and ends.
void set_region_hook(void (*f)(bool));
void access(const void* p, size_t n, bool write);
void point();  // a switch point that is no memory access
// Runs functions as simulated threads. swap(from, to) exchanges whatever
// belongs to the one that runs.
void run_concurrent(const std::vector<std::function<void()>>& fs,
                    const std::function<void(int, int)>& swap);
}  // namespace sched
