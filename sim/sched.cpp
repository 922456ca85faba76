#include "sched.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>

#include <algorithm>
#include <crocoddyl/core/utils/stop-watch.hpp>
#include <exception>
#include <iostream>
#include <set>

#include "rt.hpp"

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept;
}  // namespace __cxxabiv1

// Saves the callee-saved registers on the stack and changes stacks.
extern "C" void sim_switch(void** save, void* load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
.globl sim_entry
.type sim_entry,@function
sim_entry:
  .cfi_startproc
  .cfi_undefined rip
  call sim_tramp
  ud2
  .cfi_endproc
.size sim_entry,.-sim_entry
)");
extern "C" void sim_entry();

namespace sched {
Stats stats;
std::vector<std::string> races;

extern "C" void crocoddyl_profiler_registry() {}
namespace {
const int MAXT = 9;  // the opener of the region and its team
const size_t STACK = 1024 * 1024;

struct Clock {
  uint32_t c[MAXT] = {0};
  void join(const Clock& o) {
    for (int i = 0; i < MAXT; ++i) c[i] = std::max(c[i], o.c[i]);
  }
};
struct Loop {
  bool open = false, ull = false, up = true;
  long next = 0, end = 0, incr = 1, chunk = 1;
  unsigned long unext = 0, uend = 0, uincr = 1, uchunk = 1;
  bool guided = false;
};
struct Team;
struct Co {
  void* sp = nullptr;
  char* stack = nullptr;
  int id = 0;  // index in the race detector
  int num = 0;
  Team* team = nullptr;
  bool done = false;
  const void* wait = nullptr;  // what it is blocked on
  uint64_t prio = 0;
  size_t loop_no = 0, single_no = 0;
  int solo = 0;  // depth of nested teams of one
  int foreign = 0;  // of them, crocoddyl's
  std::function<void()> body;
  char eh[16] = {0};
};
struct Team {
  std::vector<Co> co;
  bool foreign = false;
  int arrived = 0, epoch = 0;
  std::vector<Loop> loops;
  size_t singles = 0;
};

Config cfg;
rt::Rng rng(1);
bool on = false;
Team* team = nullptr;  // the one that runs; teams do not nest (inner ones have one thread)
Co* cur = nullptr;
void* main_sp = nullptr;
char main_eh[16];
bool conc = false;
const std::function<void(int, int)>* swapper = nullptr;
uint32_t left = 0;  // accesses until the next switch
std::vector<uint64_t> change;
uint64_t count = 0;
int foreign_depth = 0;  // inside a region of crocoddyl, whatever its team
void (*g_region)(bool) = nullptr;

Clock vc[MAXT];
std::map<const void*, Clock> sync_vc;
std::map<const void*, int> locks;  // held by

std::vector<char*> stacks;

char* get_stack() {
  if (!stacks.empty()) {
    char* s = stacks.back();
    stacks.pop_back();
    return s;
  }
  char* s = static_cast<char*>(mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE,
                                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  mprotect(s, 4096, PROT_NONE);
  return s + 4096;
}

// ------------------------------------------------------------ shadow memory
struct Cell {
  uint64_t key;
  uint32_t gen;
  uint32_t wclk[MAXT], rclk[MAXT];
  uint8_t wmask[MAXT], rmask[MAXT];
  void *wpc, *rpc;
};
const size_t CELLS = 1 << 18;
Cell* cells = nullptr;
uint32_t gen = 0;
size_t used = 0;

Cell* cell(uint64_t key, bool make) {
  size_t h = (key * 0x9E3779B97F4A7C15ull) >> 46;
  for (size_t i = 0; i < 64; ++i) {
    Cell& c = cells[(h + i) & (CELLS - 1)];
    if (c.gen == gen && c.key == key) return &c;
    if (c.gen != gen) {
      if (!make) return nullptr;
      if (used > CELLS / 2) break;
      ++used;
      memset(&c, 0, sizeof c);
      c.key = key;
      c.gen = gen;
      return &c;
    }
  }
  ++stats.overflow;
  return nullptr;
}
// The function at pc, by the symbol table of the program, which knows the
// outlined bodies of parallel regions too.
std::string raw_symbol(void* pc) {
  static std::vector<std::pair<uint64_t, std::string>> tab;
  static uint64_t base = 0;
  if (tab.empty()) {
    tab.emplace_back(0, "");
    FILE* f = fopen("/proc/self/exe", "rb");
    if (!f) return "";
    ElfW(Ehdr) eh;
    if (fread(&eh, sizeof eh, 1, f) == 1) {
      std::vector<ElfW(Shdr)> sh(eh.e_shnum);
      if (!fseek(f, static_cast<long>(eh.e_shoff), SEEK_SET) &&
          fread(sh.data(), sizeof sh[0], sh.size(), f) == sh.size())
        for (auto& h : sh) {
          if (h.sh_type != SHT_SYMTAB) continue;
          std::vector<ElfW(Sym)> sy(h.sh_size / sizeof(ElfW(Sym)));
          std::vector<char> str(sh[h.sh_link].sh_size + 1);
          if (fseek(f, static_cast<long>(h.sh_offset), SEEK_SET) ||
              fread(sy.data(), sizeof sy[0], sy.size(), f) != sy.size() ||
              fseek(f, static_cast<long>(sh[h.sh_link].sh_offset), SEEK_SET) ||
              fread(str.data(), 1, str.size() - 1, f) != str.size() - 1)
            continue;
          for (auto& x : sy)
            if ((x.st_info & 15) == STT_FUNC && x.st_value)
              tab.emplace_back(x.st_value, str.data() + x.st_name);
        }
      std::sort(tab.begin(), tab.end());
      Dl_info di;
      if (eh.e_type == ET_DYN && dladdr(reinterpret_cast<void*>(&raw_symbol), &di))
        base = reinterpret_cast<uint64_t>(di.dli_fbase);
    }
    fclose(f);
  }
  uint64_t a = reinterpret_cast<uint64_t>(pc) - base;
  auto i = std::upper_bound(tab.begin(), tab.end(), std::make_pair(a, std::string("\x7f")));
  return i == tab.begin() ? "" : (--i)->second;
}
std::string symbol(void* pc) {
  std::string n = raw_symbol(pc);
  // an outlined body is named after its function
  size_t dot = n.find('.');
  if (dot != std::string::npos) n = n.substr(0, dot);
  int st = 0;
  char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
  std::string s = st == 0 && d ? d : n.empty() ? "?" : n;
  free(d);
  // without arguments, to keep it short
  size_t p = s.find("mim_solvers::");
  if (p != std::string::npos) {
    size_t q = s.find('(', p);
    s = s.substr(p, q == std::string::npos ? q : q - p);
  } else if (s.size() > 60) {
    s = s.substr(0, 60);
  }
  return s;
}
void report(void* pc, bool write, void* opc, bool owrite) {
  ++stats.races;
  static std::set<std::pair<void*, void*>> seen;
  if (races.empty()) seen.clear();
  if (races.size() >= 12 || !seen.insert({pc, opc}).second) return;
  rt::Harness h;
  void* reg = reinterpret_cast<void*>(&crocoddyl_profiler_registry);
  if (pc == reg || opc == reg) {
    std::string t = "two solves use the registry of crocoddyl's profiler (Stopwatch::watcher) at once";
    if (std::find(races.begin(), races.end(), t) == races.end()) races.push_back(t);
    return;
  }
  std::string here = symbol(pc);
  // inside a helper, the solver's function that called it says more: it is
  // found on the stack of the coroutine
  if (here.find("mim_solvers::Solver") == std::string::npos && cur) {
    void** sp = static_cast<void**>(__builtin_frame_address(0));
    void** top = reinterpret_cast<void**>(cur->stack + STACK);
    for (; sp >= reinterpret_cast<void**>(cur->stack) && sp < top; ++sp) {
      std::string s = symbol(*sp);
      if (s.find("mim_solvers::Solver") != std::string::npos) {
        here = s;
        break;
      }
    }
  }
  races.push_back(std::string(write ? "write" : "read") + " in " + here + " and " +
                  (owrite ? "write" : "read") + " in " + symbol(opc) +
                  " of another thread are not ordered");
}

// `opc` of a cell is the last access of that kind, good enough for a message.
void check(uint64_t a, size_t n, bool write, void* pc) {
  const int me = cur->id;
  const Clock& v = vc[me];
  while (n) {
    const size_t o = a & 7, k = std::min<size_t>(n, 8 - o);
    const uint8_t mask = static_cast<uint8_t>(((1u << k) - 1) << o);
    if (Cell* c = cell(a >> 3, true)) {
      for (int i = 0; i < MAXT; ++i) {
        if (i == me) continue;
        if ((c->wmask[i] & mask) && c->wclk[i] > v.c[i]) {
          report(pc, write, c->wpc, true);
          c->wmask[i] = 0;
        }
        if (write && (c->rmask[i] & mask) && c->rclk[i] > v.c[i]) {
          report(pc, write, c->rpc, false);
          c->rmask[i] = 0;
        }
      }
      uint32_t now = v.c[me];
      if (write) {
        if (c->wclk[me] != now) c->wmask[me] = 0;
        c->wclk[me] = now;
        c->wmask[me] |= mask;
        c->wpc = pc;
      } else {
        if (c->rclk[me] != now) c->rmask[me] = 0;
        c->rclk[me] = now;
        c->rmask[me] |= mask;
        c->rpc = pc;
      }
    }
    a += k;
    n -= k;
  }
}

void acquire(const void* p) {
  auto i = sync_vc.find(p);
  if (i != sync_vc.end()) vc[cur->id].join(i->second);
}
void release(const void* p) {
  sync_vc[p].join(vc[cur->id]);
  ++vc[cur->id].c[cur->id];
}

// ------------------------------------------------------------ scheduling
void refill() {
  if (cfg.mode == 0)
    left = static_cast<uint32_t>(1 + rng.below(2ull * cfg.inv));
  else
    left = 8;
}
Co* choose(bool must_move) {
  Co* best = nullptr;
  int ready = 0;
  for (auto& c : team->co)
    if (!c.done && !c.wait) ++ready;
  if (!ready) rt::fatal("deadlock", "all threads of a team wait for each other");
  if (cfg.mode == 1) {
    for (auto& c : team->co)
      if (!c.done && !c.wait && (!best || c.prio > best->prio)) best = &c;
    return best;
  }
  uint64_t k = rng.below(static_cast<uint64_t>(ready));
  for (auto& c : team->co)
    if (!c.done && !c.wait && k-- == 0) best = &c;
  (void)must_move;
  return best;
}
void go_to(Co* c) {
  if (c == cur) return;
  Co* from = cur;
  ++stats.switches;
  stats.sig = rt::mix(stats.sig, static_cast<uint64_t>(c->num) * 131 + count);
  char* eh = reinterpret_cast<char*>(__cxxabiv1::__cxa_get_globals());
  memcpy(from->eh, eh, 16);
  if (swapper) (*swapper)(from->num, c->num);
  memcpy(eh, c->eh, 16);
  cur = c;
  sim_switch(&from->sp, c->sp);
}
void maybe_switch() {
  if (rt::S.harness) return;
  refill();
  if (cfg.mode == 1) {
    if (!change.empty() && count >= change.back()) {
      change.pop_back();
      cur->prio = rng.below(1000);
    }
  } else if (cfg.mode == 2) {
    return;
  }
  go_to(choose(false));
}
void block(const void* what) {
  cur->wait = what;
  go_to(choose(true));
}
void wake(const void* what) {
  for (auto& c : team->co)
    if (c.wait == what) c.wait = nullptr;
}

void run_team(Team& t) {
  rt::Harness hold;  // until the first coroutine runs
  Team* outer = team;
  team = &t;
  ++stats.regions;
  stats.threads += t.co.size();
  if (++gen == 0) ++gen;
  used = 0;
  for (auto& v : vc) v = Clock();
  for (size_t i = 0; i < t.co.size(); ++i) {
    Co& c = t.co[i];
    c.id = static_cast<int>(i);
    c.num = static_cast<int>(i);
    c.team = &t;
    c.stack = get_stack();
    c.prio = 1000 + rng.below(1000000);
    vc[c.id].c[c.id] = 1;
    char* top = c.stack + STACK;
    void** sp = reinterpret_cast<void**>(reinterpret_cast<uintptr_t>(top) & ~uintptr_t(63));
    *--sp = nullptr;
    *--sp = nullptr;
    *--sp = reinterpret_cast<void*>(&sim_entry);
    for (int k = 0; k < 6; ++k) *--sp = nullptr;
    c.sp = sp;
  }
  change.clear();
  if (cfg.mode == 1) {
    uint64_t len = 3000;
    int d = static_cast<int>(rng.below(4));
    for (int i = 0; i < d; ++i) change.push_back(count + rng.below(len));
    std::sort(change.rbegin(), change.rend());
  }
  char* eh = reinterpret_cast<char*>(__cxxabiv1::__cxa_get_globals());
  memcpy(main_eh, eh, 16);
  memset(eh, 0, 16);
  refill();
  cur = choose(true);
  if (swapper) (*swapper)(-1, cur->num);
  const int hs = rt::S.harness;
  rt::S.harness = hs - 1;
  sim_switch(&main_sp, cur->sp);
  rt::S.harness = hs;
  if (swapper) (*swapper)(cur->num, -1);
  memcpy(eh, main_eh, 16);
  for (auto& c : t.co) stacks.push_back(c.stack);
  team = outer;
  cur = nullptr;
}

typedef void (*Fn)(void*);
// Whether the function that opens the region is crocoddyl's.
bool is_foreign(void* ra) {
  static std::map<void*, bool> seen;
  auto i = seen.find(ra);
  if (i != seen.end()) return i->second;
  std::string n = raw_symbol(ra);
  char* d = abi::__cxa_demangle(n.substr(0, n.find('.')).c_str(), nullptr, nullptr, nullptr);
  const std::string w = d ? std::string(d).substr(0, std::string(d).find('(')) : "";
  free(d);
  const bool f = w.compare(0, 11, "crocoddyl::") == 0;
  seen[ra] = f;
  return f;
}
void open_team(Fn fn, void* data, unsigned n, const Loop* l, void* ra) {
  if (cfg.cap > 0 && n > static_cast<unsigned>(cfg.cap)) n = static_cast<unsigned>(cfg.cap);
  if (n == 0) n = 4;
  if (n > MAXT - 1) n = MAXT - 1;
  bool f;
  {
    rt::Harness h;
    f = is_foreign(ra);
  }
  if (!on || team || n == 1) {
    // a team of one, possibly inside another
    if (l) rt::fatal("harness", "worksharing in a nested team is not simulated");
    struct Depth {
      int &a, &b;
      int f;
      Depth(int& a, int& b, int f) : a(a), b(b), f(f) { ++a, b += f; }
      ~Depth() { --a, b -= f; }
    };
    static int none = 0;
    Depth d(cur ? cur->solo : none, cur ? cur->foreign : foreign_depth, f);
    try {
      fn(data);
    } catch (...) {
      std::terminate();
    }
    return;
  }
  Team t;
  {
    rt::Harness h;
    t.foreign = f;
    t.co.resize(n);
    if (l) t.loops.push_back(*l);
    for (auto& c : t.co) c.body = [fn, data]() { fn(data); };
    if (g_region) g_region(true);
  }
  run_team(t);
  rt::Harness h;
  if (g_region) g_region(false);
  t.co.clear();
  t.loops.clear();
}
}  // namespace

}  // namespace sched
using namespace sched;
extern "C" __attribute__((noreturn, used)) void sim_tramp() noexcept {
  cur->body();  // an exception that leaves it ends the process, as in OpenMP
  Co* me = cur;
  me->done = true;
  bool all = true;
  for (auto& c : team->co) all = all && c.done;
  if (all) {
    void* dummy;
    sim_switch(&dummy, main_sp);
  } else {
    go_to(choose(true));
  }
  abort();
}
namespace sched {

void begin(const Config& c) {
  cfg = c;
  __libc_single_threaded = 0;  // reference counts are atomic then
  rng = rt::Rng(c.seed);
  on = true;
  stats = Stats();
  races.clear();
  sync_vc.clear();
  locks.clear();
  count = 0;
  if (!cells) {
    cells = static_cast<Cell*>(mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE,
                                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
}
void end() { on = false; }
bool in_worker() { return team != nullptr; }
bool concurrent() { return conc && team; }
int slot() { return conc && cur ? cur->num : -1; }
bool foreign_region() { return foreign_depth > 0 || (team && (team->foreign || cur->foreign > 0)); }
void set_region_hook(void (*f)(bool)) { g_region = f; }

static inline void touch(const void* p, size_t n, bool write, void* pc) {
  if (!team || !n || rt::S.harness) return;
  const char* c = static_cast<const char*>(p);
  if (c >= cur->stack && c < cur->stack + STACK) return;  // its own stack
  // what several solves print is mixed up anyway
  for (auto o : {reinterpret_cast<const char*>(&std::cout), reinterpret_cast<const char*>(&std::cerr)})
    if (c >= o && c < o + sizeof std::cout) return;
  ++stats.accesses;
  ++count;
  check(reinterpret_cast<uint64_t>(p), n, write, pc);
  if (--left == 0) maybe_switch();
}
void access(const void* p, size_t n, bool write) {
  // called by the simulated models, which are harness code
  if (!team || !n) return;
  ++stats.accesses;
  check(reinterpret_cast<uint64_t>(p), n, write, __builtin_return_address(0));
}
void point() {
  if (!team || rt::S.harness) return;
  ++count;
  maybe_switch();
}

void run_concurrent(const std::vector<std::function<void()>>& fs,
                    const std::function<void(int, int)>& swap) {
  Team t;
  {
    rt::Harness h;
    t.co.resize(std::min<size_t>(fs.size(), MAXT - 1));
    for (size_t i = 0; i < t.co.size(); ++i) t.co[i].body = fs[i];
  }
  conc = true;
  swapper = &swap;
  run_team(t);
  swapper = nullptr;
  conc = false;
  rt::Harness h;
  t.co.clear();
}
}  // namespace sched

namespace rt {
// freed memory starts a new life
void race_forget(void* p, size_t n) {
  using namespace sched;
  if (!team) return;
  uint64_t a = reinterpret_cast<uint64_t>(p) >> 3, e = (reinterpret_cast<uint64_t>(p) + n + 7) >> 3;
  for (; a < e; ++a)
    if (Cell* c = cell(a, false)) {
      memset(c->wmask, 0, sizeof c->wmask);
      memset(c->rmask, 0, sizeof c->rmask);
    }
}
}  // namespace rt

using namespace sched;

extern "C" {
// ------------------------------------------------------------ OpenMP
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
  open_team(fn, data, n, nullptr, __builtin_return_address(0));
}
int omp_get_thread_num() { return team && !conc && !cur->solo ? cur->num : 0; }
int omp_get_num_threads() {
  return team && !conc && !cur->solo ? static_cast<int>(team->co.size()) : 1;
}
int omp_get_max_threads() { return 4; }
int omp_get_num_procs() { return 4; }
int omp_in_parallel() { return team && !conc && !cur->solo; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_thread_limit() { return 8; }
double omp_get_wtime() { return static_cast<double>(rt::now_ns()) * 1e-9; }

static void lock_it(const void* l) {
  if (!team) return;
  point();
  while (locks.count(l)) block(l);
  rt::Harness h;
  locks[l] = cur->num;
  acquire(l);
}
static void unlock_it(const void* l) {
  if (!team) return;
  {
    rt::Harness h;
    release(l);
    locks.erase(l);
    wake(l);
  }
  point();
}
static char g_crit, g_atom;
void GOMP_critical_start() { lock_it(&g_crit); }
void GOMP_critical_end() { unlock_it(&g_crit); }
void GOMP_critical_name_start(void** p) { lock_it(p); }
void GOMP_critical_name_end(void** p) { unlock_it(p); }
void GOMP_atomic_start() { lock_it(&g_atom); }
void GOMP_atomic_end() { unlock_it(&g_atom); }

static char g_bar;
void GOMP_barrier() {
  if (!team || conc || cur->solo) return;
  {
    rt::Harness h;
    release(&g_bar);
  }
  const int ep = team->epoch;
  if (++team->arrived == static_cast<int>(team->co.size())) {
    team->arrived = 0;
    ++team->epoch;
    wake(&g_bar);
  }
  while (team->epoch == ep) block(&g_bar);
  rt::Harness h;
  acquire(&g_bar);
}
bool GOMP_single_start() {
  if (!team || conc || cur->solo) return true;
  if (cur->single_no++ == team->singles) {
    ++team->singles;
    return true;
  }
  return false;
}
void GOMP_taskwait() {}

// worksharing loops handed out by the runtime
static Loop& my_loop() { return team->loops[cur->loop_no]; }
static bool take(long* s, long* e) {
  Loop& l = my_loop();
  point();
  long n = l.incr > 0 ? (l.end - l.next + l.incr - 1) / l.incr : (l.next - l.end - l.incr - 1) / -l.incr;
  if ((l.incr > 0 && l.next >= l.end) || (l.incr < 0 && l.next <= l.end)) return false;
  long k = l.chunk < 1 ? 1 : l.chunk;
  if (l.guided) k = std::max(k, n / static_cast<long>(2 * team->co.size()));
  k = std::min(k, n);
  *s = l.next;
  l.next += k * l.incr;
  *e = l.next;
  return true;
}
static bool loop_start(long a, long b, long i, long c, bool guided, long* s, long* e) {
  if (!team || conc || cur->solo) {
    rt::fatal("harness", "worksharing outside a team is not simulated");
  }
  if (cur->loop_no == team->loops.size()) {
    rt::Harness h;
    Loop l;
    l.next = a;
    l.end = b;
    l.incr = i;
    l.chunk = c;
    l.guided = guided;
    team->loops.push_back(l);
  }
  return take(s, e);
}
#define SIM_LOOP(kind, gui)                                                                     \
  bool GOMP_loop_##kind##_start(long a, long b, long i, long c, long* s, long* e) {                \
    return loop_start(a, b, i, c, gui, s, e);                                                   \
  }                                                                                                \
  bool GOMP_loop_##kind##_next(long* s, long* e) { return take(s, e); }                            \
  bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long a, unsigned long long b,           \
                                    unsigned long long i, unsigned long long c,                    \
                                    unsigned long long* s, unsigned long long* e) {                \
    (void)up;                                                                                      \
    return loop_start(static_cast<long>(a), static_cast<long>(b), static_cast<long>(i),            \
                      static_cast<long>(c), gui, reinterpret_cast<long*>(s),                    \
                      reinterpret_cast<long*>(e));                                                 \
  }                                                                                                \
  bool GOMP_loop_ull_##kind##_next(unsigned long long* s, unsigned long long* e) {                 \
    return take(reinterpret_cast<long*>(s), reinterpret_cast<long*>(e));                           \
  }                                                                                                \
  void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long a, long b,        \
                                 long i, long c, unsigned) {                                       \
    if (n == 1 || !on || team || (cfg.cap == 1)) {                                                 \
      /* a team of two of which the schedule may starve one */                                     \
      if (team) rt::fatal("harness", "worksharing in a nested team is not simulated");             \
      n = 2;                                                                                       \
    }                                                                                              \
    Loop l;                                                                                        \
    l.next = a;                                                                                    \
    l.end = b;                                                                                     \
    l.incr = i;                                                                                    \
    l.chunk = c;                                                                                   \
    l.guided = gui;                                                                             \
    open_team(fn, data, n, &l, __builtin_return_address(0));                                                                 \
  }
SIM_LOOP(dynamic, false)
SIM_LOOP(guided, true)
SIM_LOOP(nonmonotonic_dynamic, false)
SIM_LOOP(nonmonotonic_guided, true)
SIM_LOOP(runtime, false)
SIM_LOOP(nonmonotonic_runtime, false)
SIM_LOOP(maybe_nonmonotonic_runtime, false)
SIM_LOOP(static, false)
void GOMP_loop_end() {
  ++cur->loop_no;
  GOMP_barrier();
}
void GOMP_loop_end_nowait() { ++cur->loop_no; }

// ------------------------------------------------------------ static guards
int __cxa_guard_acquire(long long* g) {
  char* b = reinterpret_cast<char*>(g);
  for (;;) {
    if (b[0]) {
      if (team && !rt::S.harness) {
        rt::Harness h;
        acquire(g);
      }
      return 0;
    }
    if (!b[1]) break;
    if (!team || rt::S.harness) rt::fatal("harness", "recursive initialization of a static");
    block(g);
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long* g) {
  char* b = reinterpret_cast<char*>(g);
  b[0] = 1;
  b[1] = 0;
  if (team) {
    rt::Harness h;
    release(g);
    wake(g);
  }
}
void __cxa_guard_abort(long long* g) {
  reinterpret_cast<char*>(g)[1] = 0;
  if (team) wake(g);
}

// ------------------------------------------------------------ instrumentation
#define PC __builtin_return_address(0)
#define SIM_RW(n)                                                            \
  void __tsan_read##n(void* p) { touch(p, n, false, PC); }                   \
  void __tsan_write##n(void* p) { touch(p, n, true, PC); }                   \
  void __tsan_unaligned_read##n(void* p) { touch(p, n, false, PC); }         \
  void __tsan_unaligned_write##n(void* p) { touch(p, n, true, PC); }         \
  void __tsan_volatile_read##n(void* p) { touch(p, n, false, PC); }          \
  void __tsan_volatile_write##n(void* p) { touch(p, n, true, PC); }          \
  void __tsan_unaligned_volatile_read##n(void* p) { touch(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* p) { touch(p, n, true, PC); }
SIM_RW(1)
SIM_RW(2)
SIM_RW(4)
SIM_RW(8)
SIM_RW(16)
void __tsan_read_range(void* p, unsigned long n) { touch(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { touch(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { touch(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { touch(p, 8, false, PC); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}

// what the solvers copy and clear
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  touch(s, n, false, PC);
  touch(d, n, true, PC);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  touch(s, n, false, PC);
  touch(d, n, true, PC);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  touch(d, n, true, PC);
  return __real_memset(d, c, n);
}

static inline void atomic_point(const volatile void* p) {
  if (!team || rt::S.harness) return;
  point();
  rt::Harness h;
  const void* q = const_cast<const void*>(p);
  acquire(q);
  release(q);
}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define SIM_ATOMIC(bits, T)                                                                     \
  T __tsan_atomic##bits##_load(const volatile T* a, int) {                                      \
    atomic_point(a);                                                                            \
    return *a;                                                                                  \
  }                                                                                             \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) {                                   \
    atomic_point(a);                                                                            \
    *a = v;                                                                                     \
  }                                                                                             \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) {                                   \
    atomic_point(a);                                                                            \
    T o = *a;                                                                                   \
    *a = v;                                                                                     \
    return o;                                                                                   \
  }                                                                                             \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) {                                  \
    atomic_point(a);                                                                            \
    T o = *a;                                                                                   \
    *a = static_cast<T>(o + v);                                                                 \
    return o;                                                                                   \
  }                                                                                             \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) {                                  \
    atomic_point(a);                                                                            \
    T o = *a;                                                                                   \
    *a = static_cast<T>(o - v);                                                                 \
    return o;                                                                                   \
  }                                                                                             \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) {                                  \
    atomic_point(a);                                                                            \
    T o = *a;                                                                                   \
    *a = o & v;                                                                                 \
    return o;                                                                                   \
  }                                                                                             \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) {                                   \
    atomic_point(a);                                                                            \
    T o = *a;                                                                                   \
    *a = o | v;                                                                                 \
    return o;                                                                                   \
  }                                                                                             \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) {                                  \
    atomic_point(a);                                                                            \
    T o = *a;                                                                                   \
    *a = o ^ v;                                                                                 \
    return o;                                                                                   \
  }                                                                                             \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {       \
    atomic_point(a);                                                                            \
    if (*a == *c) {                                                                             \
      *a = v;                                                                                   \
      return 1;                                                                                 \
    }                                                                                           \
    *c = *a;                                                                                    \
    return 0;                                                                                   \
  }                                                                                             \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int x, int y) {     \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y);                        \
  }                                                                                             \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) {             \
    atomic_point(a);                                                                            \
    T o = *a;                                                                                   \
    if (o == c) *a = v;                                                                         \
    return o;                                                                                   \
  }
SIM_ATOMIC(8, unsigned char)
SIM_ATOMIC(16, unsigned short)
SIM_ATOMIC(32, unsigned int)
SIM_ATOMIC(64, unsigned long)
}

// The profiler keeps its records in one map without a lock: its use is a write
// access to it.
namespace crocoddyl {
namespace {
template <typename F>
F next(const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) rt::fatal("harness", std::string("no ") + name);
  return reinterpret_cast<F>(p);
}
}  // namespace
Stopwatch::Watcher Stopwatch::watcher(const std::string& n) {
  typedef Watcher (*F)(Stopwatch*, const std::string&);
  static F f = next<F>("_ZN9crocoddyl9Stopwatch7watcherERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
  touch(this, 8, !performance_exists(n), reinterpret_cast<void*>(&sched::crocoddyl_profiler_registry));
  return f(this, n);
}
void Stopwatch::start(const std::string& n) {
  typedef void (*F)(Stopwatch*, const std::string&);
  static F f = next<F>("_ZN9crocoddyl9Stopwatch5startERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
  touch(this, 8, true, __builtin_return_address(0));
  f(this, n);
}
void Stopwatch::stop(const std::string& n) {
  typedef void (*F)(Stopwatch*, const std::string&);
  static F f = next<F>("_ZN9crocoddyl9Stopwatch4stopERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
  touch(this, 8, true, __builtin_return_address(0));
  f(this, n);
}
void Stopwatch::Watcher::_start() {
  typedef void (*F)(Watcher*);
  static F f = next<F>("_ZN9crocoddyl9Stopwatch7Watcher6_startEv");
  touch(p, 8, true, __builtin_return_address(0));
  f(this);
}
void Stopwatch::Watcher::_stop() {
  typedef void (*F)(Watcher*);
  static F f = next<F>("_ZN9crocoddyl9Stopwatch7Watcher5_stopEv");
  touch(p, 8, true, __builtin_return_address(0));
  f(this);
}
}  // namespace crocoddyl
