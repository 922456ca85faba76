#include "rt.hpp"

#include <dlfcn.h>
#include <execinfo.h>
#include <cxxabi.h>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <typeinfo>
#ifdef SIM_MT
// not the ones that report accesses of the solvers
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
#define memcpy __real_memcpy
#define memset __real_memset
#endif

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_memalign(size_t, size_t);
extern char __executable_start;
}

namespace rt {
State S;
void (*clock_hook)(uint64_t, bool) = nullptr;
void (*fatal_hook)() = nullptr;
int result_fd = 1;

uint64_t now_ns() {
  return S.env.mono0_ns + S.extra_ns + S.bb * S.env.cpu_ps / 1000;
}

static void update_alarm() {
  S.bb_alarm = S.bb_stop;
  if (S.deadline_ns == ~0ull || S.dl_hit) return;
  uint64_t base = S.env.mono0_ns + S.extra_ns;
  if (now_ns() >= S.deadline_ns) {
    S.dl_hit = true;
    S.dl_bb = S.bb;
    return;
  }
  if (!S.env.cpu_ps) return;
  uint64_t need = ((S.deadline_ns - base) * 1000 + S.env.cpu_ps - 1) / S.env.cpu_ps;
  if (need < S.bb_alarm) S.bb_alarm = need;
}
void advance_ns(uint64_t d) {
  S.extra_ns += d;
  if (S.deadline_ns != ~0ull) update_alarm();
}
void set_deadline(uint64_t ns) {
  S.deadline_ns = ns;
  S.dl_hit = false;
  S.dl_bb = 0;
  update_alarm();
}
static uint8_t cov_map[1 << 15];
static unsigned cov_count = 0;
static uint64_t cov_sig = 0;
static unsigned cov_prev = 0;
void cov_reset() {
  memset(cov_map, 0, sizeof cov_map);
  cov_count = 0;
  cov_sig = 0;
  cov_prev = 0;
}
uint64_t cov_signature() { return cov_sig; }
unsigned cov_edges() { return cov_count; }

void begin_run(const Env& e) {
  S.env = e;
  S.bb = 0;
  S.bb_stop = e.bb_limit;
  S.extra_ns = 0;
  S.deadline_ns = ~0ull;
  S.dl_hit = false;
  update_alarm();
  S.wall_off = e.wall0_ns;
  S.active = true;
  op_reset();
}
void end_run() { S.active = false; }
void op_reset() {
  S.clock_reads = 0;
  S.allocs = 0;
  S.fail_from = S.fail_to = 0;
}

void out(const std::string& line) {
  std::string l = line + "\n";
  const char* p = l.data();
  size_t n = l.size();
  while (n) {
    ssize_t w = syscall(SYS_write, result_fd, p, n);
    if (w <= 0) {
      if (w < 0 && errno == EINTR) continue;
      break;
    }
    p += w;
    n -= static_cast<size_t>(w);
  }
}

static bool dying = false;
void fatal(const char* kind, const std::string& msg) {
  ++S.harness;
  if (!dying) {
    dying = true;
    S.active = false;
    if (fatal_hook) fatal_hook();
    std::string m = msg;
    for (char& c : m)
      if (c == '\n') c = ' ';
    out(std::string("FATAL ") + kind + " " + m);
  }
  _exit(0);
}
void assert_fail(const char* expr, const char* file, int line) {
  const char* b = strrchr(file, '/');
  char buf[600];
  snprintf(buf, sizeof buf, "%s at %s:%d", expr, b ? b + 1 : file, line);
  fatal("assertion", buf);
}

static void on_signal(int sig) {
  if (sig == SIGPROF || sig == SIGXCPU)
    fatal("cpu", "CPU limit of one run");
  char buf[64];
  snprintf(buf, sizeof buf, "signal %d", sig);
  fatal("crash", buf);
}
static void on_terminate() {
  std::string what = "std::terminate";
  if (std::type_info* t = abi::__cxa_current_exception_type())
    what += std::string(" with an exception of type ") + t->name();
  // ProxQP's containers end the process by design when memory runs out
  if (S.alloc_faults) {
    ++S.harness;
    void* fr[64];
    int n = backtrace(fr, 64);
    for (int i = 0; i < n; ++i) {
      Dl_info di;
      if (dladdr(fr[i], &di) && di.dli_sname && strstr(di.dli_sname, "proxsuite"))
        fatal("thirdparty", "proxsuite ended the process when memory ran out");
    }
  }
  fatal("terminate", what);
}
void install_handlers() {
  std::set_terminate(on_terminate);
  static char alt[64 * 1024];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF})
    sigaction(s, &sa, nullptr);
}
double real_seconds() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

static inline uint64_t fill_word(int mode, uint64_t seed, uint64_t i) {
  switch (mode) {
    case 0:
      return 0;
    case 1:
      return ~0ull;  // NaN as a double, -1 as an integer
    case 2: {
      Rng r(seed + i);
      double d = 4.0 * r.uni() - 2.0;
      uint64_t v;
      memcpy(&v, &d, 8);
      return v;
    }
    case 3: {
      double d = -3.7e200;
      uint64_t v;
      memcpy(&v, &d, 8);
      return v;
    }
    default:
      return 0xABABABABABABABABull;
  }
}
static void fill_mem(void* p, size_t n, int mode, uint64_t seed) {
  if (mode == 0) {
    memset(p, 0, n);
    return;
  }
  if (mode == 1) {
    memset(p, 0xff, n);
    return;
  }
  char* c = static_cast<char*>(p);
  size_t w = n / 8;
  for (size_t i = 0; i < w; ++i) {
    uint64_t v = fill_word(mode, seed, i);
    memcpy(c + 8 * i, &v, 8);
  }
  for (size_t i = 8 * w; i < n; ++i) c[i] = static_cast<char>(0x5A);
}
__attribute__((noinline)) void stack_junk(int mode, uint64_t seed) {
  volatile uint64_t buf[6000];
  for (size_t i = 0; i < 6000; ++i) buf[i] = fill_word(mode, seed, i);
  (void)buf[0];
}

// ---------------------------------------------------------------- heap
struct Blk {
  uint64_t magic;
  uint64_t size;
  uint32_t tracked;
  uint32_t off;  // distance from the libc block to the user pointer
  Blk *prev, *next;
  uint64_t canary;
  uint64_t pad[2];
};
static_assert(sizeof(Blk) == 64, "header size");
static const uint64_t MAGIC = 0x51AB10C0DEADBEA7ull, FREED = 0xF4EEDB10C0000001ull,
                      CAN = 0xC5A3C5A3C5A3C5A3ull;
static Blk list_head = {0, 0, 0, 0, &list_head, &list_head, 0, 0};
struct QEnt {
  Blk* b;
};
static const int QN = 256;
static QEnt quar[QN];
static int qpos = 0;
// The block whose freeing was the last thing the heap did. Eigen frees a
// matrix before it allocates the resized one and keeps the stale pointer when
// that throws: the second free of such a block is Eigen's, and let pass.
static Blk* last_freed = nullptr;

static bool tail_ok(Blk* b) {
  uint64_t v;
  char* e = reinterpret_cast<char*>(b + 1) + b->size;
  memcpy(&v, e, 8);
  return v == CAN && b->canary == CAN;
}
static void q_release(Blk* b) {
  if (b->tracked >= 2) return;  // stays for good
  unsigned char* p = reinterpret_cast<unsigned char*>(b + 1);
  size_t n = b->size;
  for (size_t i = 0; i < n; ++i)
    if (p[i] != 0xDB) fatal("heap", "write to freed memory");
  char* base = reinterpret_cast<char*>(b + 1) - b->off;
  b->magic = 0;
  __libc_free(base);
}
bool check_heap(std::string& why) {
  for (Blk* b = list_head.next; b != &list_head; b = b->next) {
    if (b->magic != MAGIC || !tail_ok(b)) {
      why = "heap block overrun (size " + std::to_string(b->size) + ")";
      return false;
    }
  }
  return true;
}

static void* do_alloc(size_t n, size_t align, bool zero) {
  const bool live = S.active && S.harness == 0 && S.api > 0;
  struct Forget {
    ~Forget() { last_freed = nullptr; }
  } forget;
  if (live) {
    ++S.allocs;
    if (S.allocs >= S.fail_from && S.allocs < S.fail_to) {
      ++S.alloc_faults;
      if (last_freed) last_freed->tracked = 2;
      errno = ENOMEM;
      return nullptr;
    }
  }
  if (n > (1ull << 40)) {
    errno = ENOMEM;
    return nullptr;
  }
  size_t a = align < 64 ? 64 : align;
  size_t off = sizeof(Blk) > a ? sizeof(Blk) : a;
  char* base;
  if (align <= 16) {
    off = sizeof(Blk);
    base = static_cast<char*>(__libc_malloc(off + n + 16));
  } else {
    base = static_cast<char*>(__libc_memalign(a, off + n + 16));
  }
  if (!base) {
    errno = ENOMEM;
    return nullptr;
  }
  char* u = base + off;
  Blk* b = reinterpret_cast<Blk*>(u) - 1;
  b->magic = MAGIC;
  b->size = n;
  b->off = static_cast<uint32_t>(off);
  b->canary = CAN;
  b->tracked = live ? 1 : 0;
  memcpy(u + n, &CAN, 8);
  if (live) {
    b->next = &list_head;
    b->prev = list_head.prev;
    list_head.prev->next = b;
    list_head.prev = b;
    ++S.live_blocks;
    S.live_bytes += n;
  }
  if (zero)
    memset(u, 0, n);
  else if (S.active)
    fill_mem(u, n, S.env.fill, S.env.fill_seed + S.allocs * 977);
  return u;
}
#ifdef SIM_MT
void race_forget(void* p, size_t n);
#endif
static void do_free(void* p) {
  if (!p) return;
  Blk* b = reinterpret_cast<Blk*>(p) - 1;
  last_freed = nullptr;
  if (b->magic == FREED && b->tracked == 2) {
    b->tracked = 3;
    last_freed = b;
    return;
  }
  if (b->magic != MAGIC)
    fatal("heap", b->magic == FREED ? "double free" : "free of a bad pointer or overrun header");
  if (!tail_ok(b)) fatal("heap", "heap block overrun (size " + std::to_string(b->size) + ")");
  if (b->tracked) {
    b->prev->next = b->next;
    b->next->prev = b->prev;
    --S.live_blocks;
    S.live_bytes -= b->size;
  }
#ifdef SIM_MT
  race_forget(p, b->size);
#endif
  if (S.active && b->tracked && b->size < 65536) {
    b->magic = FREED;
    last_freed = b;
    memset(p, 0xDB, b->size);
    Blk* old = quar[qpos].b;
    quar[qpos].b = b;
    qpos = (qpos + 1) % QN;
    if (old) q_release(old);
    return;
  }
  b->magic = 0;
  __libc_free(static_cast<char*>(p) - b->off);
}
static size_t user_size(void* p) { return (reinterpret_cast<Blk*>(p) - 1)->size; }

static inline bool virt() { return S.active && S.api > 0 && S.harness == 0; }
static uint64_t clock_read(bool wall) {
  ++S.clock_reads;
  (wall ? S.wall_reads : S.mono_reads)++;
  if (clock_hook) {
    Harness h;
    clock_hook(S.clock_reads, wall);
  }
  advance_ns(S.env.read_ns);
  uint64_t m = now_ns();
  trace(0xC10C, wall, S.clock_reads);
  return wall ? m + static_cast<uint64_t>(S.wall_off) : m;
}
}  // namespace rt

using namespace rt;

extern "C" {
void* malloc(size_t n) { return do_alloc(n, 16, false); }
void free(void* p) { do_free(p); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  return do_alloc(n, 16, true);
}
void* realloc(void* p, size_t n) {
  if (!p) return do_alloc(n, 16, false);
  if (!n) {
    do_free(p);
    return nullptr;
  }
  if (n == user_size(p)) return p;
  void* q = do_alloc(n, 16, false);
  if (!q) return nullptr;
  size_t o = user_size(p);
  memcpy(q, p, o < n ? o : n);
  do_free(p);
  return q;
}
void* memalign(size_t a, size_t n) { return do_alloc(n, a, false); }
void* aligned_alloc(size_t a, size_t n) { return do_alloc(n, a, false); }
int posix_memalign(void** r, size_t a, size_t n) {
  void* p = do_alloc(n, a, false);
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
void* valloc(size_t n) { return do_alloc(n, 4096, false); }
size_t malloc_usable_size(void* p) { return p ? user_size(p) : 0; }

int gettimeofday(struct timeval* __restrict tv, void* __restrict) {
  if (virt()) {
    uint64_t t = clock_read(true);
    tv->tv_sec = static_cast<time_t>(t / 1000000000ull);
    tv->tv_usec = static_cast<suseconds_t>(t % 1000000000ull / 1000);
    return 0;
  }
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
int clock_gettime(clockid_t id, struct timespec* ts) {
  if (virt()) {
    bool wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
    uint64_t t = clock_read(wall);
    ts->tv_sec = static_cast<time_t>(t / 1000000000ull);
    ts->tv_nsec = static_cast<long>(t % 1000000000ull);
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
time_t time(time_t* p) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (p) *p = ts.tv_sec;
  return ts.tv_sec;
}
clock_t clock(void) {
  if (virt()) return static_cast<clock_t>(clock_read(false) / 1000);
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
int nanosleep(const struct timespec* a, struct timespec*) {
  if (virt()) {
    advance_ns(static_cast<uint64_t>(a->tv_sec) * 1000000000ull +
               static_cast<uint64_t>(a->tv_nsec));
    return 0;
  }
  return static_cast<int>(syscall(SYS_nanosleep, a, nullptr));
}

// Every basic block of solver code passes here: it is the unit of virtual CPU
// time, of the step budget and of the coverage signature.
void __sanitizer_cov_trace_pc(void) {
  if (!S.active || S.harness) return;
  if (++S.bb >= S.bb_alarm) {
    if (S.bb >= S.bb_stop) {
      ++S.harness;  // string code may be an instrumented copy
      fatal("hang", "step budget of the run exhausted");
    }
    update_alarm();
  }
  unsigned pc = static_cast<unsigned>(static_cast<char*>(__builtin_return_address(0)) -
                                      &__executable_start);
  unsigned i = (pc ^ (cov_prev << 1)) & ((1 << 15) - 1);
  cov_prev = pc;
  if (!cov_map[i]) {
    cov_map[i] = 1;
    ++cov_count;
    cov_sig += rt::mix(i, 7);
  }
}
}
