#include "rt.h"

#include <errno.h>
#include <pthread.h>
#include <sanitizer/asan_interface.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>

const char* const FAULT_NAME[F_NKINDS] = {"none", "kth", "from", "burst", "mask", "budget", "size", "site", "capacity"};
const char* const V_NAME[V_NKINDS] = {
    "none", "crash", "out-of-bounds", "use-after-release", "hang", "valid-call-rejected",
    "invalid-call-accepted", "wrong-error-code", "alloc-failure-misreported",
    "alloc-failure-as-success", "wrong-data", "wrong-metadata", "getters-disagree",
    "bad-output-handle", "tensor-modified", "argument-modified", "leak", "double-release",
    "foreign-release", "allocator-bypassed", "buffer-ownership", "shared-memory", "destroy-contract",
    "memory-dependent", "dropout-element", "dropout-rate", "dropout-repeats", "handle-lifetime"};

Shared* SH;
RtCfg RT;
bool g_trace = false;
int g_nguards = 0;

// ---------------------------------------------------------------- arena ------
static char* const ABASE = (char*)0x200000000000ull;
static const size_t ASIZE = 192ull << 20;
static const size_t MAXREQ = 16ull << 20;
static char* g_bump;
static std::map<char*, Block> g_blocks;
static std::map<size_t, std::vector<char*>> g_free;  // capacity -> starts
static std::map<char*, size_t> g_cap;
static uint64_t g_seq;
static Rng g_mem(1);
static size_t g_live_lib;
static int g_installed = 0;
static int64_t g_clock;
static Rng g_clk(1);

struct OpCtx {
  int op = -1;
  bool inlib = false;
  Fault f;
  int ord = 0, fired = 0;
  uint64_t events = 0, since = 0;
  int64_t live_bytes = 0;
  std::vector<std::pair<uint64_t, int>> sites;
  std::vector<char*> got;  // library blocks obtained in this attempt
  std::vector<SwRec> sw;
  size_t swi = 0;
};
static const int MAXT = 8;
static OpCtx g_ctx[MAXT];
static __thread int tl_id = 0;
static inline OpCtx& ctx() { return g_ctx[tl_id]; }

void rt_trace(const char* fmt, ...) {
  if (!g_trace) return;
  va_list ap;
  va_start(ap, fmt);
  vfprintf(stdout, fmt, ap);
  va_end(ap);
  fputc('\n', stdout);
}

void rt_init_arena() {
  void* p = mmap(ABASE, ASIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)ABASE) { perror("arena"); _exit(3); }
  __asan_poison_memory_region(ABASE, ASIZE);
  g_bump = ABASE + 4096;
}

static inline bool in_arena(const void* p) { return (char*)p >= ABASE && (char*)p < ABASE + ASIZE; }

std::map<char*, Block>& rt_blocks() { return g_blocks; }
uint64_t rt_seq() { return g_seq; }
size_t rt_live_lib() { return g_live_lib; }
void rt_set_installed(int w) { g_installed = w; }

Block* rt_find(const void* q) {
  char* p = (char*)q;
  auto it = g_blocks.upper_bound(p);
  if (it == g_blocks.begin()) return nullptr;
  --it;
  size_t n = it->second.size ? it->second.size : 1;
  if (p < it->second.p + n) return &it->second;
  return nullptr;
}

static char* carve(size_t n) {
  size_t cap = (n + 15) & ~(size_t)15;
  if (!cap) cap = 16;
  bool reuse = RT.policy == 1 || (RT.policy == 2 && g_mem.chance(0.5));
  if (reuse) {
    auto it = g_free.find(cap);
    if (it != g_free.end() && !it->second.empty()) {
      size_t i = it->second.size() - 1;
      if (RT.policy == 2) i = g_mem.below(it->second.size());
      char* p = it->second[i];
      it->second.erase(it->second.begin() + i);
      return p;
    }
  }
  size_t gap = 32;
  if (RT.policy == 2) gap += 16 * g_mem.below(24);
  if (cap >= 4096) gap += 256;
  char* p = g_bump + gap;
  if (p + cap + 64 > ABASE + ASIZE) {  // arena exhausted: fall back to reuse
    auto it = g_free.find(cap);
    if (it != g_free.end() && !it->second.empty()) {
      char* q = it->second.back();
      it->second.pop_back();
      return q;
    }
    SH->exhausted = 1;
    return nullptr;
  }
  g_bump = p + cap;
  g_cap[p] = cap;
  return p;
}

static void* arena_get(size_t n, int owner, int allocator) {
  if (n > MAXREQ) return nullptr;
  char* p = carve(n);
  if (!p) return nullptr;
  Block b;
  b.p = p;
  b.size = n;
  b.live = true;
  b.owner = owner;
  b.op = ctx().op;
  b.thr = tl_id;
  b.ord = owner == OWN_LIB ? ctx().ord : -1;
  b.allocator = allocator;
  b.seq = ++g_seq;
  bool fresh = g_blocks.find(p) == g_blocks.end();
  g_blocks[p] = b;
  __asan_unpoison_memory_region(p, n ? n : 0);
  if (owner == OWN_LIB) {
    if (RT.fill <= 255) {
      memset(p, RT.fill, n);
    } else if (RT.fill == 256) {
      for (size_t i = 0; i < n; i++) p[i] = (char)g_mem.next();
    } else if (fresh) {
      for (size_t i = 0; i < n; i++) p[i] = (char)(0x40 + i * 7);
    }
    g_live_lib++;
  }
  SH->bytes_alloc += n;
  return p;
}

static void arena_put(Block& b) {
  b.live = false;
  b.freed_op = ctx().op;
  if (b.owner == OWN_LIB) g_live_lib--;
  size_t cap = g_cap[b.p];
  __asan_poison_memory_region(b.p, cap);
  if (RT.policy == 1) g_free[cap].push_back(b.p);
  else {  // quarantine, then available to the random policy / exhausted arena
    g_free[cap].push_back(b.p);
  }
}

void* rt_caller_alloc(size_t n) {
  void* p = arena_get(n, OWN_CALLER, g_installed);
  if (!p) {  // the run ends here, without a verdict on what comes later
    SH->exhausted = 1;
    SH->phase = 2;
    _exit(0);
  }
  return p;
}
void rt_caller_free(void* q) {
  Block* b = rt_find(q);
  if (!b || !b->live) return;
  arena_put(*b);
}

// ------------------------------------------------------------ violations -----
static void vio_v(int kind, uint64_t pc, const char* fmt, va_list ap) {
  if (SH->nvio >= MAXVIO) return;
  Vio& v = SH->vio[SH->nvio];
  memset(&v, 0, sizeof v);
  v.kind = kind;
  v.op = SH->cur_op[tl_id];
  v.opkind = v.op >= 0 ? -1 : -1;
  v.pc = pc;
  int f = 0;
  if (SH->fault_this[tl_id]) f |= VF_FAULT_THIS;
  if (SH->fault_before) f |= VF_FAULT_BEFORE;
  if (SH->invalid_this[tl_id]) f |= VF_INVALID;
  if (SH->retry_this[tl_id]) f |= VF_RETRY;
  if (SH->destroying[tl_id]) f |= VF_DESTROYING;
  if (SH->conc) f |= VF_THREADS;
  v.flags = f;
  vsnprintf(v.msg, sizeof v.msg, fmt, ap);
  SH->nvio++;
  if (g_trace) printf("  !! %s: %s\n", V_NAME[kind], v.msg);
}
static uint64_t g_quiet;
void rt_quiet(uint64_t kinds) { g_quiet = kinds; }
void vio(int kind, const char* fmt, ...) {
  if (g_quiet >> kind & 1) { SH->irrelevant++; return; }
  va_list ap;
  va_start(ap, fmt);
  vio_v(kind, 0, fmt, ap);
  va_end(ap);
}
static void vio_pc(int kind, uint64_t pc, int extra, const char* fmt, ...) {
  if (g_quiet >> kind & 1) { SH->irrelevant++; return; }
  va_list ap;
  va_start(ap, fmt);
  int before = SH->nvio;
  vio_v(kind, pc, fmt, ap);
  if (SH->nvio > before) SH->vio[before].flags |= extra;
  va_end(ap);
}
bool vio_any() { return SH->nvio > 0; }

static void describe(uint64_t addr, char* out, size_t n, int* kind) {
  *kind = V_MEM_OOB;
  if (!in_arena((void*)addr)) {
    snprintf(out, n, "outside every allocation");
    return;
  }
  auto it = g_blocks.upper_bound((char*)addr);
  Block* lo = nullptr;
  Block* hi = it != g_blocks.end() ? &it->second : nullptr;
  if (it != g_blocks.begin()) lo = &std::prev(it)->second;
  if (lo && (char*)addr < lo->p + (lo->size ? lo->size : 1) && !lo->live) {
    *kind = V_MEM_UAF;
    snprintf(out, n, "offset %ld of a %zu-byte block obtained in op %d and released in op %d",
             (long)((char*)addr - lo->p), lo->size, lo->op, lo->freed_op);
    return;
  }
  long dl = lo ? (long)((char*)addr - (lo->p + lo->size)) : 1L << 40;
  long dh = hi ? (long)(hi->p - (char*)addr) : 1L << 40;
  Block* b = dl <= dh ? lo : hi;
  if (!b) { snprintf(out, n, "wild"); return; }
  if (!b->live && b == lo) *kind = V_MEM_UAF;
  snprintf(out, n, "%ld bytes %s a %zu-byte %s block of op %d (%s)", dl <= dh ? dl : dh,
           dl <= dh ? "past the end of" : "before", b->size, b->live ? "live" : "released", b->op,
           b->owner == OWN_CALLER ? "caller's array" : "library");
}

static void die(int code) {
  if (g_trace) fflush(stdout);
  _exit(code);
}

static void asan_death() {
  static int once = 0;
  if (once++) return;
  uint64_t pc = 0, addr = 0;
  const char* d = "memory error";
  int at = 0;
  size_t sz = 0;
  if (__asan_report_present()) {
    pc = (uint64_t)__asan_get_report_pc();
    addr = (uint64_t)__asan_get_report_address();
    d = __asan_get_report_description();
    at = __asan_get_report_access_type();
    sz = __asan_get_report_access_size();
  }
  char where[256];
  int kind = V_MEM_OOB;
  describe(addr, where, sizeof where, &kind);
  if (d && strstr(d, "use-after-free")) kind = V_MEM_UAF;
  vio_pc(kind, pc, addr < 65536 ? VF_NULLISH : 0, "%s of %zu bytes %s (%s)", at ? "write" : "read", sz, where,
         d ? d : "");
  die(77);
}

static void on_signal(int sig, siginfo_t* si, void* uc) {
  static int once = 0;
  if (once++) _exit(78);
  uint64_t pc = (uint64_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  uint64_t addr = (uint64_t)si->si_addr;
  if (sig == SIGSEGV || sig == SIGBUS) {
    int kind = V_CRASH;
    char where[256] = "near null";
    if (addr >= 65536 && sig == SIGSEGV) describe(addr, where, sizeof where, &kind);
    vio_pc(addr < 65536 ? V_CRASH : V_MEM_OOB, pc, addr < 65536 ? VF_NULLISH : 0,
           "signal %d (%s) accessing an address %s", sig, strsignal(sig), where);
  } else {
    vio_pc(V_CRASH, pc, 0, "signal %d (%s)%s", sig, strsignal(sig),
           SH->inlib ? " inside the library" : "");
  }
  die(78);
}

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigbus=0:handle_sigill=0:"
         "symbolize=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=77:"
         "allocator_may_return_null=1:detect_odr_violation=0:check_initialization_order=0:"
         "use_sigaltstack=0:allow_user_segv_handler=1:print_legend=0:intercept_send=0";
}

static char g_alt[MAXT + 1][65536];
static void alt_stack(int i) {
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = g_alt[i];
  ss.ss_size = sizeof g_alt[i];
  sigaltstack(&ss, nullptr);
}

// ---------------------------------------------------------------- begin ------
static struct random_data g_rd;
static char g_rdbuf[128];
static Rng g_sched(1);
static int64_t g_countdown;
static Rng g_ent(1);

static void draw_countdown() {
  if (RT.sched_p <= 0) { g_countdown = INT64_MAX; return; }
  // geometric
  double u = g_sched.unit();
  if (u < 1e-12) u = 1e-12;
  double k = __builtin_log(u) / __builtin_log1p(-RT.sched_p);
  g_countdown = 1 + (int64_t)k;
}

void rt_begin(const RtCfg& c) {
  RT = c;
  g_mem = Rng(c.mem_seed);
  g_clk = Rng(c.mem_seed ^ 0x51ed);
  g_ent = Rng(c.mem_seed ^ 0xe117);
  g_sched = Rng(c.sched_seed);
  g_clock = c.clock0;
  memset(&g_rd, 0, sizeof g_rd);
  initstate_r(1, g_rdbuf, sizeof g_rdbuf, &g_rd);
  draw_countdown();
  if (c.policy == 2) g_bump += 16 * g_mem.below(64);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGTRAP};
  for (int s : sigs) sigaction(s, &sa, nullptr);
  alt_stack(0);
  __sanitizer_set_death_callback(asan_death);
  for (int i = 0; i < MAXT; i++) SH->cur_op[i] = -1;
}

// ---------------------------------------------------------------- faults -----
void rt_op_enter(int opid, const Fault& f) {
  OpCtx& c = ctx();
  if (c.op != opid) {
    c.op = opid;
    c.events = 0;
    c.sw.clear();
    c.swi = 0;
    if (RT.sched_explicit) {
      for (auto& s : RT.sw)
        if (s.op == opid) c.sw.push_back(s);
      std::sort(c.sw.begin(), c.sw.end(), [](const SwRec& x, const SwRec& y) { return x.ev < y.ev; });
    }
  }
  c.f = f;
  c.ord = 0;
  c.fired = 0;
  c.live_bytes = 0;
  c.sites.clear();
  c.got.clear();
  c.inlib = true;
  c.since = 0;
  SH->cur_op[tl_id] = opid;
  SH->inlib = 1;
}
OpStat rt_op_leave() {
  OpCtx& c = ctx();
  c.inlib = false;
  SH->inlib = 0;
  c.f = Fault();
  return OpStat{c.ord, c.fired, c.events};
}

static int site_index(uint64_t pc) {
  for (int i = 0; i < SH->nsite; i++)
    if (SH->site_pc[i] == pc) return i;
  if (SH->nsite >= NSITE) return NSITE - 1;
  SH->site_pc[SH->nsite] = pc;
  return SH->nsite++;
}

static bool fault_fires(OpCtx& c, int ord, size_t n, uint64_t pc) {
  const Fault& f = c.f;
  switch (f.kind) {
    case F_KTH: return ord == f.a;
    case F_FROM: return ord >= f.a;
    case F_BURST: return ord >= f.a && ord < f.a + f.b;
    case F_MASK: return (((uint64_t)f.a) >> (ord & 63)) & 1;
    case F_BUDGET: return c.live_bytes + (int64_t)n > f.a;
    case F_SIZE: return (int64_t)n >= f.a;
    case F_SITE: {
      for (size_t i = 0; i < c.sites.size(); i++)
        if (c.sites[i].first == pc) {
          int k = c.sites[i].second++;
          return (int64_t)i == f.a && k == f.b;
        }
      c.sites.push_back({pc, 1});
      return (int64_t)c.sites.size() - 1 == f.a && f.b == 0;
    }
    default: return false;
  }
}

static void* lib_alloc(size_t n, int allocator, uint64_t pc) {
  OpCtx& c = ctx();
  int s = site_index(pc);
  SH->site_alloc[s]++;
  SH->allocs++;
  if (c.inlib) {
    bool fire = fault_fires(c, c.ord, n, pc);
    if (fire) {
      c.fired++;
      SH->fired[c.f.kind]++;
      SH->site_fail[s]++;
      SH->fault_this[tl_id] = 1;
      SH->faultsig = fnv64(fnv64(SH->faultsig, pc - (uint64_t)&rt_init_arena), c.ord);
      SH->hash = fnv64(SH->hash, 0xFA11);
      if (g_trace) printf("    alloc #%d (%zu bytes) -> FAULT %s\n", c.ord, n, FAULT_NAME[c.f.kind]);
      c.ord++;
      return nullptr;
    }
  }
  void* p = arena_get(n, OWN_LIB, allocator);
  if (!p && c.inlib) {  // larger than the memory there is
    c.fired++;
    SH->fired[F_CAPACITY]++;
    SH->site_fail[s]++;
    SH->fault_this[tl_id] = 1;
    if (g_trace) printf("    alloc #%d (%zu bytes) -> more than there is\n", c.ord, n);
  }
  SH->hash = fnv64(fnv64(SH->hash, n), (uint64_t)p);
  c.live_bytes += (int64_t)n;
  if (p && c.inlib) c.got.push_back((char*)p);
  if (g_trace && c.inlib) printf("    alloc #%d (%zu bytes) -> +%lx\n", c.ord, n, p ? (long)((char*)p - ABASE) : 0L);
  c.ord++;
  return p;
}

static void lib_free(void* p, int allocator) {
  if (!p) return;
  OpCtx& c = ctx();
  SH->frees++;
  SH->hash = fnv64(SH->hash, (uint64_t)p ^ 0xF4EE);
  if (!in_arena(p)) {
    vio(V_FOREIGN_FREE, "released a pointer that was never allocated (%p)", p);
    return;
  }
  Block* b = rt_find(p);
  if (!b || b->p != (char*)p) {
    vio(V_FOREIGN_FREE, "released an address inside a block, or one never handed out");
    return;
  }
  if (!b->live) {
    vio(V_DOUBLE_FREE, "block of %zu bytes from op %d released again (first released in op %d)", b->size, b->op,
        b->freed_op);
    return;
  }
  if (b->owner == OWN_CALLER && !b->locked) {
    vio(V_ADOPT, "the caller's own %zu-byte buffer was released although its ownership had not passed", b->size);
    b->freed_op = -2;
    return;
  }
  if (b->owner == OWN_CALLER) b->owner = OWN_LIB, g_live_lib++;
  if (b->allocator != allocator)
    vio(V_BYPASS, "block obtained from allocator %d released through allocator %d", b->allocator, allocator);
  int ds = SH->destroying[tl_id];
  if (b->slot >= 0 && ds != b->slot + 1)
    vio_pc(V_ALIAS, 0, VF_RELEASED, "memory of live tensor s%d (%zu bytes) released by op %d", b->slot, b->size, c.op);
  c.live_bytes -= (int64_t)b->size;
  arena_put(*b);
}

static bool bypass(const char* what) {
  if (g_installed && ctx().inlib) {
    vio(V_BYPASS, "%s() used directly while the caller's allocator is installed", what);
    return true;
  }
  return false;
}

extern "C" {
#define RA ((uint64_t)__builtin_return_address(0))
void* sim_alloc1(unsigned long n) {
  if (g_installed != 1 && ctx().inlib) vio(V_BYPASS, "allocation through an allocator that is no longer installed");
  return lib_alloc(n, 1, RA);
}
void sim_free1(void* p) { lib_free(p, 1); }
void* sim_alloc2(unsigned long n) {
  if (g_installed != 2 && ctx().inlib) vio(V_BYPASS, "allocation through an allocator that is no longer installed");
  return lib_alloc(n, 2, RA);
}
void sim_free2(void* p) { lib_free(p, 2); }
// operator new / delete of the C++ test library
void* rt_new(unsigned long n) { return lib_alloc(n, 3, RA); }
void rt_delete(void* p) { lib_free(p, 3); }
void* sim_malloc(unsigned long n) {
  bypass("malloc");
  return lib_alloc(n, 0, RA);
}
void sim_free(void* p) {
  if (p) bypass("free");
  lib_free(p, 0);
}
void* sim_calloc(unsigned long a, unsigned long b) {
  bypass("calloc");
  void* p = lib_alloc(a * b, 0, RA);
  if (p) memset(p, 0, a * b);
  return p;
}
void* sim_realloc(void* q, unsigned long n) {
  bypass("realloc");
  if (!q) return lib_alloc(n, 0, RA);
  Block* b = rt_find(q);
  void* p = lib_alloc(n, 0, RA);
  if (p && b && b->live) {
    memcpy(p, q, b->size < n ? b->size : n);
    lib_free(q, 0);
  }
  return p;
}
void* sim_aligned_alloc(unsigned long, unsigned long n) {
  bypass("aligned_alloc");
  return lib_alloc(n, 0, RA);
}
int sim_posix_memalign(void** o, unsigned long, unsigned long n) {
  bypass("posix_memalign");
  void* p = lib_alloc(n, 0, RA);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
char* sim_strdup(const char* s) {
  bypass("strdup");
  size_t n = strlen(s) + 1;
  char* p = (char*)lib_alloc(n, 0, RA);
  if (p) memcpy(p, s, n);
  return p;
}

// ------------------------------------------------ clock and randomness -------
static int64_t clock_read() {
  switch (RT.clock_mode) {
    case 0: SH->clock_stalls++; break;
    case 1: g_clock += 1; SH->sim_seconds += 1; break;
    case 2: { int64_t d = (int64_t)g_clk.below(100); g_clock += d; SH->sim_seconds += d; break; }
    default: {
      int64_t d = g_clk.range(-1000000, 1000000);
      g_clock += d;
      SH->clock_jumps++;
      SH->sim_seconds += (uint64_t)(d < 0 ? -d : d);
    }
  }
  return g_clock;
}
long sim_time(long* t) {
  long v = clock_read();
  if (t) *t = v;
  return v;
}
int sim_clock_gettime(int, struct timespec* ts) {
  ts->tv_sec = clock_read();
  ts->tv_nsec = 0;
  return 0;
}
int sim_gettimeofday(struct timeval* tv, void*) {
  tv->tv_sec = clock_read();
  tv->tv_usec = 0;
  return 0;
}
int sim_timespec_get(struct timespec* ts, int base) {
  ts->tv_sec = clock_read();
  ts->tv_nsec = 0;
  return base;
}
long sim_clock(void) { return clock_read() * 1000; }
void sim_srand(unsigned s) { srandom_r(s, &g_rd); }
int sim_rand(void) {
  int32_t r = 0;
  random_r(&g_rd, &r);
  switch (RT.rand_mode) {  // what a legal generator may also return
    case 1: { uint64_t k = g_ent.below(8); if (k == 0) r = 0; else if (k == 1) r = 0x7fffffff; else if (k == 2) r = 1; else if (k == 3) r = 0x7ffffffe; break; }
    case 2: r = 0; break;
    case 3: r = 0x7fffffff; break;
    case 4: r &= 1; break;
    default: break;
  }
  return r;
}
long sim_random(void) { return sim_rand(); }
void sim_srandom(unsigned s) { sim_srand(s); }
long sim_getrandom(void* p, unsigned long n, unsigned) {
  for (unsigned long i = 0; i < n; i++) ((char*)p)[i] = (char)g_ent.next();
  return (long)n;
}
int sim_getentropy(void* p, unsigned long n) {
  sim_getrandom(p, n, 0);
  return 0;
}
unsigned sim_arc4random(void) { return (unsigned)g_ent.next(); }
}
void rt_clock_advance(int64_t s) {
  g_clock += s;
  SH->sim_seconds += (uint64_t)(s < 0 ? -s : s);
  if (s) SH->clock_jumps++;
}
std::vector<char*>& rt_got() {
  // what this caller released may since have been handed to another caller
  OpCtx& c = ctx();
  std::vector<char*>& g = c.got;
  g.erase(std::remove_if(g.begin(), g.end(), [&](char* q) {
            Block* b = rt_find(q);
            return !b || b->p != q || !b->live || b->thr != tl_id;
          }), g.end());
  return g;
}
int64_t rt_clock_now() { return g_clock; }

// --------------------------------------------------------------- threads -----
static sem_t g_sem[MAXT];
static bool g_done[MAXT];
static int g_nthr = 0;
static int g_cur = 0;
int rt_self() { return tl_id; }

static void do_switch(int to, bool record, uint64_t ev) {
  int me = tl_id;
  if (to == me || to < 1 || to > g_nthr || g_done[to]) return;
  SH->switches++;
  SH->sched_hash = fnv64(fnv64(SH->sched_hash, ((uint64_t)ctx().op << 8) | (unsigned)to), ev);
  SH->hash = fnv64(fnv64(SH->hash, ((uint64_t)ctx().op << 8) | (unsigned)to), ev);
  if (record) {
    if (SH->nsw < MAXSW) SH->sw[SH->nsw] = SwRec{ctx().op, (uint32_t)ev, to};
    SH->nsw++;
  }
  if (g_trace) printf("    -- switch t%d(op %d, event %lu) -> t%d\n", me, ctx().op, (unsigned long)ev, to);
  ctx().since = 0;
  int sv_inlib = SH->inlib;
  SH->cur_thr = to;
  g_cur = to;
  sem_post(&g_sem[to]);
  while (sem_wait(&g_sem[me]) != 0) {}
  SH->inlib = sv_inlib;
  SH->cur_thr = me;
}
static int pick_other() {
  int c[MAXT], n = 0;
  for (int i = 1; i <= g_nthr; i++)
    if (i != tl_id && !g_done[i]) c[n++] = i;
  return n ? c[g_sched.below(n)] : -1;
}
static int next_rr() {
  for (int k = 1; k <= g_nthr; k++) {
    int i = (tl_id - 1 + k) % g_nthr + 1;
    if (i != tl_id && !g_done[i]) return i;
  }
  return -1;
}
static inline void hang_check(OpCtx& c) {
  if (__builtin_expect(c.events > RT.event_cap, 0)) {
    vio(V_HANG, "no progress: %lu basic-block/memory events without returning", (unsigned long)c.events);
    die(79);
  }
}
static inline void event(bool hot) {
  OpCtx& c = ctx();
  c.events++;
  SH->events++;
  hang_check(c);
  if (!SH->conc || RT.serial || tl_id == 0) return;
  if (RT.sched_explicit) {
    while (c.swi < c.sw.size() && c.sw[c.swi].ev < c.events) c.swi++;
    if (c.swi < c.sw.size() && c.sw[c.swi].ev == c.events) {
      int to = c.sw[c.swi].to;
      c.swi++;
      do_switch(to, true, c.events);
      return;
    }
  } else {
    bool sw = false;
    if (--g_countdown <= 0) { sw = true; draw_countdown(); }
    else if (hot && RT.sched_hot > 0 && g_sched.unit() < RT.sched_hot) sw = true;
    if (sw) {
      int to = pick_other();
      if (to > 0) { do_switch(to, true, c.events); return; }
    }
  }
  if (++c.since > 4000000) {
    int to = next_rr();
    c.since = 0;
    if (to > 0) do_switch(to, false, c.events);
  }
}
void rt_point() {  // operation boundary: event 0 of the op about to start
  if (!SH->conc || RT.serial || tl_id == 0) return;
  OpCtx& c = ctx();
  if (RT.sched_explicit) {
    if (c.swi < c.sw.size() && c.sw[c.swi].ev == 0) {
      int to = c.sw[c.swi].to;
      c.swi++;
      do_switch(to, true, 0);
    }
  } else if (g_sched.chance(0.25)) {
    int to = pick_other();
    if (to > 0) do_switch(to, true, 0);
  }
}

struct ThrArg { int id; void (*body)(int, void*); void* arg; };
static void* thr_main(void* a) {
  ThrArg* t = (ThrArg*)a;
  tl_id = t->id;
  alt_stack(t->id);
  while (sem_wait(&g_sem[tl_id]) != 0) {}
  SH->cur_thr = tl_id;
  t->body(t->id, t->arg);
  g_done[tl_id] = true;
  for (int i = 1; i <= g_nthr; i++)
    if (!g_done[i]) {
      g_cur = i;
      sem_post(&g_sem[i]);
      return nullptr;
    }
  g_cur = 0;
  sem_post(&g_sem[0]);
  return nullptr;
}
void rt_threads_run(int n, void (*body)(int, void*), void* arg) {
  g_nthr = n;
  pthread_t th[MAXT];
  static ThrArg ta[MAXT];
  for (int i = 0; i <= n; i++) {
    sem_init(&g_sem[i], 0, 0);
    g_done[i] = false;
  }
  for (int i = 1; i <= n; i++) {
    ta[i] = ThrArg{i, body, arg};
    pthread_create(&th[i], nullptr, thr_main, &ta[i]);
  }
  SH->conc = 1;
  g_cur = 1;
  sem_post(&g_sem[1]);
  while (sem_wait(&g_sem[0]) != 0) {}
  SH->conc = 0;
  SH->cur_thr = 0;
  for (int i = 1; i <= n; i++) pthread_join(th[i], nullptr);
}

// locks the library might take: never block for real, hand the token on instead
static std::map<void*, std::pair<int, int>> g_lock;  // -> (owner, depth)
static std::map<void*, int> g_once;                  // 1 running, 2 done
extern "C" {
static int lock_get(void* m, bool block) {
  for (uint64_t spins = 0;; spins++) {
    auto& l = g_lock[m];
    if (l.second == 0) { l = {tl_id, 1}; return 0; }
    if (!block) return EBUSY;
    int to = SH->conc ? next_rr() : -1;
    if (to < 0 || spins > 2000000) {
      vio(V_HANG, "deadlock: waiting for a lock nobody will release");
      die(79);
    }
    do_switch(to, false, ctx().events);
  }
}
int sim_pthread_mutex_lock(void* m) { return lock_get(m, true); }
int sim_pthread_mutex_trylock(void* m) { return lock_get(m, false); }
int sim_pthread_mutex_unlock(void* m) { g_lock[m] = {0, 0}; return 0; }
int sim_mtx_lock(void* m) { return lock_get(m, true); }
int sim_mtx_unlock(void* m) { g_lock[m] = {0, 0}; return 0; }
int sim_pthread_once(void* o, void (*f)(void)) {
  for (;;) {
    int& s = g_once[o];
    if (s == 2) return 0;
    if (s == 0) {
      s = 1;
      f();
      g_once[o] = 2;
      return 0;
    }
    int to = next_rr();
    if (to < 0) { vio(V_HANG, "deadlock in one-time initialisation"); die(79); }
    do_switch(to, false, ctx().events);
  }
}
void sim_call_once(void* o, void (*f)(void)) { sim_pthread_once(o, f); }
int sim_sched_yield(void) {
  int to = SH->conc && !RT.serial ? next_rr() : -1;
  if (to > 0) do_switch(to, false, ctx().events);
  return 0;
}
void sim_exit(int code) {
  vio(V_CRASH, "the library ended the process (exit %d)", code);
  die(78);
}

// ------------------------------------------------ instrumentation hooks ------
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  if (a == b || *a) return;
  for (uint32_t* p = a; p < b; p++) *p = (uint32_t)++g_nguards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  if (!SH || !ctx().inlib) return;
  SH->edge[*g & (NEDGE - 1)] = 1;
  event(false);
}
// memory that outlives the call and was written by it: static variables and
// blocks of earlier calls. Reading it again is a point worth pre-empting.
static uintptr_t g_dirty[4096];
static int g_ndirty;
static inline uintptr_t* dirty_at(void* p) {
  uintptr_t g = (uintptr_t)p >> 3;
  uintptr_t* q = &g_dirty[(g * 0x9E3779B97F4A7C15ull) >> 52];
  while (*q && *q != g)
    if (++q == g_dirty + 4096) q = g_dirty;
  return q;
}
static inline void on_load(void* p) {
  if (!SH || !ctx().inlib || !SH->conc) return;
  event(g_ndirty && RT.sched_hot > 0 && !RT.sched_explicit && tl_id && *dirty_at(p));
}
static inline void on_store(void* p) {
  if (!SH || !ctx().inlib || !SH->conc) return;
  bool hot = false;
  if (RT.sched_hot > 0 && !RT.sched_explicit && tl_id) {
    char here;
    long d = (char*)p - &here;
    if (d < 0) d = -d;
    if (in_arena(p)) {
      Block* b = rt_find(p);
      hot = !b || b->op != ctx().op;
    } else if (d > (1 << 20)) {
      hot = true;
    }
    if (hot && g_ndirty < 3000) {
      uintptr_t* q = dirty_at(p);
      if (!*q) *q = (uintptr_t)p >> 3, g_ndirty++;
    }
  }
  event(hot);
}
void __sanitizer_cov_load1(void* p) { on_load(p); }
void __sanitizer_cov_load2(void* p) { on_load(p); }
void __sanitizer_cov_load4(void* p) { on_load(p); }
void __sanitizer_cov_load8(void* p) { on_load(p); }
void __sanitizer_cov_load16(void* p) { on_load(p); }
void __sanitizer_cov_store1(void* p) { on_store(p); }
void __sanitizer_cov_store2(void* p) { on_store(p); }
void __sanitizer_cov_store4(void* p) { on_store(p); }
void __sanitizer_cov_store8(void* p) { on_store(p); }
void __sanitizer_cov_store16(void* p) { on_store(p); }
}

__attribute__((noinline)) void rt_scrub_stack(unsigned fill) {
  char* p = (char*)__builtin_alloca(6144);
  void* q = p;
  size_t n = 6144;
  __asm__ volatile("rep stosb" : "+D"(q), "+c"(n) : "a"(fill) : "memory");
}
