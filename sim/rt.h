// Simulator runtime: the seams (allocator, libc heap, clock, randomness, locks,
// thread scheduling) the library under test runs on.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <vector>

struct Rng {  // splitmix64 / xorshift: the only PRNG in the simulator
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  uint64_t fork(uint64_t tag) { Rng r(s ^ (tag * 0xD6E8FEB86659FD93ull)); r.next(); return r.next(); }
};

inline uint64_t fnv(uint64_t h, const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t fnv64(uint64_t h, uint64_t v) { return fnv(h, &v, 8); }

// ---- faults -----------------------------------------------------------------
enum FaultKind { F_NONE = 0, F_KTH, F_FROM, F_BURST, F_MASK, F_BUDGET, F_SIZE, F_SITE, F_CAPACITY, F_NKINDS };
extern const char* const FAULT_NAME[F_NKINDS];
struct Fault {
  int kind = F_NONE;
  int64_t a = 0, b = 0;  // meaning per kind
};

enum Owner { OWN_NONE = 0, OWN_LIB = 1, OWN_CALLER = 2 };

struct Block {
  char* p = nullptr;
  size_t size = 0;
  bool live = false;
  bool locked = false;   // data buffer handed to the library or under the harness
  int owner = OWN_NONE;  // who allocated it
  int slot = -1;         // tensor slot it currently belongs to (-1: none)
  int op = -1;           // op that allocated it
  int thr = 0;
  int ord = -1;          // allocation ordinal inside that op
  int allocator = 0;     // 0 default malloc, 1/2 installed allocator
  int freed_op = -1;
  uint64_t seq = 0;
};

// ---- violations -------------------------------------------------------------
enum VKind {
  V_NONE = 0,
  V_CRASH,          // fatal signal, abort, early exit
  V_MEM_OOB,        // access outside every live object
  V_MEM_UAF,        // access to a released block
  V_HANG,
  V_STATUS,         // valid call answered with an error (no fault injected)
  V_ACCEPTED,       // invalid call answered with success
  V_CODE,           // invalid call rejected with the wrong code
  V_FAULT_REPORT,   // allocation failed, status is neither ALLOC_FAILED nor a correct success
  V_FAULT_SUCCESS,  // allocation failed, success reported with an incomplete/wrong result
  V_DATA,           // result data differs from the model
  V_META,           // result shape/type/device differs from the model
  V_SELF,           // getters/resolve of one tensor disagree with each other
  V_HANDLE,         // output handle after a failed call is neither untouched, NULL nor destroyable
  V_OPERAND,        // operand or by-standing tensor changed
  V_ARG,            // caller's argument array changed
  V_LEAK,
  V_DOUBLE_FREE,
  V_FOREIGN_FREE,
  V_BYPASS,         // heap used other than through the installed allocator
  V_ADOPT,          // ownership of a caller buffer wrong
  V_ALIAS,          // tensor memory was released with another tensor / shared
  V_DESTROY,        // destroy status/handle wrong
  V_DIVERGE,        // same calls, different memory contents/placement, different outcome
  V_DROPOUT,        // element neither kept nor zeroed / rate edge
  V_DROPRATE,       // statistical
  V_DROPSAME,       // successive masks not independent
  V_HANDLECLASS,    // auto_test sample handle
  V_NKINDS
};
extern const char* const V_NAME[V_NKINDS];

enum VFlags {
  VF_FAULT_THIS = 1,   // a fault fired in this very call
  VF_FAULT_BEFORE = 2, // a fault fired earlier in the session
  VF_INVALID = 4,      // the call was invalid by contract
  VF_THREADS = 8,      // other callers were in flight
  VF_RETRY = 16,       // retry after a faulted call
  VF_NULLISH = 32,     // faulting address near NULL
  VF_DESTROYING = 64,
  VF_RELEASED = 256,   // a live tensor's memory was released
  VF_REJECTED = 128,   // the call came back with an error status
};
struct Vio {
  int kind, op, opkind, flags;
  uint64_t pc;
  char msg[640];
};

// ---- state shared between the worker and the run it forked -------------------
struct SwRec { int32_t op; uint32_t ev; int32_t to; };
enum { MAXSW = 60000, MAXVIO = 12, NEDGE = 32768, NSITE = 1024, MAXOPS = 4000 };
struct Shared {
  volatile int phase;        // 0 not started, 1 running, 2 finished
  volatile int cur_op[8];    // op in flight per thread
  volatile int cur_thr;
  volatile int inlib;
  volatile int fault_this[8], fault_before, invalid_this[8], retry_this[8], destroying[8];
  volatile int conc;
  int nvio;
  int exhausted;  // the simulated memory itself ran out: where that happens depends on placement
  uint64_t irrelevant;  // observations that do not bear on the property of the run
  Vio vio[MAXVIO];
  uint64_t hash;             // event-log hash of the run
  uint64_t odigest;          // outcome digest (no placement, no events)
  uint64_t events, switches, allocs, frees;
  uint64_t ops_done, ops_skipped, ops_lib, ops_ok, ops_rejected, ops_faulted, ops_retried;
  uint64_t opkind_count[32], opkind_ok[32], opkind_model[32], opkind_rej[32];
  uint64_t fired[F_NKINDS];
  uint64_t fired_ops[F_NKINDS];
  uint64_t clock_jumps, clock_stalls, sim_seconds;
  uint64_t bytes_alloc;
  uint64_t model_checked, undefined_skipped;
  uint64_t sched_hash;
  uint64_t faultsig;
  int nsw;
  SwRec sw[MAXSW];
  uint64_t opdig[MAXOPS];    // outcome digest per op (for divergence)
  int opst[MAXOPS];
  uint64_t opevents[MAXOPS];
  uint32_t opallocs[MAXOPS];
  int nops;
  unsigned char edge[NEDGE];
  // fault sites: return address of the failed allocation
  uint64_t site_pc[NSITE]; uint32_t site_alloc[NSITE]; uint32_t site_fail[NSITE]; int nsite;
  // dropout statistics exported by the run
  double dstat[16];
};
extern Shared* SH;

// ---- runtime configuration of one run ---------------------------------------
struct RtCfg {
  int policy = 0;         // 0 bump, 1 immediate LIFO reuse, 2 random
  int fill = 0;           // 0..255 byte, 256 random bytes, 257 keep stale contents
  uint64_t mem_seed = 1;
  int rand_mode = 0;
  int64_t clock0 = 1700000000;
  int clock_mode = 0;     // 0 stalled, 1 ticks per read, 2 random steps fwd, 3 jumps both ways
  uint64_t sched_seed = 0;
  double sched_p = 0;     // chance of preemption per event
  double sched_hot = 0;   // chance of preemption after a store to shared memory
  bool sched_explicit = false;
  std::vector<SwRec> sw;  // explicit switches
  bool serial = false;    // run the concurrent phase without interleaving
  uint64_t event_cap = 60000000ull;
};
extern RtCfg RT;

void rt_init_arena();                 // once per worker, before forking
void rt_begin(const RtCfg& c);        // in the child
void rt_edges_reset();

// caller-side memory (exact-size, red-zoned)
void* rt_caller_alloc(size_t n);
void rt_caller_free(void* p);

// fault scope of a call
void rt_op_enter(int opid, const Fault& f);
struct OpStat { int allocs; int fired; uint64_t events; };
OpStat rt_op_leave();
extern "C" void* sim_alloc1(unsigned long n);
extern "C" void sim_free1(void* p);
extern "C" void* sim_alloc2(unsigned long n);
extern "C" void sim_free2(void* p);
extern "C" void* rt_new(unsigned long n);
extern "C" void rt_delete(void* p);
extern "C" void* sim_malloc(unsigned long n);
extern "C" void sim_free(void* p);
void rt_set_installed(int which);     // 0 default, 1, 2
bool rt_bypass_checked();

std::vector<char*>& rt_got();         // blocks the library obtained in the last call
Block* rt_find(const void* p);        // block containing p (live preferred) or null
std::map<char*, Block>& rt_blocks();
uint64_t rt_seq();
size_t rt_live_lib();                 // live blocks owned by library
void rt_clock_advance(int64_t s);
int64_t rt_clock_now();

// violations
void rt_quiet(uint64_t kinds);  // observations of these kinds do not end the run
void vio(int kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool vio_any();

// threads
void rt_threads_run(int n, void (*body)(int, void*), void* arg);
int rt_self();
void rt_point();  // possible switch point outside library code (operation boundary)
void rt_scrub_stack(unsigned fill);
void rt_trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool g_trace;
extern int g_nguards;
