// Executes a plan against the real library, checking every step against the
// model and the invariants.
#include "exec.h"

#include <algorithm>
#include <set>
#include <cmath>

namespace {
const int NSLOT = 64;
struct Slot {
  bool live = false;
  void* h = nullptr;
  MT m;
};
Slot S[NSLOT];
const Plan* P;
ExecCfg C;
bool g_stop;

// dropout statistics of the session
struct DS {
  bool active = false;
  int64_t n = 0, masks = 0, zeros = 0, elems = 0;
  double rate = 0;
  std::vector<uint8_t> prev, first;
  std::set<uint64_t> seen;
  std::vector<int32_t> pos;                  // how often each position was dropped
  int64_t lag[2][14] = {}, lagn[2][14] = {};  // pairs of elements dropped together, disjoint pairs only
} D;
const int64_t LAGS[14] = {1, 2, 3, 4, 5, 7, 8, 16, 32, 64, 100, 128, 256, 1024};

// Chernoff: k successes of n at probability p (or fewer, or more) have at most
// the probability exp(-this)
double surprise(int64_t k, int64_t n, double p) {
  if (n <= 0) return 0;
  double q = (double)k / n, s = 0;
  if (q > 0) s += q * std::log(q / p);
  if (q < 1) s += (1 - q) * std::log((1 - q) / (1 - p));
  return s * n;
}

const int64_t JUNK = 0x5a5a5a5a5a5a50;

struct CallerArr {  // caller-side argument arrays: exact size, checked unchanged
  std::vector<std::pair<void*, std::vector<char>>> v;
  template <class T> T* add(const std::vector<T>& x) {
    size_t n = x.size() * sizeof(T);
    char* q = (char*)rt_caller_alloc(n);
    if (n) memcpy(q, x.data(), n);
    v.push_back({q, std::vector<char>(q, q + n)});
    return (T*)q;
  }
  char* add_str(const std::string& s) {
    char* q = (char*)rt_caller_alloc(s.size() + 1);
    memcpy(q, s.c_str(), s.size() + 1);
    v.push_back({q, std::vector<char>(q, q + s.size() + 1)});
    return q;
  }
  void finish(const char* opn) {
    for (auto& a : v) {
      Block* b = rt_find(a.first);
      if (!b || !b->live) vio(V_ARG, "%s released an argument array of the caller", opn);
      else if (a.second.size() && memcmp(a.first, a.second.data(), a.second.size()))
        vio(V_ARG, "%s changed an argument array of the caller", opn);
      rt_caller_free(a.first);
    }
    v.clear();
  }
};

bool live_range(const void* p, size_t n) {
  Block* b = rt_find(p);
  return b && b->live && (char*)p + n <= b->p + b->size;
}

// reads the tensor through its public accessors, but only after making sure
// that everything the accessors will touch is memory the tensor still owns
bool safe_meta(void* h, AdMeta& m, int slot, const char* when) {
  Block* b = rt_find(h);
  if (!b || !b->live) {
    vio(V_ALIAS, "the memory of tensor s%d is gone %s", slot, when);
    return false;
  }
  void* st = ad_p_storage(h);
  Block* sb = rt_find(st);
  if (!sb || !sb->live) {
    vio(V_ALIAS, "the storage of tensor s%d is gone %s", slot, when);
    return false;
  }
  ad_meta(h, &m);
  return true;
}

int64_t prod(const int64_t* d, int64_t n) {
  int64_t r = 1;
  for (int64_t i = 0; i < n; i++) r *= d[i];
  return r;
}

// full consistency of one tensor: accessors against each other
bool self_check(void* h, AdMeta& m, int slot, const char* when) {
  if (!safe_meta(h, m, slot, when)) return false;
  if (m.ndim < 0 || m.ndim > 64) {
    vio(V_SELF, "tensor s%d reports %ld dimensions %s", slot, (long)m.ndim, when);
    return false;
  }
  if (m.ndim > 0 && !live_range(m.dims, m.ndim * 8)) {
    vio(V_ALIAS, "the dimensions of tensor s%d are not memory it owns %s", slot, when);
    return false;
  }
  if (m.ndim > 0) {
    Block* b = rt_find(m.dims);
    if (b->owner == OWN_CALLER && !b->locked) {
      vio(V_ALIAS, "tensor s%d keeps using the caller's dimension array %s", slot, when);
      return false;
    }
  }
  int64_t n = prod(m.dims, m.ndim);
  if (m.size != n) {
    vio(V_SELF, "tensor s%d: size %ld but its dimensions hold %ld elements %s", slot, (long)m.size, (long)n, when);
    return false;
  }
  if (m.dcode < 0 || m.dcode > 9 || m.dsize != DT_SIZE[m.dcode]) {
    vio(V_SELF, "tensor s%d: element type code %d with element size %d %s", slot, m.dcode, m.dsize, when);
    return false;
  }
  if (!live_range(m.data, (size_t)(n * m.dsize))) {
    Block* b = rt_find(m.data);
    if (b && b->live) vio(V_SELF, "tensor s%d: its data memory is smaller than size * element size %s", slot, when);
    else vio(V_ALIAS, "the data of tensor s%d is not memory it owns %s", slot, when);
    return false;
  }
  bool ok = m.s_ndim == m.ndim && m.r_ndim == m.ndim && m.r_status == S_OK && m.r_dcode == m.dcode &&
            m.r_dsize == m.dsize && m.r_dev_type == m.dev_type && m.r_dev_id == m.dev_id && m.r_data == m.data &&
            m.r_len == (unsigned)(n * m.dsize) && m.layout == 0 && m.st_size == n && m.st_dcode == m.dcode &&
            m.st_dsize == m.dsize && m.st_dev_type == m.dev_type && m.st_dev_id == m.dev_id && m.st_data == m.data;
  if (ok && m.ndim > 0) {
    ok = live_range(m.s_dims, m.ndim * 8) && live_range(m.r_dims, m.ndim * 8) &&
         !memcmp(m.s_dims, m.dims, m.ndim * 8) && !memcmp(m.r_dims, m.dims, m.ndim * 8);
    for (int64_t i = 0; ok && i < m.ndim; i++) ok = ad_dim(h, i) == m.dims[i];
    if (ok) {  // the position and coordinate functions read it
      ok = live_range(m.min2maj, m.ndim * 8);
      for (int64_t i = 0; ok && i < m.ndim; i++) ok = m.min2maj[i] == m.ndim - 1 - i;
    }
  }
  if (!ok) {
    vio(V_SELF,
        "tensor s%d: the ways of reading it disagree (resolve status %d ndim %ld/%ld/%ld len %u for %ld bytes, storage of %ld "
        "elements for %ld) %s", slot, m.r_status, (long)m.ndim, (long)m.s_ndim, (long)m.r_ndim, m.r_len, (long)(n * m.dsize),
        (long)m.st_size, (long)n, when);
    return false;
  }
  return true;
}

// does the live tensor still hold exactly the value the model says it holds?
bool check_value(int i, const char* when, int kind = V_OPERAND) {
  Slot& s = S[i];
  AdMeta m;
  if (!self_check(s.h, m, i, when)) return false;
  bool same = m.ndim == (int64_t)s.m.dims.size() && m.dcode == s.m.dt && m.dev_type == s.m.devt && m.dev_id == s.m.devi;
  for (int64_t k = 0; same && k < m.ndim; k++) same = m.dims[k] == s.m.dims[k];
  if (!same) {
    vio(kind, "shape, type or device of tensor s%d changed %s", i, when);
    return false;
  }
  if (memcmp(m.data, s.m.b.data(), s.m.b.size())) {
    size_t k = 0;
    while (((char*)m.data)[k] == (char)s.m.b[k]) k++;
    vio(kind, "data of tensor s%d changed %s (first at element %zu)", i, when, k / (size_t)m.dsize);
    return false;
  }
  return true;
}

bool visible(int i, int thr) {
  if (!thr) return true;
  return i < 8 || (i >= 8 + (thr - 1) * 12 && i < 8 + thr * 12);
}

void check_bystanders(int thr, int except, const char* when) {
  for (int i = 0; i < NSLOT; i++)
    if (S[i].live && i != except && visible(i, thr)) check_value(i, when);
}

void mark(int slot) {
  for (char* q : rt_got()) {
    Block* b = rt_find(q);
    if (b && b->p == q && b->live && b->owner == OWN_LIB && b->slot < 0) b->slot = slot;
  }
}
// library blocks obtained in the last call and still held
int retained(std::string* desc = nullptr) {
  int n = 0;
  std::vector<char*> g = rt_got();
  std::sort(g.begin(), g.end());
  g.erase(std::unique(g.begin(), g.end()), g.end());
  for (char* q : g) {
    Block* b = rt_find(q);
    if (b && b->p == q && b->live && b->owner == OWN_LIB && b->slot < 0) {
      n++;
      if (desc) *desc += (desc->empty() ? "" : ", ") + ("#" + std::to_string(b->ord) + " of " + std::to_string(b->size) + " bytes");
    }
  }
  return n;
}
void disown() {  // forget leaked blocks so that they are reported once
  for (char* q : rt_got()) {
    Block* b = rt_find(q);
    if (b && b->live && b->slot < 0) b->slot = -2;
  }
}

// the allocator pair the caller installed is the one in force
int g_which;
void check_installed(const char* what) {
  static void* (*const AL[3])(unsigned long) = {sim_malloc, sim_alloc1, sim_alloc2};
  static void (*const DE[3])(void*) = {sim_free, sim_free1, sim_free2};
  if (!ad_installed(AL[g_which], DE[g_which])) vio(V_BYPASS, "%s replaced the allocator the caller had installed", what);
}

void do_destroy(int i, int twice, const char* when) {
  Slot& s = S[i];
  int tl = rt_self();
  void** hp = (void**)rt_caller_alloc(sizeof(void*));
  *hp = s.h;
  // from here on the memory may serve another caller
  s.live = false;
  s.h = nullptr;
  int opid = SH->cur_op[tl];
  SH->destroying[tl] = i + 1;
  rt_op_enter(opid, Fault());
  int st = ad_destroy(hp);
  rt_op_leave();
  check_installed("destroy");
  if (st != S_OK) vio(V_DESTROY, "destroying a live tensor returned %s %s", st_name(st), when);
  if (*hp) vio(V_DESTROY, "the handle is not cleared by destroying the tensor %s", when);
  for (int k = 0; k < twice && !*hp; k++) {
    rt_op_enter(opid, Fault());
    st = ad_destroy(hp);
    int al = rt_op_leave().allocs;
    if (st != S_OK || *hp) vio(V_DESTROY, "destroying a cleared handle returned %s %s", st_name(st), when);
    if (al) vio(V_DESTROY, "destroying a cleared handle allocated memory");
  }
  SH->destroying[tl] = 0;
  int n = 0, adopted = 0;
  size_t bytes = 0;
  for (auto& kv : rt_blocks())
    if (kv.second.live && kv.second.slot == i) {
      n++;
      bytes += kv.second.size;
      if (kv.second.locked) adopted++;
      kv.second.slot = -2;
    }
  if (adopted) vio(V_ADOPT, "the buffer handed over to tensor s%d was not released with it %s", i, when);
  else if (n) vio(V_LEAK, "destroying tensor s%d left %d of its blocks (%zu bytes) allocated %s", i, n, bytes, when);
  s.m = MT();
  rt_caller_free(hp);
  SH->odigest = fnv64(SH->odigest, 0xDE57);
}

uint64_t out_digest(int st, const MT* t, bool data) {
  uint64_t h = fnv64(1469598103934665603ull, (uint64_t)st + 1);
  if (t) {
    h = fnv64(h, t->dt * 64 + t->devt * 8 + t->devi);
    h = fnv(h, t->dims.data(), t->dims.size() * 8);
    if (data) h = fnv(h, t->b.data(), t->b.size());
  }
  return h;
}

struct Attempt {
  int status = -1;
  bool fired = false, produced = false, failed = false;
  int allocs = 0;
};

void dropout_stats(const Op& op, const MT& in, const MT& out) {
  int es = DT_SIZE[in.dt];
  int64_t n = in.n();
  std::vector<uint8_t> mask((size_t)n);
  std::vector<uint8_t> zero(8, 0);
  int64_t z = 0;
  // an element that is zero already says nothing about the mask
  for (int64_t i = 0; i < n; i++)
    if (!memcmp(zero.data(), &in.b[i * es], es)) return;
  for (int64_t i = 0; i < n; i++) {
    bool kept = !memcmp(&in.b[i * es], &out.b[i * es], es);
    bool zr = !memcmp(zero.data(), &out.b[i * es], es);
    mask[i] = zr;
    (void)kept;
    z += zr;
  }
  if (!D.active) {
    D = DS();
    D.active = true;
    D.n = n;
    D.rate = op.dval;
  }
  if (D.n != n || D.rate != op.dval) return;
  D.masks++;
  D.zeros += z;
  D.elems += n;
  double r = op.dval;
  auto cmp = [&](const std::vector<uint8_t>& a, const char* what) {
    int64_t both = 0;
    for (int64_t i = 0; i < n; i++) both += a[i] & mask[i];
    double e = r * r * n;
    bool same = a == mask;
    // identical masks by chance: probability (r^2+(1-r)^2)^n
    if (same && n * std::log(r * r + (1 - r) * (1 - r)) < -50)
      vio(V_DROPSAME, "%s masks of %ld elements at rate %g are identical", what, (long)n, r);
    else if (r > 0 && r < 1 && surprise(both, n, r * r) > 32)
      vio(V_DROPSAME, "%s masks at rate %g are correlated: %ld elements dropped in both, %.0f expected", what, r, (long)both, e);
  };
  if (!D.prev.empty()) cmp(D.prev, "successive");
  if (D.masks > 2 && !D.first.empty()) cmp(D.first, "two");
  // any two masks of the session
  if (n * std::log(r * r + (1 - r) * (1 - r)) < -50 && !D.seen.insert(fnv(1469598103934665603ull, mask.data(), mask.size())).second)
    vio(V_DROPSAME, "mask %ld of the session, %ld elements at rate %g, repeats an earlier one", (long)D.masks, (long)n, r);
  if (D.first.empty()) D.first = mask;
  D.prev = mask;
  double ez = r * D.elems, sz = std::sqrt(D.elems * r * (1 - r));
  if (r > 0 && r < 1 ? surprise(D.zeros, D.elems, r) > 32 : D.zeros != (int64_t)ez)
    vio(V_DROPRATE, "%ld of %ld elements dropped at rate %g (%.0f expected, %.1f standard deviations)", (long)D.zeros,
        (long)D.elems, r, ez, std::fabs(D.zeros - ez) / (sz > 0 ? sz : 1));
  if (r > 0 && r < 1) {
    D.pos.resize((size_t)n);
    for (int64_t i = 0; i < n; i++) D.pos[i] += mask[i];
    for (int64_t i = 0; i < n; i++)
      if (surprise(D.pos[i], D.masks, r) > 45) {
        vio(V_DROPRATE, "element %ld was dropped by %ld of %ld masks at rate %g", (long)i, (long)D.pos[i], (long)D.masks, r);
        break;
      }
    for (int l = 0; l < 14; l++) {
      int64_t L = LAGS[l];
      for (int64_t i = 0; i + L < n; i++) {
        int odd = (i / L) & 1;
        D.lag[odd][l] += mask[i] & mask[i + L];
        D.lagn[odd][l]++;
      }
      for (int odd = 0; odd < 2; odd++)
        if (surprise(D.lag[odd][l], D.lagn[odd][l], r * r) > 45)
          vio(V_DROPRATE, "elements %ld apart are dropped together %ld times of %ld, %.0f expected at rate %g", (long)L,
              (long)D.lag[odd][l], (long)D.lagn[odd][l], r * r * D.lagn[odd][l], r);
    }
  }
  SH->dstat[0] += 1;
  SH->dstat[1] += (double)n;
}

// one call of the operation under one fault
Attempt attempt(const Op& op, const Expect& e, const std::vector<const MT*>& inm, const Fault& f, bool retry,
                bool keep, uint64_t& dig) {
  Attempt r;
  int tl = rt_self();
  const char* kn = KIND_NAME[op.kind];
  SH->fault_this[tl] = 0;
  SH->invalid_this[tl] = e.invalid();
  SH->retry_this[tl] = retry;
  CallerArr ca;
  AdArgs a;
  memset(&a, 0, sizeof a);
  a.kind = op.kind;
  for (int k = 0; k < op.nin; k++) a.in[k] = S[op.in[k]].h;
  void** hp = (void**)rt_caller_alloc(sizeof(void*));
  void* preset = nullptr;
  if (op.preset == 1) preset = (void*)JUNK;
  if (op.preset == 2) {
    for (int i = 0; i < NSLOT; i++)
      if (S[i].live && visible(i, op.phase == 1 ? op.thr : 0)) { preset = S[i].h; break; }
  }
  *hp = preset;
  a.out = hp;
  a.dtype = op.dtype;
  a.dev_type = op.devt;
  a.dev_id = op.devi;
  a.dims = ca.add(op.dims);
  a.ndim = (int64_t)op.dims.size();
  if (op.kind == K_SQUEEZE) {
    a.axes = op.dims.empty() && (op.dseed & 1) ? nullptr : a.dims;
    a.naxes = op.axis < 0 ? op.axis : a.ndim;
  }
  a.pa = ca.add(op.pa);
  a.pb = ca.add(op.pb);
  a.pc = ca.add(op.pc);
  a.pd = ca.add(op.pd);
  a.groups = op.groups;
  a.axis = op.axis;
  if (op.kind == K_POOLING) a.mode = ca.add_str(op.mode);
  a.dval = op.dval;
  char* buf = nullptr;
  std::vector<char> bufcopy;
  if (op.kind == K_CREATE && op.dmode == 1) {
    size_t need = e.out.b.size();
    size_t len = op.dlen >= 0 ? (size_t)op.dlen : need;
    size_t sz = std::max(len, (size_t)1);
    buf = (char*)rt_caller_alloc(sz);
    for (size_t i = 0; i < sz; i++) buf[i] = i < need ? (char)e.out.b[i] : (char)0x77;
    bufcopy.assign(buf, buf + sz);
    a.data = buf;
    a.len = (unsigned)len;
  }
  rt_scrub_stack((unsigned)C.scrub & 255);
  rt_op_enter(op.id, f);
  int st = ad_call(&a);
  OpStat os = rt_op_leave();
  r.status = st;
  r.fired = os.fired > 0;
  r.allocs = os.allocs;
  SH->ops_lib++;
  SH->opkind_count[op.kind]++;
  if (r.fired) { SH->ops_faulted++; SH->fired_ops[f.kind ? f.kind : (int)F_CAPACITY]++; }
  rt_trace("  op %d %s%s -> %s", op.id, kn, retry ? " (again)" : "", st_name(st));
  SH->hash = fnv64(fnv64(SH->hash, op.id), st);
  if (e.huge) SH->fault_this[tl] = 1;
  check_installed(kn);
  ca.finish(kn);
  void* h = *hp;
  bool touched = h != preset;

  if (st != S_OK) {
    r.failed = true;
    SH->ops_rejected++;
    if (st < 0 || st >= S_N) vio(e.invalid() ? V_CODE : V_STATUS, "%s returned %d, which is no status", kn, st);
    else if (r.fired && (f.kind || !e.invalid() || st != S_ALLOC)) {
      bool ok = st == S_ALLOC || e.any_reject || std::find(e.rejects.begin(), e.rejects.end(), st) != e.rejects.end();
      if (!ok) vio(V_FAULT_REPORT, "%s with allocation failing returned %s, not ALLOC_FAILED", kn, st_name(st));
    } else if (!e.invalid()) {
      if (!e.may_reject) vio(V_STATUS, "%s on valid arguments returned %s", kn, st_name(st));
    } else if (SH->opkind_rej[op.kind]++; !e.any_reject && std::find(e.rejects.begin(), e.rejects.end(), st) == e.rejects.end()) {
      std::string w;
      for (int x : e.rejects) w += (w.empty() ? "" : " or ") + std::string(st_name(x));
      vio(V_CODE, "invalid %s returned %s, documented is %s", kn, st_name(st), w.c_str());
    }
    // the handle: untouched, cleared, or a complete tensor the caller can destroy
    if (touched && h) {
      Block* b = rt_find(h);
      bool mine = false;
      for (char* q : rt_got()) mine |= b && b->live && q == b->p && (char*)h == q;
      AdMeta m;
      int nv = SH->nvio;
      if (!mine) {
        vio(V_HANDLE, "failed %s left a handle that leads nowhere in the output", kn);
      } else if (!self_check(h, m, -1, "(output of a failed call)")) {
        if (SH->nvio > nv) SH->vio[nv].kind = V_HANDLE;
      } else {
        std::vector<char*> got = rt_got();
        mark(op.out);
        SH->destroying[tl] = op.out + 1;
        rt_op_enter(op.id, Fault());
        int ds = ad_destroy(hp);
        rt_op_leave();
        SH->destroying[tl] = 0;
        if (ds != S_OK || *hp) vio(V_HANDLE, "what failed %s left in the output cannot be destroyed", kn);
        for (char* q : got) {
          Block* x = rt_find(q);
          if (x && x->p == q && x->live && x->slot == op.out) x->slot = -1;
        }
        rt_got() = got;
      }
    }
    std::string desc;
    int n = retained(&desc);
    if (n) {
      vio(V_LEAK, "%s returned %s but keeps %d block(s): allocation %s", kn, st_name(st), n, desc.c_str());
      disown();
    }
    if (buf) {  // still the caller's
      Block* b = rt_find(buf);
      if (!b || !b->live) { if (b && b->freed_op != -2) vio(V_ADOPT, "failed %s released the caller's data buffer", kn); }
      else if (memcmp(buf, bufcopy.data(), bufcopy.size())) vio(V_ARG, "failed %s changed the caller's data buffer", kn);
      rt_caller_free(buf);
    }
    dig = out_digest(st, nullptr, false);
    rt_caller_free(hp);
    return r;
  }

  SH->ops_ok++;
  SH->opkind_ok[op.kind]++;
  if (e.huge) {
    AdMeta m;
    SH->fault_this[tl] = 0;
    Block* b = h ? rt_find(h) : nullptr;
    if (b && b->live && h != (void*)JUNK) self_check(h, m, op.out, "(new result)");
    SH->fault_this[tl] = 1;
    vio(V_FAULT_SUCCESS, "%s reported success for a result of %s elements, more than all memory there is", kn, dims_str(e.out.dims).c_str());
    g_stop = true;
    dig = out_digest(st, nullptr, false);
    return r;
  }
  if (e.invalid()) {
    std::string w;
    if (e.any_reject) w = "an error";
    for (int x : e.rejects) w += (w.empty() ? "" : " or ") + std::string(st_name(x));
    vio(V_ACCEPTED, "%s succeeded on arguments that call for %s", kn, w.c_str());
    g_stop = true;
    dig = out_digest(st, nullptr, false);
    return r;
  }
  int wrong = r.fired ? V_FAULT_SUCCESS : V_DATA;
  if (!touched && e.may_untouched) {
    std::string desc;
    if (retained(&desc)) {
      vio(V_LEAK, "%s produced nothing but keeps allocation %s", kn, desc.c_str());
      disown();
    }
    dig = out_digest(st, nullptr, false);
    rt_caller_free(hp);
    return r;
  }
  // a new tensor
  Block* b = h ? rt_find(h) : nullptr;
  bool other = false;
  for (int i = 0; i < NSLOT; i++) other |= S[i].live && S[i].h == h;
  if (!b || !b->live || h == (void*)JUNK || (!touched && preset != nullptr) || other) {
    if (r.fired) vio(V_FAULT_SUCCESS, "%s reported success after a failed allocation without producing a tensor", kn);
    else if (other) vio(V_ALIAS, "%s returned an existing tensor instead of a new one", kn);
    else vio(V_META, "%s reported success without producing a tensor", kn);
    g_stop = true;
    return r;
  }
  if (buf) {
    Block* bb = rt_find(buf);
    if (!bb || !bb->live) vio(V_ADOPT, "%s released the buffer it was handed", kn);
    else {
      bb->locked = true;
      bb->slot = op.out;
      bb->op = op.id;
    }
  }
  mark(op.out);
  AdMeta m;
  int nv = SH->nvio;
  if (!self_check(h, m, op.out, "(new result)")) {
    if (r.fired && SH->nvio > nv) SH->vio[nv].kind = V_FAULT_SUCCESS;
    g_stop = true;
    return r;
  }
  // every block it consists of must be its own
  for (const void* q : {(const void*)m.data, (const void*)m.dims, (const void*)ad_p_storage(h)}) {
    Block* x = q ? rt_find(q) : nullptr;
    if (x && (x->slot != op.out)) {
      int other_owner = x->slot;
      if (P->prop == "C03" && other_owner >= 0 && other_owner < NSLOT && S[other_owner].live && !op.phase) {
        // two owners: does destroying both release the block twice?
        S[op.out].live = true;
        S[op.out].h = h;
        do_destroy(other_owner, 0, "(it shares memory with a new result)");
        if (!SH->nvio) do_destroy(op.out, 0, "(it shares memory with another tensor)");
        g_stop = true;
        if (SH->nvio) return r;
      }
      if (other_owner >= 0)
        vio(V_ALIAS, "%s: the result shares memory with tensor s%d", kn, x->slot);
      else
        vio(V_ALIAS, "%s: the result uses memory it does not own", kn);
      g_stop = true;
      return r;
    }
  }
  bool meta_ok = m.ndim == (int64_t)e.out.dims.size() && m.dcode == e.out.dt && m.dev_type == e.out.devt && m.dev_id == e.out.devi;
  for (int64_t k = 0; meta_ok && k < m.ndim; k++) meta_ok = m.dims[k] == e.out.dims[k];
  if (!meta_ok) {
    vio(r.fired ? V_FAULT_SUCCESS : V_META, "%s: result is %s%s on device %d/%d, the model says %s%s on %d/%d", kn,
        DT_NAME[m.dcode], dims_str(std::vector<int64_t>(m.dims, m.dims + m.ndim)).c_str(), m.dev_type, m.dev_id,
        DT_NAME[e.out.dt], dims_str(e.out.dims).c_str(), e.out.devt, e.out.devi);
    g_stop = true;
    return r;
  }
  size_t nb = (size_t)(m.size * m.dsize);
  Slot ns;
  ns.live = true;
  ns.h = h;
  ns.m.dt = m.dcode;
  ns.m.devt = m.dev_type;
  ns.m.devi = m.dev_id;
  ns.m.dims.assign(m.dims, m.dims + m.ndim);
  bool datadig = true;
  if (op.kind == K_CREATE && buf && m.data != buf) {
    vio(V_ADOPT, "the tensor does not use the buffer it was given");
  }
  if (e.undef_data) {
    if (op.kind == K_CREATE) memcpy(m.data, e.out.b.data(), nb);
    else {
      MT t = e.out;
      gen_data(t, 1, op.dseed);
      memcpy(m.data, t.b.data(), nb);
    }
    SH->undefined_skipped++;
  } else if (e.is_dropout) {
    const MT& x = *inm[0];
    int es = m.dsize;
    char z[8] = {0};
    int64_t bad = -1;
    for (int64_t i = 0; i < m.size && bad < 0; i++) {
      const char* o = (char*)m.data + i * es;
      bool kept = !memcmp(o, &x.b[i * es], es), zr = !memcmp(o, z, es);
      if (!kept && !zr) bad = i;
      if (op.dval == 0 && !kept) bad = i;
      if (op.dval == 1 && !zr) bad = i;
    }
    if (bad >= 0)
      vio(r.fired ? V_FAULT_SUCCESS : V_DROPOUT, "dropout rate %g: element %ld is neither kept nor zeroed as the rate demands",
          op.dval, (long)bad);
    datadig = false;
    SH->model_checked++;
  } else {
    char why[200];
    if (model_compare(e, m.data, why, sizeof why) >= 0) vio(wrong, "%s: %s", kn, why);
    SH->model_checked++;
    SH->opkind_model[op.kind]++;
  }
  ns.m.b.assign((uint8_t*)m.data, (uint8_t*)m.data + nb);
  dig = out_digest(st, &ns.m, datadig);
  r.produced = true;
  if (e.is_dropout && op.idx == 1 && !r.fired) dropout_stats(op, *inm[0], ns.m);
  SH->hash = fnv(SH->hash, ns.m.b.data(), ns.m.b.size());
  S[op.out] = std::move(ns);
  rt_caller_free(hp);
  if (!keep) do_destroy(op.out, 0, "(trial call)");
  return r;
}

void run_lib(const Op& op) {
  int tl = rt_self();
  int thr = op.phase == 1 ? op.thr : 0;
  for (int k = 0; k < op.nin; k++)
    if (op.in[k] < 0 || op.in[k] >= NSLOT || !S[op.in[k]].live || op.in[k] == op.out) { SH->ops_skipped++; return; }
  std::vector<const MT*> in;
  for (int k = 0; k < op.nin; k++) in.push_back(&S[op.in[k]].m);
  Expect e = model_eval(op, in);
  if (e.skip || (C.no_failing && e.invalid()) || (C.no_faults && e.huge)) { SH->ops_skipped++; return; }
  SH->cur_op[tl] = op.id;
  if (S[op.out].live) do_destroy(op.out, 0, "(slot reused)");
  uint64_t dig = 0;
  Fault f = op.fault;
  int sweep = op.sweep;
  if (C.no_faults || C.no_failing) f = Fault(), sweep = 0;
  auto after = [&](bool failed) {
    check_bystanders(thr, op.out, failed ? "by a failed call" : "by a call that had no business with it");
    return SH->nvio > 0 || g_stop;
  };
  Attempt r;
  if (sweep) {
    int64_t base = f.a;
    if (base) {
      r = attempt(op, e, in, Fault(), false, false, dig);
      if (after(r.failed)) return;
      base = r.allocs ? base % r.allocs : 0;
    }
    for (int64_t k = base; k < base + sweep; k++) {
      r = attempt(op, e, in, Fault{F_KTH, k, 0}, k > base, false, dig);
      if (after(r.failed)) return;
      if (!r.fired) break;
      SH->fault_before = 1;
    }
    f = Fault();
  }
  if (op.probe && f.kind) {
    r = attempt(op, e, in, Fault(), false, false, dig);
    if (after(r.failed)) return;
    if (r.allocs > 0) f.a = f.a % r.allocs;
  }
  r = attempt(op, e, in, f, sweep > 0, true, dig);
  if (after(r.failed)) return;
  if (r.fired) SH->fault_before = 1;
  if (r.failed && r.fired && op.retry) {
    SH->ops_retried++;
    r = attempt(op, e, in, Fault(), true, true, dig);
    if (after(r.failed)) return;
  }
  if (op.id < MAXOPS) {
    SH->opdig[op.id] = dig;
    SH->opst[op.id] = r.status + 1;
  }
  SH->fault_this[tl] = SH->invalid_this[tl] = SH->retry_this[tl] = 0;
  SH->odigest = fnv64(SH->odigest, dig);
}

void install(int which) {
  g_which = which;
  rt_set_installed(which);
  if (which == 1) ad_install(sim_alloc1, sim_free1);
  else if (which == 2) ad_install(sim_alloc2, sim_free2);
  else ad_install(sim_malloc, sim_free);
}

// element addressing on a live tensor: nothing may change, every way agrees
void run_index(const Op& op) {
  if (op.in[0] < 0 || op.in[0] >= NSLOT || !S[op.in[0]].live) { SH->ops_skipped++; return; }
  Slot& s = S[op.in[0]];
  int64_t nd = (int64_t)s.m.dims.size(), n = s.m.n();
  if (!n) { SH->ops_skipped++; return; }
  size_t bytes = (size_t)nd * 8;
  AdIndex* x = (AdIndex*)rt_caller_alloc(sizeof(AdIndex));
  memset(x, 0x5A, sizeof *x);
  x->coords = (int64_t*)rt_caller_alloc(bytes);
  x->back = (int64_t*)rt_caller_alloc(bytes);
  x->strides = (int64_t*)rt_caller_alloc(bytes);
  x->stride1 = (int64_t*)rt_caller_alloc(bytes);
  for (int64_t* q : {x->coords, x->back, x->strides, x->stride1}) memset(q, 0x5A, bytes);
  int64_t i = op.idx % n;
  x->lin = i;
  rt_op_enter(op.id, Fault());
  ad_index(s.h, x);
  int al = rt_op_leave().allocs;
  (void)al;
  int64_t st = 1, c = i;
  bool ok = x->lin2 == i && x->offset == i;
  for (int64_t d = nd - 1; d >= 0 && ok; d--) {
    int64_t co = c % s.m.dims[d];
    c /= s.m.dims[d];
    ok = x->strides[d] == st && x->stride1[d] == st && x->coords[d] == co && x->back[d] == co;
    st *= s.m.dims[d];
  }
  if (!ok) vio(V_DATA, "position %ld of tensor s%d %s: coordinates, positions and strides do not fit together (back to %ld, offset %ld)", (long)i,
               op.in[0], dims_str(s.m.dims).c_str(), (long)x->lin2, (long)x->offset);
  int es = DT_SIZE[s.m.dt];
  if (ok && (memcmp(x->v_array, &s.m.b[i * es], es) || memcmp(x->v_addr, &s.m.b[i * es], es)))
    vio(V_DATA, "reading element %ld of tensor s%d gives another value than the one stored there", (long)i, op.in[0]);
  for (int k = es; k < 8; k++)
    if (x->v_array[k] != 0x5A || x->v_addr[k] != 0x5A) { vio(V_ARG, "reading an element of %d bytes wrote more than it", es); break; }
  for (int64_t* q : {x->coords, x->back, x->strides, x->stride1}) rt_caller_free(q);
  rt_caller_free(x);
  SH->model_checked++;
  check_bystanders(op.phase == 1 ? op.thr : 0, -1, "when an element was read");
}

void run_bcast(const Op& op) {
  std::vector<int64_t> a = op.dims, b(op.pa.begin(), op.pa.end());
  size_t n = std::max(a.size(), b.size());
  std::vector<int64_t> want(n, 1);
  bool match = true;
  for (size_t k = 0; k < n; k++) {
    int64_t x = k < a.size() ? a[a.size() - 1 - k] : 1, y = k < b.size() ? b[b.size() - 1 - k] : 1;
    if (x != y && x != 1 && y != 1) match = false;
    want[n - 1 - k] = x == 1 ? y : x;
  }
  CallerArr ca;
  int64_t *pa = ca.add(a), *pb = ca.add(b);
  int64_t* o = (int64_t*)rt_caller_alloc(n * 8);
  memset(o, 0x5A, n * 8);
  SH->invalid_this[rt_self()] = !match;
  rt_op_enter(op.id, Fault());
  int st = ad_bcast(pa, (int64_t)a.size(), pb, (int64_t)b.size(), o, (int64_t)n);
  rt_op_leave();
  ca.finish("broadcast");
  if (!match) {
    if (st == S_OK) vio(V_ACCEPTED, "shapes %s and %s were combined", dims_str(a).c_str(), dims_str(b).c_str());
    else if (st != S_DIM) vio(V_CODE, "shapes %s and %s were refused with %s", dims_str(a).c_str(), dims_str(b).c_str(), st_name(st));
  } else if (st != S_OK) {
    vio(V_STATUS, "shapes %s and %s were refused with %s", dims_str(a).c_str(), dims_str(b).c_str(), st_name(st));
  } else if (n && memcmp(o, want.data(), n * 8)) {
    vio(V_DATA, "shapes %s and %s combine to %s, not %s", dims_str(a).c_str(), dims_str(b).c_str(), dims_str(want).c_str(),
        dims_str(std::vector<int64_t>(o, o + n)).c_str());
  }
  rt_caller_free(o);
  SH->model_checked++;
  SH->odigest = fnv64(SH->odigest, (uint64_t)st + 7);
}

void run_op(const Op& op) {
  if (g_stop || SH->nvio) return;
  if (op.noise && C.skip_noise) return;
  int tl = rt_self();
  SH->cur_op[tl] = op.id;
  SH->fault_this[tl] = SH->invalid_this[tl] = SH->retry_this[tl] = 0;
  if (g_trace) rt_trace("%s%s", op_text(op).c_str(), op.phase == 1 ? ("   [caller " + std::to_string(tl) + "]").c_str() : "");
  switch (op.kind) {
    case K_DESTROY:
      if (op.in[0] < 0 || op.in[0] >= NSLOT || !S[op.in[0]].live) { SH->ops_skipped++; return; }
      do_destroy(op.in[0], op.twice, "");
      check_bystanders(op.phase == 1 ? op.thr : 0, -1, "when another tensor was destroyed");
      break;
    case K_POKE: {
      if (op.in[0] < 0 || op.in[0] >= NSLOT || !S[op.in[0]].live) { SH->ops_skipped++; return; }
      Slot& s = S[op.in[0]];
      if (!s.m.n()) { SH->ops_skipped++; return; }
      MT one;
      one.dt = s.m.dt;
      gen_data(one, op.style, op.dseed);
      int64_t i = op.idx % s.m.n();
      void* v = rt_caller_alloc(one.b.size());
      memcpy(v, one.b.data(), one.b.size());
      rt_op_enter(op.id, Fault());
      if (op.axis == 0) ad_set_item(s.h, i, v);
      else ad_write(s.h, i, v, op.axis);
      rt_op_leave();
      rt_caller_free(v);
      memcpy(&s.m.b[i * DT_SIZE[s.m.dt]], one.b.data(), one.b.size());
      check_value(op.in[0], "after writing one element of it", V_DATA);
      check_bystanders(op.phase == 1 ? op.thr : 0, op.in[0], "when an element of another tensor was written");
      break;
    }
    case K_INDEX: run_index(op); break;
    case K_BCAST: run_bcast(op); break;
    case K_CHECK: check_bystanders(op.phase == 1 ? op.thr : 0, -1, "at a check point"); break;
    case K_INSTALL:
      for (int i = 0; i < NSLOT; i++)
        if (S[i].live) do_destroy(i, 0, "(before changing the allocator)");
      if (!SH->nvio) install((int)op.idx);
      break;
    case K_CLOCK: rt_clock_advance(op.idx); break;
    default: run_lib(op);
  }
  SH->ops_done++;
}

void body(int t, void*) {
  for (auto& op : P->ops)
    if (op.phase == 1 && op.thr == t) {
      SH->cur_op[t] = op.id;
      rt_point();
      run_op(op);
    }
}
}  // namespace

// A run ends at the first observation that bears on its property; the others are counted and the run
// goes on, so that a fault of another kind does not hide what the property is about.
static uint64_t quiet_for(const std::string& prop) {
  auto in = [&](const char* l) { return strstr(l, prop.c_str()) != nullptr; };
  uint64_t q = 0;
  if (!in("C01 C02 C04 C08")) q |= 1ull << V_LEAK;
  if (!in("C08 C13")) q |= 1ull << V_CODE;
  if (!in("C01 C04 C08")) q |= 1ull << V_HANDLE;
  if (!in("C01 C04 C05 C08")) q |= 1ull << V_ARG;
  if (!in("C03 C04 C08")) q |= 1ull << V_BYPASS;
  if (!in("C08 C12")) q |= 1ull << V_DROPOUT | 1ull << V_DROPRATE | 1ull << V_DROPSAME;
  if (in("C01 C02 C03 C05 C06 C07 C13 C14")) q |= 1ull << V_STATUS;
  if (in("C02 C03 C05 C07 C13 C14")) q |= 1ull << V_DATA;
  return q;
}

void exec_plan(const Plan& p, const ExecCfg& c) {
  P = &p;
  C = c;
  rt_quiet(quiet_for(p.prop));
  RtCfg r = p.rt;
  if (c.fill >= 0) r.fill = c.fill;
  if (c.policy >= 0) r.policy = c.policy;
  if (c.serial) r.serial = true;
  rt_begin(r);
  SH->phase = 1;
  install(p.allocator);
  for (auto& op : p.ops)
    if (op.phase == 0) run_op(op);
  if (p.nthr > 0) rt_threads_run(p.nthr, body, nullptr);
  for (auto& op : p.ops)
    if (op.phase == 2) run_op(op);
  SH->cur_op[0] = -1;
  if (!SH->nvio) {
    check_bystanders(0, -1, "at the end of the session");
    if (!SH->nvio)
      for (int i = 0; i < NSLOT; i++)
        if (S[i].live && !SH->nvio) do_destroy(i, 0, "(end of session)");
    if (!SH->nvio) {
      size_t n = 0, bytes = 0;
      for (auto& kv : rt_blocks())
        if (kv.second.live && kv.second.owner == OWN_LIB) n++, bytes += kv.second.size;
      if (n) vio(V_LEAK, "%zu block(s), %zu bytes still allocated after every tensor was destroyed", n, bytes);
    }
  }
  SH->hash = fnv64(fnv64(SH->hash, SH->odigest), SH->events);
  SH->phase = 2;
}
