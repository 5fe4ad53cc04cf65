// Simulated histories over the C++ handle classes of the test library: every
// construction, copy, move, assignment, replacement and destruction is an event
// of a seeded plan, operator new / malloc fail where the plan says so, and a
// small model says which blocks have to be alive and what they hold.
#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <fstream>
#include <functional>
#include <sstream>

#include "hadapter.h"
#include "rt.h"

static const char* PROP = "C15";
enum HK { H_DEF, H_RAW, H_VEC, H_COPY, H_MOVE, H_ASSIGN, H_SAMPLE, H_SET_INPUT, H_SET_RESULT, H_BINARY, H_SET_DATA, H_DEVICE, H_POKE, H_DESTROY, H_NK };
static const char* HK_NAME[] = {"construct_default", "construct", "construct_vector", "copy", "move", "assign", "construct_sample", "set_input",
                                "set_result", "get_binary_sample", "set_data", "to_device", "write_data", "destroy"};
static const char* T_NAME[] = {"Unary_Input", "Binary_Input", "Result", "Sample<Unary_Input>", "Sample<Binary_Input>"};
// slots: 0-5 U, 6-11 B, 12-17 R, 18-21 SU, 22-25 SB; a reference names a slot
// or (+100) the input / (+200) the result inside a sample slot
enum { NS = 26 };
static int slot_type(int s) { return s < 6 ? HU : s < 12 ? HB : s < 18 ? HR : s < 22 ? HSU : HSB; }
static int ref_type(int r) {
  int t = slot_type(r % 100);
  if (r >= 200) return HR;
  if (r >= 100) return t == HSU ? HU : HB;
  return t;
}

struct HOp {
  int id = 0, k = 0, a = 0, b = 0;
  uint64_t seed = 1;
  Fault f;
};
// histories that run into a recorded finding (findings/C15-*.plan) and are left
// out while that finding stands
enum { KN_SELF = 1, KN_MOVED = 2, KN_COUNT = 4, KN_RASSIGN = 8, KN_REPLACE = 16, KN_BINARY = 32 };
struct HPlan {
  int known = 0;
  uint64_t seed = 0, index = 0;
  RtCfg rt;
  std::vector<HOp> ops;
  std::string vkind, vop;
};

static std::string hop_text(const HOp& o) {
  char b[200];
  snprintf(b, sizeof b, "op id=%d k=%s a=%d b=%d s=%lu f=%d:%ld:%ld", o.id, HK_NAME[o.k], o.a, o.b, o.seed, o.f.kind, (long)o.f.a, (long)o.f.b);
  return b;
}
static std::string hplan_text(const HPlan& p) {
  std::ostringstream s;
  s << "# aitisa_api simulated execution (replay: bash /verif/bin/replay.sh <this file>)\nprop " << PROP << "\norigin seed=" << p.seed
    << " run=" << p.index << "\n";
  if (!p.vkind.empty()) s << "expect " << p.vkind << " in " << p.vop << "\n";
  s << "cfg policy=" << p.rt.policy << " fill=" << p.rt.fill << " mem_seed=" << p.rt.mem_seed << " known=" << p.known << "\n";
  for (auto& o : p.ops) s << hop_text(o) << "\n";
  s << "end\n";
  return s.str();
}
static bool hplan_parse(const std::string& t, HPlan& p) {
  std::stringstream in(t);
  std::string line;
  while (std::getline(in, line)) {
    std::stringstream ls(line);
    std::string w, kv;
    ls >> w;
    if (w == "end") return true;
    if (w == "expect") { std::string x; ls >> p.vkind >> x >> p.vop; continue; }
    if (w != "origin" && w != "cfg" && w != "op") continue;
    HOp o;
    while (ls >> kv) {
      size_t q = kv.find('=');
      if (q == std::string::npos) return false;
      std::string k = kv.substr(0, q), v = kv.substr(q + 1);
      uint64_t u = strtoull(v.c_str(), 0, 10);
      if (w == "origin") (k == "seed" ? p.seed : p.index) = u;
      else if (w == "cfg") {
        if (k == "policy") p.rt.policy = (int)u;
        if (k == "fill") p.rt.fill = (int)u;
        if (k == "known") p.known = (int)u;
        if (k == "mem_seed") p.rt.mem_seed = u;
      } else if (k == "id") o.id = (int)u;
      else if (k == "a") o.a = (int)u;
      else if (k == "b") o.b = (int)u;
      else if (k == "s") o.seed = u;
      else if (k == "k") {
        o.k = -1;
        for (int i = 0; i < H_NK; i++) if (v == HK_NAME[i]) o.k = i;
        if (o.k < 0) return false;
      } else if (k == "f") {
        long a, b;
        if (sscanf(v.c_str(), "%d:%ld:%ld", &o.f.kind, &a, &b) != 3) return false;
        o.f.a = a, o.f.b = b;
      }
    }
    if (w == "op") p.ops.push_back(o);
  }
  return false;
}

static HPlan hgen(uint64_t seed, uint64_t idx) {
  Rng g(seed * 0x9E3779B97F4A7C15ull ^ (idx * 0xD1B54A32D192ED03ull + 17));
  g.next();
  HPlan p;
  p.seed = seed;
  p.index = idx;
  p.rt.mem_seed = g.next() >> 1;
  p.rt.policy = (int)g.below(3);
  int fl[] = {0, 255, 256, 257, 1, 0xA5};
  p.rt.fill = fl[g.below(6)];
  int n = 4 + (int)g.below(g.chance(0.2) ? 120 : 40);
  double pf = g.chance(0.5) ? 0 : 0.1 + 0.4 * g.unit();
  // small working sets make sharing, self-assignment and reuse frequent
  int span = 1 + (int)g.below(4);
  int w[H_NK];
  int base[H_NK] = {6, 12, 8, 14, 8, 16, 8, 8, 14, 6, 5, 4, 6, 16};
  for (int i = 0; i < H_NK; i++) w[i] = base[i] * (int)(1 + g.below(4));
  int tot = 0;
  for (int i : w) tot += i;
  bool up[NS] = {};  // slots that should hold an object by now
  static const int st[] = {0, 6, 12, 18, 22};
  auto slot_of = [&](int t) { return st[t] + (int)g.below(t >= HSU ? std::min(span, 4) : span + 1); };
  auto live_of = [&](int t) {
    int s = slot_of(t);
    for (int k = 0; k < 6 && !up[s]; k++) s = slot_of(t);
    return s;
  };
  auto ref_of = [&](int t) -> int {  // a handle of plain type t, free-standing or inside a sample
    for (int k = 0;; k++) {
      int r;
      if (t >= HSU || g.chance(0.65)) r = slot_of(t);
      else if (t == HU) r = 100 + slot_of(HSU);
      else if (t == HB) r = 100 + slot_of(HSB);
      else r = 200 + slot_of(g.chance(0.5) ? HSU : HSB);
      if (up[r % 100] || k > 8) return r;
    }
  };
  for (int i = 0; i < n; i++) {
    HOp o;
    o.id = i;
    int x = (int)g.below(tot);
    while (x >= w[o.k]) x -= w[o.k++];
    if (i < 3) o.k = g.chance(0.8) ? H_RAW : H_DEF;
    o.seed = g.next() >> 16;
    int t = (int)g.below(5);
    switch (o.k) {
      case H_DEF: o.a = slot_of(t); break;
      case H_RAW: case H_VEC: o.a = slot_of((int)g.below(2)); break;
      case H_COPY: o.a = slot_of(t); o.b = ref_of(t); break;
      case H_MOVE: o.a = slot_of(t); o.b = live_of(t); break;
      case H_ASSIGN: o.a = ref_of(t); o.b = g.chance(0.1) ? o.a : ref_of(t); break;
      case H_SAMPLE: t = HSU + (int)g.below(2); o.a = slot_of(t); o.b = ref_of(t == HSU ? HU : HB); break;
      case H_SET_INPUT: t = HSU + (int)g.below(2); o.a = live_of(t); o.b = ref_of(t == HSU ? HU : HB); break;
      case H_SET_RESULT: t = HR + (int)g.below(3); o.a = live_of(t); o.b = g.chance(0.4) ? ref_of(HR) : -1; if (o.b == -1) o.b = 999; break;
      case H_BINARY: o.a = slot_of(HSB); o.b = ref_of(HB); break;
      case H_SET_DATA: o.a = ref_of((int)g.below(2)); o.b = (int)g.below(2); break;
      case H_DEVICE: o.a = ref_of((int)g.below(2)); o.b = (int)g.below(2); break;
      case H_POKE: o.a = ref_of((int)g.below(3)); o.b = (int)g.below(2); break;
      case H_DESTROY: o.a = live_of(t); break;
    }
    bool allocates = o.k <= H_VEC || o.k == H_SAMPLE || o.k == H_SET_RESULT || o.k == H_BINARY;
    if (allocates && g.chance(pf)) {
      o.f.kind = g.chance(0.8) ? F_KTH : F_FROM;
      o.f.a = (int64_t)g.below(o.k == H_BINARY ? (g.chance(0.5) ? 8 : 40) : 4);
    }
    if (o.k <= H_MOVE || o.k == H_SAMPLE || o.k == H_BINARY) up[o.a % 100] = true;
    if (o.k == H_DESTROY) up[o.a] = false;
    p.ops.push_back(o);
  }
  return p;
}

// ------------------------------------------------------------------ model ----
struct Grp {
  int refs = 0, n = 1;
  void *dims[2] = {}, *data[2] = {};
  std::vector<int64_t> vd[2];
  std::vector<char> vb[2];
};
struct MHd {
  bool live = false, moved = false;
  int g = -1;
  int64_t nd[2] = {0, 0};
  int dt[2] = {0, 0}, dev[2] = {0, 0};
  unsigned len[2] = {0, 0};
};
static std::vector<Grp> G;
static MHd M[NS][2];  // [slot][0]: the handle, or a sample's input; [1]: a sample's result
static void* OBJ[NS];
static bool g_threw, g_unclean;
static int KNOWN;
static const int DS[10] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};

static bool live_block(const void* p, size_t n) {
  Block* b = rt_find(p);
  return b && b->live && (char*)p + n <= b->p + b->size;
}
static MHd& mh(int ref) { return M[ref % 100][ref >= 200 ? 1 : 0]; }
static void* obj(int ref) {
  int s = ref % 100;
  if (ref >= 200) return hx_result(slot_type(s), OBJ[s]);
  if (ref >= 100) return hx_input(slot_type(s), OBJ[s]);
  return OBJ[s];
}
static bool alive(int ref) { return ref % 100 < NS && OBJ[ref % 100] && (ref < 100 || slot_type(ref % 100) >= HSU); }
static std::string rname(int ref) {
  std::string s = std::string(T_NAME[slot_type(ref % 100)]) + " #" + std::to_string(ref % 100);
  return ref >= 200 ? "result of " + s : ref >= 100 ? "input of " + s : s;
}

static void unref(MHd& h, const std::string& who) {
  if (!h.live) return;
  h.live = false;
  if (h.g < 0) return;
  Grp& q = G[h.g];
  h.g = -1;
  if (--q.refs > 0) return;
  for (int i = 0; i < q.n; i++) {
    Block* d = q.dims[i] ? rt_find(q.dims[i]) : nullptr;
    if (d && d->live && d->p == q.dims[i]) vio(V_LEAK, "the dimensions held by %s were not released with the last handle", who.c_str());
    d = q.data[i] ? rt_find(q.data[i]) : nullptr;
    if (d && d->live && d->p == q.data[i]) vio(V_LEAK, "the data held by %s were not released with the last handle", who.c_str());
  }
}
// note which handle a group was last seen through, check after the real call
struct Pending { MHd h; std::string who; };
static void settle(std::vector<Pending>& v) { for (auto& x : v) unref(x.h, x.who); v.clear(); }

static void check_ref(int ref, const char* when) {
  MHd& h = mh(ref);
  if (!h.live || h.g < 0 || h.moved) return;
  HX x;
  memset(&x, 0, sizeof x);
  hx_get(ref_type(ref), obj(ref), &x);
  Grp& q = G[h.g];
  for (int i = 0; i < q.n; i++) {
    if (x.nd[i] != h.nd[i] || x.dt[i] != h.dt[i] || x.dev[i] != h.dev[i] || x.len[i] != h.len[i]) {
      vio(V_HANDLECLASS, "%s: rank/type/device/length are %ld/%d/%d/%u, expected %ld/%d/%d/%u %s", rname(ref).c_str(), (long)x.nd[i], x.dt[i],
          x.dev[i], x.len[i], (long)h.nd[i], h.dt[i], h.dev[i], h.len[i], when);
      return;
    }
    if (!q.dims[i]) {
      if (x.dims[i] || x.data[i]) vio(V_HANDLECLASS, "%s is not empty %s", rname(ref).c_str(), when);
      continue;
    }
    if (!live_block(x.dims[i], q.vd[i].size() * 8)) { vio(V_HANDLECLASS, "the dimensions of %s are gone %s", rname(ref).c_str(), when); return; }
    if (!live_block(x.data[i], q.vb[i].size())) { vio(V_HANDLECLASS, "the data of %s are gone %s", rname(ref).c_str(), when); return; }
    if (q.vd[i].size() && memcmp(x.dims[i], q.vd[i].data(), q.vd[i].size() * 8)) { vio(V_HANDLECLASS, "the dimensions of %s changed %s", rname(ref).c_str(), when); return; }
    if (q.vb[i].size() && memcmp(x.data[i], q.vb[i].data(), q.vb[i].size())) { vio(V_HANDLECLASS, "the data of %s changed %s", rname(ref).c_str(), when); return; }
  }
}
static void check_all(const char* when) {
  for (int s = 0; s < NS && !SH->nvio; s++) {
    if (!OBJ[s]) continue;
    if (slot_type(s) < HSU) check_ref(s, when);
    else { check_ref(100 + s, when); if (!SH->nvio) check_ref(200 + s, when); }
  }
}

static int newgrp(int n) { G.emplace_back(); G.back().n = n; return (int)G.size() - 1; }
static void enter(const HOp& o) { rt_op_enter(o.id, o.f); SH->inlib = 1; }
static void destroy_slot(int s) {
  std::vector<Pending> pend;
  int t = slot_type(s);
  pend.push_back({M[s][0], rname(t < HSU ? s : 100 + s)});
  if (t >= HSU) pend.push_back({M[s][1], rname(200 + s)});
  int opid = SH->cur_op[0];
  rt_op_enter(opid, Fault());
  hx_destroy(t, OBJ[s]);
  rt_op_leave();
  rt_caller_free(OBJ[s]);
  OBJ[s] = nullptr;
  M[s][0] = M[s][1] = MHd();
  settle(pend);
}
static void share(MHd& d, const MHd& s) {  // d becomes another handle on what s refers to
  d = s;
  d.live = true;
  if (d.g >= 0) G[d.g].refs++;
}
static void fill(char* p, size_t n, Rng& g, int dt) {
  // small exact values of the element type, so that kernels have one right answer
  for (size_t i = 0; i + DS[dt] <= n; i += DS[dt]) {
    int v = 1 + (int)g.below(9);
    switch (dt) {
      case 0: *(int8_t*)(p + i) = (int8_t)v; break;
      case 1: *(uint8_t*)(p + i) = (uint8_t)v; break;
      case 2: case 3: { int16_t x = (int16_t)v; memcpy(p + i, &x, 2); break; }
      case 4: case 5: { int32_t x = v; memcpy(p + i, &x, 4); break; }
      case 6: case 7: { int64_t x = v; memcpy(p + i, &x, 8); break; }
      case 8: { float x = (float)v; memcpy(p + i, &x, 4); break; }
      default: { double x = v; memcpy(p + i, &x, 8); break; }
    }
  }
}
static double rd(const char* p, int dt, size_t i) {
  switch (dt) {
    case 4: return ((const int32_t*)p)[i];
    case 6: return (double)((const int64_t*)p)[i];
    case 8: return ((const float*)p)[i];
    default: return ((const double*)p)[i];
  }
}
static void wr(char* p, int dt, size_t i, double v) {
  switch (dt) {
    case 4: ((int32_t*)p)[i] = (int32_t)v; break;
    case 6: ((int64_t*)p)[i] = (int64_t)v; break;
    case 8: ((float*)p)[i] = (float)v; break;
    default: ((double*)p)[i] = v; break;
  }
}

static void hrun(const HOp& o) {
  Rng g(o.seed);
  SH->cur_op[0] = o.id;
  SH->fault_this[0] = 0;
  if (g_trace) printf("%s\n", hop_text(o).c_str());
  auto skip = [&] { SH->ops_skipped++; };
  auto done = [&](int rc) {
    OpStat st = rt_op_leave();
    SH->ops_lib++;
    SH->opkind_count[o.k]++;
    if (st.fired) SH->ops_faulted++, SH->fired_ops[o.f.kind]++;
    if (rc) { g_threw = true; SH->ops_rejected++; if (!st.fired) vio(V_HANDLECLASS, "%s threw although no allocation failed", HK_NAME[o.k]); }
    else SH->ops_ok++;
    SH->odigest = fnv64(fnv64(SH->odigest, o.k * 8 + rc), st.fired);
    return st.fired;
  };
  auto fresh = [&](int s) {  // room for a new object in slot s
    if (OBJ[s]) destroy_slot(s);
    OBJ[s] = rt_caller_alloc(hx_size(slot_type(s)));
  };
  auto abandon = [&](int s) { rt_caller_free(OBJ[s]); OBJ[s] = nullptr; M[s][0] = M[s][1] = MHd(); };
  auto empty_result = [&](MHd& m) { m = MHd(); m.live = true; m.g = newgrp(1); G[m.g].refs = 1; };
  std::vector<Pending> pend;
  switch (o.k) {
    case H_DEF: {
      int t = slot_type(o.a);
      fresh(o.a);
      if (SH->nvio) return;
      enter(o);
      int rc = hx_def(t, OBJ[o.a]);
      done(rc);
      if (rc) { abandon(o.a); break; }
      MHd& m = M[o.a][0];
      m = MHd();
      m.live = true;
      m.g = newgrp(t == HB || t == HSB ? 2 : 1);
      G[m.g].refs = 1;
      if (t >= HSU) empty_result(M[o.a][1]);
      break;
    }
    case H_RAW: case H_VEC: {
      int t = slot_type(o.a), n = t == HB ? 2 : 1;
      fresh(o.a);
      if (SH->nvio) return;
      HX x;
      memset(&x, 0, sizeof x);
      x.n = n;
      int gi = newgrp(n);
      MHd m;
      bool twin = g.chance(0.7);  // shapes a kernel accepts
      int kind = (int)g.below(3);
      for (int i = 0; i < n; i++) {
        int64_t nd = kind == 2 ? 2 : (int64_t)g.below(4);
        if (i && twin) nd = x.nd[0];
        std::vector<int64_t> d;
        for (int64_t j = 0; j < nd; j++) d.push_back(1 + (int64_t)g.below(4));
        if (i && twin) {
          d = G[gi].vd[0];
          if (kind == 2) std::swap(d[0], d[1]);
        }
        int dts[] = {4, 6, 8, 9};
        int dt = g.chance(0.85) ? dts[g.below(4)] : (int)g.below(10);
        if (i && twin) dt = x.dt[0];
        int64_t e = 1;
        for (int64_t v : d) e *= v;
        x.nd[i] = nd, x.dt[i] = dt, x.dev[i] = g.chance(0.15), x.len[i] = (unsigned)(e * DS[dt]);
        if (o.k == H_RAW) { x.dims[i] = (int64_t*)rt_new(nd * 8); }
        else x.dims[i] = (int64_t*)rt_caller_alloc(nd * 8);
        if (nd) memcpy(x.dims[i], d.data(), nd * 8);
        x.data[i] = rt_new(x.len[i]);
        fill((char*)x.data[i], x.len[i], g, dt);
        G[gi].vd[i] = d;
        G[gi].vb[i].assign((char*)x.data[i], (char*)x.data[i] + x.len[i]);
        m.nd[i] = nd, m.dt[i] = dt, m.dev[i] = x.dev[i], m.len[i] = x.len[i];
      }
      enter(o);
      int rc = o.k == H_RAW ? hx_raw(t, OBJ[o.a], &x) : hx_vec(t, OBJ[o.a], &x);
      done(rc);
      for (int i = 0; i < n; i++) {
        if (o.k == H_VEC) rt_caller_free(x.dims[i]);
        if (rc) {  // there is no handle: what still exists stays with the caller
          Block* b = rt_find(x.data[i]);
          if (b && b->live && b->p == x.data[i]) rt_delete(x.data[i]);
          b = o.k == H_RAW ? rt_find(x.dims[i]) : nullptr;
          if (b && b->live && b->p == (char*)x.dims[i]) rt_delete(x.dims[i]);
        }
      }
      if (rc) { abandon(o.a); break; }
      HX y;
      memset(&y, 0, sizeof y);
      hx_get(t, OBJ[o.a], &y);
      for (int i = 0; i < n; i++) G[gi].dims[i] = o.k == H_RAW ? x.dims[i] : y.dims[i], G[gi].data[i] = x.data[i];
      for (int i = 0; i < n; i++)
        if (!live_block(G[gi].dims[i], x.nd[i] * 8)) { vio(V_HANDLECLASS, "the dimensions of a new %s are not memory it owns", T_NAME[t]); return; }
      m.live = true;
      m.g = gi;
      G[gi].refs = 1;
      M[o.a][0] = m;
      break;
    }
    case H_COPY: case H_MOVE: {
      if (!alive(o.b) || o.a == o.b % 100) return skip();
      int t = slot_type(o.a);
      if ((KNOWN & KN_MOVED) && (t >= HSU ? M[o.b][0].g < 0 || M[o.b][1].g < 0 : o.k == H_COPY && mh(o.b).g < 0)) return skip();
      fresh(o.a);
      if (SH->nvio) return;
      void* src = obj(o.b);
      enter(o);
      int rc = o.k == H_COPY ? hx_copy(t, OBJ[o.a], src) : hx_move(t, OBJ[o.a], src);
      done(rc);
      if (rc) { abandon(o.a); break; }
      if (t >= HSU) {
        share(M[o.a][0], M[o.b][0]);
        share(M[o.a][1], M[o.b][1]);
        if (o.k == H_MOVE) { // what is left in a moved-from sample is not specified, only that it can be assigned and destroyed
          HX x;
          memset(&x, 0, sizeof x);
          hx_get(ref_type(100 + o.b), obj(100 + o.b), &x);
          bool in_kept = x.data[0] != nullptr || x.dims[0] != nullptr;
          if (M[o.b][0].g >= 0 && G[M[o.b][0].g].dims[0] && !in_kept) { MHd& q = M[o.b][0]; G[q.g].refs--; q.g = -1; q.moved = true; }
          memset(&x, 0, sizeof x);
          hx_get(HR, obj(200 + o.b), &x);
          bool r_kept = x.data[0] != nullptr || x.dims[0] != nullptr;
          if (M[o.b][1].g >= 0 && G[M[o.b][1].g].dims[0] && !r_kept) { MHd& q = M[o.b][1]; G[q.g].refs--; q.g = -1; q.moved = true; }
        }
      } else {
        MHd& s = mh(o.b);
        share(M[o.a][0], s);
        if (o.k == H_MOVE && s.g >= 0) {
          HX x;
          memset(&x, 0, sizeof x);
          hx_get(t, src, &x);
          // a moved-from handle either let go of the blocks or still shares them
          if (!x.data[0] && !x.dims[0] && G[s.g].dims[0]) { G[s.g].refs--; s.g = -1; s.moved = true; }
          else if (!G[s.g].dims[0]) { G[s.g].refs--; s.g = -1; s.moved = true; }
        }
      }
      break;
    }
    case H_ASSIGN: {
      if (!alive(o.a) || !alive(o.b)) return skip();
      int t = ref_type(o.a);
      if ((KNOWN & KN_RASSIGN) && t >= HR) return skip();
      for (int i = 0; i < (t >= HSU ? 2 : 1); i++) {
        MHd& md = t >= HSU ? M[o.a][i] : mh(o.a);
        MHd& ms = t >= HSU ? M[o.b][i] : mh(o.b);
        if ((KNOWN & KN_MOVED) && (md.g < 0 || ms.g < 0)) return skip();
        if ((KNOWN & KN_SELF) && &md == &ms && (md.g < 0 || G[md.g].refs == 1)) return skip();
      }
      void *d = obj(o.a), *s = obj(o.b);
      enter(o);
      int rc = hx_assign(t, d, s);
      done(rc == 2 ? 0 : rc);
      if (rc == 2) { vio(V_HANDLECLASS, "objects of class %s cannot be assigned", T_NAME[t]); return; }
      if (rc) break;
      int parts = t >= HSU ? 2 : 1;
      for (int i = 0; i < parts; i++) {
        MHd& md = t >= HSU ? M[o.a][i] : mh(o.a);
        MHd& ms = t >= HSU ? M[o.b][i] : mh(o.b);
        if (&md == &ms) continue;
        Pending q{md, rname(t >= HSU ? o.a + (i ? 200 : 100) : o.a)};
        share(md, ms);
        pend.push_back(q);
      }
      break;
    }
    case H_SAMPLE: {
      if (!alive(o.b) || o.a == o.b % 100) return skip();
      if ((KNOWN & KN_MOVED) && mh(o.b).g < 0) return skip();
      fresh(o.a);
      if (SH->nvio) return;
      void* src = obj(o.b);
      enter(o);
      int rc = hx_sample(slot_type(o.a), OBJ[o.a], src);
      done(rc);
      if (rc) { abandon(o.a); break; }
      share(M[o.a][0], mh(o.b));
      empty_result(M[o.a][1]);
      break;
    }
    case H_SET_INPUT: {
      if (!alive(o.a) || !alive(o.b)) return skip();
      if ((KNOWN & KN_MOVED) && (mh(o.b).g < 0 || M[o.a][0].g < 0)) return skip();
      if ((KNOWN & KN_SELF) && &mh(o.b) == &M[o.a][0] && G[M[o.a][0].g].refs == 1) return skip();
      void* src = obj(o.b);
      enter(o);
      int rc = hx_set_input(slot_type(o.a), OBJ[o.a], src);
      done(rc);
      if (rc) break;
      MHd &md = M[o.a][0], &ms = mh(o.b);
      if (&md == &ms) break;
      Pending q{md, rname(100 + o.a)};
      share(md, ms);
      pend.push_back(q);
      break;
    }
    case H_SET_RESULT: {
      if (!alive(o.a)) return skip();
      int t = slot_type(o.a);
      int rref = t == HR ? o.a : 200 + o.a;
      if (KNOWN & KN_REPLACE) {
        MHd& q = mh(rref);
        if (q.g < 0 || G[q.g].refs > 1 || G[q.g].dims[0]) return skip();
      }
      int64_t nd = (int64_t)g.below(4);
      int dt = (int)g.below(10), dev = (int)g.below(2);
      std::vector<int64_t> d;
      std::vector<char> by;
      int64_t* dp;
      void* bp;
      bool own = false;
      if (o.b != 999) {  // from the buffers another result (or the same) holds
        if (!alive(o.b) || ref_type(o.b) != HR) return skip();
        MHd& s = mh(o.b);
        if (s.g < 0 || !G[s.g].dims[0]) return skip();
        d = G[s.g].vd[0], by = G[s.g].vb[0];
        nd = (int64_t)d.size();
        HX x;
        memset(&x, 0, sizeof x);
        hx_get(HR, obj(o.b), &x);
        dp = x.dims[0], bp = x.data[0];
        dt = s.dt[0];
        dev = s.dev[0];
      } else {
        int64_t e = 1;
        for (int64_t i = 0; i < nd; i++) d.push_back(1 + (int64_t)g.below(4)), e *= d.back();
        by.resize((size_t)(e * DS[dt]));
        for (auto& c : by) c = (char)g.next();
        dp = (int64_t*)rt_caller_alloc(d.size() * 8);
        if (nd) memcpy(dp, d.data(), nd * 8);
        bp = rt_caller_alloc(by.size());
        if (by.size()) memcpy(bp, by.data(), by.size());
        own = true;
      }
      unsigned len = (unsigned)by.size();
      enter(o);
      int rc = hx_set_result(t, OBJ[o.a], nd, dp, dt, dev, bp, len);
      done(rc);
      if (own) {
        if ((nd && memcmp(dp, d.data(), nd * 8)) || (len && memcmp(bp, by.data(), len))) vio(V_ARG, "set_result changed the caller's arrays");
        rt_caller_free(dp), rt_caller_free(bp);
      }
      MHd& m = mh(rref);
      if (rc) {
        // the result was not set; whatever the handle refers to now, it can be destroyed
        MHd old = m;
        m.moved = true;
        g_unclean = true;
        check_all("after a call that ran out of memory");
        if (SH->nvio) return;
        if (t == HR) {
          rt_op_enter(o.id, Fault());
          hx_destroy(t, OBJ[o.a]);
          rt_op_leave();
          rt_caller_free(OBJ[o.a]);
          OBJ[o.a] = nullptr;
          if (old.g >= 0) G[old.g].refs--;
          M[o.a][0] = MHd();
        } else {
          MHd in = M[o.a][0];
          rt_op_enter(o.id, Fault());
          hx_destroy(t, OBJ[o.a]);
          rt_op_leave();
          rt_caller_free(OBJ[o.a]);
          OBJ[o.a] = nullptr;
          if (old.g >= 0) G[old.g].refs--;
          M[o.a][0] = M[o.a][1] = MHd();
          pend.push_back({in, rname(100 + o.a)});
        }
        break;
      }
      Pending q{m, rname(rref)};
      m = MHd();
      m.live = true;
      m.g = newgrp(1);
      m.nd[0] = nd, m.dt[0] = dt, m.dev[0] = dev, m.len[0] = len;
      Grp& gr = G[m.g];
      gr.refs = 1;
      gr.vd[0] = d, gr.vb[0] = by;
      HX x;
      memset(&x, 0, sizeof x);
      hx_get(HR, obj(rref), &x);
      gr.dims[0] = x.dims[0], gr.data[0] = x.data[0];
      if (own ? (x.dims[0] == dp || x.data[0] == bp) : (o.b != 999 && (x.dims[0] == dp || x.data[0] == bp))) {
        vio(V_HANDLECLASS, "set_result keeps the buffers it was given instead of copying them");
        return;
      }
      pend.push_back(q);
      break;
    }
    case H_BINARY: {
      if (KNOWN & KN_BINARY) return skip();
      if (!alive(o.b) || o.a == o.b % 100) return skip();
      MHd& in = mh(o.b);
      if (in.g < 0 || !G[in.g].dims[0] || in.moved) return skip();
      Grp gi = G[in.g];
      if (!in.nd[0] || !in.nd[1]) return skip();
      fresh(o.a);
      if (SH->nvio) return;
      int k = (int)g.below(5);
      void* src = obj(o.b);
      HOp oo = o;
      enter(oo);
      int rc = hx_binary(OBJ[o.a], src, k);
      int fired = done(rc);
      if (rc) { abandon(o.a); break; }
      share(M[o.a][0], in);
      // what the kernel has to have produced
      int dt = in.dt[0];
      bool simple = in.dt[0] == in.dt[1] && !in.dev[0] && !in.dev[1] && (dt == 4 || dt == 6 || dt == 8 || dt == 9);
      bool known = false, none = false;
      std::vector<int64_t> od;
      std::vector<char> ob;
      if (k == 4) none = known = true;
      else if (simple && k < 3 && gi.vd[0] == gi.vd[1]) {
        known = true;
        od = gi.vd[0];
        ob.resize(gi.vb[0].size());
        for (size_t i = 0; i * DS[dt] < ob.size(); i++) {
          double a = rd(gi.vb[0].data(), dt, i), b = rd(gi.vb[1].data(), dt, i);
          wr(ob.data(), dt, i, k == 0 ? a + b : k == 1 ? a - b : a * b);
        }
      } else if (simple && k == 3 && in.nd[0] == 2 && in.nd[1] == 2 && gi.vd[0][1] == gi.vd[1][0]) {
        known = true;
        int64_t m = gi.vd[0][0], kk = gi.vd[0][1], nn = gi.vd[1][1];
        od = {m, nn};
        ob.resize((size_t)(m * nn * DS[dt]));
        for (int64_t i = 0; i < m; i++)
          for (int64_t j = 0; j < nn; j++) {
            double s = 0;
            for (int64_t l = 0; l < kk; l++) s += rd(gi.vb[0].data(), dt, i * kk + l) * rd(gi.vb[1].data(), dt, l * nn + j);
            wr(ob.data(), dt, i * nn + j, s);
          }
      }
      HX x;
      memset(&x, 0, sizeof x);
      hx_get(HR, obj(200 + o.a), &x);
      MHd& m = M[o.a][1];
      bool got = x.dims[0] || x.data[0];
      if (got) {
        if (none) { vio(V_HANDLECLASS, "the sample has a result although the kernel produced none"); return; }
        size_t n = 1;
        if (x.nd[0] < 0 || x.nd[0] > 16 || !live_block(x.dims[0], x.nd[0] * 8) || !live_block(x.data[0], x.len[0])) {
          vio(V_HANDLECLASS, "the result of the sample is not memory it owns");
          return;
        }
        for (int64_t i = 0; i < x.nd[0]; i++) n *= (size_t)x.dims[0][i];
        m = MHd();
        m.live = true;
        m.g = newgrp(1);
        m.nd[0] = x.nd[0], m.dt[0] = x.dt[0], m.dev[0] = x.dev[0], m.len[0] = x.len[0];
        Grp& gr = G[m.g];
        gr.refs = 1;
        gr.dims[0] = x.dims[0], gr.data[0] = x.data[0];
        if (known) {
          gr.vd[0] = od, gr.vb[0] = ob;
          if (x.nd[0] != (int64_t)od.size() || x.len[0] != ob.size() || x.dt[0] != dt || x.dev[0] != 0) {
            vio(V_HANDLECLASS, "the result of the sample has the wrong shape, type, device or length");
            return;
          }
        } else {
          gr.vd[0].assign(x.dims[0], x.dims[0] + x.nd[0]);
          gr.vb[0].assign((char*)x.data[0], (char*)x.data[0] + x.len[0]);
        }
        (void)n;
      } else {
        if (known && !none && !fired) { vio(V_HANDLECLASS, "the sample has no result although the kernel computes one"); return; }
        empty_result(m);
        m.nd[0] = x.nd[0], m.dt[0] = x.dt[0], m.dev[0] = x.dev[0], m.len[0] = x.len[0];
      }
      break;
    }
    case H_SET_DATA: {
      if (!alive(o.a)) return skip();
      MHd& h = mh(o.a);
      int t = ref_type(o.a), w = t == HB ? o.b : 0;
      if (t == HR || t >= HSU || h.g < 0 || h.moved || !G[h.g].dims[w] || G[h.g].refs != 1) return skip();
      HX x;
      memset(&x, 0, sizeof x);
      hx_get(t, obj(o.a), &x);
      void* nw = rt_new(h.len[w]);
      fill((char*)nw, h.len[w], g, h.dt[w]);
      enter(o);
      hx_set_data(t, obj(o.a), w, nw, h.len[w]);
      done(0);
      if (!live_block(x.data[w], h.len[w])) { vio(V_HANDLECLASS, "replacing the data pointer released the data it replaced"); return; }
      rt_delete(x.data[w]);  // the old buffer is the caller's again
      G[h.g].data[w] = nw;
      G[h.g].vb[w].assign((char*)nw, (char*)nw + h.len[w]);
      break;
    }
    case H_DEVICE: {
      if (!alive(o.a)) return skip();
      MHd& h = mh(o.a);
      int t = ref_type(o.a);
      if (t == HR || t >= HSU) return skip();
      enter(o);
      hx_device(t, obj(o.a), o.b);
      done(0);
      h.dev[0] = h.dev[1] = o.b;
      break;
    }
    case H_POKE: {
      if (!alive(o.a) || ref_type(o.a) >= HSU) return skip();
      MHd& h = mh(o.a);
      int w = ref_type(o.a) == HB ? o.b : 0;
      if (h.g < 0 || h.moved || !G[h.g].dims[w] || G[h.g].vb[w].empty()) return skip();
      HX x;
      memset(&x, 0, sizeof x);
      hx_get(ref_type(o.a), obj(o.a), &x);
      int es = DS[h.dt[w]];
      size_t i = g.below(G[h.g].vb[w].size() / es);
      fill((char*)x.data[w] + i * es, es, g, h.dt[w]);
      memcpy(&G[h.g].vb[w][i * es], (char*)x.data[w] + i * es, es);
      break;
    }
    case H_DESTROY:
      if (!OBJ[o.a]) return skip();
      SH->opkind_count[o.k]++;
      destroy_slot(o.a);
      break;
  }
  if (SH->nvio) return;
  settle(pend);
  if (!SH->nvio) check_all("after an operation on another handle, or by its own");
  SH->ops_done++;
  for (auto& q : G)
    if (q.refs > 0)
      for (int i = 0; i < q.n; i++) SH->odigest = fnv(fnv64(SH->odigest, q.refs), q.vb[i].data(), q.vb[i].size());
}

static void hexec(const HPlan& p) {
  KNOWN = p.known;
  rt_begin(p.rt);
  SH->phase = 1;
  rt_set_installed(2);
  hx_install(sim_alloc2, sim_free2);
  for (auto& o : p.ops) {
    if (SH->nvio) break;
    if (o.a < 0 || o.a % 100 >= NS || (o.b != 999 && (o.b < 0 || o.b % 100 >= NS))) continue;
    hrun(o);
  }
  SH->cur_op[0] = -1;
  for (int s = 0; s < NS && !SH->nvio; s++)
    if (OBJ[s]) { destroy_slot(s); if (!SH->nvio) check_all("when another handle was destroyed"); }
  if (!SH->nvio && !g_threw) {
    size_t n = 0, by = 0;
    for (auto& kv : rt_blocks())
      if (kv.second.live && kv.second.owner == OWN_LIB && !((KNOWN & KN_COUNT) && kv.second.allocator == 3 && kv.second.size == sizeof(int)))
        n++, by += kv.second.size;
    if (n) vio(V_LEAK, "%zu block(s), %zu bytes still allocated after every handle is gone", n, by);
  }
  SH->model_checked += SH->ops_done;
  SH->hash = fnv64(fnv64(SH->hash, SH->odigest), SH->events);
  SH->phase = 2;
}

// ------------------------------------------------------------------ driver ---
struct HVerdict { bool bad = false; Vio v{}; int k = -1; uint64_t hash = 0; };
static uint64_t n_child;
static HVerdict hjudge(const HPlan& p) {
  memset((void*)SH, 0, offsetof(Shared, sw));
  SH->nsw = 0;
  memset((char*)SH + offsetof(Shared, nsw), 0, sizeof(Shared) - offsetof(Shared, nsw));
  SH->hash = SH->odigest = SH->sched_hash = SH->faultsig = 1469598103934665603ull;
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) _exit(3);
  if (!pid) {
    if (!g_trace && !freopen("/dev/null", "w", stderr)) {}
    alarm(120);
    hexec(p);
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  n_child++;
  HVerdict r;
  bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0 && SH->phase == 2;
  bool rep = WIFEXITED(st) && WEXITSTATUS(st) >= 77 && WEXITSTATUS(st) <= 79 && SH->nvio > 0;
  if (!clean && !rep && !SH->nvio) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) _exit(3);
    Vio& v = SH->vio[SH->nvio++];
    memset(&v, 0, sizeof v);
    v.kind = V_CRASH;
    v.op = SH->cur_op[0];
    snprintf(v.msg, sizeof v.msg, "the process died (wait status 0x%x)", st);
  }
  r.hash = SH->hash;
  if (SH->nvio) {
    r.bad = true;
    r.v = SH->vio[0];
    for (auto& o : p.ops) if (o.id == r.v.op) r.k = o.k;
  }
  return r;
}
static const char* kname(int k) { return k >= 0 ? HK_NAME[k] : "session"; }
static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string jesc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\', o += c;
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += '?';
    else o += c;
  }
  return o;
}
static std::string vtext(const HVerdict& v) { return std::string(V_NAME[v.v.kind]) + " in " + kname(v.k) + ": " + v.v.msg; }

int main(int argc, char** argv) {
  int per = personality(0xffffffff);
  if (!(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    personality(per | ADDR_NO_RANDOMIZE);
    setenv("SIM_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> o;
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  SH = (Shared*)mmap((void*)0x210000000000ull, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (SH == MAP_FAILED) return 3;
  rt_init_arena();
  auto num = [&](const char* k, long long d) { return o.count(k) ? atoll(o[k].c_str()) : d; };
  if (mode == "gen") { fputs(hplan_text(hgen(num("--seed", 1), num("--start", 0))).c_str(), stdout); return 0; }
  if (mode == "batch") {
    uint64_t seed = num("--seed", 1), start = num("--start", 0), stride = num("--stride", 1), maxr = num("--runs", 1000), done = 0;
    double t0 = now(), limit = t0 + num("--secs", 20);
    FILE* hf = o.count("--hashes") ? fopen(o["--hashes"].c_str(), "w") : nullptr;
    HPlan bad;
    HVerdict bv;
    std::string sample, out = o["--out"];
    uint64_t f[F_NKINDS] = {}, fo[F_NKINDS] = {}, ok[H_NK] = {}, policy[3] = {};
    uint64_t a_done = 0, a_lib = 0, a_ok = 0, a_rej = 0, a_fault = 0, a_skip = 0, allocs = 0, bytes = 0, events = 0;
    std::map<uint64_t, int> outcomes, fs;
    std::map<uint64_t, std::pair<uint64_t, uint64_t>> sites;
    std::vector<char> edge(NEDGE, 0);
    for (uint64_t i = start; done < maxr && now() < limit; i += stride) {
      HPlan p = hgen(seed, i);
      p.known = (int)num("--known", 0);
      HVerdict v = hjudge(p);
      done++;
      if (hf) fprintf(hf, "%lu %016lx\n", i, v.hash);
      if (done == 1) sample = hplan_text(p);
      a_done += SH->ops_done, a_lib += SH->ops_lib, a_ok += SH->ops_ok, a_rej += SH->ops_rejected, a_fault += SH->ops_faulted, a_skip += SH->ops_skipped;
      allocs += SH->allocs, bytes += SH->bytes_alloc, events += SH->events;
      for (int k = 0; k < F_NKINDS; k++) f[k] += SH->fired[k], fo[k] += SH->fired_ops[k];
      for (int k = 0; k < H_NK; k++) ok[k] += SH->opkind_count[k];
      policy[p.rt.policy]++;
      outcomes[SH->odigest]++;
      if (SH->ops_faulted) fs[SH->faultsig]++;
      for (int k = 0; k < SH->nsite; k++) sites[SH->site_pc[k]].first += SH->site_alloc[k], sites[SH->site_pc[k]].second += SH->site_fail[k];
      for (int k = 0; k < NEDGE; k++) edge[k] |= SH->edge[k];
      if (v.bad) { bad = p; bv = v; break; }
    }
    if (hf) fclose(hf);
    if (bv.bad) {
      bad.vkind = V_NAME[bv.v.kind];
      bad.vop = kname(bv.k);
      std::ofstream(out + ".plan") << hplan_text(bad);
    }
    std::ofstream j(out);
    j << "{\"runs\":" << done << ",\"child_runs\":" << n_child << ",\"foreign\":0,\"secs\":" << now() - t0 << ",\"ops_done\":" << a_done
      << ",\"ops_lib\":" << a_lib << ",\"ops_ok\":" << a_ok << ",\"ops_rejected\":" << a_rej << ",\"ops_faulted\":" << a_fault
      << ",\"ops_retried\":0,\"ops_skipped\":" << a_skip << ",\"events\":" << events << ",\"switches\":0,\"allocs\":" << allocs << ",\"bytes\":" << bytes
      << ",\"model_checked\":" << a_done << ",\"clock_jumps\":0,\"clock_stalls\":0,\"sim_seconds\":0,\"conc_runs\":0,\"dropmasks\":0,\"dropelems\":0,\"nguards\":"
      << g_nguards << ",\"fired\":{";
    for (int i = 1; i < F_NKINDS; i++) j << (i > 1 ? "," : "") << "\"" << FAULT_NAME[i] << "\":[" << f[i] << "," << fo[i] << "]";
    j << "},\"opkinds\":{";
    for (int i = 0; i < H_NK; i++) j << (i ? "," : "") << "\"" << HK_NAME[i] << "\":" << ok[i];
    j << "},\"policy\":{\"0\":" << policy[0] << ",\"1\":" << policy[1] << ",\"2\":" << policy[2] << "},\"foreign_kinds\":{},\"sites\":{";
    bool first = true;
    for (auto& kv : sites) { j << (first ? "" : ",") << "\"" << std::hex << kv.first << std::dec << "\":[" << kv.second.first << "," << kv.second.second << "]"; first = false; }
    j << "},\"edge_bits\":\"";
    for (int i = 0; i < NEDGE; i += 4) {
      int v = 0;
      for (int k = 0; k < 4; k++) v |= edge[i + k] << k;
      j << "0123456789abcdef"[v];
    }
    j << "\",\"sample\":\"" << jesc(sample) << "\"";
    if (bv.bad) j << ",\"violation\":\"" << jesc(vtext(bv)) << "\",\"index\":" << bad.index;
    j << "}\n";
    auto dump = [&](const char* n, std::map<uint64_t, int>& m) {
      std::ofstream b(out + "." + n, std::ios::binary);
      for (auto& kv : m) b.write((const char*)&kv.first, 8);
    };
    std::map<uint64_t, int> none;
    dump("outcomes", outcomes);
    dump("scheds", none);
    dump("faultsigs", fs);
    return bv.bad ? 10 : 0;
  }
  if (mode == "replay" || mode == "trace" || mode == "shrink") {
    std::ifstream fi(o["--file"]);
    std::stringstream ss;
    ss << fi.rdbuf();
    HPlan p;
    if (!hplan_parse(ss.str(), p)) { printf("cannot read replay file\n"); return 3; }
    if (mode == "trace") { g_trace = true; setvbuf(stdout, nullptr, _IOLBF, 0); }
    HVerdict v = hjudge(p);
    if (mode == "shrink") {
      if (!v.bad) { printf("HOLDS (nothing to shrink)\n"); return 4; }
      double limit = now() + num("--secs", 60);
      auto same = [&](const HPlan& q) {
        if (now() > limit) return false;
        HVerdict w = hjudge(q);
        return w.bad && w.v.kind == v.v.kind && w.k == v.k;
      };
      size_t n0 = p.ops.size();
      for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2);;) {
        bool rem = false;
        for (size_t i = 0; i < p.ops.size();) {
          HPlan q = p;
          q.ops.erase(q.ops.begin() + i, q.ops.begin() + std::min(q.ops.size(), i + chunk));
          if (same(q)) { p = q; rem = true; }
          else i += chunk;
        }
        if (chunk == 1 && !rem) break;
        if (!rem) chunk = std::max<size_t>(1, chunk / 2);
      }
      for (size_t i = 0; i < p.ops.size(); i++) {
        HPlan q = p;
        if (!q.ops[i].f.kind) continue;
        q.ops[i].f = Fault();
        if (same(q)) p = q;
      }
      for (auto fn : std::vector<std::function<void(HPlan&)>>{[](HPlan& q) { q.rt.policy = 0; }, [](HPlan& q) { q.rt.fill = 0; }, [](HPlan& q) { q.rt.mem_seed = 1; }}) {
        HPlan q = p;
        fn(q);
        if (same(q)) p = q;
      }
      HVerdict w = hjudge(p);
      p.vkind = V_NAME[w.v.kind];
      p.vop = kname(w.k);
      std::ofstream(o["--out"]) << hplan_text(p);
      printf("%s\nshrunk: %zu -> %zu ops, 0 switches, %lu candidate executions\n", vtext(w).c_str(), n0, p.ops.size(), n_child);
      return 10;
    }
    if (mode == "replay") {
      HVerdict w = hjudge(p);
      if (w.hash != v.hash || w.bad != v.bad) { printf("NONDETERMINISTIC\n"); return 4; }
    }
    printf("hash=%016lx\n", v.hash);
    if (v.bad) printf("VIOLATES %s: %s\n", PROP, vtext(v).c_str());
    else printf("HOLDS\n");
    return v.bad ? 10 : 0;
  }
  return 3;
}
