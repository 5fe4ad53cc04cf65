// Plan generator: everything a simulated session does is drawn here, from one
// seed. Swarm style: every run has its own mix of operations, sizes, element
// types, fault kinds and rates.
#include <algorithm>
#include <climits>
#include <cmath>

#include "plan.h"

namespace {
const int NSHARED = 8, PER_THR = 12, NOISE0 = 56, NSLOTS = 64;

struct Prof {
  double invalid = 0.08, fault = 0, destroy = 0.12, poke = 0.05, alias = 0.15, twice = 0.25, cuda = 0.03,
         preset = 0.3, big = 0.03, zero = 0.012, noise = 0, install = 0, clock = 0, sweep = 0.05, probe = 0.6, noretry = 0.25,
         hand = 0.5, special = 0.1, index = 0.04, huge = 0.004, many = 0.03;
  int nmin = 4, nmax = 14;
  double longrun = 0.03, marathon = 0.003;
  bool threads = false;
};

struct GSlot {
  bool live = false;
  MT m;
  bool nonneg = false;  // data known to be >= 0 (or unsigned)
  bool wide = false;    // data may hold extreme values
};

struct Gen {
  Rng r{1};
  Plan p;
  Prof pf;
  GSlot s[NSLOTS];
  int phase = 0, thr = 0, lo = 0, hi = NOISE0;
  bool noise = false;
  double w[K_NKINDS] = {};
  std::vector<int> dts;
  int maxd = 4;
  int64_t cap = 120;
  int faultmask = 0;
  uint64_t salt = 0;
  int cpu_id = 0;  // the id of the CPU device of this run ...
  bool mixed = false;  // ... or of each tensor
  int devid() { if (!mixed) return cpu_id; int id[] = {0, 1, 2, 5}; return id[r.below(4)]; }

  bool isf(int d) { return d >= 8; }
  int pick_dt() { return dts[r.below(dts.size())]; }
  // Legal strides, dilations and paddings far beyond the input, with few positions.
  void far_flung(int64_t x, int64_t& k, int& stride, int& pad, int& dil) {
    auto big = [&] { return (int)std::min<double>(INT_MAX, std::floor(std::exp(r.unit() * 19.6 + 2.0))); };
    switch (r.below(5)) {
      case 0: stride = r.chance(0.15) ? INT_MAX : big(); break;
      case 1: k = 1, dil = r.chance(0.15) ? INT_MAX : big(); break;
      case 2:  // windows at -pad, 0, pad or in between
        pad = big();
        k = r.range(1, std::min<int64_t>(3, x)), dil = 1;
        stride = std::max(pad - (int)r.below(2), 1);
        if (r.chance(0.4)) stride = pad / 2 + 1;
        break;
      case 3:  // a window of two or three elements, one of them inside
        dil = r.chance(0.3) ? (1 << 30) + (int)r.below(1000) : big();
        k = r.range(2, 3), pad = dil;
        if (k == 2 && r.chance(0.5)) pad = dil / 2 + 1;
        stride = r.chance(0.7) && k == 3 ? (int)r.range(1, 2) : std::max(1, dil - (int)r.below(2));
        break;
      default: stride = big(), dil = k == 1 ? big() : dil;
    }
  }
  int64_t vast() { return r.chance(0.6) ? r.range(32760, 33000) : r.range(65530, 66000); }  // past 15 and 16 bits
  int pick_style(int dt) {
    (void)dt;
    double u = r.unit();
    if (u < pf.special) return r.chance(0.4) ? 3 : (r.chance(0.4) ? 2 : r.chance(0.5) ? 9 : 13);
    int st[] = {0, 0, 1, 1, 4, 5, 6, 6, 8, 11};
    return st[r.below(10)];
  }
  bool visible(int i) {
    if (phase == 1) return i < NSHARED || (i >= lo && i < hi);
    return i >= lo && i < hi;
  }
  bool own(int i) { return i >= lo && i < hi; }

  std::vector<int64_t> rdims(int nd, int64_t c = -1) {
    if (c < 0) c = cap;
    std::vector<int64_t> d;
    int64_t n = 1;
    for (int i = 0; i < nd; i++) {
      int64_t x = r.chance(0.2) ? 1 : r.range(1, maxd);
      while (x > 1 && n * x > c) x--;
      n *= x;
      d.push_back(x);
    }
    if (nd > 1) {  // the budget should not always starve the trailing axes
      for (int i = nd - 1; i > 0; i--) std::swap(d[i], d[r.below(i + 1)]);
    }
    return d;
  }
  std::vector<int64_t> big_dims() {
    static const std::vector<std::vector<int64_t>> B = {
        {257}, {300}, {1000}, {130, 2}, {2, 130}, {33000}, {66000}, {70000}, {256, 260}, {3, 257}, {257, 3}, {1, 513},
        {16, 17, 18}, {2, 3, 4, 5, 6}, {1025, 1, 2}, {129, 127}, {40, 50}, {4097}, {65537}, {2, 2, 2, 2, 2, 2, 2}};
    if (r.chance(0.4)) return B[r.below(B.size())];
    // log-uniform element count, any rank
    int64_t n = (int64_t)std::exp(std::log(40.0) + r.unit() * (std::log(r.chance(0.25) ? 90000.0 : 6000.0) - std::log(40.0)));
    int nd = (int)r.range(1, 4);
    std::vector<int64_t> d;
    for (int i = 0; i < nd - 1; i++) {
      int64_t x = (int64_t)std::exp(r.unit() * std::log((double)n + 1));
      if (x < 1) x = 1;
      if (x > n) x = n;
      d.push_back(x);
      n = n / x < 1 ? 1 : n / x;
    }
    d.push_back(n);
    std::swap(d[0], d[r.below(d.size())]);
    return d;
  }
  std::vector<int64_t> any_dims() {
    if (r.chance(pf.big)) return big_dims();
    if (r.chance(pf.zero)) {
      auto d = rdims((int)r.range(1, 5));
      d[r.below(d.size())] = 0;
      if (r.chance(0.2)) d[r.below(d.size())] = 0;
      return d;
    }
    int nd;
    double u = r.unit();
    nd = u < 0.06 ? 0 : u < 0.26 ? 1 : u < 0.54 ? 2 : u < 0.76 ? 3 : u < 0.90 ? 4 : u < 0.96 ? 5 : r.chance(0.3) ? (int)r.range(12, 24) : (int)r.range(6, 11);
    if (nd > 5) {  // many axes, most of them short
      auto d = rdims(nd, std::max<int64_t>(cap, 64));
      for (auto& x : d) if (x > 3) x = 2 + (int64_t)r.below(2);
      while (true) {
        int64_t n = 1;
        for (auto x : d) n *= x;
        if (n <= 5000) break;
        d[r.below(d.size())] = 1;
      }
      return d;
    }
    return rdims(nd);
  }

  int free_slot() {
    for (int i = lo; i < hi; i++)
      if (!s[i].live) return i;
    std::vector<int> l;
    for (int i = lo; i < hi; i++) l.push_back(i);
    int v = l[r.below(l.size())];
    destroy(v);
    return v;
  }
  Op base(int kind) {
    Op o;
    o.kind = kind;
    o.phase = phase;
    o.thr = thr;
    o.noise = noise;
    o.dseed = 1 + r.below(1000000) + salt * 1000003;
    return o;
  }
  void push(Op& o) {
    o.id = (int)p.ops.size();
    p.ops.push_back(o);
  }
  void destroy(int v) {
    Op o = base(K_DESTROY);
    o.nin = 1;
    o.in[0] = v;
    o.twice = r.chance(pf.twice) ? 1 + (int)r.below(2) : 0;
    push(o);
    s[v].live = false;
  }
  void add_fault(Op& o, int64_t n_out) {
    if (!r.chance(pf.fault)) return;
    std::vector<int> ks;
    for (int k = 1; k < F_NKINDS; k++)
      if (faultmask >> k & 1) ks.push_back(k);
    if (ks.empty()) return;
    if (n_out < 3000 && r.chance(pf.sweep)) {
      o.sweep = 40;
      o.fault = Fault{F_KTH, r.chance(0.6) ? 0 : 1 + (int64_t)r.below(1000), 0};
      return;
    }
    Fault f;
    f.kind = ks[r.below(ks.size())];
    switch (f.kind) {
      case F_KTH:
        o.probe = r.chance(pf.probe) && n_out < 20000;
        f.a = o.probe ? (int64_t)r.below(1000) : (int64_t)r.below(r.chance(0.3) ? 24 : 8);
        break;
      case F_FROM:
      case F_BURST:
        o.probe = r.chance(pf.probe * 0.5) && n_out < 20000;
        f.a = o.probe ? (int64_t)r.below(1000) : (int64_t)r.below(12);
        if (f.kind == F_BURST) f.b = 1 + (int64_t)r.below(4);
        break;
      case F_MASK: f.a = (int64_t)(r.next() & r.next() & (r.chance(0.5) ? r.next() : ~0ull)); break;
      case F_BUDGET: f.a = (int64_t)r.below(r.chance(0.5) ? 400 : 3000); break;
      case F_SIZE: f.a = 1 + (int64_t)r.below(r.chance(0.5) ? 60 : 600); break;
      case F_SITE: f.a = (int64_t)r.below(r.chance(0.6) ? 12 : 36); f.b = (int64_t)r.below(r.chance(0.7) ? 1 : 3); break;
    }
    o.fault = f;
    o.retry = !r.chance(pf.noretry);
  }
  // returns the output slot if (as far as shapes tell) the call will succeed
  int emit(Op& o, int style_out_nonneg = 0) {
    o.out = free_slot();
    for (int k = 0; k < o.nin; k++)
      if (!s[o.in[k]].live) return -1;  // free_slot had to destroy an operand
    if (r.chance(pf.preset)) o.preset = r.chance(0.4) ? 1 : 2;
    std::vector<const MT*> in;
    for (int k = 0; k < o.nin; k++) in.push_back(&s[o.in[k]].m);
    MODEL_SHAPE_ONLY = true;
    Expect e = model_eval(o, in);
    MODEL_SHAPE_ONLY = false;
    if (e.skip) return -1;
    bool invalid = e.invalid();
    add_fault(o, invalid ? 0 : e.out.n());
    bool wide = o.kind == K_CREATE && (o.style == 2 || o.style == 3 || o.style == 9 || o.style == 13 || o.style == 16);
    for (int k = 0; k < o.nin; k++) wide |= s[o.in[k]].wide;
    push(o);
    if (invalid || e.may_untouched || e.may_reject) return -1;
    if (o.fault.kind && !o.retry) return -1;
    GSlot& g = s[o.out];
    g.live = true;
    g.m = e.out;
    g.m.b.clear();
    g.nonneg = style_out_nonneg;
    g.wide = wide;
    return o.out;
  }
  int create(const std::vector<int64_t>& d, int dt, int style, int devt = 0) {
    Op o = base(K_CREATE);
    if (style != 5 && style != 7 && style != 10 && r.chance(0.1)) {
      o.kind = K_FULL;
      o.dval = style == 1 ? (double)r.range(1, 20) : r.chance(0.25) ? 0 : (double)r.range(0, 12);
      if (isf(dt) && r.chance(0.3)) o.dval += 0.25;
    }
    o.dims = d;
    o.dtype = dt;
    o.devt = devt;
    o.devi = devt ? (int)r.below(3) : devid();
    if (noise && style == 0 && r.chance(0.4)) style = r.chance(0.5) ? 11 : 12;
    o.style = style;
    if (o.kind == K_CREATE) o.dmode = r.chance(pf.hand) ? 1 : 0;
    return emit(o, style == 1 || style == 7 || style == 8 || style == 6);
  }
  int find(const std::vector<int64_t>& d, int dt, int devt = 0, bool nonneg = false) {
    std::vector<int> c;
    for (int i = 0; i < NSLOTS; i++)
      if (visible(i) && s[i].live && s[i].m.dims == d && s[i].m.dt == dt && s[i].m.devt == devt && !s[i].wide &&
          (!nonneg || s[i].nonneg))
        c.push_back(i);
    return c.empty() ? -1 : c[r.below(c.size())];
  }
  int ensure(const std::vector<int64_t>& d, int dt, int style, int devt = 0) {
    if (r.chance(0.55)) {
      int f = find(d, dt, devt, style == 1);
      if (f >= 0) return f;
    }
    return create(d, dt, style, devt);
  }
  // any live tensor satisfying pred, or -1
  template <class P> int pick(P pred) {
    std::vector<int> c;
    for (int i = 0; i < NSLOTS; i++)
      if (visible(i) && s[i].live && pred(s[i].m)) c.push_back(i);
    return c.empty() ? -1 : c[r.below(c.size())];
  }
  int any_tensor(int nd_min = 0, int nd_max = 7) {
    if (r.chance(0.6)) {
      int x = pick([&](const MT& m) { return (int)m.dims.size() >= nd_min && (int)m.dims.size() <= nd_max; });
      if (x >= 0) return x;
    }
    auto d = any_dims();
    if ((int)d.size() < nd_min || (int)d.size() > nd_max) d = rdims((int)r.range(nd_min, nd_max < 5 ? nd_max : 5));
    int dt = pick_dt();
    return create(d, dt, pick_style(dt), r.chance(pf.cuda));
  }
  void in(Op& o, std::initializer_list<int> l) {
    o.nin = 0;
    for (int x : l) o.in[o.nin++] = x;
  }

  void gen_op(int kind, bool bad) {
    switch (kind) {
      case K_CREATE: {
        auto d = any_dims();
        int dt = pick_dt();
        if (!bad) { create(d, dt, pick_style(dt), r.chance(pf.cuda)); return; }
        Op o = base(K_CREATE);
        o.dims = d;
        o.dtype = dt;
        o.style = 0;
        o.dmode = 1;
        int64_t n = 1;
        for (auto x : d) n *= x;
        if (r.chance(0.15) && n > 0) {  // as many elements as the buffer, but only modulo a power of two
          int sh[] = {8, 16, 31, 32, 32, 33, 40};
          o.dlen = n * DT_SIZE[dt];
          int64_t d0 = n + (1ll << sh[r.below(7)]);
          o.dims = {d0};
          if (r.chance(0.3)) o.dims.insert(o.dims.begin() + r.below(2), 1);
          emit(o);
          return;
        }
        int64_t k = r.chance(0.3) ? 0 : r.chance(0.5) ? n - 1 : n + 1;
        if (r.chance(0.2)) k = n * 2;
        if (k < 0) k = n + 1;
        o.dlen = k * DT_SIZE[dt];
        emit(o);
        return;
      }
      case K_FULL: {
        Op o = base(K_FULL);
        o.dims = any_dims();
        o.dtype = pick_dt();
        o.dval = isf(o.dtype) ? (double)r.range(-40, 40) / 8 : (double)r.range(0, 100);
        if (!isf(o.dtype) && o.dtype % 2 == 0 && r.chance(0.3)) o.dval = -o.dval;
        if (r.chance(0.1)) o.dval = 3.75;
        if (r.chance(0.25)) o.dval = 0;
        if (r.chance(0.1)) {  // the edges of the element type
          static const double LO[] = {-128, 0, -32768, 0, -2147483648.0, 0, -9223372036854775808.0, 0, -3.4028234663852886e38, -1.7976931348623157e308};
          static const double HI[] = {127, 255, 32767, 65535, 2147483647.0, 4294967295.0, 9007199254740993.0, 9223372036854775808.0, 3.4028234663852886e38, 1.7976931348623157e308};
          switch (r.below(4)) {
            case 0: o.dval = LO[o.dtype]; break;
            case 1: o.dval = HI[o.dtype]; break;
            case 2: o.dval = isf(o.dtype) ? -0.0 : 1; break;
            default: o.dval = isf(o.dtype) ? 0.1 : HI[o.dtype] / 2 - 0.5;
          }
        }
        o.devt = r.chance(pf.cuda);
        o.devi = o.devt ? (int)r.below(3) : devid();
        emit(o, o.dval >= 0);
        return;
      }
      case K_CAST: {
        int x = any_tensor();
        if (x < 0) return;
        Op o = base(K_CAST);
        in(o, {x});
        o.dtype = (int)r.below(10);
        emit(o, s[x].nonneg);
        return;
      }
      case K_RESHAPE: {
        int x = any_tensor();
        if (x < 0) return;
        Op o = base(K_RESHAPE);
        in(o, {x});
        std::vector<int64_t> d = s[x].m.dims;
        double u = r.unit();
        if (u < 0.25) {
          for (int i = (int)d.size() - 1; i > 0; i--) std::swap(d[i], d[r.below(i + 1)]);
        } else if (u < 0.45) {
          d = {s[x].m.n()};
        } else if (u < 0.7) {
          d.insert(d.begin() + r.below(d.size() + 1), 1);
          if (r.chance(0.4)) d.insert(d.begin() + r.below(d.size() + 1), 1);
        } else {  // factorise
          int64_t n = s[x].m.n();
          d.clear();
          for (int64_t f : {2, 3, 2, 5, 7})
            if (n % f == 0 && r.chance(0.7)) { d.push_back(f); n /= f; }
          d.push_back(n);
        }
        if (bad) {
          if (d.empty()) d.push_back(2 + r.below(3));
          else d[r.below(d.size())] += r.chance(0.5) ? 1 : -1;
          if (r.chance(0.15)) d.assign(1, s[x].m.n() + 1);
          if (r.chance(0.12)) {  // counts that agree in their low bits only
            int sh[] = {8, 16, 31, 32, 32, 33, 40, 48};
            d = {s[x].m.n() + (1ll << sh[r.below(8)])};
            if (r.chance(0.3)) d.insert(d.begin() + r.below(2), 1);
          }
        }
        o.dims = d;
        emit(o, s[x].nonneg);
        return;
      }
      case K_SLICE: {
        int x = any_tensor(0, 7);
        if (x < 0) return;
        Op o = base(K_SLICE);
        in(o, {x});
        const auto& d = s[x].m.dims;
        for (auto n : d) {
          int b = (int)r.below(n), z = (int)r.range(r.chance(0.15) ? 0 : 1, n - b);
          if (r.chance(0.3)) b = 0, z = (int)n;
          o.pa.push_back(b);
          o.pb.push_back(z);
          o.pc.push_back(r.chance(0.4) ? 1 : (int)r.range(1, 4));
          if (r.chance(0.06)) {
            int h[] = {INT_MAX, INT_MAX - 1, INT_MAX - (int)r.below(8), (int)n, (int)n + 1, 1 << 30, 65536, (int)r.range(5, 40)};
            o.pc.back() = h[r.below(8)];
          }
        }
        if (bad && !d.empty()) {
          int k = (int)r.below(d.size());
          switch (r.below(8)) {
            case 0: o.pa[k] = -1; break;
            case 1: o.pa[k] = (int)d[k]; break;
            case 2: o.pb[k] = -1; break;
            case 3: o.pb[k] = (int)(d[k] - o.pa[k] + 1); break;
            case 4: o.pb[k] = INT_MAX; o.pa[k] = (int)d[k] > 1 ? 1 : 0; break;
            case 5: o.pc[k] = 0; break;
            case 6: o.pc[k] = -1; break;
            default: o.pa[k] = INT_MIN;
          }
        }
        emit(o, s[x].nonneg);
        return;
      }
      case K_SQUEEZE: {
        int x = r.chance(0.5) ? pick([&](const MT& m) {
          for (auto d : m.dims) if (d == 1) return true;
          return false;
        }) : any_tensor();
        bool many = r.chance(0.12);  // axes by the dozen
        if (x < 0 || many) {
          auto d = rdims((int)r.range(1, 5));
          if (many) {
            d.assign((size_t)r.range(6, 24), 1);
            int big = 0;
            for (auto& q : d) if (big < 6 && r.chance(0.2)) q = r.range(2, 3), big++;
          }
          for (auto& q : d) if (r.chance(0.5)) q = 1;
          int dt = pick_dt();
          x = create(d, dt, pick_style(dt));
        }
        if (x < 0) return;
        Op o = base(K_SQUEEZE);
        in(o, {x});
        int nd = (int)s[x].m.dims.size();
        if (nd && r.chance(0.7)) {
          bool lng = r.chance(0.06);  // more entries than axes, so some come again
          int k = (int)r.range(1, lng ? nd + 20 : nd);
          for (int i = 0; i < k; i++) {
            int64_t a = (int64_t)r.below(nd);
            if (!lng && r.chance(0.85) && std::find(o.dims.begin(), o.dims.end(), a) != o.dims.end()) continue;
            o.dims.push_back(a);
          }
        }
        if (bad) {
          if (r.chance(0.25)) o.axis = -1 - (int)r.below(3);
          else {
            int64_t a = r.chance(0.4) ? -1 - (int64_t)r.below(2) : nd + (int64_t)r.below(3);
            o.dims.insert(o.dims.begin() + r.below(o.dims.size() + 1), a);
          }
        }
        emit(o, s[x].nonneg);
        return;
      }
      case K_DUPLICATE: {
        int x = any_tensor();
        if (x < 0) return;
        Op o = base(K_DUPLICATE);
        in(o, {x});
        emit(o, s[x].nonneg);
        return;
      }
      case K_ADD: case K_SUB: case K_MUL: case K_DIV: {
        int dt = pick_dt();
        int devm = bad && r.chance(0.2) ? 1 + (int)r.below(3) : 0;  // which operands are on another device
        int devt = devm & 1, devt2 = devm >> 1;
        int a = -1, b = -1;
        if (r.chance(0.5)) a = pick([&](const MT& m) { return m.devt == devt; });
        if (a < 0) a = create(any_dims(), dt, r.chance(0.7) ? (kind == K_DIV ? 1 : 0) : pick_style(dt), devt);
        if (a < 0) return;
        dt = s[a].m.dt;
        auto d = s[a].m.dims;
        int dt2 = dt;
        if (bad && !devm) {
          switch (r.below(kind == K_DIV && !isf(dt) ? 4 : 3)) {
            case 0: dt2 = (dt + 1 + (int)r.below(9)) % 10; break;
            case 1:
              if (d.empty()) d.push_back(2);
              else d[r.below(d.size())] += 1;
              break;
            case 2:
              if (r.chance(0.5) || d.empty()) d.push_back(r.chance(0.5) ? 1 : 2);
              else d.pop_back();
              break;
            default: {
              b = create(d, dt, r.chance(0.5) ? 7 : 8);
              if (b < 0) return;
              Op o = base(kind);
              in(o, {a, b});
              emit(o);
              return;
            }
          }
        }
        if (!bad && r.chance(pf.alias)) b = a;
        else if (kind == K_DIV && !bad && r.chance(0.35)) {  // quotients of numbers of any size and sign
          if (r.chance(0.7)) {
            int w = create(d, dt, 16, devt);
            if (w >= 0) a = w;
          }
          b = create(d, dt, 16, devt2);
        } else {
          b = ensure(d, dt2, kind == K_DIV ? 1 : r.chance(0.8) ? 0 : pick_style(dt), devt2);
        }
        if (b < 0 || !s[a].live) return;
        Op o = base(kind);
        in(o, {a, b});
        if (bad && r.chance(0.5)) std::swap(o.in[0], o.in[1]);
        emit(o, kind != K_SUB && s[a].nonneg && s[b].nonneg);
        return;
      }
      case K_SQRT: {
        int x = -1;
        if (!bad) {
          std::vector<int> c;
          for (int i = 0; i < NSLOTS; i++)
            if (visible(i) && s[i].live && s[i].nonneg) c.push_back(i);
          if (!c.empty() && r.chance(0.6)) x = c[r.below(c.size())];
          else x = create(any_dims(), pick_dt(), 1, r.chance(pf.cuda));
        } else {
          x = create(any_dims(), pick_dt(), r.chance(0.5) ? 5 : 0);
        }
        if (x < 0) return;
        Op o = base(K_SQRT);
        in(o, {x});
        emit(o, 1);
        return;
      }
      case K_MATMUL: {
        int dt = pick_dt();
        int ra = (int)r.range(1, 4), rb = (int)r.range(1, 4);
        if (r.chance(0.35)) ra = rb = 2;
        int nbx = 2;
        if (r.chance(0.06)) { ra = (int)r.range(1, 7); rb = (int)r.range(4, 7); nbx = 5; if (r.chance(0.5)) std::swap(ra, rb); }
        int64_t K = r.range(1, maxd + 1), M = r.range(1, maxd), N = r.range(1, maxd);
        if (r.chance(pf.big)) { K = r.range(20, 140); M = r.range(1, 20); N = r.range(1, 20); }
        std::vector<int64_t> da, db;
        std::vector<int64_t> ba, bb;
        bool fanout = false;
        int wide = r.chance(0.75) ? 2 : 1;
        if (r.chance(pf.many)) {  // one long side, many batches or many axes
          switch (r.below(5)) {
            case 0:
              K = r.range(60, 1500); M = r.range(1, 3); N = r.range(1, 3);
              if (r.chance(0.1)) { ra = rb = 1; K = r.chance(0.5) ? r.range(32760, 33000) : r.range(65530, 66000); }
              break;
            case 1: M = r.range(30, 300); K = r.range(1, 3); N = r.range(1, 3); break;
            case 2: N = r.range(30, 300); K = r.range(1, 3); M = r.range(1, 3); break;
            case 3:
              ra = (int)r.range(3, 5); rb = (int)r.range(1, 5); nbx = 3;
              K = r.range(1, 2); M = r.range(1, 2); N = r.range(1, 2);
              if (r.chance(0.35)) {  // a vector or one matrix against hundreds of matrices
                rb = (int)r.range(1, 2);
                fanout = true;
              }
              if (r.chance(0.5)) std::swap(ra, rb);
              break;
            default:
              ra = (int)r.range(8, 14); rb = (int)r.range(1, 14); nbx = 12;
              K = r.range(1, 2); M = r.range(1, 2); N = r.range(1, 2);
              if (r.chance(0.5)) std::swap(ra, rb);
          }
          if (r.chance(0.02)) {
            nbx = 2; fanout = false;
            ra = (int)r.range(1, 3); rb = (int)r.range(1, 3);
            K = M = N = 1;
            (r.chance(0.4) ? M : r.chance(0.5) ? N : K) = vast();
          }
        }
        int deep = 0;
        for (int i = 0; i < nbx; i++) {
          if (nbx == 3) {
            int64_t x = r.range(2, i == 1 ? 12 : 7);
            if (fanout) {  // all in the innermost batch axis, or split over two
              int64_t b = i == 2 ? r.range(2, 3) : i == 1 ? r.range(1, 3) : r.range(1, 2);
              if (i == wide) b = r.range(100, 600);
              ba.push_back(b);
              bb.push_back(b);
              continue;
            }
            ba.push_back(r.chance(0.3) ? 1 : x);
            bb.push_back(r.chance(0.3) ? 1 : x);
            continue;
          }
          if (nbx == 12) {
            int64_t x = r.chance(0.4) && deep < 7 ? 2 : 1;
            deep += x > 1;
            ba.push_back(r.chance(0.2) ? 1 : x);
            bb.push_back(r.chance(0.2) ? 1 : x);
            continue;
          }
          int64_t x = r.range(1, nbx > 2 ? 2 : r.chance(0.15) ? 6 : 3);
          ba.push_back(r.chance(0.3) ? 1 : x);
          bb.push_back(r.chance(0.3) ? 1 : x);
        }
        if (!bad && r.chance(pf.zero)) {  // no elements, or nothing to sum over
          switch (r.below(4)) {
            case 0: K = 0; break;
            case 1: (r.chance(0.5) ? M : N) = 0; break;
            default: {
              size_t i = ba.size() - 1 - r.below(std::min<size_t>(ba.size(), (size_t)std::max(1, std::max(ra, rb) - 2)));
              ba[i] = 0;
              bb[i] = r.chance(0.5) ? 0 : 1;
              if (r.chance(0.5)) std::swap(ba[i], bb[i]);
            }
          }
        }
        if (ra > 2) da.assign(ba.end() - (ra - 2), ba.end());
        if (rb > 2) db.assign(bb.end() - (rb - 2), bb.end());
        if (ra >= 2) da.push_back(M);
        da.push_back(K);
        db.push_back(K);
        if (rb >= 2) db.push_back(N);
        int dt2 = dt, devm = 0;
        if (bad) {
          switch (r.below(6)) {
            case 0: {
              int64_t& v = r.chance(0.5) ? db[rb >= 2 ? db.size() - 2 : 0] : da.back();
              v += r.chance(0.5) ? 1 : r.chance(0.5) ? K : r.range(1, 3);
              break;
            }
            case 1: dt2 = (dt + 1 + (int)r.below(9)) % 10; break;
            case 2: devm = 1 + (int)r.below(3); break;
            case 3: (r.chance(0.5) ? da : db).clear(); break;
            case 4: {  // extents that do not combine, at any batch axis and with any leading axes
              int64_t x = r.range(2, 6), y = r.range(2, 6);
              if (r.chance(0.4)) y = x * r.range(2, 3);
              if (x == y) y = x + 1;
              if (r.chance(0.5)) std::swap(x, y);
              da = {x, M, K};
              db = {y, K, N};
              if (r.chance(0.4)) {  // further out
                int64_t z = r.range(1, 3);
                da.insert(da.begin() + 1, z);
                db.insert(db.begin() + 1, r.chance(0.5) ? z : 1);
              } else if (r.chance(0.4)) {
                auto& w = r.chance(0.5) ? da : db;
                w.insert(w.begin(), r.range(1, 3));
              }
              break;
            }
            default:
              da = {2, M, K};
              db = {3, K, N};
              if (r.chance(0.5)) da.insert(da.begin(), 2), db.insert(db.begin(), 2);
          }
        }
        auto st = [&] { double u = r.unit(); return u < 0.65 ? 0 : u < 0.75 ? 8 : u < 0.85 ? 7 : u < 0.93 ? 5 : 4; };
        int a = da.empty() && r.chance(0.6) ? create(da, dt, st(), devm & 1) : ensure(da, dt, st(), devm & 1), b;
        if (a < 0) return;
        if (da == db && dt == dt2 && !devm && r.chance(0.4)) b = a;
        else b = ensure(db, dt2, st(), devm >> 1);
        if (b < 0 || !s[a].live) return;
        Op o = base(K_MATMUL);
        in(o, {a, b});
        emit(o);
        return;
      }
      case K_DOT: {
        int dt = pick_dt(), dt2 = dt, devm = 0;
        int64_t K = r.range(1, maxd + 1);
        std::vector<int64_t> da, db;
        switch (phase == 1 && r.chance(0.25) ? 2 : r.below(6)) {
          case 0: da = {K}; db = {K}; break;
          case 1: da = {r.range(1, maxd), K}; db = {K, r.range(1, maxd)}; break;
          case 2: da = {}; if (!r.chance(0.2)) db = any_dims(); if (r.chance(0.5)) std::swap(da, db); break;
          case 3: da = rdims((int)r.range(1, r.chance(0.2) ? 6 : 3)); da.push_back(K); db = {K}; break;
          case 4:
            da = rdims((int)r.range(2, r.chance(0.2) ? 5 : 3), 12); da.push_back(K);
            db = rdims((int)r.range(1, r.chance(0.2) ? 4 : 2), 6); db.push_back(K); db.push_back(r.range(1, 3));
            break;
          default: da = {r.range(1, maxd), K}; db = {K};
        }
        if (r.chance(pf.many)) {  // long vectors, many vectors or many axes
          switch (r.below(5)) {
            case 0: K = r.range(60, 3000); da = {K}; db = {K}; break;
            case 1: K = r.range(1, 4); da = {r.range(60, 300), K}; db = {K}; break;
            case 2: K = r.range(60, 400); da = {2, r.range(1, 3), K}; db = {K}; break;
            case 3:
              K = r.range(1, 2);
              da = {r.range(1, 3), r.range(1, 20), K};
              db = {r.range(1, 3), K, r.range(1, 20)};
              break;
            default: {
              K = r.range(1, 2);
              da.assign((size_t)r.range(2, 9), 1);
              db.assign((size_t)r.range(1, 9), 1);
              for (int i = 0; i < 3; i++) da[r.below(da.size())] = 2, db[r.below(db.size())] = 2;
              da.push_back(K);
              db.insert(db.end() - 1, K);
              if (r.chance(0.3)) db = {K};
            }
          }
          if (r.chance(0.02)) {
            int64_t v = vast(), w = r.range(1, 2);
            switch (r.below(4)) {
              case 0: da = {v, w}; db = {w}; break;
              case 1: da = {w, v}; db = {v}; break;
              case 2: da = {v, w}; db = {w, 1}; break;
              default: da = {1, w}; db = {w, v};
            }
          }
        }
        if (!bad && !da.empty() && !db.empty() && r.chance(pf.zero)) {
          if (r.chance(0.5)) {
            da.back() = 0;
            (db.size() > 1 ? db[db.size() - 2] : db[0]) = 0;
          } else if (r.chance(0.5)) {
            if (da.size() > 1) da[r.below(da.size() - 1)] = 0;
          } else if (db.size() > 1) {
            size_t i = r.below(db.size() - 1);
            db[i == db.size() - 2 ? db.size() - 1 : i] = 0;
          }
        }
        if (bad) {
          switch (r.below(4)) {
            case 0:
              if (da.empty() || db.empty()) dt2 = (dt + 1) % 10;
              else if (r.chance(0.5)) da.back() += r.chance(0.7) ? 1 : K;
              else (db.size() > 1 ? db[db.size() - 2] : db[0]) += r.chance(0.7) ? 1 : K;
              break;
            case 1: dt2 = (dt + 1 + (int)r.below(9)) % 10; break;
            case 2: devm = 1 + (int)r.below(3); break;
            default:
              if (r.chance(0.5)) { da = {K}; db = {K, 2}; }
              else { da = {2, K}; db = {2, K, 3}; }
          }
        }
        int st = r.chance(0.8) ? 0 : 8, sta = st, stb = st;
        if ((da.empty() || db.empty()) && !isf(dt) && r.chance(0.3)) {  // a scalar of large magnitude
          sta = stb = 8;
          (da.empty() ? sta : stb) = 13;
        }
        int a = ensure(da, dt, sta, devm & 1), b;
        if (a < 0) return;
        if (da == db && dt == dt2 && !devm && r.chance(0.5)) b = a;
        else b = ensure(db, dt2, stb, devm >> 1);
        if (b < 0 || !s[a].live) return;
        Op o = base(K_DOT);
        in(o, {a, b});
        emit(o);
        return;
      }
      case K_CONV: case K_CONV2D: case K_CONV3D: {
        int sd = kind == K_CONV2D ? 2 : kind == K_CONV3D ? 3 : r.chance(0.05) ? 4 : (int)r.range(1, 3);
        bool wide = r.chance(0.15);
        int g = r.chance(0.65) ? 1 : (int)r.range(2, wide ? 5 : 3);
        int64_t cg = r.range(1, wide ? 5 : 2), og = r.range(1, wide ? 4 : 2), N = r.range(1, wide ? 4 : 2);
        bool many = r.chance(pf.many);  // many channels, filters or samples on short axes
        bool huge = many && r.chance(0.012);
        if (many) {
          int64_t q = huge ? vast() : r.chance(0.2) ? r.range(120, 270) : r.range(9, 70);
          if (huge) g = 1, cg = og = N = 1;
          switch (r.below(4)) {
            case 0: cg = q; break;
            case 1: og = q; break;
            case 2: N = q; break;
            default: g = (int)q; cg = og = 1;
          }
        }
        std::vector<int64_t> dx = {N, g * cg}, df = {g * og, cg};
        Op o = base(kind);
        o.groups = g;
        int mx = sd == 4 ? 3 : sd == 3 ? 4 : sd == 2 ? 6 : 9;
        bool far = sd < 3 && !many && r.chance(0.15);
        if (far) mx *= 3;
        bool window = !far && !many && r.chance(0.06);  // hundreds of positions under one filter
        if (many) mx = huge ? 1 : sd == 1 ? 4 : 2;
        for (int i = 0; i < sd; i++) {
          int64_t x = r.range(1, mx);
          int pad = r.chance(0.5) ? 0 : (int)r.range(0, far ? 6 : 2), dil = r.chance(0.7) ? 1 : (int)r.range(1, far ? 5 : 3);
          int64_t kmax = (x + 2 * pad - 1) / dil + 1, k = r.range(1, std::min<int64_t>(kmax, far ? 8 : 3));
          dx.push_back(x);
          df.push_back(k);
          o.pa.push_back((int)r.range(1, far ? 7 : 3));
          o.pb.push_back(pad);
          o.pc.push_back(dil);
          if (window) {
            k = sd == 1 ? r.range(60, 300) : sd == 2 ? r.range(8, 18) : sd == 3 ? r.range(4, 7) : r.range(3, 4);
            df.back() = k;
            o.pc.back() = r.chance(0.85) ? 1 : 2;
            dx.back() = std::max<int64_t>(1, (k - 1) * o.pc.back() + 1 - 2 * pad) + r.range(0, 2);
          }
        }
        if (!bad && !window && r.chance(0.06)) {
          int i = (int)r.below(sd);
          int64_t k = df[2 + i];
          far_flung(dx[2 + i], k, o.pa[i], o.pb[i], o.pc[i]);
          df[2 + i] = k;
        }
        int dt = 8, dtf = 8;
        if (!bad && r.chance(pf.zero)) {
          switch (r.below(4)) {
            case 0: dx[0] = 0; break;
            case 1: df[0] = 0; break;
            case 2: dx[1] = df[1] = 0; break;
            default: dx[2 + r.below(sd)] = 0;
          }
        }
        if (bad) {
          int k = (int)r.below(sd);
          switch (r.below(10)) {
            case 0: dt = dtf = (int)r.below(8) + (r.chance(0.3) ? 2 : 0); if (dt == 8) dt = dtf = 9; break;
            case 1: dtf = r.chance(0.5) ? 9 : 4; break;
            case 2: df[1] += r.chance(0.5) ? 1 : -1; if (df[1] < 1) df[1] = cg + 1; break;
            case 3: o.pa[k] = r.chance(0.5) ? 0 : -1; break;
            case 4: o.pb[k] = -1; break;
            case 5: o.pc[k] = r.chance(0.5) ? 0 : -1; break;
            case 6: df[2 + k] = dx[2 + k] + 2 * o.pb[k] + 1 + (int64_t)r.below(3); break;
            case 7: o.groups = r.chance(0.5) ? 0 : r.chance(0.5) ? -1 : g * (int)cg * (int)og * 2 + 1; break;
            case 8:
              if (r.chance(0.5)) df.push_back(1);
              else df.pop_back();
              break;
            default:
              if (kind != K_CONV) {  // input of the wrong rank
                if (r.chance(0.5)) dx.push_back(2), df.push_back(1);
                else dx.pop_back(), df.pop_back();
              } else {
                dtf = 9;
              }
          }
        }
        int a = ensure(dx, dt, r.chance(0.8) ? 0 : pick_style(dt), r.chance(pf.cuda)), b = ensure(df, dtf, 0);
        if (a < 0 || b < 0 || !s[a].live) return;
        in(o, {a, b});
        emit(o);
        return;
      }
      case K_POOLING: {
        int sd = (int)r.range(1, 3);
        bool far = sd < 3 && r.chance(0.15);
        std::vector<int64_t> dx = {r.range(1, far ? 4 : 2), r.range(1, far ? 5 : 3)};
        bool many = !far && r.chance(pf.many);
        bool huge = many && r.chance(0.012);
        if (huge) dx = {1, 1};
        if (many) dx[r.below(2)] = huge ? vast() : r.chance(0.2) ? r.range(120, 270) : r.range(9, 70);
        Op o = base(K_POOLING);
        o.mode = r.chance(0.5) ? "max" : "avg";
        bool window = !far && !many && r.chance(0.07);  // hundreds of positions under one window
        int mx = huge ? 1 : many ? (sd == 1 ? 5 : 3) : sd == 3 ? 4 : sd == 2 ? 6 : 9;
        if (far) mx *= 3;
        else if (!many && r.chance(0.1)) mx *= 2;
        for (int i = 0; i < sd; i++) {
          int64_t x = r.range(1, mx);
          int pad = r.chance(0.55) ? 0 : (int)r.range(0, far ? 5 : 2), dil = r.chance(0.7) ? 1 : (int)r.range(1, far ? 4 : 3);
          int64_t kmax = (x + 2 * pad - 1) / dil + 1;
          dx.push_back(x);
          o.pa.push_back((int)r.range(1, std::min<int64_t>(kmax, far ? 8 : 3)));
          o.pb.push_back((int)r.range(1, far ? 7 : 3));
          o.pc.push_back(pad);
          o.pd.push_back(dil);
          if (window) {
            int64_t k = sd == 1 ? r.range(60, 300) : sd == 2 ? r.range(8, 18) : r.range(4, 7);
            o.pa.back() = (int)k;
            o.pd.back() = r.chance(0.85) ? 1 : 2;
            dx.back() = std::max<int64_t>(1, (k - 1) * o.pd.back() + 1 - 2 * pad) + r.range(0, 2);
          }
        }
        if (!bad && !window && r.chance(0.06)) {
          int i = (int)r.below(sd);
          int64_t k = o.pa[i];
          far_flung(dx[2 + i], k, o.pb[i], o.pc[i], o.pd[i]);
          o.pa[i] = (int)k;
        }
        if (bad) {
          int k = (int)r.below(sd);
          static const char* const M[] = {"min", "MAX", "average", "mean", "ma", "av", "maxx", "x"};
          switch (r.below(7)) {
            case 0: o.mode = M[r.below(8)]; break;
            case 1: o.pa[k] = r.chance(0.5) ? 0 : -1; break;
            case 2: o.pb[k] = r.chance(0.5) ? 0 : -1; break;
            case 3: o.pc[k] = -1; break;
            case 4: o.pd[k] = r.chance(0.5) ? 0 : -1; break;
            case 5: o.pa[k] = ((int)dx[2 + k] + 2 * o.pc[k] - 1) / o.pd[k] + 2; break;
            default:
              if (r.chance(0.5)) {
                dx.resize(2);
              } else {
                while (dx.size() < 6) dx.push_back(1);
              }
          }
        }
        if (!bad && r.chance(pf.zero)) dx[r.below(dx.size())] = 0;
        int dt = pick_dt();
        int st[] = {0, 5, 5, 4, 6, 1, 9, 13, 12};
        int a = ensure(dx, dt, st[r.below(noise ? 9 : 8)], r.chance(pf.cuda));
        if (a < 0) return;
        in(o, {a});
        emit(o);
        return;
      }
      case K_BATCH_NORM: {
        int nd = (int)r.range(2, 5);
        auto dx = rdims(nd, std::max<int64_t>(cap, 40));
        int dt = r.chance(0.75) ? 8 + (int)r.below(2) : pick_dt();
        Op o = base(K_BATCH_NORM);
        o.axis = r.chance(0.6) ? 1 : nd - 1;
        if (r.chance(pf.many)) {
          for (auto& q : dx) q = r.range(1, 3);
          bool huge = r.chance(0.012);
          if (huge) dx.assign(dx.size(), 1);
          bool chan = r.chance(0.8);
          dx[chan ? o.axis : 0] = huge ? (chan ? r.range(500, 2500) : vast()) : r.chance(0.2) ? r.range(120, 300) : r.range(9, 70);
        }
        if (!bad && r.chance(pf.zero)) dx[r.below(dx.size())] = 0;
        int64_t C = dx[o.axis];
        o.dval = r.chance(0.4) ? 1e-5 : r.chance(0.5) ? 0 : 0.5;
        if (!isf(dt) && r.chance(0.5)) o.dval = 1;
        int devm = 0, vst = 1;
        std::vector<int64_t> dp[4] = {{C}, {C}, {C}, {C}};
        int pdt[4] = {dt, dt, dt, dt};
        if (bad) {
          int k = (int)r.below(4);
          switch (r.below(8)) {
            case 0: dp[k][0] += 1; break;
            case 1: pdt[k] = (dt + 1 + (int)r.below(9)) % 10; break;
            case 2: dp[k] = {1, C}; break;
            case 3: o.dval = -0.5; break;
            case 4: o.axis = r.chance(0.4) ? 0 : r.chance(0.5) ? -1 : nd; break;
            case 5: devm = r.chance(0.5) ? 1 : 31; break;
            case 6: vst = 5; o.dval = 0; break;
            default: dx = r.chance(0.5) ? std::vector<int64_t>{C} : std::vector<int64_t>{1, C, 1, 1, 1, 1}; o.axis = r.chance(0.5) ? 0 : 1;
          }
        }
        int x = ensure(dx, dt, r.chance(0.8) ? 0 : pick_style(dt), devm & 1);
        if (x < 0) return;
        int q[4];
        for (int i = 0; i < 4; i++) {
          q[i] = ensure(dp[i], pdt[i], i == 3 ? vst : 0, devm >> (i + 1) & 1);
          if (q[i] < 0) return;
        }
        for (int i = 0; i < 4; i++)
          if (!s[q[i]].live) return;
        if (!s[x].live) return;
        in(o, {x, q[0], q[1], q[2], q[3]});
        emit(o);
        return;
      }
      case K_RELU: case K_SIGMOID: case K_TANH: case K_SOFTMAX: {
        int want_int = bad && (kind == K_SIGMOID || kind == K_TANH);
        int x = -1;
        auto okdt = [&](int d) { return kind == K_RELU || (want_int ? !isf(d) : isf(d)); };
        if (r.chance(0.6)) x = pick([&](const MT& m) { return okdt(m.dt); });
        if (x < 0) {
          int dt = kind == K_RELU ? pick_dt() : want_int ? (int)r.below(8) : 8 + (int)r.below(2);
          if (kind == K_SOFTMAX && r.chance(0.05)) dt = pick_dt();
          auto d = any_dims();
          int st = r.chance(0.7) ? (r.chance(0.4) ? 0 : r.chance(0.5) ? 4 : 11) : pick_style(dt);
          if (r.chance(0.25)) st = 14 + (int)r.below(2);
          if (kind == K_SOFTMAX && r.chance(0.15)) {  // a long sum
            d.assign((size_t)r.range(1, 3), 1);
            for (auto& q : d) q = r.range(1, 3);
            d[r.below(d.size())] = r.chance(0.8) ? r.range(40, 400) : r.chance(0.99) ? r.range(1000, 3000) : vast();
            if (d.size() > 1 && r.chance(0.012)) { d.assign(d.size(), 1); d[r.below(d.size())] = vast(); }
          }
          x = create(d, dt, st, r.chance(pf.cuda));
        }
        if (x < 0) return;
        Op o = base(kind);
        in(o, {x});
        if (kind == K_SOFTMAX) {
          int nd = (int)s[x].m.dims.size();
          o.axis = (int)r.range(-1, nd - 1);
          if (bad) o.axis = r.chance(0.4) ? nd : r.chance(0.5) ? -2 : nd + 3;
        }
        emit(o, kind != K_TANH);
        return;
      }
      case K_DROPOUT: {
        int x = any_tensor();
        if (x < 0) return;
        Op o = base(K_DROPOUT);
        in(o, {x});
        double rt[] = {0, 1, 0.5, 0.25, 0.1, 0.9, 0.29, 0.57, 0, 1, 1e-9, 0.9999999, 4.9e-324, -0.0, 0.005, 0.995};
        o.dval = rt[r.below(16)];
        if (bad) {
          double b[] = {-0.1, 1.1, -1e-9, 1.0000001, 2, -1e300, 1e300, INFINITY, -INFINITY, 1.0000000000000002, -4.9e-324, -1, 100};
          o.dval = b[r.below(13)];
        }
        emit(o, s[x].nonneg);
        return;
      }
    }
  }

  int pick_kind() {
    double t = 0;
    for (int k = 0; k < K_NLIB; k++) t += w[k];
    double u = r.unit() * t;
    for (int k = 0; k < K_NLIB; k++) {
      u -= w[k];
      if (u < 0) return k;
    }
    return K_CREATE;
  }
  void step() {
    double u = r.unit();
    std::vector<int> mine;
    for (int i = lo; i < hi; i++)
      if (s[i].live && own(i)) mine.push_back(i);
    if (!mine.empty() && u < pf.destroy) {
      destroy(mine[r.below(mine.size())]);
      return;
    }
    u -= pf.destroy;
    if (!mine.empty() && u >= 0 && u < pf.poke) {
      int x = mine[r.below(mine.size())];
      if (!s[x].m.n()) return;
      Op o = base(K_POKE);
      in(o, {x});
      o.idx = (int64_t)r.below(s[x].m.n());
      o.style = 1;
      o.axis = (int)r.below(3);
      push(o);
      return;
    }
    u -= pf.poke;
    if (u >= 0 && u < pf.index) {
      if (r.chance(0.8)) {
        int x = pick([](const MT& m) { return m.n() > 0; });
        if (x < 0) return;
        Op o = base(K_INDEX);
        in(o, {x});
        int64_t n = s[x].m.n();
        o.idx = r.chance(0.2) ? n - 1 : (int64_t)r.below(n);
        push(o);
      } else {
        Op o = base(K_BCAST);
        int top = r.chance(0.2) ? 12 : 5;
        int na = (int)r.range(0, top), nb = (int)r.range(0, top);
        std::vector<int64_t> d;
        for (int i = 0; i < top; i++) d.push_back(r.range(1, 7));
        bool bad = r.chance(0.3);
        for (int i = 0; i < na; i++) o.dims.push_back(r.chance(0.3) ? 1 : d[top - na + i]);
        for (int i = 0; i < nb; i++) o.pa.push_back(r.chance(0.3) ? 1 : (int)d[top - nb + i]);
        if (bad && na && nb) {
          int k = (int)r.below(std::min(na, nb));
          int64_t x = r.range(2, 5), y = r.chance(0.5) ? x * r.range(2, 3) : x + r.range(1, 3);
          if (r.chance(0.5)) std::swap(x, y);
          o.dims[na - 1 - k] = x;
          o.pa[nb - 1 - k] = (int)y;
        }
        push(o);
      }
      return;
    }
    u -= pf.index;
    if (phase != 1 && u >= 0 && u < pf.install) {
      for (int i = 0; i < NSLOTS; i++)
        if (s[i].live) destroy(i);
      Op o = base(K_INSTALL);
      o.idx = 1 + (int64_t)r.below(2);
      if (r.chance(0.3)) o.idx = 0;
      push(o);
      return;
    }
    u -= pf.install;
    if (phase != 1 && u >= 0 && u < pf.clock) {
      Op o = base(K_CLOCK);
      o.idx = r.chance(0.5) ? r.range(0, 3) : r.range(-100000, 1000000);
      push(o);
      return;
    }
    if (r.chance(pf.huge)) { huge(); return; }
    gen_op(pick_kind(), r.chance(pf.invalid));
  }
  // calls whose result no memory can hold
  void huge() {
    int dt = pick_dt();
    std::vector<int64_t> d;
    switch (r.below(8)) {
      case 6: {  // products that do not fit into 64 bits, some of them wrapping to something small
        static const std::vector<std::vector<int64_t>> O = {
            {1ll << 32, 1ll << 32}, {1ll << 33, 1ll << 31}, {(1ll << 32) + 1, (1ll << 32) + 1}, {1ll << 62, 4}, {1ll << 62, 2},
            {1ll << 61, 8}, {3, 6148914691236517205ll + 1}, {65536, 65536, 65536, 65536}, {65536, 65536, 65536, 65536, 2},
            {INT64_MAX}, {INT64_MAX, 2}, {2, INT64_MAX}, {2, 1ll << 62, 2, 3}, {1ll << 60, 2, 4, 1}};
        d = O[r.below(O.size())];
        break;
      }
      case 7: {
        d = rdims((int)r.range(1, 4));
        for (auto& x : d) if (r.chance(0.6)) x = -x;
        if (r.chance(0.3)) d[r.below(d.size())] = r.chance(0.5) ? INT64_MIN : -(int64_t)INT_MAX;
        break;
      }
      case 0: d = {1ll << r.range(24, 40)}; break;
      case 1: d = {65536, 65536}; break;
      case 2: d = {1ll << r.range(8, 20), 1ll << r.range(16, 20), r.range(1, 3)}; break;
      case 3: d = {(1ll << 32) + r.range(1, 4)}; break;
      case 4: d = {46341, 46341}; break;
      default: d = {r.range(1, 3), (1ll << 31) / (r.chance(0.5) ? 1 : DT_SIZE[dt]) + r.range(0, 2)};
    }
    int k = (int)r.below(8);
    if (k == 3 || k == 4) {
      int64_t a = r.chance(0.5) ? 65536 : r.range(5000, 70000), b = r.chance(0.5) ? 65536 : r.range(7000, 70000);
      int x = create(k == 3 ? std::vector<int64_t>{a, 1} : std::vector<int64_t>{a, 1, 1}, dt, 8);
      int y = create(k == 3 ? std::vector<int64_t>{1, b} : std::vector<int64_t>{1, 1, b}, dt, 8);
      if (x < 0 || y < 0 || !s[x].live) return;
      Op o = base(k == 3 && r.chance(0.5) ? K_MATMUL : K_DOT);
      in(o, {x, y});
      emit(o);
      if (s[x].live) destroy(x);
      if (s[y].live) destroy(y);
      return;
    }
    if (k == 5 || k == 6) {  // padding that blows the result up
      int x = create({1, 1, r.range(1, 4)}, 8, 0), f = create({1, 1, 1}, 8, 0);
      if (x < 0 || f < 0 || !s[x].live) return;
      Op o = base(k == 5 ? K_CONV : K_POOLING);
      in(o, {x, f});
      if (k == 6) o.nin = 1;
      int pad = r.chance(0.4) ? INT_MAX : (1 << 30) + (int)r.below(4);
      if (k == 5) { o.pa = {1}; o.pb = {pad}; o.pc = {1}; }
      else { o.pa = {1}; o.pb = {1}; o.pc = {pad}; o.pd = {1}; }
      emit(o);
      return;
    }
    if (k == 7) {  // an existing tensor cannot become that large
      int x = any_tensor();
      if (x < 0) return;
      Op o = base(K_RESHAPE);
      in(o, {x});
      o.dims = d;
      if (r.chance(0.4)) {  // same count through two negative extents
        o.dims = s[x].m.dims;
        if (r.chance(0.5)) { o.dims.push_back(-1); o.dims.insert(o.dims.begin(), -1); }
        else if (o.dims.size() > 1) { o.dims[0] = -o.dims[0]; o.dims.back() = -o.dims.back(); }
      }
      emit(o);
      return;
    }
    Op o = base(r.chance(0.5) ? K_CREATE : K_FULL);
    o.dims = d;
    o.dtype = dt;
    o.dval = 1;
    o.style = 7;
    o.devi = devid();
    emit(o);
  }
};
}  // namespace

Plan plan_generate(const std::string& prop, uint64_t seed, uint64_t index) {
  Gen g;
  uint64_t ph = fnv(1469598103934665603ull, prop.data(), prop.size());
  g.r = Rng(seed * 0x9E3779B97F4A7C15ull ^ (index * 0xC2B2AE3D27D4EB4Full) ^ ph);
  Rng& r = g.r;
  r.next();
  Plan& p = g.p;
  p.prop = prop;
  p.seed = seed;
  p.index = index;
  Prof& f = g.pf;
  const double mv = 1, ar = 1, nn = 1;
  double wm = mv, wa = ar, wn = nn, wd = 0.3;
  if (prop == "C01") { f.huge = 0.02; f.fault = 0.75; f.invalid = 0.04; f.sweep = 0.12; f.nmin = 3; f.nmax = 8; f.big = 0.01; }
  else if (prop == "C02") { f.huge = 0.01; f.zero = 0.03; f.fault = 0.4; f.invalid = 0.25; f.sweep = 0.06; f.nmax = 12; f.big = 0.01; }
  else if (prop == "C03") { f.huge = 0.005; f.zero = 0.06; f.fault = 0.25; f.invalid = 0.15; f.install = 0.05; f.destroy = 0.2; f.twice = 0.5; f.hand = 0.7; }
  else if (prop == "C04") { f.huge = 0.01; f.fault = 0.45; f.invalid = 0.4; f.noretry = 0.1; f.preset = 0.6; f.nmax = 12; f.sweep = 0.02; }
  else if (prop == "C05") { f.zero = 0.02; f.invalid = 0.03; f.poke = 0.25; f.destroy = 0.2; f.alias = 0.35; f.nmax = 18; wm = 1.6; f.fault = r.chance(0.2) ? 0.1 : 0; }
  else if (prop == "C06") { f.big = 0.08; f.invalid = 0.1; f.noise = 0.35; f.nmax = 16; f.special = 0.15; wd = 0.02; f.hand = 0.4; }
  else if (prop == "C07") { f.many = 0.05; f.huge = 0.01; f.zero = 0.03; f.index = 0.08; f.invalid = 0.25; f.fault = r.chance(0.2) ? 0.2 : 0; f.big = 0.06; f.nmax = 14; f.special = 0.2; }
  else if (prop == "C08") { f.threads = true; f.invalid = 0.06; f.fault = r.chance(0.25) ? 0.15 : 0; f.big = 0.004; }
  else if (prop == "C09") { f.huge = 0.004; f.zero = 0.02; f.index = 0.12; wa = 0.15; wn = 0.1; wd = 0; f.big = 0.08; f.special = 0.3; f.fault = r.chance(0.25) ? 0.15 : 0; f.invalid = 0.03; f.clock = 0; f.nmax = 20; }
  else if (prop == "C10") { f.many = 0.06; f.index = 0.08; wm = 0.15; wn = 0.05; wd = 0; f.big = 0.05; f.fault = r.chance(0.25) ? 0.15 : 0; f.invalid = 0.03; f.nmax = 16; }
  else if (prop == "C11") { f.many = 0.07; wm = 0.1; wa = 0.05; wd = 0; f.big = 0.04; f.fault = r.chance(0.25) ? 0.15 : 0; f.invalid = 0.03; f.nmax = 14; }
  else if (prop == "C12") { wm = 0.1; wa = 0; wn = 0; wd = 4; f.invalid = 0.02; f.clock = 0.15; f.nmin = 6; f.nmax = 16; f.fault = r.chance(0.2) ? 0.1 : 0; }
  else if (prop == "C13") { f.huge = 0.015; f.zero = 0.03; f.index = 0.1; f.invalid = 0.75; f.nmax = 16; f.fault = r.chance(0.15) ? 0.1 : 0; }
  else if (prop == "C14") { f.huge = 0.015; f.invalid = 0.06; f.big = 0.06; f.nmax = 20; f.poke = 0.1; f.fault = r.chance(0.2) ? 0.15 : 0; f.cuda = 0.08; wm = 1.5; }
  // swarm: which operations, types and sizes this run uses
  for (int k = 0; k < K_NLIB; k++) {
    double base = family(k) == FAM_MOVE ? wm : family(k) == FAM_ARITH ? wa : family(k) == FAM_NN ? wn : wd;
    double sw[] = {0, 0.2, 1, 1, 2, 4};
    g.w[k] = base * sw[r.below(6)];
  }
  g.w[K_CREATE] += 0.3;
  if (prop == "C06") g.w[K_DROPOUT] = 0;  // masks may legitimately differ between the variants
  if (r.chance(0.25)) {  // one operation dominates
    int k;
    do k = (int)r.below(K_NLIB);
    while ((family(k) == FAM_ARITH && wa < 0.5) || (family(k) == FAM_NN && wn < 0.5) || (family(k) == FAM_MOVE && wm < 0.5) ||
           (k == K_DROPOUT && wd < 0.3));
    g.w[k] += 10;
  }
  int nd = 1 + (int)r.below(4);
  for (int i = 0; i < nd; i++) g.dts.push_back((int)r.below(10));
  if (r.chance(0.7)) g.dts.push_back(8);
  int md[] = {3, 4, 4, 6, 9, 13};
  g.maxd = md[r.below(6)];
  int64_t cp[] = {6, 16, 60, 60, 120, 120, 400, 1000};
  g.cap = cp[r.below(8)];
  f.cuda *= r.chance(0.5) ? 0 : 2;
  f.special *= r.chance(0.4) ? 0 : 1.6;
  f.invalid *= r.chance(0.3) && f.invalid < 0.2 ? 0 : 1;
  do g.faultmask = (int)r.next() & 0xFE;
  while (!g.faultmask);
  // memory, clock
  RtCfg& c = p.rt;
  c.policy = (int)r.below(3);
  int fl[] = {0, 255, 0x5A, 0x01, 256, 256, 257, 0x7F, 0x80};
  c.fill = fl[r.below(9)];
  c.mem_seed = r.next() >> 1;
  c.clock_mode = (int)r.below(4);
  if (r.chance(0.25)) c.rand_mode = 1 + (int)r.below(4);
  g.mixed = r.chance(0.12);
  if (r.chance(0.15)) { int id[] = {1, 2, 7, 127, -1, 1 << 20}; g.cpu_id = id[r.below(6)]; }
  c.clock0 = r.chance(0.8) ? (int64_t)r.below(2000000000) : r.range(-5, 5);
  p.allocator = r.chance(0.8) ? 1 + (int)r.below(2) : 0;

  int n = (int)r.range(f.nmin, f.nmax);
  if (r.chance(f.longrun)) {
    n = (int)r.range(60, r.chance(0.15) ? 700 : 250);
    g.cap = 60;
    f.big = 0;
    f.sweep = 0;
    f.fault *= 0.5;
  }
  if (!f.threads && r.chance(f.marathon)) {  // thousands of calls of few kinds: counters that wrap, tables that fill up
    n = (int)r.range(700, 3400);
    g.cap = 8;
    g.maxd = 3;
    f.big = f.sweep = f.many = f.huge = 0;
    f.fault *= 0.2;
    f.invalid *= 0.3;
    f.noise *= 0.2;
    int keep = (int)r.range(1, 3);
    for (int i = 0; i < keep; i++) g.w[g.pick_kind()] += 1000;
  }
  if (prop == "C12") {
    // sessions of masks on the same tensor under an awkward clock
    double rt[] = {0.5, 0.5, 0.3, 0.7, 0.29, 0.05, 0.95, 0.58, 0.005, 0.123, 0.995, 0.2};
    int mode = (int)r.below(3);
    if (mode < 2) {
      int dt = (int)r.below(10);
      std::vector<int64_t> d = {mode ? r.range(300, 900) : r.range(2000, 8000)};
      if (r.chance(0.3)) d = {r.range(10, 40), r.range(20, 100)};
      bool small = r.chance(0.15);  // many masks of few elements: every position counts
      if (small) d = {r.range(1, 12), r.range(1, 12)};
      g.pf.fault = 0;
      int x = g.create(d, dt, 10, 0);
      double rate = rt[r.below(12)];
      int k = (int)r.range(3, 8);
      if (r.chance(0.05)) k = (int)r.range(20, 90);
      if (small) k = (int)r.range(100, 500);
      for (int i = 0; i < k && x >= 0; i++) {
        if (r.chance(0.3)) {
          Op o = g.base(K_CLOCK);
          o.idx = r.chance(0.5) ? 0 : r.range(-10, 10);
          g.push(o);
        }
        if (k < 20 && r.chance(0.2)) g.gen_op(K_RELU, false);
        if (!g.s[x].live) break;
        Op o = g.base(K_DROPOUT);
        g.in(o, {x});
        o.dval = rate;
        o.idx = 1;  // takes part in the session statistics
        c.rand_mode = 0;
        int y = g.emit(o);
        if (y >= 0 && (k >= 20 || r.chance(0.5))) g.destroy(y);
      }
      if (r.chance(0.7)) c.clock_mode = 0;
      return p;
    }
  }
  if (f.threads) {
    p.nthr = (int)r.range(2, 4);
    double sp[] = {0.3, 0.05, 0.01, 0.002, 0.0005};
    c.sched_seed = r.next() >> 1;
    c.sched_p = sp[r.below(5)];
    c.sched_hot = r.chance(0.5) ? 0.3 : 0;
    if (r.chance(0.5)) { g.cap = 40; g.maxd = 4; }
    // prologue: tensors every caller reads
    g.phase = 0;
    g.lo = 0;
    g.hi = NSHARED;
    double sf = f.fault, si = f.invalid, sd = f.destroy;
    f.fault = 0; f.invalid = 0; f.destroy = 0;
    int ns = (int)r.range(1, 4);
    for (int i = 0; i < ns; i++) {
      int dt = g.pick_dt();
      g.create(g.any_dims(), dt, r.chance(0.7) ? 0 : 1);
    }
    f.fault = sf; f.invalid = si; f.destroy = sd;
    g.phase = 1;
    bool same = r.chance(0.6);  // callers run the same operation kinds
    bool mirror = r.chance(0.35);  // ... or exactly the same calls on data of their own
    int kind0 = r.chance(0.3) ? (int)r.below(K_NLIB) : g.pick_kind();
    Rng at = r;
    for (int t = 1; t <= p.nthr; t++) {
      g.thr = t;
      g.lo = NSHARED + (t - 1) * PER_THR;
      g.hi = g.lo + PER_THR;
      if (mirror) r = at, g.salt = t;
      int k = (int)r.range(1, 4);
      for (int i = 0; i < k; i++) {
        if (same && r.chance(0.7)) g.gen_op(kind0, r.chance(f.invalid));
        else g.step();
      }
    }
    g.salt = 0;
    g.phase = 2;
    g.thr = 0;
    g.lo = 0;
    g.hi = NOISE0;
    int k = (int)r.below(3);
    f.fault = 0;
    for (int i = 0; i < k; i++) g.step();
    return p;
  }
  for (int i = 0; i < n && (int)p.ops.size() < MAXOPS - 80; i++) {
    int echo = -1;
    if (f.noise > 0 && r.chance(f.noise)) {
      g.noise = true;
      int l = g.lo, h = g.hi;
      g.lo = NOISE0;
      g.hi = NSLOTS;
      double sf = f.fault;
      f.fault = 0.15;
      if (r.chance(0.5)) {  // the call just before the one that counts is of the same kind
        echo = g.pick_kind();
        int m = (int)r.range(1, 3);
        for (int q = 0; q < m; q++) g.gen_op(echo, r.chance(0.3));
      } else {
        g.step();
      }
      f.fault = sf;
      g.lo = l;
      g.hi = h;
      g.noise = false;
    }
    if (echo >= 0) {
      g.gen_op(echo, r.chance(f.invalid));
      continue;
    }
    g.step();
  }
  return p;
}
