#include "model.h"

#include <cfloat>
#include <climits>
#include <algorithm>
#include <cmath>
#include <limits>
#include <type_traits>

const char* const ST_NAME[S_N] = {"SUCCESS", "TYPE_MISMATCH", "DIMENSIONS_MISMATCH", "INVALID_ARGUMENT",
                                  "NOT_SUPPORTED", "ALLOC_FAILED", "OUT_OF_RANGE", "INTERNAL_ERROR", "MATH_ERROR"};
const char* st_name(int s) { return s >= 0 && s < S_N ? ST_NAME[s] : "not-a-status"; }
const char* const DT_NAME[10] = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"};
const int DT_SIZE[10] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
const char* const KIND_NAME[K_NKINDS] = {
    "create", "full", "cast", "reshape", "slice", "squeeze", "duplicate", "add", "sub", "mul", "div", "sqrt",
    "matmul", "dot", "conv", "conv2d", "conv3d", "pooling", "batch_norm", "relu", "sigmoid", "tanh", "softmax",
    "dropout", "destroy", "poke", "check", "install", "clock", "index", "broadcast"};
int family(int k) {
  if (k <= K_DUPLICATE) return FAM_MOVE;
  if (k <= K_DOT) return FAM_ARITH;
  if (k < K_DROPOUT) return FAM_NN;
  if (k == K_DROPOUT) return FAM_DROPOUT;
  return FAM_NONE;
}
std::string dims_str(const std::vector<int64_t>& d) {
  std::string s = "[";
  for (size_t i = 0; i < d.size(); i++) s += (i ? "," : "") + std::to_string(d[i]);
  return s + "]";
}

template <class F>
static void visit(int dt, F f) {
  switch (dt) {
    case 0: f(int8_t()); break;
    case 1: f(uint8_t()); break;
    case 2: f(int16_t()); break;
    case 3: f(uint16_t()); break;
    case 4: f(int32_t()); break;
    case 5: f(uint32_t()); break;
    case 6: f(int64_t()); break;
    case 7: f(uint64_t()); break;
    case 8: f(float()); break;
    default: f(double()); break;
  }
}
template <class T> static T get(const MT& t, int64_t i) {
  T v;
  memcpy(&v, t.b.data() + i * sizeof(T), sizeof(T));
  return v;
}
template <class T> static void put(MT& t, int64_t i, T v) { memcpy(t.b.data() + i * sizeof(T), &v, sizeof(T)); }
static double getd(const MT& t, int64_t i) {
  double r = 0;
  visit(t.dt, [&](auto tag) { r = (double)get<decltype(tag)>(t, i); });
  return r;
}

template <class T> static T special(Rng& r) {
  if constexpr (std::is_floating_point<T>::value) {
    T v[] = {0, -(T)0.0, 1, -1, (T)0.5, std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(),
             std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(),
             std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon(), (T)16777217.0, (T)-3.75,
             (T)1e-3, (T)100};
    return v[r.below(sizeof v / sizeof *v)];
  } else {
    T mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
    T v[] = {0, 1, (T)-1, mx, mn, (T)(mx - 1), (T)(mn + 1), (T)(mx / 2), (T)(mx / 2 + 1), 2, 3, 7, (T)127, (T)128, (T)10};
    return v[r.below(sizeof v / sizeof *v)];
  }
}

void gen_data(MT& t, int style, uint64_t seed) {
  int64_t n = t.n();
  t.b.assign((size_t)(n * DT_SIZE[t.dt]), 0);
  Rng r(seed * 0x9E3779B97F4A7C15ull + 77);
  visit(t.dt, [&](auto tag) {
    using T = decltype(tag);
    constexpr bool fl = std::is_floating_point<T>::value;
    constexpr bool sg = std::is_signed<T>::value;
    for (int64_t i = 0; i < n; i++) {
      T v = 0;
      switch (style) {
        case 0:
          if constexpr (fl) v = (T)r.range(-32, 32) / 4;
          else v = sg ? (T)r.range(-8, 8) : (T)r.range(0, 16);
          break;
        case 1:
          if constexpr (fl) v = (T)r.range(1, 64) / 4;
          else v = (T)r.range(1, 20);
          break;
        case 2: { uint64_t x = r.next(); memcpy(&v, &x, sizeof v); break; }
        case 3: v = special<T>(r); break;
        case 4:
          if constexpr (fl) v = (T)((r.unit() * 2 - 1) * 4);
          else if constexpr (sizeof(T) == 1) v = sg ? (T)r.range(-100, 100) : (T)r.range(0, 250);
          else v = sg ? (T)r.range(-150, 150) : (T)r.range(0, 250);
          break;
        case 5:
          if constexpr (fl) v = -(T)r.range(1, 64) / 4;
          else v = sg ? (T)-r.range(1, 20) : (T)r.range(1, 20);
          break;
        case 6:
          if constexpr (fl) v = (T)(i + 1);
          else v = (T)(i + 1);
          break;
        case 11:  // magnitudes spread over several orders
          if constexpr (fl) v = (T)((r.unit() * 2 - 1) * std::pow(10.0, r.unit() * 4.5 - 1));
          else v = sg ? (T)r.range(-8, 8) : (T)r.range(0, 16);
          break;
        case 12:  // large
          if constexpr (fl) v = (T)r.range(-1000000, 4000000) / 4;
          else if constexpr (sizeof(T) == 1) v = sg ? (T)r.range(-100, 127) : (T)r.range(0, 250);
          else v = (T)r.range(0, 30000);
          break;
        case 13:  // an integer around one large magnitude, told apart only in its last bits
          if constexpr (fl) v = (T)((r.unit() * 2 - 1) * 4);
          else {
            constexpr int top = std::numeric_limits<T>::digits;
            T big = seed % 4 == 0 ? std::numeric_limits<T>::max() : (T)((T)1 << (top - 1 - (int)(seed % 10)  % (top - 1)));
            if (seed % 4 == 0) v = (T)(big - (T)r.below(9));
            else v = (T)(big + (T)r.range(-8, 8));
            if (sg && seed % 3 == 0) v = (T)(-v);
          }
          break;
        case 14:  // very small magnitudes
          if constexpr (fl) v = (T)((r.chance(0.5) ? 1 : -1) * (1 + r.unit()) * std::pow(10.0, -r.unit() * (sizeof(T) == 4 ? 12 : 40)));
          else v = sg ? (T)r.range(-2, 2) : (T)r.range(0, 3);
          break;
        case 15:  // nearly level, with a few far below and (rarely) above
          if constexpr (fl) v = (T)(r.unit() / 4 + (r.chance(0.05) ? -(double)r.range(4, 90) : r.chance(0.002) ? 30.0 : 0.0));
          else v = (T)r.range(0, 3);
          break;
        case 7: v = 0; break;
        case 8: v = (T)r.below(2); break;
        case 16: {  // any magnitude the type holds, either sign, never zero
          bool neg = sg && r.chance(0.5);
          if constexpr (fl) v = (T)((neg ? -1 : 1) * std::pow(10.0, r.unit() * 8 - 4));
          else {
            uint64_t m = (r.next() >> 1 | 1ull << 62) >> (62 - r.below(std::numeric_limits<T>::digits));
            v = (T)m;
            if (v == 0) v = 1;
            if (neg) v = (T)-v;
            if (r.chance(0.12)) {
              T e[] = {std::numeric_limits<T>::max(), sg ? std::numeric_limits<T>::min() : (T)2, 1, (T)-1};
              v = e[r.below(4)];
            }
          }
          break;
        }
        case 10:  // all distinct-ish, non-zero, for masks
          if constexpr (fl) v = (T)(1 + (i % 120)) / 2;
          else v = (T)(1 + i % 120);
          break;
        default:
          if (r.chance(0.06)) v = special<T>(r);
          else if constexpr (fl) v = (T)r.range(-32, 32) / 4;
          else v = sg ? (T)r.range(-8, 8) : (T)r.range(0, 16);
      }
      put<T>(t, i, v);
    }
  });
}

static std::vector<int64_t> rm_strides(const std::vector<int64_t>& d) {
  std::vector<int64_t> s(d.size(), 1);
  for (int i = (int)d.size() - 2; i >= 0; i--) s[i] = s[i + 1] * d[i + 1];
  return s;
}
static double eps_of(int dt) { return dt == 8 ? (double)FLT_EPSILON : DBL_EPSILON; }
static bool isf(int dt) { return dt >= 8; }

// one typed arithmetic step; ok=false when the C result is undefined
template <class T> static T arith(int kind, T a, T b, bool& ok, bool& math) {
  if constexpr (std::is_floating_point<T>::value) {
    switch (kind) {
      case K_ADD: return a + b;
      case K_SUB: return a - b;
      case K_MUL: return a * b;
      default: return a / b;
    }
  } else {
    __int128 x = a, y = b, r = 0;
    switch (kind) {
      case K_ADD: r = x + y; break;
      case K_SUB: r = x - y; break;
      case K_MUL: r = x * y; break;
      default:
        if (b == 0) { math = true; return 0; }
        r = x / y;
    }
    if (std::is_signed<T>::value && sizeof(T) >= 4 &&
        (r > (__int128)std::numeric_limits<T>::max() || r < (__int128)std::numeric_limits<T>::min())) {
      if (kind == K_DIV) math = true; else ok = false;
      return 0;
    }
    if (sizeof(T) < 4 && (r > INT_MAX || r < INT_MIN)) { ok = false; return 0; }
    return (T)r;
  }
}

// dot product of n terms, with an error bound
struct Acc {
  bool nan = false, pinf = false, ninf = false;
  long double s = 0, abs = 0;
  int n = 0;
  void term(long double v) {
    n++;
    if (std::isnan(v)) nan = true;
    else if (std::isinf(v)) (v > 0 ? pinf : ninf) = true;
    else { s += v; abs += v < 0 ? -v : v; }
  }
};
template <class T> static void acc_store(MT& out, std::vector<double>& tol, int64_t i, const Acc& a) {
  double lim = sizeof(T) == 4 ? 1e37 : 1e300;
  if (a.nan || (a.pinf && a.ninf)) { put<T>(out, i, std::numeric_limits<T>::quiet_NaN()); tol[i] = 0; }
  else if (a.abs > lim) { put<T>(out, i, 0); tol[i] = INFINITY; }
  else if (a.pinf || a.ninf) { put<T>(out, i, a.pinf ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity()); tol[i] = 0; }
  else {
    put<T>(out, i, (T)a.s);
    tol[i] = (double)(a.abs * (a.n + 6)) * (sizeof(T) == 4 ? (double)FLT_EPSILON : DBL_EPSILON) +
             (sizeof(T) == 4 ? 1e-37 : 1e-300);
  }
}

// C[i,j] = sum_q A[ao + i*K+q] B[bo + q*bstride + j*bjs]
struct MM {
  const MT &a, &b;
  MT& out;
  std::vector<double>& tol;
  bool ok = true;
  void cell(int64_t o, int64_t a0, int64_t as, int64_t b0, int64_t bs, int64_t K) {
    visit(out.dt, [&](auto tag) {
      using T = decltype(tag);
      if constexpr (std::is_floating_point<T>::value) {
        Acc s;
        for (int64_t q = 0; q < K; q++) {
          long double x = get<T>(a, a0 + q * as), y = get<T>(b, b0 + q * bs);
          s.term(x * y);
        }
        acc_store<T>(out, tol, o, s);
      } else {
        T c = 0;
        bool math = false;
        for (int64_t q = 0; q < K && ok; q++) {
          T x = get<T>(a, a0 + q * as), y = get<T>(b, b0 + q * bs);
          if constexpr (sizeof(T) < 4) {
            __int128 p = (__int128)x * y, r = p + c;
            if (p > INT_MAX || r > INT_MAX || p < INT_MIN || r < INT_MIN) ok = false;
            c = (T)r;
          } else {
            T p = arith<T>(K_MUL, x, y, ok, math);
            c = arith<T>(K_ADD, c, p, ok, math);
          }
        }
        put<T>(out, o, c);
        tol[o] = 0;
      }
    });
  }
};

bool MODEL_SHAPE_ONLY = false;  // generator: stop once the result's shape is known
static void alloc_out(MT& o) { o.b.assign((size_t)(o.n() * DT_SIZE[o.dt]), 0); }
static const double MAXCOST = 3e6;
static bool dims_sane(const std::vector<int64_t>& d, int64_t cap = 400000) {
  int64_t n = 1;
  for (auto x : d) {
    if (x < 0 || x > cap) return false;
    n *= x ? x : 1;
    if (n > cap) return false;
  }
  return d.size() <= 40;
}
// a result no allocator of the simulation provides: the call must say so;
// extents below zero and sizes that do not fit are invalid arguments
static bool too_big(Expect& e) {
  long double n = DT_SIZE[e.out.dt];
  if (e.out.dims.size() > 12) return false;
  bool zero = false;
  for (auto x : e.out.dims) {
    if (x < 0) { e.any_reject = true; return true; }
    if (x == 0) zero = true;
    n *= (long double)x;
  }
  if (zero || n < 24e6L) return false;
  if (n > 9e18L) {
    e.any_reject = true;
    e.rejects.push_back(S_ALLOC);
    return true;
  }
  e.huge = true;
  e.rejects.push_back(S_ALLOC);
  return true;
}

static Expect matmul_eval(const MT& a, const MT& b, bool via_dot) {
  Expect e;
  e.numeric = true;
  if (a.devt != 0 || b.devt != 0) e.rejects.push_back(S_NOSUP);
  if (a.dt != b.dt) {
    if (via_dot) e.rejects.push_back(S_NOSUP);
    else { e.rejects.push_back(S_TYPE); e.rejects.push_back(S_NOSUP); }
  }
  size_t p = a.dims.size(), q = b.dims.size();
  e.out.dt = a.dt;
  e.out.devt = a.devt;
  e.out.devi = a.devi;
  if (p == 0 || q == 0) { e.rejects.push_back(S_ARG); return e; }
  int64_t M = p >= 2 ? a.dims[p - 2] : 1, K = a.dims[p - 1];
  int64_t K2 = q >= 2 ? b.dims[q - 2] : b.dims[0], N = q >= 2 ? b.dims[q - 1] : 1;
  if (K != K2) e.rejects.push_back(S_DIM);
  std::vector<int64_t> ba(a.dims.begin(), p >= 2 ? a.dims.end() - 2 : a.dims.begin());
  std::vector<int64_t> bb(b.dims.begin(), q >= 2 ? b.dims.end() - 2 : b.dims.begin());
  size_t nb = ba.size() > bb.size() ? ba.size() : bb.size();
  std::vector<int64_t> bd(nb, 1);
  std::vector<int64_t> pa(nb, 1), pb(nb, 1);
  for (size_t i = 0; i < ba.size(); i++) pa[nb - ba.size() + i] = ba[i];
  for (size_t i = 0; i < bb.size(); i++) pb[nb - bb.size() + i] = bb[i];
  bool bok = true;
  for (size_t i = 0; i < nb; i++) {
    if (pa[i] != pb[i] && pa[i] != 1 && pb[i] != 1) bok = false;
    bd[i] = pa[i] == 1 ? pb[i] : pa[i];
  }
  if (!bok) e.rejects.push_back(S_DIM);
  if (e.invalid()) return e;
  e.out.dims = bd;
  if (p >= 2) e.out.dims.push_back(M);
  if (q >= 2) e.out.dims.push_back(N);
  if (p == 1 && q == 1) e.out.dims = {1};
  if (!dims_sane(e.out.dims)) { if (!too_big(e)) e.skip = true; return e; }
  int64_t nbatch = 1;
  for (auto d : bd) nbatch *= d;
  e.cost = (double)nbatch * M * N * K;
  if (e.cost > MAXCOST) { e.skip = true; return e; }
  if (MODEL_SHAPE_ONLY) return e;
  alloc_out(e.out);
  e.tol.assign((size_t)e.out.n(), 0);
  MM mm{a, b, e.out, e.tol};
  auto sa = rm_strides(pa), sb = rm_strides(pb), sd = rm_strides(bd);
  for (int64_t t = 0; t < nbatch; t++) {
    int64_t ia = 0, ib = 0, rem = t;
    for (size_t i = 0; i < nb; i++) {
      int64_t c = rem / sd[i];
      rem %= sd[i];
      if (pa[i] != 1) ia += c * sa[i];
      if (pb[i] != 1) ib += c * sb[i];
    }
    for (int64_t i = 0; i < M; i++)
      for (int64_t j = 0; j < N; j++)
        mm.cell(t * M * N + i * N + j, ia * M * K + i * K, 1, ib * K * N + j, N, K);
  }
  if (!mm.ok) e.skip = true;
  return e;
}

static Expect dot_eval(const MT& a, const MT& b) {
  size_t p = a.dims.size(), q = b.dims.size();
  if (p == 2 && q == 2) return matmul_eval(a, b, true);
  Expect e;
  e.numeric = true;
  if (a.devt != 0 || b.devt != 0) e.rejects.push_back(S_NOSUP);
  if (a.dt != b.dt) e.rejects.push_back(S_NOSUP);
  e.out.dt = a.dt;
  e.out.devt = a.devt;
  e.out.devi = a.devi;
  if (p == 1 && q == 1) {
    if (a.dims[0] != b.dims[0]) e.rejects.push_back(S_DIM);
    if (e.invalid()) return e;
    e.out.dims = {1};
    if (MODEL_SHAPE_ONLY) return e;
    alloc_out(e.out);
    e.tol.assign(1, 0);
    MM mm{a, b, e.out, e.tol};
    mm.cell(0, 0, 1, 0, 1, a.dims[0]);
    e.cost = (double)a.dims[0];
    if (!mm.ok) e.skip = true;
    return e;
  }
  if (p == 0 || q == 0) {
    if (e.invalid()) return e;
    const MT& s = p > q ? b : a;  // the scalar
    const MT& t = p > q ? a : b;
    e.out.dims = t.dims;
    if (MODEL_SHAPE_ONLY) return e;
    alloc_out(e.out);
    e.cost = (double)t.n();
    bool ok = true, math = false;
    visit(a.dt, [&](auto tag) {
      using T = decltype(tag);
      T v = get<T>(s, 0);
      for (int64_t i = 0; i < t.n() && ok; i++) put<T>(e.out, i, arith<T>(K_MUL, v, get<T>(t, i), ok, math));
    });
    if (!ok) e.skip = true;
    return e;
  }
  if (q == 1) {
    int64_t K = a.dims[p - 1];
    if (K != b.dims[0]) e.rejects.push_back(S_ARG);
    if (e.invalid()) return e;
    e.out.dims.assign(a.dims.begin(), a.dims.end() - 1);
    alloc_out(e.out);
    e.tol.assign((size_t)e.out.n(), 0);
    e.cost = (double)a.n() * 40;
    if (e.cost > MAXCOST) { e.skip = true; return e; }
  if (MODEL_SHAPE_ONLY) return e;
    MM mm{a, b, e.out, e.tol};
    for (int64_t i = 0; i < e.out.n(); i++) mm.cell(i, i * K, 1, 0, 1, K);
    if (!mm.ok) e.skip = true;
    return e;
  }
  if (p > 2 && q > 2) {
    int64_t K = a.dims[p - 1], N = b.dims[q - 1];
    if (K != b.dims[q - 2]) e.rejects.push_back(S_ARG);
    if (e.invalid()) return e;
    e.out.dims.assign(a.dims.begin(), a.dims.end() - 1);
    for (size_t i = 0; i < q; i++)
      if (i != q - 2) e.out.dims.push_back(b.dims[i]);
    if (!dims_sane(e.out.dims)) { if (!too_big(e)) e.skip = true; return e; }
    e.cost = (double)e.out.n() * (K + 200);
    if (e.cost > MAXCOST) { e.skip = true; return e; }
  if (MODEL_SHAPE_ONLY) return e;
    alloc_out(e.out);
    e.tol.assign((size_t)e.out.n(), 0);
    MM mm{a, b, e.out, e.tol};
    int64_t na = 1, nbt = 1;
    for (size_t i = 0; i + 1 < p; i++) na *= a.dims[i];
    for (size_t i = 0; i + 2 < q; i++) nbt *= b.dims[i];
    for (int64_t i = 0; i < na; i++)
      for (int64_t t = 0; t < nbt; t++)
        for (int64_t j = 0; j < N; j++) mm.cell((i * nbt + t) * N + j, i * K, 1, t * K * N + j, N, K);
    if (!mm.ok) e.skip = true;
    return e;
  }
  e.rejects.push_back(S_ARG);
  return e;
}

static Expect conv_eval(const Op& op, const MT& x, const MT& f) {
  Expect e;
  e.numeric = true;
  size_t nd = x.dims.size();
  if (op.kind == K_CONV2D && nd != 4) e.rejects.push_back(S_DIM);
  if (op.kind == K_CONV3D && nd != 5) e.rejects.push_back(S_DIM);
  if (x.dt != 8) e.rejects.push_back(S_NOSUP);
  e.out.dt = x.dt;
  e.out.devt = x.devt;
  e.out.devi = x.devi;
  if (f.dt != x.dt) e.any_reject = true;
  if (nd < 2 || f.dims.size() != nd) { e.any_reject = true; return e; }
  if (nd == 2) { e.skip = true; return e; }
  size_t sd = nd - 2;
  if (op.pa.size() != sd || op.pb.size() != sd || op.pc.size() != sd) { if (!e.invalid()) e.skip = true; return e; }
  int g = op.groups;
  if (g < 1 || x.dims[1] % g || f.dims[0] % g) e.any_reject = true;
  else if (f.dims[1] != x.dims[1] / g) e.any_reject = true;
  for (size_t d = 0; d < sd; d++) {
    if (op.pa[d] < 1 || op.pb[d] < 0 || op.pc[d] < 1) { e.any_reject = true; continue; }
    if (f.dims[2 + d] == 0) e.skip = true;
    int64_t k = (int64_t)op.pc[d] * (f.dims[2 + d] - 1) + 1;
    if (k > x.dims[2 + d] + 2 * (int64_t)op.pb[d]) e.any_reject = true;
  }
  if (e.invalid() || e.skip) return e;
  e.out.dims = {x.dims[0], f.dims[0]};
  for (size_t d = 0; d < sd; d++) {
    int64_t k = (int64_t)op.pc[d] * (f.dims[2 + d] - 1) + 1;
    e.out.dims.push_back((x.dims[2 + d] + 2 * (int64_t)op.pb[d] - k) / op.pa[d] + 1);
  }
  if (!dims_sane(e.out.dims)) { if (!too_big(e)) e.skip = true; return e; }
  int64_t cg = x.dims[1] / g, og = f.dims[0] / g;
  int64_t fsp = 1, osp = 1, xsp = 1;
  for (size_t d = 0; d < sd; d++) fsp *= f.dims[2 + d], osp *= e.out.dims[2 + d], xsp *= x.dims[2 + d];
  e.cost = (double)e.out.n() * cg * fsp * 6;
  if (e.cost > MAXCOST) { e.skip = true; return e; }
  if (MODEL_SHAPE_ONLY) return e;
  alloc_out(e.out);
  e.tol.assign((size_t)e.out.n(), 0);
  std::vector<int64_t> od(e.out.dims.begin() + 2, e.out.dims.end()), xd(x.dims.begin() + 2, x.dims.end()),
      fd(f.dims.begin() + 2, f.dims.end());
  auto os = rm_strides(od), xs = rm_strides(xd), fs = rm_strides(fd);
  for (int64_t b = 0; b < x.dims[0]; b++)
    for (int64_t oc = 0; oc < f.dims[0]; oc++)
      for (int64_t o = 0; o < osp; o++) {
        Acc s;
        for (int64_t ic = 0; ic < cg; ic++)
          for (int64_t k = 0; k < fsp; k++) {
            int64_t off = 0;
            bool in = true;
            for (size_t d = 0; d < sd && in; d++) {
              int64_t pos = (o / os[d]) % od[d] * op.pa[d] - op.pb[d] + (k / fs[d]) % fd[d] * op.pc[d];
              if (pos < 0 || pos >= xd[d]) in = false;
              off += pos * xs[d];
            }
            if (!in) continue;
            int64_t c = (oc / og) * cg + ic;
            s.term((long double)get<float>(x, (b * x.dims[1] + c) * xsp + off) *
                   (long double)get<float>(f, (oc * cg + ic) * fsp + k));
          }
        acc_store<float>(e.out, e.tol, (b * f.dims[0] + oc) * osp + o, s);
      }
  return e;
}

static Expect pool_eval(const Op& op, const MT& x) {
  Expect e;
  e.numeric = true;
  size_t nd = x.dims.size();
  e.out.dt = x.dt;
  e.out.devt = x.devt;
  e.out.devi = x.devi;
  if (nd < 3 || nd > 5) { e.rejects.push_back(S_DIM); }
  bool mx = op.mode == "max", av = op.mode == "avg";
  if (!mx && !av) e.any_reject = true;
  if (nd < 3 || nd > 5) return e;
  size_t sd = nd - 2;
  if (op.pa.size() != sd || op.pb.size() != sd || op.pc.size() != sd || op.pd.size() != sd) { e.skip = true; return e; }
  bool toobig = false, bad = false;
  for (size_t d = 0; d < sd; d++) {
    if (op.pa[d] < 1 || op.pb[d] < 1 || op.pc[d] < 0 || op.pd[d] < 1) { bad = true; continue; }
    if ((int64_t)(op.pa[d] - 1) * op.pd[d] + 1 > x.dims[2 + d] + 2 * (int64_t)op.pc[d]) toobig = true;
  }
  if (bad) e.any_reject = true;
  if (toobig) e.rejects.push_back(S_ARG);
  if (e.invalid()) return e;
  e.out.dims = {x.dims[0], x.dims[1]};
  int64_t ws = 1;
  for (size_t d = 0; d < sd; d++) {
    int64_t k = (int64_t)(op.pa[d] - 1) * op.pd[d] + 1;
    e.out.dims.push_back((x.dims[2 + d] + 2 * (int64_t)op.pc[d] - k) / op.pb[d] + 1);
    ws *= op.pa[d];
  }
  if (!dims_sane(e.out.dims)) { if (!too_big(e)) e.skip = true; return e; }
  e.cost = (double)e.out.n() * ws * 6;
  if (e.cost > MAXCOST) { e.skip = true; return e; }
  if (MODEL_SHAPE_ONLY) return e;
  alloc_out(e.out);
  e.tol.assign((size_t)e.out.n(), 0);
  std::vector<int64_t> od(e.out.dims.begin() + 2, e.out.dims.end()), xd(x.dims.begin() + 2, x.dims.end()), kd(sd);
  for (size_t d = 0; d < sd; d++) kd[d] = op.pa[d];
  auto os = rm_strides(od), xs = rm_strides(xd), ks = rm_strides(kd);
  int64_t osp = 1, xsp = 1;
  for (size_t d = 0; d < sd; d++) osp *= od[d], xsp *= xd[d];
  visit(x.dt, [&](auto tag) {
    using T = decltype(tag);
    for (int64_t bc = 0; bc < x.dims[0] * x.dims[1]; bc++)
      for (int64_t o = 0; o < osp; o++) {
        double best = -INFINITY;
        T top = 0;  // the largest element read
        bool any = false, odd = false;
        Acc s;
        for (int64_t k = 0; k < ws; k++) {
          int64_t off = 0;
          bool in = true;
          for (size_t d = 0; d < sd && in; d++) {
            int64_t pos = (o / os[d]) % od[d] * op.pb[d] - op.pc[d] + (k / ks[d]) % kd[d] * op.pd[d];
            if (pos < 0 || pos >= xd[d]) in = false;
            off += pos * xs[d];
          }
          double v = 0;
          if (in) {
            T e = get<T>(x, bc * xsp + off);
            v = (double)e;
            if (std::isnan(v)) odd = true;
            if (!mx && !std::is_floating_point<T>::value && std::fabs(v) > 9e15) odd = true;
            if (!any || e > top) top = e;
            any = true;
            s.term(v);
          }
          if (v > best) best = v;
        }
        int64_t oi = bc * osp + o;
        if (odd && (mx || !std::is_floating_point<T>::value)) { e.tol[oi] = INFINITY; continue; }
        if (mx) {
          put<T>(e.out, oi, any && (double)top == best ? top : (T)best);
        } else if constexpr (std::is_floating_point<T>::value) {
          acc_store<T>(e.out, e.tol, oi, s);
          double lim = sizeof(T) == 4 ? 1e37 : 1e300;
          if (s.abs <= lim && !s.nan && !s.pinf && !s.ninf) {
            put<T>(e.out, oi, (T)(s.s / ws));
            e.tol[oi] = (double)(s.abs / ws) * ((sizeof(T) == 4 ? (double)FLT_EPSILON : 0) + (s.n + 6) * DBL_EPSILON) +
                        (sizeof(T) == 4 ? 1e-44 : 1e-300);
          }
        } else {
          put<T>(e.out, oi, (T)((double)s.s / (double)ws));
        }
      }
  });
  return e;
}

static Expect bn_eval(const Op& op, const std::vector<const MT*>& in) {
  const MT &x = *in[0], &sc = *in[1], &bi = *in[2], &mu = *in[3], &va = *in[4];
  Expect e;
  e.numeric = true;
  size_t nd = x.dims.size();
  e.out.dt = x.dt;
  e.out.devt = x.devt;
  e.out.devi = x.devi;
  e.out.dims = x.dims;
  bool dimbad = nd < 2 || nd > 5;
  if (dimbad) e.rejects.push_back(S_DIM);
  bool axbad = op.axis != 1 && op.axis != (int)nd - 1;
  if (axbad) e.rejects.push_back(S_ARG);
  for (int i = 1; i < 5; i++) {
    if (in[i]->dt != x.dt) e.rejects.push_back(S_TYPE);
    if (in[i]->dims.size() != 1) e.rejects.push_back(S_DIM);
    else if (!dimbad && !axbad && in[i]->n() != x.dims[op.axis]) e.rejects.push_back(S_DIM);
  }
  if (!dimbad && !axbad)
    for (int i = 1; i < 5; i++)
      if (in[i]->n() != x.dims[op.axis]) e.rejects.push_back(S_DIM);
  if (op.dval < 0) e.rejects.push_back(S_ARG);
  if (x.devt != 0) e.rejects.push_back(S_NOSUP);
  if (e.invalid()) return e;
  for (int i = 1; i < 5; i++)
    if (in[i]->devt != x.devt) { e.skip = true; return e; }
  int64_t C = x.dims[op.axis];
  auto st = rm_strides(x.dims);
  alloc_out(e.out);
  e.tol.assign((size_t)e.out.n(), 0);
  e.cost = (double)x.n() * 80;
  if (e.cost > MAXCOST) { e.skip = true; return e; }
  if (MODEL_SHAPE_ONLY) return e;
  bool ok = true, math = false;
  if (isf(x.dt)) {
    for (int64_t c = 0; c < C; c++) {
      double v = getd(va, c), ep = x.dt == 8 ? (double)(float)op.dval : op.dval;
      double q = v + ep;
      if (x.dt == 8) q = (double)(float)q;
      if (q < 0) math = true;
    }
    if (math) { e.rejects.push_back(S_MATH); return e; }
    for (int64_t i = 0; i < x.n(); i++) {
      int64_t c = (i / st[op.axis]) % C;
      double v = getd(va, c), ep = x.dt == 8 ? (double)(float)op.dval : op.dval;
      double q = v + ep, X = getd(x, i), M = getd(mu, c), S = getd(sc, c), B = getd(bi, c);
      double den = std::sqrt(q);
      double r = S * ((X - M) / den) + B;
      double mag = (std::fabs(X) + std::fabs(M)) / den * std::fabs(S) + std::fabs(B);
      double lim = x.dt == 8 ? 1e30 : 1e280;
      if (!(den > 1e-12) || !std::isfinite(r) || !(mag < lim) || !(std::fabs(X) + std::fabs(M) < lim) ||
          !((std::fabs(X) + std::fabs(M)) / den < lim) || !(q < lim)) {
        e.tol[i] = INFINITY;
        continue;
      }
      visit(x.dt, [&](auto tag) { put<decltype(tag)>(e.out, i, (decltype(tag))r); });
      e.tol[i] = mag * 16 * eps_of(x.dt) + (x.dt == 8 ? 1e-30 : 1e-280);
    }
  } else {
    visit(x.dt, [&](auto tag) {
      using T = decltype(tag);
      if constexpr (!std::is_floating_point<T>::value) {
        if (!(op.dval < 100)) { ok = false; return; }
        T ep = (T)op.dval;
        std::vector<T> den((size_t)C);
        for (int64_t c = 0; c < C && ok; c++) {
          T q = arith<T>(K_ADD, get<T>(va, c), ep, ok, math);
          if (q < 0) { math = true; continue; }
          if ((double)q > 9e15) ok = false;
          den[c] = (T)std::sqrt((double)q);
        }
        for (int64_t i = 0; i < x.n() && ok && !math; i++) {
          int64_t c = (i / st[op.axis]) % C;
          T t = arith<T>(K_SUB, get<T>(x, i), get<T>(mu, c), ok, math);
          t = arith<T>(K_DIV, t, den[c], ok, math);
          if (math || !ok) break;
          t = arith<T>(K_MUL, get<T>(sc, c), t, ok, math);
          t = arith<T>(K_ADD, t, get<T>(bi, c), ok, math);
          put<T>(e.out, i, t);
        }
      }
    });
    if (math) {
      if (!ok) e.skip = true;
      e.rejects.push_back(S_MATH);
    } else if (!ok) {
      e.skip = true;
    }
  }
  return e;
}

static Expect eval_op(const Op& op, const std::vector<const MT*>& in) {
  Expect e;
  switch (op.kind) {
    case K_CREATE: {
      e.out.dt = op.dtype;
      e.out.devt = op.devt;
      e.out.devi = op.devi;
      e.out.dims = op.dims;
      if (!dims_sane(op.dims)) {
        if (op.dmode == 1 && op.dlen >= 0) {  // the buffer cannot be the data of that many elements
          long double n = 1;
          bool neg = false;
          for (auto x : op.dims) n *= (long double)x, neg |= x < 0;
          if (neg || n != (long double)(op.dlen / DT_SIZE[op.dtype])) e.rejects.push_back(S_ARG);
          else e.skip = true;
        } else if (op.dmode == 1 || !too_big(e)) {
          e.skip = true;
        }
        return e;
      }
      if (!MODEL_SHAPE_ONLY) gen_data(e.out, op.style, op.dseed);
      if (op.dmode == 1 && op.dlen >= 0 && (op.dlen / DT_SIZE[op.dtype]) != e.out.n()) e.rejects.push_back(S_ARG);
      if (op.dmode == 1 && op.dlen >= 0 && op.dlen < e.out.n() * DT_SIZE[op.dtype] && !e.invalid()) e.skip = true;
      if (op.dmode == 0) e.undef_data = true;
      e.cost = (double)e.out.n();
      return e;
    }
    case K_FULL: {
      e.out.dt = op.dtype;
      e.out.devt = op.devt;
      e.out.devi = op.devi;
      e.out.dims = op.dims;
      if (!dims_sane(op.dims)) { if (op.dmode == 1 || !too_big(e)) e.skip = true; return e; }
      if (MODEL_SHAPE_ONLY) return e;
      alloc_out(e.out);
      visit(op.dtype, [&](auto tag) {
        using T = decltype(tag);
        if (!std::is_floating_point<T>::value) {
          double tv = std::trunc(op.dval);
          if (std::isnan(op.dval) || tv < (double)std::numeric_limits<T>::min() ||
              tv >= std::ldexp(1.0, (int)(8 * sizeof(T) - (std::is_signed<T>::value ? 1 : 0)))) {
            e.skip = true;
            return;
          }
        }
        T v = (T)op.dval;
        for (int64_t i = 0; i < e.out.n(); i++) put<T>(e.out, i, v);
      });
      e.cost = (double)e.out.n() * 10;
      return e;
    }
    case K_CAST: {
      const MT& x = *in[0];
      e.out.devt = x.devt;
      e.out.devi = x.devi;
      e.out.dims = x.dims;
      e.out.dt = op.dtype;
      e.cost = (double)x.n();
      if (x.dt == op.dtype) {
        e.may_untouched = true;
        e.out.b = x.b;
        return e;
      }
      if (MODEL_SHAPE_ONLY) return e;
      alloc_out(e.out);
      visit(x.dt, [&](auto ti) {
        using I = decltype(ti);
        visit(op.dtype, [&](auto to) {
          using O = decltype(to);
          for (int64_t i = 0; i < x.n(); i++) {
            I v = get<I>(x, i);
            if constexpr (std::is_floating_point<I>::value && !std::is_floating_point<O>::value) {
              double tv = std::trunc((double)v);
              if (std::isnan(tv) || tv < (double)std::numeric_limits<O>::min() ||
                  tv >= std::ldexp(1.0, (int)(8 * sizeof(O) - (std::is_signed<O>::value ? 1 : 0)))) {
                e.skip = true;
                return;
              }
            }
            if constexpr (std::is_same<I, double>::value && std::is_same<O, float>::value) {
              if (std::isfinite(v) && std::fabs(v) > (double)FLT_MAX) { e.skip = true; return; }
            }
            put<O>(e.out, i, (O)v);
          }
        });
      });
      return e;
    }
    case K_RESHAPE: {
      const MT& x = *in[0];
      long double n = 1;
      bool neg = false;
      for (auto d : op.dims) n *= d, neg |= d < 0;
      e.out = x;
      e.out.dims = op.dims;
      e.cost = (double)x.n();
      if (neg || std::fabs(n) > 9e18L) { e.rejects.push_back(S_DIM); e.rejects.push_back(S_ARG); return e; }
      if (n != x.n()) { e.rejects.push_back(S_DIM); return e; }
      if (!dims_sane(op.dims)) e.skip = true;
      return e;
    }
    case K_SLICE: {
      const MT& x = *in[0];
      size_t nd = x.dims.size();
      if (op.pa.size() != nd || op.pb.size() != nd || op.pc.size() != nd) { e.skip = true; return e; }
      for (size_t i = 0; i < nd; i++)
        if (op.pa[i] < 0 || op.pa[i] >= x.dims[i] || op.pb[i] < 0 || (int64_t)op.pa[i] + op.pb[i] > x.dims[i] ||
            op.pc[i] < 1) {
          e.rejects.push_back(S_ARG);
          return e;
        }
      e.out.dt = x.dt;
      e.out.devt = x.devt;
      e.out.devi = x.devi;
      std::vector<int64_t> cnt(nd);
      for (size_t i = 0; i < nd; i++) {
        cnt[i] = op.pb[i] ? (op.pb[i] - 1) / op.pc[i] + 1 : 0;
        if (cnt[i]) e.out.dims.push_back(cnt[i]);
        else cnt[i] = 1;
      }
      if (MODEL_SHAPE_ONLY) return e;
      alloc_out(e.out);
      auto st = rm_strides(x.dims), so = rm_strides(cnt);
      int es = DT_SIZE[x.dt];
      for (int64_t o = 0; o < e.out.n(); o++) {
        int64_t src = 0;
        for (size_t d = 0; d < nd; d++) src += (op.pa[d] + (o / so[d]) % cnt[d] * op.pc[d]) * st[d];
        memcpy(&e.out.b[o * es], &x.b[src * es], es);
      }
      e.cost = (double)e.out.n() * 8;
      return e;
    }
    case K_SQUEEZE: {
      const MT& x = *in[0];
      e.out = x;
      e.out.dims.clear();
      std::vector<bool> drop(x.dims.size(), false);
      if (op.axis < 0) { e.rejects.push_back(S_ARG); return e; }  // negative count
      for (auto a : op.dims) {
        if (a < 0 || a >= (int64_t)x.dims.size()) { e.rejects.push_back(S_ARG); return e; }
        drop[a] = true;
      }
      for (size_t i = 0; i < x.dims.size(); i++)
        if (!(x.dims[i] == 1 && (op.dims.empty() || drop[i]))) e.out.dims.push_back(x.dims[i]);
      e.cost = (double)x.n();
      return e;
    }
    case K_DUPLICATE: e.out = *in[0]; e.cost = (double)e.out.n() * 8; return e;
    case K_ADD: case K_SUB: case K_MUL: case K_DIV: {
      const MT &a = *in[0], &b = *in[1];
      e.numeric = true;
      e.out.dt = a.dt;
      e.out.devt = a.devt;
      e.out.devi = a.devi;
      e.out.dims = a.dims;
      if (a.devt != 0 || b.devt != 0) e.rejects.push_back(S_NOSUP);
      if (a.dt != b.dt) e.rejects.push_back(S_TYPE);
      if (a.dims != b.dims) e.rejects.push_back(S_ARG);
      if (e.invalid() || MODEL_SHAPE_ONLY) return e;
      alloc_out(e.out);
      bool ok = true, math = false;
      visit(a.dt, [&](auto tag) {
        using T = decltype(tag);
        for (int64_t i = 0; i < a.n() && ok; i++)
          put<T>(e.out, i, arith<T>(op.kind, get<T>(a, i), get<T>(b, i), ok, math));
      });
      if (!ok) e.skip = true;
      if (math) e.rejects.push_back(S_MATH);
      e.cost = (double)a.n() * 10;
      return e;
    }
    case K_SQRT: {
      const MT& x = *in[0];
      e.numeric = true;
      e.out = x;
      if (MODEL_SHAPE_ONLY) return e;
      e.tol.assign((size_t)x.n(), 0);
      bool math = false;
      visit(x.dt, [&](auto tag) {
        using T = decltype(tag);
        for (int64_t i = 0; i < x.n(); i++) {
          T v = get<T>(x, i);
          if (v < 0) { math = true; return; }
          if (!std::is_floating_point<T>::value && (double)v > 4e15) { e.tol[i] = INFINITY; continue; }
          double r = std::sqrt((double)v);
          put<T>(e.out, i, (T)r);
          if (std::is_floating_point<T>::value && std::isfinite(r)) e.tol[i] = r * eps_of(x.dt);
        }
      });
      if (math) e.rejects.push_back(S_MATH);
      e.cost = (double)x.n();
      return e;
    }
    case K_MATMUL: return matmul_eval(*in[0], *in[1], false);
    case K_DOT: return dot_eval(*in[0], *in[1]);
    case K_CONV: case K_CONV2D: case K_CONV3D: return conv_eval(op, *in[0], *in[1]);
    case K_POOLING: return pool_eval(op, *in[0]);
    case K_BATCH_NORM: return bn_eval(op, in);
    case K_RELU: {
      e.out = *in[0];
      e.numeric = true;
      if (MODEL_SHAPE_ONLY) return e;
      visit(e.out.dt, [&](auto tag) {
        using T = decltype(tag);
        for (int64_t i = 0; i < e.out.n(); i++) {
          T v = get<T>(e.out, i);
          if (!(v > 0)) put<T>(e.out, i, 0);
        }
      });
      if (isf(e.out.dt)) {  // relu(NaN) is not settled by the documentation
        e.tol.assign((size_t)e.out.n(), 0);
        for (int64_t i = 0; i < e.out.n(); i++)
          if (std::isnan(getd(*in[0], i))) e.tol[i] = INFINITY;
      }
      e.cost = (double)e.out.n();
      return e;
    }
    case K_SIGMOID: case K_TANH: {
      const MT& x = *in[0];
      e.numeric = true;
      e.out = x;
      if (!isf(x.dt)) { e.rejects.push_back(S_NOSUP); return e; }
      if (MODEL_SHAPE_ONLY) return e;
      e.tol.assign((size_t)x.n(), 0);
      for (int64_t i = 0; i < x.n(); i++) {
        double v = getd(x, i), r;
        if (op.kind == K_SIGMOID) r = 1.0 / (1.0 + std::exp(-v));
        else r = std::tanh(v);
        if (std::isnan(v)) e.tol[i] = 0, r = v;
        else e.tol[i] = std::fabs(r) * 4 * eps_of(x.dt) + 16 * DBL_EPSILON * (op.kind == K_TANH ? 1 : std::fabs(r)) + (x.dt == 8 ? 1e-44 : 1e-300);
        if (x.dt == 8) put<float>(e.out, i, (float)r);
        else put<double>(e.out, i, r);
      }
      e.cost = (double)x.n() * 20;
      return e;
    }
    case K_SOFTMAX: {
      const MT& x = *in[0];
      int nd = (int)x.dims.size();
      e.numeric = true;
      e.out = x;
      if (op.axis < -1 || op.axis > nd - 1) { e.rejects.push_back(S_NOSUP); return e; }
      if (!isf(x.dt)) { e.undef_data = true; return e; }
      if (MODEL_SHAPE_ONLY) return e;
      e.tol.assign((size_t)x.n(), 0);
      int64_t len = x.n(), inner = 1, outer = 1;
      if (op.axis >= 0) {
        len = x.dims[op.axis];
        auto st = rm_strides(x.dims);
        inner = st[op.axis];
        outer = len * inner ? x.n() / (len * inner) : 0;
      }
      double lim = x.dt == 8 ? 3e38 : 8e307;
      for (int64_t o = 0; o < outer; o++)
        for (int64_t i = 0; i < inner; i++) {
          long double tot = 0;
          bool odd = false;
          double mx = -INFINITY;
          for (int64_t k = 0; k < len; k++) mx = std::max(mx, getd(x, (o * len + k) * inner + i));
          for (int64_t k = 0; k < len; k++) {
            double v = getd(x, (o * len + k) * inner + i);
            if (!(std::fabs(v) < lim)) odd = true;
            tot += std::exp((long double)v - mx);
          }
          for (int64_t k = 0; k < len; k++) {
            int64_t p = (o * len + k) * inner + i;
            if (odd) { e.tol[p] = INFINITY; continue; }
            double r = (double)(std::exp((long double)getd(x, p) - mx) / tot);
            if (x.dt == 8) put<float>(e.out, p, (float)r);
            else put<double>(e.out, p, r);
            e.tol[p] = r * (16 * eps_of(x.dt) + ((double)len + std::fabs(getd(x, p)) + std::fabs(mx)) * 8 * DBL_EPSILON) + (x.dt == 8 ? 1e-37 : 1e-300);
          }
        }
      e.cost = (double)x.n() * 30;
      return e;
    }
    case K_DROPOUT: {
      e.out = *in[0];
      if (std::isnan(op.dval)) { e.skip = true; return e; }
      if (op.dval < 0 || op.dval > 1) { e.rejects.push_back(S_ARG); return e; }
      e.is_dropout = true;
      e.cost = (double)e.out.n() * 10;
      return e;
    }
  }
  e.skip = true;
  return e;
}

Expect model_eval(const Op& op, const std::vector<const MT*>& in) {
  Expect e = eval_op(op, in);
  for (auto x : in)  // whether operations take empty tensors is not documented
    if (!x->n()) e.may_reject = true;
  return e;
}

int64_t model_compare(const Expect& e, const void* actual, char* why, size_t nwhy) {
  int64_t bad = -1;
  const MT& o = e.out;
  visit(o.dt, [&](auto tag) {
    using T = decltype(tag);
    for (int64_t i = 0; i < o.n(); i++) {
      T x = get<T>(o, i), y;
      memcpy(&y, (const char*)actual + i * sizeof(T), sizeof(T));
      if (!memcmp(&x, &y, sizeof(T))) continue;
      if constexpr (std::is_floating_point<T>::value) {
        if (std::isnan(x) && std::isnan(y)) continue;
        if (e.numeric && x == y) continue;
        if (!e.tol.empty() && std::isinf(e.tol[i])) continue;
        if (!e.tol.empty() && std::fabs((double)x - (double)y) <= e.tol[i]) continue;
      } else {
        if (!e.tol.empty() && std::isinf(e.tol[i])) continue;
      }
      bad = i;
      snprintf(why, nwhy, "element %ld of %ld is %.9g, the model says %.9g", (long)i, (long)o.n(), (double)y, (double)x);
      return;
    }
  });
  return bad;
}
