#include "hadapter.h"

#include <cstdio>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>

#include "auto_test/basic.h"
#include "auto_test/sample.h"
extern "C" {
#include "src/core/allocator.h"
#include "src/math/binary_op.h"
#include "src/math/matmul.h"
}

using namespace aitisa_api;
typedef Sample<Unary_Input> SU;
typedef Sample<Binary_Input> SB;

static Binary_Input* g_in;
static int g_kernel;
// what a user's test class gives get_binary_sample
struct ProbeTest {
  Binary_Input* input[1];
  ProbeTest() { input[0] = g_in; }
  virtual ~ProbeTest() {}
  static void aitisa_kernel(const Tensor a, const Tensor b, Tensor* o) {
    switch (g_kernel) {
      case 0: aitisa_add(a, b, o); break;
      case 1: aitisa_sub(a, b, o); break;
      case 2: aitisa_mul(a, b, o); break;
      case 3: aitisa_matmul(a, b, o); break;
      default: break;  // a kernel that produces nothing
    }
  }
};
#define U(p) (*(Unary_Input*)(p))
#define B(p) (*(Binary_Input*)(p))
#define R(p) (*(Result*)(p))
#define TRY(x) try { x; } catch (...) { return 1; } return 0;
#define EACH(t, u, b, r, su, sb) \
  switch (t) { case HU: u; break; case HB: b; break; case HR: r; break; case HSU: su; break; case HSB: sb; break; }

extern "C" {
size_t hx_size(int t) {
  size_t s[] = {sizeof(Unary_Input), sizeof(Binary_Input), sizeof(Result), sizeof(SU), sizeof(SB)};
  return s[t];
}
void* hx_input(int t, void* p) {
  if (t == HSU) return &((SU*)p)->input();
  return &((SB*)p)->input();
}
void* hx_result(int t, void* p) {
  if (t == HSU) return &((SU*)p)->result();
  return &((SB*)p)->result();
}
int hx_def(int t, void* p) {
  TRY(EACH(t, new (p) Unary_Input(), new (p) Binary_Input(), new (p) Result(), new (p) SU(), new (p) SB()))
}
int hx_raw(int t, void* p, const HX* a) {
  TRY(if (t == HU) new (p) Unary_Input(a->nd[0], a->dims[0], a->dt[0], a->dev[0], a->data[0], a->len[0]);
      else new (p) Binary_Input(a->nd[0], a->dims[0], a->dt[0], a->dev[0], a->data[0], a->len[0], a->nd[1], a->dims[1],
                                a->dt[1], a->dev[1], a->data[1], a->len[1]))
}
int hx_vec(int t, void* p, const HX* a) {
  TRY(std::vector<int64_t> d0(a->dims[0], a->dims[0] + a->nd[0]);
      if (t == HU) new (p) Unary_Input(a->nd[0], d0, a->dt[0], a->dev[0], a->data[0], a->len[0]);
      else {
        std::vector<int64_t> d1(a->dims[1], a->dims[1] + a->nd[1]);
        new (p) Binary_Input(a->nd[0], d0, a->dt[0], a->dev[0], a->data[0], a->len[0], a->nd[1], d1, a->dt[1], a->dev[1],
                             a->data[1], a->len[1]);
      })
}
int hx_copy(int t, void* d, void* s) {
  TRY(EACH(t, new (d) Unary_Input(U(s)), new (d) Binary_Input(B(s)), new (d) Result(R(s)), new (d) SU(*(SU*)s),
           new (d) SB(*(SB*)s)))
}
int hx_move(int t, void* d, void* s) {
  TRY(EACH(t, new (d) Unary_Input(std::move(U(s))), new (d) Binary_Input(std::move(B(s))), new (d) Result(std::move(R(s))),
           new (d) SU(std::move(*(SU*)s)), new (d) SB(std::move(*(SB*)s))))
}
}
// a class that cannot be assigned at all answers 2
template <class T, class Part> static int assign(void* d, void* s) {
  if constexpr (std::is_assignable<Part&, Part&>::value) {
    TRY(*(T*)d = *(T*)s)
  } else {
    return 2;
  }
}
extern "C" {
int hx_assign(int t, void* d, void* s) {
  switch (t) {
    case HU: return assign<Unary_Input, Unary_Input>(d, s);
    case HB: return assign<Binary_Input, Binary_Input>(d, s);
    case HR: return assign<Result, Result>(d, s);
    case HSU: return assign<SU, Result>(d, s);
    default: return assign<SB, Result>(d, s);
  }
}
int hx_sample(int t, void* d, void* in) {
  TRY(if (t == HSU) new (d) SU(U(in)); else new (d) SB(B(in)))
}
int hx_set_input(int t, void* d, void* in) {
  TRY(if (t == HSU)((SU*)d)->set_input(U(in)); else((SB*)d)->set_input(B(in)))
}
int hx_set_result(int t, void* p, int64_t nd, int64_t* dims, int dt, int dev, void* data, unsigned len) {
  TRY(if (t == HR) R(p).set_result(nd, dims, dt, dev, data, len);
      else if (t == HSU)((SU*)p)->set_result(nd, dims, dt, dev, data, len);
      else((SB*)p)->set_result(nd, dims, dt, dev, data, len))
}
int hx_binary(void* d, void* in, int k) {
  g_in = (Binary_Input*)in;
  g_kernel = k;
  TRY(new (d) SB(get_binary_sample<ProbeTest>(0)))
}
void hx_set_data(int t, void* p, int w, void* data, unsigned len) {
  if (t == HU) U(p).set_data(data, len);
  else if (w == 0) B(p).set_data1(data, len);
  else B(p).set_data2(data, len);
}
void hx_device(int t, void* p, int cuda) {
  if (t == HU) { if (cuda) U(p).to_CUDA(); else U(p).to_CPU(); }
  else { if (cuda) B(p).to_CUDA(); else B(p).to_CPU(); }
}
void hx_get(int t, void* p, HX* o) {
  if (t == HU) {
    auto& h = U(p);
    o->n = 1, o->nd[0] = h.ndim(), o->dims[0] = h.dims(), o->dt[0] = h.dtype(), o->dev[0] = h.device(), o->data[0] = h.data(), o->len[0] = h.len();
  } else if (t == HR) {
    auto& h = R(p);
    o->n = 1, o->nd[0] = h.ndim(), o->dims[0] = h.dims(), o->dt[0] = h.dtype(), o->dev[0] = h.device(), o->data[0] = h.data(), o->len[0] = h.len();
  } else {
    auto& h = B(p);
    o->n = 2;
    o->nd[0] = h.ndim1(), o->dims[0] = h.dims1(), o->dt[0] = h.dtype1(), o->dev[0] = h.device1(), o->data[0] = h.data1(), o->len[0] = h.len1();
    o->nd[1] = h.ndim2(), o->dims[1] = h.dims2(), o->dt[1] = h.dtype2(), o->dev[1] = h.device2(), o->data[1] = h.data2(), o->len[1] = h.len2();
  }
}
void hx_destroy(int t, void* p) {
  EACH(t, U(p).~Unary_Input(), B(p).~Binary_Input(), R(p).~Result(), ((SU*)p)->~SU(), ((SB*)p)->~SB())
}
void hx_install(void* (*al)(unsigned long), void (*de)(void*)) {
  aitisa_set_default_cpu_raw_alloc((RawAlloc)al);
  aitisa_set_default_cpu_raw_dealloc((RawDealloc)de);
}
}
