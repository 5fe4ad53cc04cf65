/* Flat adapter to the C++ handle classes of auto_test. hadapter.cpp is the only
 * file here that sees their headers; it is compiled like the library's own
 * sources, so the header-inline members run instrumented as in a user's code. */
#pragma once
#include <stdint.h>
#include <stddef.h>
enum HType { HU = 0, HB, HR, HSU, HSB };
struct HX {
  int n; /* dims/data pairs: 1 or 2 */
  int64_t nd[2];
  int64_t* dims[2];
  int dt[2], dev[2];
  void* data[2];
  unsigned len[2];
};
extern "C" {
size_t hx_size(int type);
void* hx_input(int type, void* p);
void* hx_result(int type, void* p);
/* all of these: 0 done, 1 an exception came out */
int hx_def(int type, void* p);
int hx_raw(int type, void* p, const HX* a);
int hx_vec(int type, void* p, const HX* a);
int hx_copy(int type, void* dst, void* src);
int hx_move(int type, void* dst, void* src);
int hx_assign(int type, void* dst, void* src);
int hx_sample(int type, void* dst, void* input);
int hx_set_input(int type, void* dst, void* input);
int hx_set_result(int type, void* dst, int64_t nd, int64_t* dims, int dt, int dev, void* data, unsigned len);
int hx_binary(void* dst, void* input, int kernel);
void hx_set_data(int type, void* p, int which, void* data, unsigned len);
void hx_device(int type, void* p, int cuda);
void hx_get(int type, void* p, HX* o);
void hx_destroy(int type, void* p);
void hx_install(void* (*al)(unsigned long), void (*de)(void*));
}
