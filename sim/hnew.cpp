// operator new / delete as the C++ test library sees them: the simulator's
// seam; new throws when the plan says the allocation fails
#include <new>
#include "rt.h"
static void* get(unsigned long n) {
  void* p = rt_new(n);
  if (!p) throw std::bad_alloc();
  return p;
}
extern "C" {
void* sim_Znwm(unsigned long n) { return get(n); }
void* sim_Znam(unsigned long n) { return get(n); }
void* sim_ZnwmN(unsigned long n, const void*) { return rt_new(n); }
void* sim_ZnamN(unsigned long n, const void*) { return rt_new(n); }
void sim_ZdlPv(void* p) { rt_delete(p); }
void sim_ZdlPvm(void* p, unsigned long) { rt_delete(p); }
void sim_ZdaPv(void* p) { rt_delete(p); }
void sim_ZdaPvm(void* p, unsigned long) { rt_delete(p); }
}
