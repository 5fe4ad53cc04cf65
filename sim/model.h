// Reference model: what each public operation means, written independently of
// the library (no library header is included).
#pragma once
#include <cstdint>
#include <string>
#include <vector>

#include "adapter.h"
#include "rt.h"

enum St { S_OK = 0, S_TYPE, S_DIM, S_ARG, S_NOSUP, S_ALLOC, S_RANGE, S_INTERNAL, S_MATH, S_N };
extern const char* const ST_NAME[S_N];
const char* st_name(int s);
extern const char* const DT_NAME[10];
extern const int DT_SIZE[10];
extern const char* const KIND_NAME[K_NKINDS];
enum Family { FAM_MOVE, FAM_ARITH, FAM_NN, FAM_DROPOUT, FAM_NONE };
int family(int kind);

struct MT {  // model tensor: a plain value
  int dt = 8, devt = 0, devi = 0;
  std::vector<int64_t> dims;
  std::vector<uint8_t> b;
  int64_t n() const {
    int64_t r = 1;
    for (auto d : dims) r *= d;
    return r;
  }
};

struct Op {
  int id = 0, phase = 0, thr = 0, kind = 0;
  int out = -1;
  int nin = 0;
  int in[5] = {-1, -1, -1, -1, -1};
  std::vector<int64_t> dims;         // create/full/reshape; axes for squeeze
  std::vector<int> pa, pb, pc, pd;   // slice begin/size/step; conv stride/pad/dil; pool k/stride/pad/dil
  int groups = 1, axis = 0;
  std::string mode = "max";
  double dval = 0;
  int dtype = 8, devt = 0, devi = 0;
  int dmode = 0;                     // create: 0 data=NULL, 1 hand over a buffer
  int64_t dlen = -1;                 // create: byte length passed (-1: the right one)
  int style = 0;
  uint64_t dseed = 1;
  int preset = 0;                    // output handle before the call: 0 NULL 1 junk 2 another live tensor
  Fault fault;
  bool probe = false;                // count allocations in a clean run first (fault index taken modulo)
  int sweep = 0;                     // >0: fail each allocation in turn (up to that many)
  bool retry = true;
  bool noise = false;                // executed only in the "different history" variant
  int twice = 0;                     // destroy: call again on the same handle
  int64_t idx = 0;                   // poke index / clock step / allocator number
};

struct Expect {
  bool skip = false;                 // outside the contract: not executed
  std::vector<int> rejects;          // non-empty: must be rejected with one of these
  bool any_reject = false;           // must be rejected, code unspecified
  bool huge = false;                 // the result is larger than the memory there is
  bool may_reject = false;           // acceptance is not settled (empty tensors)
  bool may_untouched = false;        // success may leave the output handle alone
  bool undef_data = false;           // result data unspecified
  bool is_dropout = false;
  bool numeric = false;              // +0 == -0
  MT out;
  std::vector<double> tol;           // per element; empty: exact; inf: unchecked
  double cost = 0;
  bool invalid() const { return any_reject || !rejects.empty(); }
};

extern bool MODEL_SHAPE_ONLY;
void gen_data(MT& t, int style, uint64_t seed);
Expect model_eval(const Op& op, const std::vector<const MT*>& in);
// first mismatching element or -1
int64_t model_compare(const Expect& e, const void* actual, char* why, size_t nwhy);
std::string dims_str(const std::vector<int64_t>& d);
