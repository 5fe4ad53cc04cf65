/* Flat call adapter: the only harness file (with adapter.c) that sees the
 * library's headers. adapter.c is compiled exactly like the library sources
 * (same sanitizer + coverage instrumentation), so that the header-inline
 * accessors a user compiles into his own code run instrumented too. */
#ifndef SIM_ADAPTER_H
#define SIM_ADAPTER_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum AdKind {
  K_CREATE = 0, K_FULL, K_CAST, K_RESHAPE, K_SLICE, K_SQUEEZE, K_DUPLICATE,
  K_ADD, K_SUB, K_MUL, K_DIV, K_SQRT, K_MATMUL, K_DOT,
  K_CONV, K_CONV2D, K_CONV3D, K_POOLING, K_BATCH_NORM, K_RELU, K_SIGMOID,
  K_TANH, K_SOFTMAX, K_DROPOUT,
  K_NLIB, /* kinds below this are library calls producing an output */
  K_DESTROY = K_NLIB, K_POKE, K_CHECK, K_INSTALL, K_CLOCK,
  K_INDEX, /* element addressing: strides, coordinates, positions, typed access */
  K_BCAST, /* combining two shapes */
  K_NKINDS
};
typedef struct {
  int kind;
  void *in[5];
  void **out; /* Tensor* */
  int dtype;
  int dev_type, dev_id;
  int64_t *dims;
  int64_t ndim;
  void *data;
  unsigned len;
  int *pa, *pb, *pc, *pd;
  int64_t *axes;
  int64_t naxes;
  int groups, axis;
  const char *mode;
  double dval;
} AdArgs;
typedef struct {
  int64_t ndim, size;
  const int64_t *dims;
  int dcode, dsize, dev_type, dev_id, layout;
  const int64_t *min2maj;
  void *data;
  /* through the shape getter */
  int64_t s_ndim;
  const int64_t *s_dims;
  /* through resolve */
  int r_status, r_dcode, r_dsize, r_dev_type, r_dev_id;
  int64_t r_ndim;
  const int64_t *r_dims;
  void *r_data;
  unsigned r_len;
  /* through the storage */
  int64_t st_size;
  int st_dcode, st_dsize, st_dev_type, st_dev_id;
  void *st_data;
} AdMeta;
typedef struct { /* one round of element addressing */
  int64_t lin;                 /* in: position */
  int64_t *coords, *back;      /* out: coordinates of the position; of the offset */
  int64_t *strides;            /* out: all strides at once */
  int64_t *stride1;            /* out: each stride on its own */
  int64_t lin2, offset;        /* out */
  char v_array[8], v_addr[8];  /* out: the element, through both typed readers */
} AdIndex;
int ad_call(AdArgs *a);
int ad_destroy(void **handle);
void ad_set_item(void *t, int64_t idx, void *value);
void ad_meta(void *t, AdMeta *m);
int64_t ad_dim(void *t, int64_t d);
int ad_installed(void *(*al)(unsigned long), void (*de)(void *));
void ad_index(void *t, AdIndex *x);
void ad_write(void *t, int64_t idx, void *value, int how);
int ad_bcast(int64_t *a, int64_t na, int64_t *b, int64_t nb, int64_t *o, int64_t no);
void ad_install(void *(*al)(unsigned long), void (*de)(void *));
/* every pointer a tensor handle leads to, so that the harness can test that it
 * is live memory before following it */
void *ad_p_storage(void *t);
#ifdef __cplusplus
}
#endif
#endif
