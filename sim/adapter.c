#include "adapter.h"
#include "src/basic/broadcast.h"
#include "src/basic/cast.h"
#include "src/basic/duplicate.h"
#include "src/basic/factories.h"
#include "src/basic/index_utils.h"
#include "src/basic/reshape.h"
#include "src/basic/slice.h"
#include "src/basic/squeeze.h"
#include "src/core/allocator.h"
#include "src/core/tensor.h"
#include "src/math/binary_op.h"
#include "src/math/dot.h"
#include "src/math/matmul.h"
#include "src/math/sqrt.h"
#include "src/nn/batch_norm.h"
#include "src/nn/conv.h"
#include "src/nn/dropout.h"
#include "src/nn/pooling.h"
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/softmax.h"
#include "src/nn/tanh.h"

static DataType dt(int code) {
  switch (code) {
    case 0: return kInt8;
    case 1: return kUint8;
    case 2: return kInt16;
    case 3: return kUint16;
    case 4: return kInt32;
    case 5: return kUint32;
    case 6: return kInt64;
    case 7: return kUint64;
    case 8: return kFloat;
    default: return kDouble;
  }
}

int ad_call(AdArgs *a) {
  Tensor *i = (Tensor *)a->in;
  Tensor *o = (Tensor *)a->out;
  Device dev;
  dev.type = (DeviceType)a->dev_type;
  dev.id = a->dev_id;
  int sd;
  switch (a->kind) {
    case K_CREATE: return aitisa_create(dt(a->dtype), dev, a->dims, a->ndim, a->data, a->len, o);
    case K_FULL: return aitisa_full(dt(a->dtype), dev, a->dims, a->ndim, a->dval, o);
    case K_CAST: return aitisa_cast(i[0], dt(a->dtype), o);
    case K_RESHAPE: return aitisa_reshape(i[0], a->dims, a->ndim, o);
    case K_SLICE: return aitisa_slice(i[0], a->pa, a->pb, a->pc, o);
    case K_SQUEEZE: return aitisa_squeeze(i[0], a->axes, a->naxes, o);
    case K_DUPLICATE: return aitisa_duplicate(i[0], o);
    case K_ADD: return aitisa_add(i[0], i[1], o);
    case K_SUB: return aitisa_sub(i[0], i[1], o);
    case K_MUL: return aitisa_mul(i[0], i[1], o);
    case K_DIV: return aitisa_div(i[0], i[1], o);
    case K_SQRT: return aitisa_sqrt(i[0], o);
    case K_MATMUL: return aitisa_matmul(i[0], i[1], o);
    case K_DOT: return aitisa_dot(i[0], i[1], o);
    case K_CONV: return aitisa_conv(i[0], i[1], a->pa, a->pb, a->pc, a->groups, o);
    case K_CONV2D:
    case K_CONV3D:
      sd = a->kind == K_CONV2D ? 2 : 3;
      return (a->kind == K_CONV2D ? aitisa_conv2d : aitisa_conv3d)(
          i[0], i[1], a->pa, sd, a->pb, sd, a->pc, sd, a->groups, o);
    case K_POOLING: return aitisa_pooling(i[0], a->mode, a->pa, a->pb, a->pc, a->pd, o);
    case K_BATCH_NORM: return aitisa_batch_norm(i[0], a->axis, i[1], i[2], i[3], i[4], a->dval, o);
    case K_RELU: return aitisa_relu(i[0], o);
    case K_SIGMOID: return aitisa_sigmoid(i[0], o);
    case K_TANH: return aitisa_tanh(i[0], o);
    case K_SOFTMAX: return aitisa_softmax(i[0], a->axis, o);
    case K_DROPOUT: return aitisa_dropout(i[0], a->dval, o);
    default: return -99;
  }
}
int ad_destroy(void **handle) { return aitisa_destroy((Tensor *)handle); }
void ad_set_item(void *t, int64_t idx, void *value) {
  aitisa_tensor_set_item((Tensor)t, idx, value);
}
int64_t ad_dim(void *t, int64_t d) { return aitisa_tensor_dim((Tensor)t, d); }
void ad_meta(void *tt, AdMeta *m) {
  Tensor t = (Tensor)tt;
  m->ndim = aitisa_tensor_ndim(t);
  m->size = aitisa_tensor_size(t);
  m->dims = aitisa_tensor_dims(t);
  DataType d = aitisa_tensor_data_type(t);
  m->dcode = d.code;
  m->dsize = d.size;
  Device v = aitisa_tensor_device(t);
  m->dev_type = v.type;
  m->dev_id = v.id;
  m->layout = aitisa_tensor_layout_type(t);
  Shape s = aitisa_tensor_shape(t);
  m->s_ndim = s.ndim;
  m->s_dims = s.dims;
  m->min2maj = s.layout.min2maj;
  m->data = aitisa_tensor_data(t);
  DataType rd;
  Device rv;
  int64_t *rdims = (int64_t *)1, rnd = -7;
  void *rdata = (void *)1;
  unsigned rlen = 0xdeadbeefu;
  rd.code = (TypeCode)77; rd.size = 77;
  rv.type = (DeviceType)77; rv.id = 77;
  m->r_status = aitisa_resolve(t, &rd, &rv, &rdims, &rnd, &rdata, &rlen);
  m->r_dcode = rd.code;
  m->r_dsize = rd.size;
  m->r_dev_type = rv.type;
  m->r_dev_id = rv.id;
  m->r_ndim = rnd;
  m->r_dims = rdims;
  m->r_data = rdata;
  m->r_len = rlen;
  Storage st = aitisa_tensor_storage(t);
  m->st_size = st->size;
  m->st_dcode = st->dtype.code;
  m->st_dsize = st->dtype.size;
  m->st_dev_type = st->device.type;
  m->st_dev_id = st->device.id;
  m->st_data = st->data;
}
void ad_index(void *tt, AdIndex *x) {
  Tensor t = (Tensor)tt;
  int64_t nd = aitisa_tensor_ndim(t);
  aitisa_get_all_strides(t, x->strides);
  for (int64_t i = 0; i < nd; i++) x->stride1[i] = aitisa_get_stride(t, i);
  aitisa_linidx_to_coords(t, x->lin, x->coords);
  x->lin2 = aitisa_coords_to_linidx(t, x->coords, nd);
  x->offset = aitisa_coords_to_offset(t, x->coords, nd);
  aitisa_offset_to_coords(t, x->offset, x->back);
  DataType d = aitisa_tensor_data_type(t);
  aitisa_get_typed_array_value_func(d)(aitisa_tensor_data(t), x->offset, x->v_array);
  aitisa_get_typed_value_func(d)((char *)aitisa_tensor_data(t) + x->offset * d.size, x->v_addr);
}
void ad_write(void *tt, int64_t idx, void *value, int how) {
  Tensor t = (Tensor)tt;
  DataType d = aitisa_tensor_data_type(t);
  if (how == 1) aitisa_set_typed_array_value_func(d)(aitisa_tensor_data(t), idx, value);
  else if (how == 2) aitisa_set_typed_value_func(d)((char *)aitisa_tensor_data(t) + idx * d.size, value);
  else aitisa_tensor_set_item(t, idx, value);
}
int ad_bcast(int64_t *a, int64_t na, int64_t *b, int64_t nb, int64_t *o, int64_t no) {
  return aitisa_broadcast_array(a, na, b, nb, o, no);
}
int ad_installed(void *(*al)(unsigned long), void (*de)(void *)) {
  Allocator *p = aitisa_default_cpu_allocator();
  return p->raw_alloc == (RawAlloc)al && p->raw_dealloc == (RawDealloc)de;
}
void ad_install(void *(*al)(unsigned long), void (*de)(void *)) {
  aitisa_set_default_cpu_raw_alloc((RawAlloc)al);
  aitisa_set_default_cpu_raw_dealloc((RawDealloc)de);
}
void *ad_p_storage(void *t) { return (void *)aitisa_tensor_storage((Tensor)t); }
