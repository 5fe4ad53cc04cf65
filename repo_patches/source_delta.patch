From 4258ebb746de1315809f1563d5d704de8eba6f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 01/31] fix: aitisa_resolve returns STATUS_SUCCESS instead of
 an undefined value

---
 src/core/tensor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index cd86624..38e692b 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -39,4 +39,5 @@ Status aitisa_resolve(Tensor input, DataType *dtype, Device *device,
   void *data_ = aitisa_tensor_data(input);
   *data = data_;
   *len = aitisa_tensor_size(input) * (*dtype).size;
+  return STATUS_SUCCESS;
 }
-- 
2.43.0


From 2dee835bc1fc5563e62248586fa51518360ced70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 02/31] fix: release partially built tensors when creation
 fails

---
 src/core/shape.c   |  9 +++++++--
 src/core/storage.c |  5 ++++-
 src/core/tensor.c  | 21 +++++++++++++++++----
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/core/shape.c b/src/core/shape.c
index f822616..ad08fee 100644
--- a/src/core/shape.c
+++ b/src/core/shape.c
@@ -41,8 +41,13 @@ Status aitisa_create_shape(LayoutType layout_type, int64_t *dims, int64_t ndim,
   for (int64_t i = 0; i < ndim; ++i) {
     shape->dims[i] = dims[i];
   }
-  CHECK_STATUS(aitisa_create_default_layout(layout_type, ndim, &shape->layout));
-  return STATUS_SUCCESS;
+  Status status =
+      aitisa_create_default_layout(layout_type, ndim, &shape->layout);
+  if (status != STATUS_SUCCESS && shape->dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(shape->dims);
+    shape->dims = NULL;
+  }
+  return status;
 }
 
 Status aitisa_destroy_shape(Shape *shape){
diff --git a/src/core/storage.c b/src/core/storage.c
index c5e68d3..e2dd13b 100644
--- a/src/core/storage.c
+++ b/src/core/storage.c
@@ -17,7 +17,10 @@ Status aitisa_create_storage(DataType dtype, Device device, int64_t size,
     new_storage->data =
       aitisa_default_cpu_allocator()->raw_alloc(
           dtype.size * size);
-    if (!new_storage->data) return STATUS_ALLOC_FAILED;
+    if (!new_storage->data) {
+      aitisa_default_cpu_allocator()->raw_dealloc(new_storage);
+      return STATUS_ALLOC_FAILED;
+    }
   }
   *storage = new_storage;
   return STATUS_SUCCESS;
diff --git a/src/core/tensor.c b/src/core/tensor.c
index 38e692b..eeae9b6 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -11,11 +11,24 @@ Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim,
   tensor->size = size_of_dims(dims, ndim);
   tensor->offset = 0;
   if(data){
-    if(len/dtype.size != tensor->size) return STATUS_INVALID_ARGUMENT;
+    if(len/dtype.size != tensor->size) {
+      aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  Status status =
+      aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape);
+  if (status != STATUS_SUCCESS) {
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
+  }
+  status =
+      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy_shape(&tensor->shape);
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
   }
-  CHECK_STATUS(aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape));
-  CHECK_STATUS(
-      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage));
   *output = tensor;
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From 95864e985c063cb53e87b6e0a70f5e7c8dad86b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 03/31] fix: slice bounds its size argument without overflow,
 handles 0-d input and releases everything on failure

---
 src/basic/slice.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index f2a4ac5..a26bbc2 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -24,6 +24,10 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   }
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims_temp);
+    return STATUS_ALLOC_FAILED;
+  }
   int last_idx = 0;
   for (int i = 0; i < in_ndim; i++) {
     if (out_dims_temp[i] > 0) {
@@ -40,7 +44,9 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, out_dims, out_ndim,
                          NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  }
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
   
@@ -53,7 +59,7 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
   int64_t *in_dims = aitisa_tensor_dims(input);
   for (int i = 0; i < in_ndim; i++) {
     bool cond_begin = begin[i] < 0 || begin[i] >= in_dims[i];
-    bool cond_size  = size[i] < 0  || begin[i] + size[i] > in_dims[i];
+    bool cond_size  = size[i] < 0  || (int64_t)begin[i] + size[i] > in_dims[i];
     bool cond_step  = step[i] < 1;
     if (cond_begin || cond_size || cond_step) {
       return STATUS_INVALID_ARGUMENT;
@@ -102,13 +108,20 @@ static Status slice_template(const Tensor input, int *begin, int *size,
   int64_t *offset_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*offset_recorder) * in_ndim);
   if (!index_recorder || !boundary || !offset_recorder) {
+    if (index_recorder) {
+      aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
+    }
+    if (boundary) aitisa_default_cpu_allocator()->raw_dealloc(boundary);
+    if (offset_recorder) {
+      aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
+    }
     return STATUS_ALLOC_FAILED;
   }
   for (int i = 0; i < in_ndim; i++) {
     index_recorder[i] = begin[i];
     boundary[i] = (int64_t)begin[i] + (int64_t)size[i] - 1;
   }
-  offset_recorder[in_ndim - 1] = 1;
+  if (in_ndim > 0) offset_recorder[in_ndim - 1] = 1;
   for (int i = in_ndim - 2; i >= 0; i--) {
     offset_recorder[i] = offset_recorder[i + 1] * in_dims[i + 1];
   }
@@ -127,9 +140,15 @@ Status aitisa_slice(const Tensor input, int *begin, int *size, int *step,
   // Make sure parameters are correct
   CHECK_STATUS(slice_check_parameters(input, begin, size, step));
   // Create output
-  CHECK_STATUS(slice_create_output(input, begin, size, step, output));
+  Tensor new_tensor;
+  CHECK_STATUS(slice_create_output(input, begin, size, step, &new_tensor));
   // Implement slice
   Status status;
-  status = slice_template(input, begin, size, step, output);
+  status = slice_template(input, begin, size, step, &new_tensor);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return status;
 }
-- 
2.43.0


From adb878939e22ccd25eac5bad3b4a0afd6dd9892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 04/31] fix: duplicate releases its scratch arrays when one of
 them cannot be allocated

---
 src/basic/duplicate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/basic/duplicate.c b/src/basic/duplicate.c
index 114b248..023614f 100644
--- a/src/basic/duplicate.c
+++ b/src/basic/duplicate.c
@@ -10,6 +10,9 @@ Status aitisa_duplicate(const Tensor input, Tensor *output) {
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
   if (!begin || !size || !step) {
+    if (begin) aitisa_default_cpu_allocator()->raw_dealloc(begin);
+    if (size) aitisa_default_cpu_allocator()->raw_dealloc(size);
+    if (step) aitisa_default_cpu_allocator()->raw_dealloc(step);
     return STATUS_ALLOC_FAILED;
   }
   for (int64_t i = 0; i < ndim; i++) {
-- 
2.43.0


From e089fda928c8a2cee5cd68cc8c7b66d26cca3ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 05/31] fix: squeeze rejects axes beyond the rank, accepts
 repeated axes and does not leak on failure

---
 src/basic/squeeze.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index 29b430b..0f51cea 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -10,7 +10,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis < 0) return STATUS_INVALID_ARGUMENT;
   if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (axis[i] < 0) {
+      if (axis[i] < 0 || axis[i] >= in_ndim) {
         return STATUS_INVALID_ARGUMENT;
       }
     }
@@ -33,7 +33,8 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
     }
   } else if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (in_dims[axis[i]] == 1) {
+      // An axis that is listed twice is removed only once
+      if (in_dims[axis[i]] == 1 && processed_in_dims[axis[i]] != 0) {
         processed_in_dims[axis[i]] = 0;
         out_ndim--;
       }
@@ -43,7 +44,10 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   // Create dims and ndim of output
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
-  if (!out_dims) return STATUS_ALLOC_FAILED;
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(processed_in_dims);
+    return STATUS_ALLOC_FAILED;
+  }
   int64_t j = 0;
   for (int64_t i = 0; i < in_ndim; i++) {
     if (processed_in_dims[i] != 0) {
-- 
2.43.0


From 7456d4300b27b49ced79fd35f14a511d8cc30dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 06/31] fix: softmax writes its output only on success and
 releases everything on failure

---
 src/nn/softmax.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index 0043a1a..f3131d2 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -13,7 +13,9 @@ static Status softmax_create_output(const Tensor input, Tensor *output){
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, dims, ndim, NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if(status == STATUS_SUCCESS){
+    *output = new_tensor;
+  }
   return status;
 }
 
@@ -105,6 +107,8 @@ static Status softmax_along_axis(const Tensor input, const int axis,
   int64_t *offset_recorder =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
   if(!index_recorder || !offset_recorder){
+    aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
+    aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
     return STATUS_ALLOC_FAILED;
   }
   for(int64_t i=0; i<ndim; i++){
@@ -147,5 +151,8 @@ Status aitisa_softmax(const Tensor input, const int axis,
       status = softmax_along_axis(input, axis, output);
     }
   }
+  if(status != STATUS_SUCCESS){
+    aitisa_destroy(output);
+  }
   return status;
 }
-- 
2.43.0


From c400a88120703b6b69dddd9ea87fbf8a3359cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 07/31] fix: element-wise operators use the installed allocator
 and report its failures

---
 src/math/binary_op.c | 72 ++++++++++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 20 deletions(-)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index d58d6db..975899e 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -233,17 +233,25 @@ Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  void *a = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *b = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *c = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  if (!a || !b || !c) {
+    if (a) aitisa_default_cpu_allocator()->raw_dealloc(a);
+    if (b) aitisa_default_cpu_allocator()->raw_dealloc(b);
+    if (c) aitisa_default_cpu_allocator()->raw_dealloc(c);
+    aitisa_destroy(output);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_ADD, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  aitisa_default_cpu_allocator()->raw_dealloc(a);
+  aitisa_default_cpu_allocator()->raw_dealloc(b);
+  aitisa_default_cpu_allocator()->raw_dealloc(c);
   return STATUS_SUCCESS;
 }
 
@@ -279,17 +287,25 @@ Status aitisa_sub(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  void *a = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *b = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *c = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  if (!a || !b || !c) {
+    if (a) aitisa_default_cpu_allocator()->raw_dealloc(a);
+    if (b) aitisa_default_cpu_allocator()->raw_dealloc(b);
+    if (c) aitisa_default_cpu_allocator()->raw_dealloc(c);
+    aitisa_destroy(output);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_SUB, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  aitisa_default_cpu_allocator()->raw_dealloc(a);
+  aitisa_default_cpu_allocator()->raw_dealloc(b);
+  aitisa_default_cpu_allocator()->raw_dealloc(c);
   return STATUS_SUCCESS;
 }
 
@@ -325,17 +341,25 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  void *a = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *b = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *c = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  if (!a || !b || !c) {
+    if (a) aitisa_default_cpu_allocator()->raw_dealloc(a);
+    if (b) aitisa_default_cpu_allocator()->raw_dealloc(b);
+    if (c) aitisa_default_cpu_allocator()->raw_dealloc(c);
+    aitisa_destroy(output);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_MUL, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  aitisa_default_cpu_allocator()->raw_dealloc(a);
+  aitisa_default_cpu_allocator()->raw_dealloc(b);
+  aitisa_default_cpu_allocator()->raw_dealloc(c);
   return STATUS_SUCCESS;
 }
 
@@ -371,16 +395,24 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  void *a = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *b = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *c = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  if (!a || !b || !c) {
+    if (a) aitisa_default_cpu_allocator()->raw_dealloc(a);
+    if (b) aitisa_default_cpu_allocator()->raw_dealloc(b);
+    if (c) aitisa_default_cpu_allocator()->raw_dealloc(c);
+    aitisa_destroy(output);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_DIV, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  aitisa_default_cpu_allocator()->raw_dealloc(a);
+  aitisa_default_cpu_allocator()->raw_dealloc(b);
+  aitisa_default_cpu_allocator()->raw_dealloc(c);
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From 675bd931fd015f1a032c8cefeabdb24c91081ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 08/31] fix: integer division reports STATUS_MATH_ERROR instead
 of trapping

---
 src/math/binary_op.c | 52 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index 975899e..2d23944 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -363,6 +363,54 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   return STATUS_SUCCESS;
 }
 
+#define DIV_CHECK_ZERO(typename)                                              \
+  for (int64_t i = 0; i < size; i++) {                                        \
+    if (((typename *)data2)[i] == 0) return STATUS_MATH_ERROR;                \
+  }
+
+// The quotient of the smallest value and -1 is not representable, and the
+// division traps for the types that are not promoted
+#define DIV_CHECK_ZERO_AND_OVERFLOW(typename, min_value)                      \
+  for (int64_t i = 0; i < size; i++) {                                        \
+    if (((typename *)data2)[i] == 0) return STATUS_MATH_ERROR;                \
+    if (((typename *)data2)[i] == -1 && ((typename *)data1)[i] == min_value)  \
+      return STATUS_MATH_ERROR;                                               \
+  }
+
+// Check that no integer quotient is undefined
+static Status div_check(DataType dtype, void *data1, void *data2,
+                        int64_t size) {
+  switch (dtype.code) {
+    case TYPE_INT8:
+      DIV_CHECK_ZERO(int8_t);
+      break;
+    case TYPE_UINT8:
+      DIV_CHECK_ZERO(uint8_t);
+      break;
+    case TYPE_INT16:
+      DIV_CHECK_ZERO(int16_t);
+      break;
+    case TYPE_UINT16:
+      DIV_CHECK_ZERO(uint16_t);
+      break;
+    case TYPE_INT32:
+      DIV_CHECK_ZERO_AND_OVERFLOW(int32_t, INT32_MIN);
+      break;
+    case TYPE_UINT32:
+      DIV_CHECK_ZERO(uint32_t);
+      break;
+    case TYPE_INT64:
+      DIV_CHECK_ZERO_AND_OVERFLOW(int64_t, INT64_MIN);
+      break;
+    case TYPE_UINT64:
+      DIV_CHECK_ZERO(uint64_t);
+      break;
+    default:
+      break;
+  }
+  return STATUS_SUCCESS;
+}
+
 Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   if (aitisa_tensor_device(tensor1).type != DEVICE_CPU ||
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
@@ -386,6 +434,10 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
       return STATUS_INVALID_ARGUMENT;
     }
   }
+  CHECK_STATUS(div_check(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_data(tensor1),
+                         aitisa_tensor_data(tensor2),
+                         aitisa_tensor_size(tensor1)));
   // create output
   CHECK_STATUS(aitisa_create(aitisa_tensor_data_type(tensor1),
                              aitisa_tensor_device(tensor1),
-- 
2.43.0


From 3956b93c7c19a04cabf763faff750e51b886efc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 09/31] fix: dot releases its temporaries and its partial
 output when a step fails

---
 src/math/dot.c | 71 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index d9c4369..ee23316 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -113,11 +113,11 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   // LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
-                             NULL, 0, &new_tensor));
-  *output = new_tensor;
+  Status status = aitisa_create(dtype, device, out_dims, out_ndim,
+                                NULL, 0, &new_tensor);
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  CHECK_STATUS(status);
   // Make an index recorder of vectors in tensor1 then initialize it
   int *index_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder) * ndim_tensor1);
@@ -129,6 +129,12 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   int *step =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim_tensor1);
   if (!index_recorder || !size || !step) {
+    if (index_recorder) {
+      aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
+    }
+    if (size) aitisa_default_cpu_allocator()->raw_dealloc(size);
+    if (step) aitisa_default_cpu_allocator()->raw_dealloc(step);
+    aitisa_destroy(&new_tensor);
     return STATUS_ALLOC_FAILED;
   }
   for (int64_t i = 0; i < ndim_tensor1; i++) {
@@ -143,11 +149,16 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor vec2 = tensor2;
   Tensor vec1;
   Tensor result;
-  void *out_data = aitisa_tensor_data(*output);
-  int data_size = aitisa_tensor_data_type(*output).size;
+  void *out_data = aitisa_tensor_data(new_tensor);
+  int data_size = aitisa_tensor_data_type(new_tensor).size;
   for (int vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
-    CHECK_STATUS(aitisa_slice(tensor1, index_recorder, size, step, &vec1));
-    CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
+    status = aitisa_slice(tensor1, index_recorder, size, step, &vec1);
+    if (status != STATUS_SUCCESS) break;
+    status = vector_vector_dot(vec1, vec2, &result);
+    if (status != STATUS_SUCCESS) {
+      aitisa_destroy(&vec1);
+      break;
+    }
     // Store the result into output
     void *result_data = aitisa_tensor_data(result);
     memcpy((char *)out_data + vec_idx * data_size, result_data, data_size);
@@ -167,6 +178,11 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(size);
   aitisa_default_cpu_allocator()->raw_dealloc(step);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return STATUS_SUCCESS;
 }
 
@@ -202,11 +218,11 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
-                             NULL, 0, &new_tensor));
-  *output = new_tensor;
+  Status status = aitisa_create(dtype, device, out_dims, out_ndim,
+                                NULL, 0, &new_tensor);
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  CHECK_STATUS(status);
   // Make index recorders of vectors in tensor1 and tensor2 then initialize them
   int *index_recorder_t1 = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder_t1) * ndim_tensor1);
@@ -225,6 +241,17 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
                                                            ndim_tensor2);
   if (!index_recorder_t1 || !index_recorder_t2 || 
       !size_t1 || !size_t2 || !step_t1 || !step_t2) {
+    if (index_recorder_t1) {
+      aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t1);
+    }
+    if (size_t1) aitisa_default_cpu_allocator()->raw_dealloc(size_t1);
+    if (step_t1) aitisa_default_cpu_allocator()->raw_dealloc(step_t1);
+    if (index_recorder_t2) {
+      aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t2);
+    }
+    if (size_t2) aitisa_default_cpu_allocator()->raw_dealloc(size_t2);
+    if (step_t2) aitisa_default_cpu_allocator()->raw_dealloc(step_t2);
+    aitisa_destroy(&new_tensor);
     return STATUS_ALLOC_FAILED;
   }
   for (int64_t i = 0; i < ndim_tensor1; i++) {
@@ -247,15 +274,19 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor vec2;
   Tensor vec1;
   Tensor result;
-  void *out_data = aitisa_tensor_data(*output);
-  int data_size = aitisa_tensor_data_type(*output).size;
+  void *out_data = aitisa_tensor_data(new_tensor);
+  int data_size = aitisa_tensor_data_type(new_tensor).size;
   for (int vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
-    CHECK_STATUS(
-        aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1));
+    status = aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1);
+    if (status != STATUS_SUCCESS) break;
     for (int vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
-      CHECK_STATUS(
-          aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2));
-      CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
+      status = aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2);
+      if (status != STATUS_SUCCESS) break;
+      status = vector_vector_dot(vec1, vec2, &result);
+      if (status != STATUS_SUCCESS) {
+        aitisa_destroy(&vec2);
+        break;
+      }
       // Store the result into output
       void *result_data = aitisa_tensor_data(result);
       memcpy(
@@ -286,6 +317,7 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
       }
     }
     aitisa_destroy(&vec1);
+    if (status != STATUS_SUCCESS) break;
   }
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t1);
   aitisa_default_cpu_allocator()->raw_dealloc(size_t1);
@@ -293,6 +325,11 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t2);
   aitisa_default_cpu_allocator()->raw_dealloc(size_t2);
   aitisa_default_cpu_allocator()->raw_dealloc(step_t2);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 01e5e054a2fd784f35c30a5c9d98b09308b7f8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 10/31] fix: matmul checks its scratch allocations and releases
 everything on failure

---
 src/math/matmul.c | 79 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 62 insertions(+), 17 deletions(-)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 28af743..303c90c 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -8,8 +8,8 @@
 int64_t max_int64_(int64_t a, int64_t b) { return a > b ? a : b; }
 
 // get the strides of dims
-int64_t batch_strides(int64_t *dims, int64_t ndim, int64_t *strides,
-                      int64_t nstride) {
+void batch_strides(int64_t *dims, int64_t ndim, int64_t *strides,
+                   int64_t nstride) {
   int64_t stride = 1;
   for (int64_t i = 0; i < nstride; ++i) {
     // ndim - 1 - i >= 0 to make sure it is not out of bound.
@@ -186,12 +186,17 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor1 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     for (int64_t i = 0; i < ndim_out; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor1, i);
     }
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, output);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor1 - 2, aitisa_tensor_dims(tensor1),
                                   ndim_tensor1);
@@ -201,6 +206,14 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      if (Cs) aitisa_default_cpu_allocator()->raw_dealloc(Cs);
+      if (Bs) aitisa_default_cpu_allocator()->raw_dealloc(Bs);
+      if (As) aitisa_default_cpu_allocator()->raw_dealloc(As);
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      aitisa_destroy(output);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
@@ -234,13 +247,18 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor2 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     for (int64_t i = 0; i < ndim_out - 1; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor2, i);
     }
     dims_out[ndim_out - 1] = aitisa_tensor_dim(tensor2, ndim_tensor2 - 1);
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, output);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor2 - 2, aitisa_tensor_dims(tensor2),
                                   ndim_tensor2);
@@ -250,6 +268,14 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      if (Cs) aitisa_default_cpu_allocator()->raw_dealloc(Cs);
+      if (Bs) aitisa_default_cpu_allocator()->raw_dealloc(Bs);
+      if (As) aitisa_default_cpu_allocator()->raw_dealloc(As);
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      aitisa_destroy(output);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
@@ -284,25 +310,30 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = max_int64_(ndim_tensor1, ndim_tensor2);
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
-    CHECK_STATUS(aitisa_broadcast_array(
+    if (!dims_out) return STATUS_ALLOC_FAILED;
+    status = aitisa_broadcast_array(
         aitisa_tensor_dims(tensor1), max_int64_(ndim_tensor1 - 2, 0),
         aitisa_tensor_dims(tensor2), max_int64_(ndim_tensor2 - 2, 0), dims_out,
-        ndim_out - 2));
+        ndim_out - 2);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     dims_out[ndim_out - 2] = dim0_tensor1;
     dims_out[ndim_out - 1] = dim1_tensor2;
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, output);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // strides of batches
     int64_t ndim_batch = ndim_out - 2;
     int64_t *strides_t1 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
     int64_t *strides_t2 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
-    batch_strides(aitisa_tensor_dims(tensor1), ndim_tensor1 - 2, strides_t1,
-                  ndim_batch);
-    batch_strides(aitisa_tensor_dims(tensor2), ndim_tensor2 - 2, strides_t2,
-                  ndim_batch);
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_batch, dims_out, ndim_out);
     void **As =
@@ -311,6 +342,20 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!strides_t1 || !strides_t2 || !As || !Bs || !Cs) {
+      if (Cs) aitisa_default_cpu_allocator()->raw_dealloc(Cs);
+      if (Bs) aitisa_default_cpu_allocator()->raw_dealloc(Bs);
+      if (As) aitisa_default_cpu_allocator()->raw_dealloc(As);
+      if (strides_t2) aitisa_default_cpu_allocator()->raw_dealloc(strides_t2);
+      if (strides_t1) aitisa_default_cpu_allocator()->raw_dealloc(strides_t1);
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      aitisa_destroy(output);
+      return STATUS_ALLOC_FAILED;
+    }
+    batch_strides(aitisa_tensor_dims(tensor1), ndim_tensor1 - 2, strides_t1,
+                  ndim_batch);
+    batch_strides(aitisa_tensor_dims(tensor2), ndim_tensor2 - 2, strides_t2,
+                  ndim_batch);
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
-- 
2.43.0


From 5cfce8f874bbf14bdf298a99b171e0c63b68843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 11/31] fix: matmul rejects operands of different data types

---
 src/math/matmul.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 303c90c..6254869 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -92,6 +92,10 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
     return STATUS_NOT_SUPPORTED;
   }
+  if (aitisa_tensor_data_type(tensor1).code !=
+      aitisa_tensor_data_type(tensor2).code) {
+    return STATUS_TYPE_MISMATCH;
+  }
   int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);
   int64_t ndim_tensor2 = aitisa_tensor_ndim(tensor2);
   Status status = STATUS_SUCCESS;
-- 
2.43.0


From ba3cbbd73fe8233fb83e8266cb9111461f885cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 12/31] fix: conv returns STATUS_SUCCESS instead of an
 undefined value

---
 src/nn/conv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 4aeaa5d..1559599 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -127,6 +127,7 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
   aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
   aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
+  return STATUS_SUCCESS;
 }
 
 /*
@@ -145,6 +146,7 @@ Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
     default:
       return STATUS_NOT_SUPPORTED;
   }
+  return STATUS_SUCCESS;
 }
 
 Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
-- 
2.43.0


From f6b0c9228931a8991237171dc619db231e4c9a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 13/31] fix: conv checks its scratch allocations and releases
 them when creation fails

---
 src/nn/conv.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 1559599..2b8b999 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -21,6 +21,11 @@ static void conv_output_dims(const int64_t *input_dims,
   }
 }
 
+/* Release a temporary array that may not have been allocated */
+static void conv_release(int64_t *array) {
+  if (array) aitisa_default_cpu_allocator()->raw_dealloc(array);
+}
+
 /* The implementation of convolution for the float data type */
 static Status aitisa_conv_float(const Tensor input, const Tensor filter,
                                 const int *stride, const int *padding,
@@ -45,6 +50,18 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
   int64_t *out_strides =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
+  if (!out_dims || !in_coords || !fil_coords || !out_coords || !tmp_coords ||
+      !in_strides || !fil_strides || !out_strides) {
+    conv_release(out_dims);
+    conv_release(in_coords);
+    conv_release(fil_coords);
+    conv_release(out_coords);
+    conv_release(in_strides);
+    conv_release(fil_strides);
+    conv_release(out_strides);
+    conv_release(tmp_coords);
+    return STATUS_ALLOC_FAILED;
+  }
 
   conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
 
@@ -52,8 +69,19 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   DataType dtype = aitisa_tensor_data_type(input);
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
-  CHECK_STATUS(
-      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
+  Status status =
+      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor);
+  if (status != STATUS_SUCCESS) {
+    conv_release(out_dims);
+    conv_release(in_coords);
+    conv_release(fil_coords);
+    conv_release(out_coords);
+    conv_release(in_strides);
+    conv_release(fil_strides);
+    conv_release(out_strides);
+    conv_release(tmp_coords);
+    return status;
+  }
   *output_ptr = new_tensor;
 
   aitisa_get_all_strides(input, in_strides);
-- 
2.43.0


From c3a8de134f3b733be1a463d6fcf7679de52b7a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 14/31] fix: conv validates its arguments and honours groups

---
 src/nn/conv.c | 46 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 2b8b999..959237b 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -16,11 +16,45 @@ static void conv_output_dims(const int64_t *input_dims,
   output_dims[1] = filter_dims[0];
   for (int64_t d = 2; d < ndim; ++d) {
     int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
-    output_dims[d] = (input_dims[d] + (2 * padding[d - 2])
+    output_dims[d] = (input_dims[d] + (2 * (int64_t)padding[d - 2])
                         - kernel) / stride[d - 2] + 1;
   }
 }
 
+/*
+ * Check that the filter and the configurations fit the input.
+ */
+static Status conv_check_parameters(const Tensor input, const Tensor filter,
+                                    const int *stride, const int *padding,
+                                    const int *dilation, const int groups) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if (ndim < 2 || aitisa_tensor_ndim(filter) != ndim) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  if (aitisa_tensor_data_type(filter).code !=
+      aitisa_tensor_data_type(input).code) {
+    return STATUS_TYPE_MISMATCH;
+  }
+  int64_t *in_dims = aitisa_tensor_dims(input);
+  int64_t *fil_dims = aitisa_tensor_dims(filter);
+  if (groups < 1 || in_dims[1] % groups != 0 || fil_dims[0] % groups != 0) {
+    return STATUS_INVALID_ARGUMENT;
+  }
+  if (fil_dims[1] != in_dims[1] / groups) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  for (int64_t d = 2; d < ndim; ++d) {
+    if (stride[d - 2] < 1 || padding[d - 2] < 0 || dilation[d - 2] < 1) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+    int64_t kernel = dilation[d - 2] * (fil_dims[d] - 1) + 1;
+    if (kernel > in_dims[d] + 2 * (int64_t)padding[d - 2]) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  return STATUS_SUCCESS;
+}
+
 /* Release a temporary array that may not have been allocated */
 static void conv_release(int64_t *array) {
   if (array) aitisa_default_cpu_allocator()->raw_dealloc(array);
@@ -97,8 +131,10 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
 
   int64_t nbatch = aitisa_tensor_dim(input, 0);
-  int64_t in_chan = aitisa_tensor_dim(input, 1);
+  // Each group of output channels reads its own group of input channels
+  int64_t fil_chan = aitisa_tensor_dim(filter, 1);
   int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
+  int64_t group_size = out_chan / groups;
   int64_t sdim = ndim - 2;
 
   for (int64_t b = 0; b < nbatch; ++b) {
@@ -114,8 +150,8 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
         in_coords[0] = b;
 
         float tmp = 0.0;
-        for (int64_t ic = 0; ic < in_chan; ++ic) {
-          in_coords[1] = ic;
+        for (int64_t ic = 0; ic < fil_chan; ++ic) {
+          in_coords[1] = oc / group_size * fil_chan + ic;
           for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
             aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
             fil_coords[0] = oc;
@@ -168,6 +204,8 @@ Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
   DataType dtype = aitisa_tensor_data_type(input);
   switch (dtype.code) {
     case TYPE_FLOAT:
+      CHECK_STATUS(conv_check_parameters(input, filter, stride, padding,
+                                         dilation, groups));
       CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
                                      groups, output_ptr));
       break;
-- 
2.43.0


From c4896e0bb29e1bb472b4f88305e3114aa11cb718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 15/31] fix: pooling checks its scratch allocations and
 releases them on failure

---
 src/nn/pooling.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 255b3eb..c6c30aa 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -51,6 +51,12 @@ static Status pooling_double(const Tensor input, const char *mode,
   int64_t ndim = aitisa_tensor_ndim(input);
   int64_t *in_dims = aitisa_tensor_dims(input);
   int64_t c_start = axis==1?2:1;
+  // Check whether the kernel window is larger than a channel
+  for(int64_t i=0; i<ndim-2; i++){
+    if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
   int64_t *out_dims =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims)*ndim);
   int64_t *index =
@@ -63,17 +69,29 @@ static Status pooling_double(const Tensor input, const char *mode,
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_head)*ndim);
   int64_t *k_tail =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_tail)*ndim);
-  // Check whether the kernel window is larger than a channel
-  for(int64_t i=0; i<ndim-2; i++){
-    if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
-      return STATUS_INVALID_ARGUMENT;
-    }
+  if (!out_dims || !index || !strides || !out_strides || !k_head || !k_tail) {
+    if (out_dims) aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+    if (index) aitisa_default_cpu_allocator()->raw_dealloc(index);
+    if (strides) aitisa_default_cpu_allocator()->raw_dealloc(strides);
+    if (out_strides) aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+    if (k_head) aitisa_default_cpu_allocator()->raw_dealloc(k_head);
+    if (k_tail) aitisa_default_cpu_allocator()->raw_dealloc(k_tail);
+    return STATUS_ALLOC_FAILED;
   }
   // Create output
   Tensor new_tensor;
-  CHECK_STATUS(
+  Status status =
     pooling_create_output(input, out_dims, ksize, stride,
-                   padding, dilation, axis, c_start, &new_tensor));
+                   padding, dilation, axis, c_start, &new_tensor);
+  if (status != STATUS_SUCCESS) {
+    if (out_dims) aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+    if (index) aitisa_default_cpu_allocator()->raw_dealloc(index);
+    if (strides) aitisa_default_cpu_allocator()->raw_dealloc(strides);
+    if (out_strides) aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+    if (k_head) aitisa_default_cpu_allocator()->raw_dealloc(k_head);
+    if (k_tail) aitisa_default_cpu_allocator()->raw_dealloc(k_tail);
+    return status;
+  }
   // Implement pooling
   int64_t window_size = 1;
   for(int64_t i=0; i<ndim-2; i++){
-- 
2.43.0


From 9a1a77d4b20ce09d51ca2bc70bb09b2266ecbd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 16/31] fix: pooling rejects unknown modes and out-of-range
 configurations

---
 src/nn/pooling.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index c6c30aa..dd5a872 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -51,9 +51,19 @@ static Status pooling_double(const Tensor input, const char *mode,
   int64_t ndim = aitisa_tensor_ndim(input);
   int64_t *in_dims = aitisa_tensor_dims(input);
   int64_t c_start = axis==1?2:1;
+  // Check the mode and the configurations
+  if(strcmp(mode, "avg") && strcmp(mode, "max")){
+    return STATUS_INVALID_ARGUMENT;
+  }
+  for(int64_t i=0; i<ndim-2; i++){
+    if(ksize[i] < 1 || stride[i] < 1 || padding[i] < 0 || dilation[i] < 1){
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
   // Check whether the kernel window is larger than a channel
   for(int64_t i=0; i<ndim-2; i++){
-    if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
+    if((ksize[i]-1)*(int64_t)dilation[i]+1 >
+       2*(int64_t)padding[i]+in_dims[i+c_start]){
       return STATUS_INVALID_ARGUMENT;
     }
   }
-- 
2.43.0


From 3865bf97570c1d03b506279ec7b18faa7d24cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 17/31] fix: max pooling of a window of negative values returns
 their maximum

---
 src/nn/pooling.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index dd5a872..bf9c233 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -136,7 +136,8 @@ static Status pooling_double(const Tensor input, const char *mode,
         for(int64_t i=c_start; i<c_start+ndim-2; i++){
           index[i] = k_head[i];
         }
-        double temp = 0; 
+        // The maximum of a window may be negative
+        double temp = strcmp(mode, "max") ? 0 : -INFINITY;
         int hasElement = 1;
         while(hasElement){
           int64_t linear_idx = bc_stride;
@@ -152,6 +153,9 @@ static Status pooling_double(const Tensor input, const char *mode,
           // need to consider padding
           if(!padded){
             AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, pooling_kernel);
+          }else if(temp < 0 && !strcmp(mode, "max")){
+            // padding is made of zeros
+            temp = 0;
           }
           // update index
           for(int64_t i=c_start+ndim-3; i>=c_start; i--){
-- 
2.43.0


From 877be7b3e7170cd5676563abf0c88dea95efd6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 18/31] fix: dropout releases the copy when the kernel fails

---
 src/nn/dropout.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nn/dropout.c b/src/nn/dropout.c
index 1eea647..50412e5 100644
--- a/src/nn/dropout.c
+++ b/src/nn/dropout.c
@@ -32,7 +32,11 @@ Status aitisa_dropout(const Tensor input, const double rate, Tensor *output) {
   Tensor new_tensor;
   CHECK_STATUS(aitisa_duplicate(input, &new_tensor));
   // Implement dropout
-  CHECK_STATUS(dropout_template(&new_tensor, rate));
+  Status status = dropout_template(&new_tensor, rate);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
   *output = new_tensor;
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From f188a65599a9d61c1926d158fcfd45401ef3e799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 19/31] fix: dropout calls within the same second use different
 masks

---
 src/nn/dropout.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nn/dropout.c b/src/nn/dropout.c
index 50412e5..b5ca500 100644
--- a/src/nn/dropout.c
+++ b/src/nn/dropout.c
@@ -17,7 +17,8 @@ static Status dropout_template(Tensor *tensor, const double rate) {
   // Implement dropout kernel
   DataType dtype = aitisa_tensor_data_type(*tensor);
   Status status = STATUS_SUCCESS;
-  srand(time(NULL));
+  // Calls within the same second must not repeat the same mask
+  srand((unsigned int)time(NULL) ^ (unsigned int)rand());
   int rate_line = (int)(rate * 100);
   AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, dropout_kernel);
   return status;
-- 
2.43.0


From ae35d242b333b3056cb358edf73b762d6484102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:49 +0000
Subject: [PATCH 20/31] fix: dropout honours rates that are not whole percents

---
 src/nn/dropout.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nn/dropout.c b/src/nn/dropout.c
index b5ca500..b549596 100644
--- a/src/nn/dropout.c
+++ b/src/nn/dropout.c
@@ -6,8 +6,9 @@
 #define dropout_kernel(typename)                            \
   typename *data = (typename *)aitisa_tensor_data(*tensor); \
   for (int64_t i = 0; i < size; i++) {                      \
-    int random_num = rand() % 100 + 1;                      \
-    if (random_num <= rate_line) {                          \
+    /* uniform in [0, 1), so 0 keeps and 1 drops everything */\
+    double random_num = rand() / (RAND_MAX + 1.0);          \
+    if (random_num < rate) {                                \
       data[i] = 0;                                          \
     }                                                       \
   }
@@ -19,7 +20,6 @@ static Status dropout_template(Tensor *tensor, const double rate) {
   Status status = STATUS_SUCCESS;
   // Calls within the same second must not repeat the same mask
   srand((unsigned int)time(NULL) ^ (unsigned int)rand());
-  int rate_line = (int)(rate * 100);
   AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, dropout_kernel);
   return status;
 }
-- 
2.43.0


From 22c1820bde7aa037b8400cbc0026adf7bd9e008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 21/31] fix: batch_norm checks every allocation and releases
 everything on failure

---
 src/nn/batch_norm.c | 263 +++++++++++++++++++++++++++-----------------
 1 file changed, 165 insertions(+), 98 deletions(-)

diff --git a/src/nn/batch_norm.c b/src/nn/batch_norm.c
index e1e71ba..12e5464 100644
--- a/src/nn/batch_norm.c
+++ b/src/nn/batch_norm.c
@@ -111,6 +111,49 @@ static void batch_norm_transport(const Tensor source, Tensor *destination,
   }
 }
 
+/* Release a temporary array that may not have been allocated */
+static void batch_norm_release(void *array) {
+  if (array) aitisa_default_cpu_allocator()->raw_dealloc(array);
+}
+
+/* Destroy an array of tensors, the ones that were not created are NULL */
+static void batch_norm_destroy_array(Tensor *array, int64_t num) {
+  if (!array) return;
+  for (int64_t i = 0; i < num; i++) {
+    aitisa_destroy(&array[i]);
+  }
+  aitisa_default_cpu_allocator()->raw_dealloc(array);
+}
+
+/*
+ * Normalize one slice of the input: result = scale * (slice - mean) /
+ * denominator + bias. Nothing is left allocated if one of the steps fails.
+ */
+static Status batch_norm_slice(const Tensor input, int *begin, int *size,
+                               int *step, int64_t *axis, int64_t num_axis,
+                               const Tensor scale, const Tensor bias,
+                               const Tensor mean, const Tensor denominator,
+                               Tensor *result) {
+  Tensor temp0, temp1;
+  Status status;
+  CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
+  status = aitisa_squeeze(temp0, axis, num_axis, &temp1);
+  aitisa_destroy(&temp0);
+  CHECK_STATUS(status);
+  status = aitisa_sub(temp1, mean, &temp0);
+  aitisa_destroy(&temp1);
+  CHECK_STATUS(status);
+  status = aitisa_div(temp0, denominator, &temp1);
+  aitisa_destroy(&temp0);
+  CHECK_STATUS(status);
+  status = aitisa_mul(scale, temp1, &temp0);
+  aitisa_destroy(&temp1);
+  CHECK_STATUS(status);
+  status = aitisa_add(temp0, bias, result);
+  aitisa_destroy(&temp0);
+  return status;
+}
+
 static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
                                          const Tensor bias, const Tensor mean,
                                          const Tensor denominator,
@@ -122,35 +165,33 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !size || !step) return STATUS_ALLOC_FAILED;
+  // Make parameters for squeeze
+  int64_t num_axis = 1;
+  int64_t *axis =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*axis) * num_axis);
+  if (!begin || !size || !step || !axis) {
+    batch_norm_release(begin);
+    batch_norm_release(size);
+    batch_norm_release(step);
+    batch_norm_release(axis);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int64_t i = 0; i < ndim; i++) {
     begin[i] = 0;
     size[i] = dims[i];
     step[i] = 1;
   }
   size[0] = 1;
-  // Make parameters for squeeze
-  int64_t num_axis = 1;
-  int64_t *axis =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*axis) * num_axis);
-  if (!axis) return STATUS_ALLOC_FAILED;
   axis[0] = 0;
   // Implement 1d batch normalization without channel
   uint8_t ele_size = aitisa_tensor_data_type(input).size;
   char *out_data = aitisa_tensor_data(*output);
+  Status status = STATUS_SUCCESS;
   for (int64_t s = 0; s < batch_size; s++) {
-    Tensor temp0, temp1;
-    CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
-    CHECK_STATUS(aitisa_squeeze(temp0, axis, num_axis, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
-    CHECK_STATUS(aitisa_sub(temp1, mean, &temp0));
-    CHECK_STATUS(aitisa_destroy(&temp1));
-    CHECK_STATUS(aitisa_div(temp0, denominator, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
-    CHECK_STATUS(aitisa_mul(scale, temp1, &temp0));
-    CHECK_STATUS(aitisa_destroy(&temp1));
-    CHECK_STATUS(aitisa_add(temp0, bias, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
+    Tensor temp1;
+    status = batch_norm_slice(input, begin, size, step, axis, num_axis, scale,
+                              bias, mean, denominator, &temp1);
+    if (status != STATUS_SUCCESS) break;
     // Transport data to output
     int64_t size = aitisa_tensor_size(temp1);
     char *temp1_data = aitisa_tensor_data(temp1);
@@ -158,7 +199,7 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
       memcpy(out_data + s * size * ele_size + ele * ele_size,
              temp1_data + ele * ele_size, ele_size);
     }
-    CHECK_STATUS(aitisa_destroy(&temp1));
+    aitisa_destroy(&temp1);
     // Update begin
     begin[0]++;
   }
@@ -167,7 +208,7 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
   aitisa_default_cpu_allocator()->raw_dealloc(size);
   aitisa_default_cpu_allocator()->raw_dealloc(step);
   aitisa_default_cpu_allocator()->raw_dealloc(axis);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 static Status batch_norm_with_channel(const Tensor input, const int axis,
@@ -185,28 +226,34 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !step || !size) return STATUS_ALLOC_FAILED;
-  for (int64_t i = 0; i < ndim; i++) {
-    begin[i] = 0;
-    step[i] = 1;
-    size[i] = (int)(dims[i]);
-  }
-  size[0] = 1;
-  size[axis] = 1;
   // Make parameters for squeeze
   int64_t num_saxis = 2;
   int64_t *squeeze_axis = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*squeeze_axis) * num_saxis);
-  squeeze_axis[0] = 0;
-  squeeze_axis[1] = axis;
   // Make parameters for data transportation
   int64_t *index_recorder =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
   int64_t *offset_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*offset_recorder) * ndim);
-  if (!index_recorder || !offset_recorder) {
+  if (!begin || !step || !size || !squeeze_axis || !index_recorder ||
+      !offset_recorder) {
+    batch_norm_release(begin);
+    batch_norm_release(size);
+    batch_norm_release(step);
+    batch_norm_release(squeeze_axis);
+    batch_norm_release(index_recorder);
+    batch_norm_release(offset_recorder);
     return STATUS_ALLOC_FAILED;
   }
+  for (int64_t i = 0; i < ndim; i++) {
+    begin[i] = 0;
+    step[i] = 1;
+    size[i] = (int)(dims[i]);
+  }
+  size[0] = 1;
+  size[axis] = 1;
+  squeeze_axis[0] = 0;
+  squeeze_axis[1] = axis;
   for (int64_t i = 0; i < ndim; i++) {
     index_recorder[i] = 0;
   }
@@ -215,33 +262,25 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
     offset_recorder[i] = offset_recorder[i + 1] * dims[i + 1];
   }
   // Implement batch norm
-  for (int64_t s = 0; s < batch_size; s++) {
+  Status status = STATUS_SUCCESS;
+  for (int64_t s = 0; s < batch_size && status == STATUS_SUCCESS; s++) {
     // Set begin
     begin[0] = (int)s;
     // Set index_recorder
     index_recorder[0] = s;
     for (int64_t c = 0; c < channel_size; c++) {
-      Tensor temp0, temp1;
+      Tensor temp1;
       // Slice to get a channel
       begin[axis] = (int)c;  // set begin
-      CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
-      CHECK_STATUS(aitisa_squeeze(temp0, squeeze_axis, num_saxis, &temp1));
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      // Implement the equation
-      CHECK_STATUS(aitisa_sub(temp1, mean_array[c], &temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
-      CHECK_STATUS(aitisa_div(temp0, denominator[c], &temp1));
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      CHECK_STATUS(aitisa_mul(scale_array[c], temp1, &temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
-      CHECK_STATUS(aitisa_add(temp0, bias_array[c], &temp1));
+      status = batch_norm_slice(input, begin, size, step, squeeze_axis,
+                                num_saxis, scale_array[c], bias_array[c],
+                                mean_array[c], denominator[c], &temp1);
+      if (status != STATUS_SUCCESS) break;
       // Transport data of temp1 to output
       index_recorder[axis] = c;
       batch_norm_transport(temp1, output, index_recorder, offset_recorder,
                            axis);
-      // Destroy temp0 and temp1
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
+      aitisa_destroy(&temp1);
     }
   }
   // Destroy parameters for slice and squeeze
@@ -251,7 +290,7 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   aitisa_default_cpu_allocator()->raw_dealloc(squeeze_axis);
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 static Status get_intermediate_tensors(const Tensor input, const int axis,
@@ -277,11 +316,14 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
     CHECK_STATUS(
         aitisa_full(dtype, device, eps_dims, eps_ndim, epsilon, &eps_tensor));
     // Get sqrt(variance+epsilon), denoted by denominator
-    CHECK_STATUS(aitisa_add(variance, eps_tensor, &temp));
-    CHECK_STATUS(aitisa_sqrt(temp, *denominator));
-    // Destroy epsilon and temp tensor
+    Status status = aitisa_add(variance, eps_tensor, &temp);
+    if (status == STATUS_SUCCESS) {
+      status = aitisa_sqrt(temp, *denominator);
+      aitisa_destroy(&temp);
+    }
+    // Destroy epsilon tensor
     aitisa_destroy(&eps_tensor);
-    aitisa_destroy(&temp);
+    return status;
   }else if (in_ndim > 2) {
     // The case with channel
     int64_t *in_dims = aitisa_tensor_dims(input);
@@ -303,8 +345,12 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
     }
     // Get epsilon tensor
     Tensor eps_tensor;
-    CHECK_STATUS(aitisa_full(dtype, device, param_dims, param_ndim, epsilon,
-                             &eps_tensor));
+    Status status = aitisa_full(dtype, device, param_dims, param_ndim, epsilon,
+                                &eps_tensor);
+    if (status != STATUS_SUCCESS) {
+      batch_norm_release(param_dims);
+      return status;
+    }
     // Get mean_array, scale_array, bias_array, denominator
     int64_t tensor_size = size_of_dims(param_dims, param_ndim);
     uint8_t ele_size = dtype.size;
@@ -314,26 +360,42 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
         sizeof(**scale_array) * num_channels);
     *bias_array = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(**bias_array) * num_channels);
-    *denominator = NULL;
     *denominator = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(**denominator) * num_channels);
     Tensor *temp = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**temp) * num_channels); 
+        sizeof(*temp) * num_channels);
     Tensor *var_array = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(*var_array) * num_channels);
     if (!*mean_array || !*scale_array || !*bias_array ||
-        !*denominator || !var_array) {
+        !*denominator || !temp || !var_array) {
+      batch_norm_release(*mean_array);
+      batch_norm_release(*scale_array);
+      batch_norm_release(*bias_array);
+      batch_norm_release(*denominator);
+      batch_norm_release(temp);
+      batch_norm_release(var_array);
+      *mean_array = *scale_array = *bias_array = *denominator = NULL;
+      aitisa_destroy(&eps_tensor);
+      batch_norm_release(param_dims);
       return STATUS_ALLOC_FAILED;
-    } 
+    }
+    for (int64_t i = 0; i < num_channels; i++) {
+      (*mean_array)[i] = (*scale_array)[i] = (*bias_array)[i] = NULL;
+      (*denominator)[i] = temp[i] = var_array[i] = NULL;
+    }
     for (uint32_t c = 0; c < num_channels; c++) {
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*mean_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*scale_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*bias_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &(var_array[c])));
+      status = aitisa_create(dtype, device, param_dims, param_ndim,
+                             NULL, 0, &((*mean_array)[c]));
+      if (status != STATUS_SUCCESS) break;
+      status = aitisa_create(dtype, device, param_dims, param_ndim,
+                             NULL, 0, &((*scale_array)[c]));
+      if (status != STATUS_SUCCESS) break;
+      status = aitisa_create(dtype, device, param_dims, param_ndim,
+                             NULL, 0, &((*bias_array)[c]));
+      if (status != STATUS_SUCCESS) break;
+      status = aitisa_create(dtype, device, param_dims, param_ndim,
+                             NULL, 0, &(var_array[c]));
+      if (status != STATUS_SUCCESS) break;
       // Repeatedly copy data to array
       char *mean_array_c_data = aitisa_tensor_data((*mean_array)[c]);
       char *mean_data = aitisa_tensor_data(mean);
@@ -354,17 +416,17 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
                (void *)(var_data + c * ele_size), ele_size);
       }
       // sqrt(var_array[c] + epsilon_tensor)
-      CHECK_STATUS(aitisa_add(var_array[c], eps_tensor, &(temp[c])));
-      CHECK_STATUS(aitisa_sqrt(temp[c], &((*denominator)[c])));
+      status = aitisa_add(var_array[c], eps_tensor, &(temp[c]));
+      if (status != STATUS_SUCCESS) break;
+      status = aitisa_sqrt(temp[c], &((*denominator)[c]));
+      if (status != STATUS_SUCCESS) break;
       aitisa_destroy(&(var_array[c]));
     }
     aitisa_destroy(&eps_tensor);
-    aitisa_default_cpu_allocator()->raw_dealloc(var_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(param_dims); 
-    for(int64_t i = 0; i < num_channels; i++){
-      aitisa_destroy(&temp[i]);
-    }
-    aitisa_default_cpu_allocator()->raw_dealloc(temp);
+    batch_norm_destroy_array(var_array, num_channels);
+    batch_norm_destroy_array(temp, num_channels);
+    aitisa_default_cpu_allocator()->raw_dealloc(param_dims);
+    return status;
   }
   return STATUS_SUCCESS;
 }
@@ -377,40 +439,45 @@ Status aitisa_batch_norm(const Tensor input, const int axis, const Tensor scale,
   CHECK_STATUS(batch_norm_check_parameters(input, axis, scale, bias, mean,
                                            variance, epsilon));
   // Create output
-  CHECK_STATUS(batch_norm_create_output(input, output));
+  Tensor new_tensor;
+  CHECK_STATUS(batch_norm_create_output(input, &new_tensor));
   // Implement batch normalization
   Status status;
   int64_t ndim = aitisa_tensor_ndim(input);
-  Tensor *scale_array, *bias_array, *mean_array, *denominators;
+  Tensor *scale_array = NULL, *bias_array = NULL;
+  Tensor *mean_array = NULL, *denominators = NULL;
   if (ndim == 2) {
     // Get denominator which is sqrt(variance+epsilon)
-    Tensor denominator;
+    Tensor denominator = NULL;
     Tensor *denominator_ptr = &denominator;
-    CHECK_STATUS(get_intermediate_tensors(input, axis, scale, &scale_array,
-                                          bias, &bias_array, mean, &mean_array,
-                                          variance, epsilon, &denominator_ptr));
-    status = batch_norm_without_channel(input, scale, bias, mean, denominator,
-                                        output);
+    status = get_intermediate_tensors(input, axis, scale, &scale_array,
+                                      bias, &bias_array, mean, &mean_array,
+                                      variance, epsilon, &denominator_ptr);
+    if (status == STATUS_SUCCESS) {
+      status = batch_norm_without_channel(input, scale, bias, mean, denominator,
+                                          &new_tensor);
+    }
     aitisa_destroy(&denominator);
   } else if (ndim > 2 && ndim < 6) {
-    CHECK_STATUS(get_intermediate_tensors(input, axis, scale, &scale_array,
-                                          bias, &bias_array, mean, &mean_array,
-                                          variance, epsilon, &denominators));
-    status = batch_norm_with_channel(input, axis, scale_array, bias_array,
-                                     mean_array, denominators, output);
-    int64_t num_channels = aitisa_tensor_dim(input, axis);
-    for(int64_t i = 0; i < num_channels; i++){
-      aitisa_destroy(&scale_array[i]);
-      aitisa_destroy(&bias_array[i]);
-      aitisa_destroy(&mean_array[i]);
-      aitisa_destroy(&denominators[i]);
+    status = get_intermediate_tensors(input, axis, scale, &scale_array,
+                                      bias, &bias_array, mean, &mean_array,
+                                      variance, epsilon, &denominators);
+    if (status == STATUS_SUCCESS) {
+      status = batch_norm_with_channel(input, axis, scale_array, bias_array,
+                                       mean_array, denominators, &new_tensor);
     }
-    aitisa_default_cpu_allocator()->raw_dealloc(scale_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(bias_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(mean_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(denominators);
+    int64_t num_channels = aitisa_tensor_dim(input, axis);
+    batch_norm_destroy_array(scale_array, num_channels);
+    batch_norm_destroy_array(bias_array, num_channels);
+    batch_norm_destroy_array(mean_array, num_channels);
+    batch_norm_destroy_array(denominators, num_channels);
   } else {
     status = STATUS_DIMENSIONS_MISMATCH;
   }
-  return status;
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
+  return STATUS_SUCCESS;
 }
-- 
2.43.0


From 23b7979d3d6514d4af96a6bb854ab2b5bdc2c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 22/31] fix: creating a tensor refuses negative extents and
 sizes that overflow

---
 src/core/tensor.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index eeae9b6..0614f1a 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -3,9 +3,25 @@
 #include "src/core/utils.h"
 // #include <stdio.h>
 
+/*
+ *  Every dimension must be non-negative, and the number of elements and of
+ *  bytes must be representable.
+ */
+static Status check_dims(DataType dtype, int64_t *dims, int64_t ndim) {
+  int64_t limit = INT64_MAX / dtype.size;
+  int64_t size = 1;
+  for (int64_t i = 0; i < ndim; ++i) {
+    if (dims[i] < 0) return STATUS_INVALID_ARGUMENT;
+    if (dims[i] > 0 && size > limit / dims[i]) return STATUS_INVALID_ARGUMENT;
+    size *= dims[i];
+  }
+  return STATUS_SUCCESS;
+}
+
 Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim, 
                      void *data, unsigned int len, Tensor *output) {
   Tensor tensor;
+  CHECK_STATUS(check_dims(dtype, dims, ndim));
   tensor = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tensor));
   if (!tensor) return STATUS_ALLOC_FAILED;
   tensor->size = size_of_dims(dims, ndim);
-- 
2.43.0


From f61832b61f8306905881dafcaa2d733053aef9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 23/31] fix: tanh does not overflow for large magnitudes

---
 src/nn/tanh.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nn/tanh.c b/src/nn/tanh.c
index fb228ce..c3f1eda 100644
--- a/src/nn/tanh.c
+++ b/src/nn/tanh.c
@@ -6,8 +6,7 @@
   typename *in_data = aitisa_tensor_data(input);                    \
   typename *out_data = aitisa_tensor_data(*output);                 \
   for (int64_t i = 0; i < size; i++) {                              \
-    out_data[i] = (typename)((exp(in_data[i]) - exp(-in_data[i]))   \
-                / (exp(in_data[i]) + exp(-in_data[i])));            \
+    out_data[i] = (typename)tanh(in_data[i]);                       \
   }
 
 Status aitisa_tanh(const Tensor input, Tensor *output) {
-- 
2.43.0


From 6cf5877fcd57737b1eacbe22e8240dac341fd335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 24/31] fix: softmax does not overflow for large magnitudes

---
 src/nn/softmax.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index f3131d2..a64d1e9 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -25,8 +25,13 @@ static Status softmax_create_output(const Tensor input, Tensor *output){
   /*calculate exp(in_data) and temporarily save them in out_data*/    \
   int64_t size = aitisa_tensor_size(input);                           \
   double total = 0;                                                   \
+  /*subtracting the maximum keeps exp from overflowing*/              \
+  double max = size > 0 ? in_data[0] : 0;                             \
+  for(int64_t i=1; i<size; i++){                                      \
+    if(in_data[i] > max) max = in_data[i];                            \
+  }                                                                   \
   for(int64_t i=0; i<size; i++){                                      \
-    out_data[i] = (typename)exp(in_data[i]);                          \
+    out_data[i] = (typename)exp(in_data[i] - max);                    \
     total += out_data[i];                                             \
   }                                                                   \
   /*calculate the real softmax value for output*/                     \
@@ -58,11 +63,18 @@ static Status softmax_with_all(const Tensor input, Tensor *output){
     int64_t linear_idx_copy = linear_idx;                       \
     /*implement softmax*/                                       \
     double total = 0;                                           \
+    /*subtracting the maximum keeps exp from overflowing*/      \
+    double max = dims[axis] > 0 ? in_data[linear_idx] : 0;      \
+    for(int64_t i=1; i<dims[axis]; i++){                        \
+      linear_idx += element_offset;                             \
+      if(in_data[linear_idx] > max) max = in_data[linear_idx];  \
+    }                                                           \
+    linear_idx = linear_idx_copy;                               \
     for(int64_t i=0; i<dims[axis]; i++){                        \
       /*calculate the exp(in_data) and                          \
         temporarily save them in out_data*/                     \
       out_data[linear_idx] =                                    \
-        (typename)exp(in_data[linear_idx]);                     \
+        (typename)exp(in_data[linear_idx] - max);               \
       total += out_data[linear_idx];                            \
       /*update linear_idx*/                                     \
       linear_idx += element_offset;                             \
-- 
2.43.0


From 3048678c14f9b6a20322bde28b0d73d73990f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 25/31] fix: squeeze keeps axes of extent zero

---
 src/basic/squeeze.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index 0f51cea..d23ae1b 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -27,15 +27,15 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis == 0) {
     for (int64_t i = 0; i < in_ndim; i++) {
       if (in_dims[i] == 1) {
-        processed_in_dims[i] = 0;
+        processed_in_dims[i] = -1;
         out_ndim--;
       }
     }
   } else if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
       // An axis that is listed twice is removed only once
-      if (in_dims[axis[i]] == 1 && processed_in_dims[axis[i]] != 0) {
-        processed_in_dims[axis[i]] = 0;
+      if (in_dims[axis[i]] == 1 && processed_in_dims[axis[i]] >= 0) {
+        processed_in_dims[axis[i]] = -1;
         out_ndim--;
       }
     }
@@ -50,7 +50,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   }
   int64_t j = 0;
   for (int64_t i = 0; i < in_ndim; i++) {
-    if (processed_in_dims[i] != 0) {
+    if (processed_in_dims[i] >= 0) {
       out_dims[j++] = processed_in_dims[i];
     }
   }
-- 
2.43.0


From 9aed172088637eb2045d3147e8057f3f292357e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 26/31] fix: the product with a scalar took a 64-bit integer
 through a double

---
 src/math/dot.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index ee23316..017149a 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -22,16 +22,6 @@ static Status dot_template(DataType dtype, void *data1, void *data2,
   return status;
 }
 
-#define dot_get_value_kernel(typename, tensor, idx, value)      \
-  typename val = ((typename *)aitisa_tensor_data(tensor))[idx]; \
-  *value = (double)val;
-
-static Status dot_get_value(const Tensor tensor, int idx, double *value) {
-  DataType dtype = aitisa_tensor_data_type(tensor);
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, dot_get_value_kernel, tensor, idx, value);
-  return STATUS_SUCCESS;
-}
-
 static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
                                 Tensor *output) {
   int64_t tensor1_ndim = aitisa_tensor_ndim(tensor1);
@@ -39,21 +29,25 @@ static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
   // Create a new tensor full of the scalar value
   int64_t out_ndim;
   int64_t *out_dims = NULL;
-  double value;
+  void *value;
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   if (tensor1_ndim > ndim_tensor2) {
     out_ndim = tensor1_ndim;
     out_dims = aitisa_tensor_dims(tensor1);
-    CHECK_STATUS(dot_get_value(tensor2, 0, &value));
+    value = aitisa_tensor_data(tensor2);
   } else {
     out_ndim = ndim_tensor2;
     out_dims = aitisa_tensor_dims(tensor2);
-    CHECK_STATUS(dot_get_value(tensor1, 0, &value));
+    value = aitisa_tensor_data(tensor1);
   }
   CHECK_STATUS(
-      aitisa_full(dtype, device, out_dims, out_ndim, value, &new_tensor));
+      aitisa_create(dtype, device, out_dims, out_ndim, NULL, 0, &new_tensor));
+  // The value is copied as it is, a 64-bit integer may not fit into a double
+  for (int64_t i = 0; i < aitisa_tensor_size(new_tensor); i++) {
+    aitisa_tensor_set_item(new_tensor, i, value);
+  }
   // Implement tensor multiplication
   Status status;
   if (tensor1_ndim > ndim_tensor2) {
-- 
2.43.0


From 1554c8ec4e5da635663891cda2fa202ddb728eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 27/31] fix: max pooling took 64-bit integers through a double

---
 src/nn/pooling.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index bf9c233..28918a7 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -9,8 +9,11 @@
     temp += ((typename*)in_data)[linear_idx];         \
   }                                                   \
   else if (!strcmp(mode, "max")) {                    \
-    if (temp < ((typename*)in_data)[linear_idx]) {    \
-      temp = ((typename*)in_data)[linear_idx];        \
+    if (max_idx < 0                                   \
+        ? temp < ((typename*)in_data)[linear_idx]     \
+        : ((typename*)in_data)[max_idx] <             \
+          ((typename*)in_data)[linear_idx]) {         \
+      max_idx = linear_idx;                           \
     }                                                 \
   }
 
@@ -19,7 +22,9 @@
     ((typename*)out_data)[out_linear_idx] = (typename)(temp / window_size);   \
   }                                                                           \
   else if (!strcmp(mode, "max")) {                                            \
-    ((typename*)out_data)[out_linear_idx] = (typename)temp;                   \
+    ((typename*)out_data)[out_linear_idx] =                                   \
+        max_idx < 0 || ((typename*)in_data)[max_idx] < temp ?                 \
+        (typename)temp : ((typename*)in_data)[max_idx];                       \
   }
 
 
@@ -138,6 +143,8 @@ static Status pooling_double(const Tensor input, const char *mode,
         }
         // The maximum of a window may be negative
         double temp = strcmp(mode, "max") ? 0 : -INFINITY;
+        // The maximum is kept by position, not every element fits into a double
+        int64_t max_idx = -1;
         int hasElement = 1;
         while(hasElement){
           int64_t linear_idx = bc_stride;
-- 
2.43.0


From 8e253d63e1fe6e3e537636f62b74144796afdf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 28/31] fix: combining an extent of 0 with an extent of 1 gave
 1

A batched product of an empty operand then read a matrix the operand does
not have.
---
 src/basic/broadcast.c | 2 +-
 src/basic/broadcast.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/broadcast.c b/src/basic/broadcast.c
index 9499cca..739b528 100644
--- a/src/basic/broadcast.c
+++ b/src/basic/broadcast.c
@@ -12,7 +12,7 @@ Status aitisa_broadcast_array(int64_t* dims_in1, int64_t ndim_in1,
     int64_t d_in2 = dims_in2[ndim_in2 - i - 1];
     bool match = d_in1 == 1 || d_in2 == 1 || d_in1 == d_in2;
     if (match) {
-      dims_out[ndim_out - i - 1] = d_in1 > d_in2 ? d_in1 : d_in2;
+      dims_out[ndim_out - i - 1] = d_in1 == 1 ? d_in2 : d_in1;
       i++;
     } else {
       return STATUS_DIMENSIONS_MISMATCH;
diff --git a/src/basic/broadcast.h b/src/basic/broadcast.h
index f16add4..4ad5dfc 100644
--- a/src/basic/broadcast.h
+++ b/src/basic/broadcast.h
@@ -30,7 +30,7 @@
  * 			reverse order.
  * 			Suppose that k and m are the i_th last elements of dims_in1 and
  * 			dims_in2. (1) k == m, then dim_out[i_th last] = k; (2) k == 1 or m ==1, then
- * 			dim_out[i_th last] = max(k, m); (3) k != m and k != 1 and m !=1, mismatched error.
+ * 			dim_out[i_th last] = the other one; (3) k != m and k != 1 and m !=1, mismatched error.
  * 			For example: dims_in1 = {3, 2, 3, 1, 5}, dims_in2 = {1, 3, 4, 5}, then
  * 			dims_out = {3, 2, 3, 4, 5}
  *
-- 
2.43.0


From ee572dc19a8a7a8002cd398e67b02a6604d77763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 29/31] fix: the product of two tensors divided by the summed
 extent

It is zero for tensors without elements.
---
 src/math/dot.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index 017149a..2e7fb64 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -264,7 +264,8 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   int64_t nvec_tensor1 =
       size_to_dim(ndim_tensor1 - 1, tensor1_dims, ndim_tensor1);
   int64_t nvec_tensor2 =
-      size_of_dims(tensor2_dims, ndim_tensor2) / tensor2_dims[ndim_tensor2 - 2];
+      size_to_dim(ndim_tensor2 - 2, tensor2_dims, ndim_tensor2) *
+      tensor2_dims[ndim_tensor2 - 1];
   Tensor vec2;
   Tensor vec1;
   Tensor result;
-- 
2.43.0


From 57b735cf6db857ac0afefd1eaf385c8179e423e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 30/31] fix: a convolution without input channels left its
 output unset

---
 src/nn/conv.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 959237b..0b8006f 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -175,10 +175,10 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
               tmp += in_data[in_offset] * fil_data[fil_offset];
             }
           }
-          int64_t out_offset =
-              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
-          out_data[out_offset] = tmp;
         }
+        int64_t out_offset =
+            aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
+        out_data[out_offset] = tmp;
       }
     }
   }
-- 
2.43.0


From ccf92961f3bd1e12d7f062291ec302c44d524d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 31/31] fix: pooling extents with wide dilations no longer wrap
 at 32 bits

---
 src/nn/pooling.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 28918a7..b1eeb0f 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -39,7 +39,7 @@ static Status pooling_create_output(const Tensor input, int64_t *out_dims,
   out_dims[axis] = in_dims[axis];
   for(int64_t i = c_start; i < c_start + ndim - 2; i++){
     double temp = in_dims[i] + 2.0 * padding[i - c_start] -
-                  dilation[i - c_start] * (ksize[i - c_start] - 1);
+                  (double)dilation[i - c_start] * (ksize[i - c_start] - 1);
     out_dims[i] = (int64_t)floor((temp-1)/stride[i-c_start] + 1 );
   }
   DataType dtype = aitisa_tensor_data_type(input);
@@ -132,7 +132,7 @@ static Status pooling_double(const Tensor input, const char *mode,
       // Set k_head and k_tail according to padding and dilation
       for(int64_t i=c_start; i<c_start+ndim-2; i++){
         k_head[i] = 0 - padding[i-c_start];
-        k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+        k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*(int64_t)dilation[i-c_start];
       }
       int window_idx = 0;
       int hasWindow = 1;
@@ -183,12 +183,12 @@ static Status pooling_double(const Tensor input, const char *mode,
         // update k_head and k_tail
         for(int64_t i=c_start+ndim-3; i>=c_start; i--){
           k_head[i] = k_head[i] + stride[i-c_start];
-          k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+          k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*(int64_t)dilation[i-c_start];
           if(k_tail[i] > padding[i-c_start]+in_dims[i]-1){
             // judge if there is still window
             if(i == c_start) hasWindow = 0;
             k_head[i] = - padding[i-c_start];
-            k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+            k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*(int64_t)dilation[i-c_start];
           }else{
             break;
           }
-- 
2.43.0

