From 3eacb1a215759059d906f8ebefebb877d1d1e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 01/84] fix: sdp_count_and_prefix_sum: validate outputs, stop
 on error and release copies

---
 .../visibility/sdp_tiled_functions.cpp        | 34 ++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 26629dc..8bdaf21 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -315,6 +315,14 @@ void sdp_count_and_prefix_sum(
         sdp_Error* status
 )
 {
+    if (*status) return;
+    sdp_mem_check_writeable(tile_offsets, status);
+    sdp_mem_check_writeable(num_points_in_tiles, status);
+    sdp_mem_check_writeable(num_skipped, status);
+    sdp_mem_check_type(tile_offsets, SDP_MEM_INT, status);
+    sdp_mem_check_type(num_points_in_tiles, SDP_MEM_INT, status);
+    sdp_mem_check_type(num_skipped, SDP_MEM_INT, status);
+
     // Initialise arrays to zero
     sdp_mem_clear_contents(tile_offsets, status);
     sdp_mem_clear_contents(num_points_in_tiles, status);
@@ -361,6 +369,11 @@ void sdp_count_and_prefix_sum(
             num_baselines,
             status
     );
+    sdp_mem_check_location(freqs, vis_location, status);
+    sdp_mem_check_location(tile_offsets, vis_location, status);
+    sdp_mem_check_location(num_points_in_tiles, vis_location, status);
+    sdp_mem_check_location(num_skipped, vis_location, status);
+    if (*status) return;
 
     if (vis_location == SDP_MEM_CPU)
     {
@@ -393,6 +406,11 @@ void sdp_count_and_prefix_sum(
 
             *num_visibilites = *((int*)sdp_mem_data(tile_offsets) + num_tiles);
         }
+        else
+        {
+            *status = SDP_ERR_DATA_TYPE;
+            SDP_LOG_ERROR("Unsupported data type(s)");
+        }
     }
     else if (vis_location == SDP_MEM_GPU)
     {
@@ -425,6 +443,7 @@ void sdp_count_and_prefix_sum(
         {
             *status = SDP_ERR_DATA_TYPE;
             SDP_LOG_ERROR("Unsupported data type(s)");
+            return;
         }
 
         const void* args[]{
@@ -477,15 +496,20 @@ void sdp_count_and_prefix_sum(
                 SDP_MEM_CPU,
                 status
         );
-        *num_visibilites = *((int*)sdp_mem_data(tile_offsets_cpy) + num_tiles);
-
-        printf("Number of visibilites %d \n", *num_visibilites);
         sdp_Mem* numn_skipped_cpy = sdp_mem_create_copy(num_skipped,
                 SDP_MEM_CPU,
                 status
         );
-        int num_s_vis = *(int*)sdp_mem_data(numn_skipped_cpy);
-        printf("Number of skipped vis %d \n", num_s_vis);
+        if (!*status)
+        {
+            *num_visibilites =
+                    *((int*)sdp_mem_data(tile_offsets_cpy) + num_tiles);
+            printf("Number of visibilites %d \n", *num_visibilites);
+            int num_s_vis = *(int*)sdp_mem_data(numn_skipped_cpy);
+            printf("Number of skipped vis %d \n", num_s_vis);
+        }
+        sdp_mem_free(tile_offsets_cpy);
+        sdp_mem_free(numn_skipped_cpy);
     }
 }
 
-- 
2.43.0


From 1227097d2ed69ad1778e4ab6bd8fb4620c0f805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 02/84] fix: sdp_bucket_sort, sdp_tiled_indexing: validate
 arrays and stop on error

---
 .../visibility/sdp_tiled_functions.cpp        | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 8bdaf21..0079eb9 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -534,6 +534,18 @@ void sdp_bucket_sort(
 )
 {
     if (*status) return;
+    sdp_mem_check_writeable(sorted_uu, status);
+    sdp_mem_check_writeable(sorted_vv, status);
+    sdp_mem_check_writeable(sorted_weight, status);
+    sdp_mem_check_writeable(sorted_tile, status);
+    sdp_mem_check_writeable(sorted_vis, status);
+    sdp_mem_check_writeable(tile_offsets, status);
+    sdp_mem_check_type(tile_offsets, SDP_MEM_INT, status);
+    sdp_mem_check_type(sorted_tile, SDP_MEM_INT, status);
+    sdp_mem_check_type(sorted_uu, sdp_mem_type(uvw), status);
+    sdp_mem_check_type(sorted_vv, sdp_mem_type(uvw), status);
+    sdp_mem_check_type(sorted_weight, sdp_mem_type(weights), status);
+
     // Initialise arrays to zero
     sdp_mem_clear_contents(sorted_uu, status);
     sdp_mem_clear_contents(sorted_tile, status);
@@ -594,6 +606,14 @@ void sdp_bucket_sort(
             num_pols,
             status
     );
+    sdp_mem_check_location(freqs, vis_location, status);
+    sdp_mem_check_location(sorted_uu, vis_location, status);
+    sdp_mem_check_location(sorted_vv, vis_location, status);
+    sdp_mem_check_location(sorted_weight, vis_location, status);
+    sdp_mem_check_location(sorted_tile, vis_location, status);
+    sdp_mem_check_location(sorted_vis, vis_location, status);
+    sdp_mem_check_location(tile_offsets, vis_location, status);
+    if (*status) return;
 
     if (vis_location == SDP_MEM_CPU)
     {
@@ -695,6 +715,7 @@ void sdp_bucket_sort(
         {
             *status = SDP_ERR_DATA_TYPE;
             SDP_LOG_ERROR("Unsupported data type(s)");
+            return;
         }
 
         const void* args2[]{
@@ -753,6 +774,17 @@ void sdp_tiled_indexing(
 )
 {
     if (*status) return;
+    sdp_mem_check_writeable(sorted_tile, status);
+    sdp_mem_check_writeable(sorted_uu, status);
+    sdp_mem_check_writeable(sorted_vv, status);
+    sdp_mem_check_writeable(sorted_vis_index, status);
+    sdp_mem_check_writeable(tile_offsets, status);
+    sdp_mem_check_type(tile_offsets, SDP_MEM_INT, status);
+    sdp_mem_check_type(sorted_tile, SDP_MEM_INT, status);
+    sdp_mem_check_type(sorted_vis_index, SDP_MEM_INT, status);
+    sdp_mem_check_type(sorted_uu, sdp_mem_type(uvw), status);
+    sdp_mem_check_type(sorted_vv, sdp_mem_type(uvw), status);
+
     // Initialise arrays to zero
     sdp_mem_clear_contents(sorted_tile, status);
     sdp_mem_clear_contents(sorted_vis_index, status);
@@ -782,6 +814,13 @@ void sdp_tiled_indexing(
             num_baselines,
             status
     );
+    sdp_mem_check_location(freqs, uvw_loc, status);
+    sdp_mem_check_location(sorted_tile, uvw_loc, status);
+    sdp_mem_check_location(sorted_uu, uvw_loc, status);
+    sdp_mem_check_location(sorted_vv, uvw_loc, status);
+    sdp_mem_check_location(sorted_vis_index, uvw_loc, status);
+    sdp_mem_check_location(tile_offsets, uvw_loc, status);
+    if (*status) return;
 
     if (uvw_loc == SDP_MEM_CPU)
     {
@@ -864,6 +903,7 @@ void sdp_tiled_indexing(
         {
             *status = SDP_ERR_DATA_TYPE;
             SDP_LOG_ERROR("Unsupported data type(s)");
+            return;
         }
 
         const void* args2[]{
-- 
2.43.0


From 3dc94d321810a5ce4d75b732553876ba376bb17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 03/84] fix: sdp_mem: keep an earlier error when creating
 wrappers and slices

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index b2de041..46de35c 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -197,7 +197,7 @@ sdp_Mem* sdp_mem_create_wrapper(
     const int64_t element_size = sdp_mem_type_size(type);
     if (element_size <= 0)
     {
-        *status = SDP_ERR_DATA_TYPE;
+        if (!*status) *status = SDP_ERR_DATA_TYPE;
         SDP_LOG_CRITICAL("Unsupported data type");
         return mem;
     }
@@ -239,6 +239,7 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
         sdp_Error* status
 )
 {
+    if (*status) return 0;
     if (num_dims_slice > src->num_dims)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
-- 
2.43.0


From d5f90c102bb6791bf935c297f1ee7c01e3bf74c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 04/84] fix: sdp_mem: aliases and slices of read-only arrays
 stay read-only

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 46de35c..3dcfbec 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -293,6 +293,7 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
             src->type, src->location, num_dims_slice, slice_shape, stride,
             status
     );
+    mem->is_read_only = src->is_read_only;
     free(stride);
     return mem;
 }
@@ -304,6 +305,7 @@ sdp_Mem* sdp_mem_create_alias(const sdp_Mem* src)
     sdp_Mem* mem = sdp_mem_create_wrapper(src->data, src->type, src->location,
             src->num_dims, src->shape, src->stride, &status
     );
+    mem->is_read_only = src->is_read_only;
     return mem;
 }
 
-- 
2.43.0


From b1858c5ae22c0a601960bb1cf8f99dab5ecf656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 05/84] fix: sdp_mem: do not modify arrays marked as read-only

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 3dcfbec..c286668 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -340,6 +340,8 @@ void sdp_mem_clear_portion(
 )
 {
     if (*status || !mem || num_elements == 0) return;
+    sdp_mem_check_writeable(mem, status);
+    if (*status) return;
     const size_t offset = start_index * sdp_mem_type_size(mem->type);
     const size_t size = num_elements * sdp_mem_type_size(mem->type);
     if (mem->location == SDP_MEM_CPU)
@@ -458,6 +460,8 @@ void sdp_mem_copy_contents(
 #endif
     if (*status || !dst || !src || !dst->data || !src->data) return;
     if (src->num_elements == 0 || num_elements == 0) return;
+    sdp_mem_check_writeable(dst, status);
+    if (*status) return;
     const int64_t element_size = sdp_mem_type_size(src->type);
     const int64_t start_dst   = element_size * offset_dst;
     const int64_t start_src   = element_size * offset_src;
@@ -519,6 +523,8 @@ void sdp_mem_copy_contents_async(
 #endif
     if (*status || !dst || !src || !dst->data || !src->data) return;
     if (src->num_elements == 0 || num_elements == 0) return;
+    sdp_mem_check_writeable(dst, status);
+    if (*status) return;
     const int64_t element_size = sdp_mem_type_size(src->type);
     const int64_t start_dst   = element_size * offset_dst;
     const int64_t start_src   = element_size * offset_src;
@@ -710,6 +716,8 @@ int64_t sdp_mem_num_elements(const sdp_Mem* mem)
 
 void sdp_mem_random_fill(sdp_Mem* mem, sdp_Error* status)
 {
+    if (*status || !mem || mem->num_elements == 0) return;
+    sdp_mem_check_writeable(mem, status);
     if (*status) return;
     if (mem->location != SDP_MEM_CPU)
     {
@@ -757,6 +765,8 @@ sdp_Mem* sdp_mem_ref_inc(sdp_Mem* mem)
 
 void sdp_mem_scale_real(sdp_Mem* mem, double value, sdp_Error* status)
 {
+    if (*status) return;
+    sdp_mem_check_writeable(mem, status);
     if (*status) return;
     if (!sdp_mem_is_c_contiguous(mem))
     {
-- 
2.43.0


From 93d72894053bdc2e26c00f28846091c41f91a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 06/84] fix: sdp_mem_random_fill: report unsupported element
 types

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index c286668..883cd46 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -746,6 +746,11 @@ void sdp_mem_random_fill(sdp_Mem* mem, sdp_Error* status)
             data[i] = (double)rand() / (double)RAND_MAX;
         }
     }
+    else
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type");
+    }
 }
 
 
-- 
2.43.0


From 8fc65f8fa7294f183a1323e30ab715827aa47e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 07/84] fix: sdp_mem_convert_precision: do not convert into an
 array that failed to allocate

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 883cd46..dbea5db 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -395,6 +395,11 @@ sdp_Mem* sdp_mem_convert_precision(
     sdp_Mem* output = sdp_mem_create(
             output_type, SDP_MEM_CPU, src->num_dims, src->shape, status
     );
+    if (*status)
+    {
+        sdp_mem_free(src_temp);
+        return output;
+    }
     const int64_t num_elements = sdp_mem_num_elements(src);
     if (input_type == SDP_MEM_COMPLEX_DOUBLE &&
             output_type == SDP_MEM_COMPLEX_FLOAT)
-- 
2.43.0


From d5c103ab535f546a893ac15ce985dd4ccb4432cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 08/84] fix: sdp_mem_check_same_shape: keep an earlier error

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index dbea5db..351d8fb 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -1423,6 +1423,7 @@ void sdp_mem_check_same_shape_at(
         int line
 )
 {
+    if (*status) return;
     // Skip the check if the memory object has fewer dimension - we
     // assume there will be an sdp_mem_check_num_dims that will
     // already have objected to the wrong dimensionality.
-- 
2.43.0


From 7a13cbcd85ae857c9ec2ac8de869329b9a9d30a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 09/84] fix: sdp_mem_create_wrapper_for_slice: reject slices
 that run past the end of the array

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 351d8fb..6a3bd6f 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -266,13 +266,16 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
     for (int32_t i = 0; i < num_dims_slice; ++i)
     {
         const int32_t i_dim_slice = num_dims_slice - 1 - i;
-        if (slice_shape[i_dim_slice] > src->shape[src->num_dims - 1 - i])
+        const int32_t i_dim_src = src->num_dims - 1 - i;
+        const int64_t max_shape =
+                src->shape[i_dim_src] - slice_offsets[i_dim_src];
+        if (slice_shape[i_dim_slice] > max_shape)
         {
             *status = SDP_ERR_INVALID_ARGUMENT;
             SDP_LOG_CRITICAL(
                     "Slice shape in dimension %d is too large: %d > %d",
-                    i_dim_slice, slice_shape[i_dim_slice],
-                    src->shape[src->num_dims - 1 - i]
+                    i_dim_slice, (int) slice_shape[i_dim_slice],
+                    (int) max_shape
             );
             return 0;
         }
-- 
2.43.0


From 2b4151016966370aab4b0d4d00f89c5afc5626dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 10/84] fix: sdp_fft_convolution: check the second input and
 stop on error

---
 .../numeric_functions/sdp_fft_convolution.cpp | 41 ++++++++++++-------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 65866b2..ae7c9fe 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -162,7 +162,10 @@ static void sdp_fft_convolution_cpu(
     int64_t extra_in1 = (pad_dim - in1_dim) / 2;
 
     // pad in1
-    sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim, extra_in1, extra_in1);
+    if (!*status)
+    {
+        sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim, extra_in1, extra_in1);
+    }
 
     // create memory to save padded input in2
     sdp_Mem* in2_pad_mem = sdp_mem_create(data_type,
@@ -178,7 +181,10 @@ static void sdp_fft_convolution_cpu(
     int64_t extra_in2 = (pad_dim - in2_dim) / 2;
 
     // pad in2
-    sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim, extra_in2, extra_in2);
+    if (!*status)
+    {
+        sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim, extra_in2, extra_in2);
+    }
 
     // get FFT of padded in1
     sdp_Fft* in1_fft_plan = sdp_fft_create(in1_pad_mem,
@@ -211,7 +217,7 @@ static void sdp_fft_convolution_cpu(
     sdp_mem_clear_contents(multiply_mem, status);
 
     // multiply FFTs together
-    for (int i = 0; i < pad_size; i++)
+    for (int i = 0; i < pad_size && !*status; i++)
     {
         multiply_ptr[i] = in1_pad_ptr[i] * in2_pad_ptr[i];
     }
@@ -224,19 +230,22 @@ static void sdp_fft_convolution_cpu(
     );
     sdp_fft_exec(result_ifft_plan, multiply_mem, multiply_mem, status);
     sdp_fft_free(result_ifft_plan);
-    sdp_fft_normalise<T>(multiply_ptr, pad_size);
+    if (!*status)
+    {
+        sdp_fft_normalise<T>(multiply_ptr, pad_size);
 
-    // shift the result to the center of the image
-    sdp_fft_shift_2d<T>(multiply_ptr, pad_dim, pad_dim);
+        // shift the result to the center of the image
+        sdp_fft_shift_2d<T>(multiply_ptr, pad_dim, pad_dim);
 
-    // remove padding from the convolved result
-    sdp_remove_padding_2d<T>(multiply_ptr,
-            out,
-            pad_dim,
-            pad_dim,
-            extra_in1,
-            extra_in1
-    );
+        // remove padding from the convolved result
+        sdp_remove_padding_2d<T>(multiply_ptr,
+                out,
+                pad_dim,
+                pad_dim,
+                extra_in1,
+                extra_in1
+        );
+    }
 
     sdp_mem_ref_dec(in1_pad_mem);
     sdp_mem_ref_dec(in2_pad_mem);
@@ -573,6 +582,10 @@ void sdp_fft_convolution(
         return;
     }
 
+    sdp_mem_check_type(in2, data_type, status);
+    sdp_mem_check_location(in2, location, status);
+    if (*status) return;
+
     if (!sdp_mem_is_complex(in1))
     {
         *status = SDP_ERR_DATA_TYPE;
-- 
2.43.0


From a40c11df8ebd6aef7617c02fa110dc0dce93809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 11/84] fix: sdp_gridder_accumulate_scaled_arrays: stop when an
 array is not usable

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 0a8c1a8..3f370c0 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -31,6 +31,7 @@ void accum_scale_array(
     sdp_MemViewCpu<const IN1_TYPE, 2> in1_;
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in1, &in1_, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     if (exponent == 0 || !in2)
@@ -48,6 +49,7 @@ void accum_scale_array(
     {
         sdp_MemViewCpu<const IN2_TYPE, 2> in2_;
         sdp_mem_check_and_view(in2, &in2_, status);
+        if (*status) return;
         if (exponent == 1)
         {
             #pragma omp parallel for
@@ -89,6 +91,7 @@ void accum_complex_real_array(
     sdp_MemViewCpu<const IN_TYPE, 2> in_;
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in, &in_, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     #pragma omp parallel for
-- 
2.43.0


From 7514bc91c5f8b4ab87ff2f36d1bd498191357d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 12/84] fix: sdp_gridder_image_to_flmn: stop when an array is
 not usable

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 3f370c0..aae4c86 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -346,6 +346,7 @@ void image_to_flmn(
         sdp_MemViewCpu<FLUX_TYPE, 1> flux_;
         sdp_mem_check_and_view(image, &image_, status);
         sdp_mem_check_and_view(flux, &flux_, status);
+        if (*status) return;
         for (int il = 0; il < size_l; ++il)
         {
             const double l = (il - size_l / 2) * theta / size_l;
-- 
2.43.0


From 1c498561b8bd46f20fe58e07512875879b710579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 13/84] fix: sdp_gridder_scale_inv_array: stop when an array is
 not usable

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index aae4c86..c32cc22 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -503,6 +503,7 @@ void scale_inv_array(
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in1, &in1_, status);
     sdp_mem_check_and_view(in2, &in2_, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     if (exponent == 1)
-- 
2.43.0


From 1a040c9b1e2a1b5c492fd96d4966000e92a05e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 14/84] fix: sdp_gridder_make_pswf_kernel: write the end point
 with the kernel's own type

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index c32cc22..05575e8 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1349,7 +1349,17 @@ void sdp_gridder_make_pswf_kernel(
             sdp_mem_type(kernel), SDP_MEM_CPU, 1, pswf_shape, status
     );
     sdp_generate_pswf(0, support * (M_PI / 2), pswf, status);
-    if (vr_size % 2 == 0) ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+    if (!*status && vr_size % 2 == 0)
+    {
+        if (sdp_mem_type(pswf) == SDP_MEM_DOUBLE)
+        {
+            ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+        }
+        else if (sdp_mem_type(pswf) == SDP_MEM_FLOAT)
+        {
+            ((float*) sdp_mem_data(pswf))[0] = 1e-15f;
+        }
+    }
     sdp_gridder_make_kernel(pswf, kernel, status);
     sdp_mem_free(pswf);
 }
-- 
2.43.0


From 546a0da4d28359176344d5bfa4a45af55798d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 15/84] fix: sdp_gridder_sum_diff: do not read a result that
 was not copied back

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 05575e8..296d3d3 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1997,7 +1997,7 @@ void sdp_gridder_sum_diff(
         sdp_Mem* result_cpu = sdp_mem_create_copy(
                 result_gpu, SDP_MEM_CPU, status
         );
-        *result = *((int*) sdp_mem_data(result_cpu));
+        if (!*status) *result = *((int*) sdp_mem_data(result_cpu));
         sdp_mem_free(result_cpu);
         sdp_mem_free(result_gpu);
     }
-- 
2.43.0


From f8063b69cc3e6c1554eeabc61ee7022db6eb4a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 16/84] fix: sdp_gridder_clamp_channels: stop when an array is
 not usable

---
 src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
index f218a78..190e3dd 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
@@ -32,6 +32,7 @@ void clamp_channels_single(
     sdp_mem_check_and_view(end_ch_in, &end_chs_in_, status);
     sdp_mem_check_and_view(start_ch_out, &start_chs_out_, status);
     sdp_mem_check_and_view(end_ch_out, &end_chs_out_, status);
+    if (*status) return;
 
     #pragma omp parallel for
     for (int64_t i = start_row; i < end_row; ++i)
@@ -93,6 +94,7 @@ void clamp_channels_uv(
     sdp_mem_check_and_view(end_ch_in, &end_chs_in_, status);
     sdp_mem_check_and_view(start_ch_out, &start_chs_out_, status);
     sdp_mem_check_and_view(end_ch_out, &end_chs_out_, status);
+    if (*status) return;
 
     #pragma omp parallel for
     for (int64_t i = start_row; i < end_row; ++i)
-- 
2.43.0


From e995d865fb3818de7a9fe1fd5ba4720bc6054f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 17/84] fix: sdp_gridder_grid_correct_pswf: stop when the
 coefficients are not available

---
 src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
index 9d72536..0b6bfac 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
@@ -45,6 +45,7 @@ void grid_corr_pswf(
     const double* pswf_n_coe = (const double*) sdp_mem_data_const(
             sdp_pswf_coeff(pswf_n, SDP_MEM_CPU, status)
     );
+    if (*status) return;
     const double pswf_n_c = sdp_pswf_par_c(pswf_n);
     #pragma omp parallel for
     for (int il = 0; il < num_l; ++il)
-- 
2.43.0


From 5242119800409125c5868cef92da58f9a986e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 18/84] fix: sdp_gridder_determine_max_w_tower_height: do not
 use scratch arrays after an error

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index 70241f1..3d06b7f 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -123,7 +123,7 @@ double find_gridder_accuracy(
     const double step = (end - start) / (num_samples - 1);
     sdp_MemViewCpu<double, 2> uvws_;
     sdp_mem_check_and_view(uvws, &uvws_, status);
-    for (int i = 0, index = 0; i < num_samples; ++i)
+    for (int i = 0, index = 0; i < num_samples && !*status; ++i)
     {
         for (int j = 0; j < num_samples; ++j, ++index)
         {
@@ -136,7 +136,7 @@ double find_gridder_accuracy(
     // Test gridder at these points.
     sdp_MemViewCpu<int, 1> end_chs_;
     sdp_mem_check_and_view(end_chs, &end_chs_, status);
-    for (int64_t i = 0; i < num_rows; ++i)
+    for (int64_t i = 0; i < num_rows && !*status; ++i)
     {
         end_chs_(i) = 1;
     }
@@ -157,8 +157,9 @@ double find_gridder_accuracy(
     sdp_mem_check_and_view(src_lmn, &lmn_, status);
     sdp_mem_check_and_view(vis_ref, &vis_ref_, status);
     sdp_mem_clear_contents(vis_ref, status);
+    const int64_t num_rows_ref = *status ? 0 : num_rows;
     #pragma omp parallel for
-    for (int64_t i_row = 0; i_row < num_rows; ++i_row)
+    for (int64_t i_row = 0; i_row < num_rows_ref; ++i_row)
     {
         double u = uvws_(i_row, 0), v = uvws_(i_row, 1), w = uvws_(i_row, 2);
         for (int64_t i_src = 0; i_src < num_src; ++i_src)
-- 
2.43.0


From 6222467478d5ed886f2d1021c1a4cb1cc077c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 19/84] fix: sdp_gridder_worst_case_image: stop when the image
 is not usable

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index 3d06b7f..df0ade5 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -304,6 +304,7 @@ void sdp_gridder_worst_case_image(
     {
         sdp_MemViewCpu<complex<double>, 2> image_;
         sdp_mem_check_and_view(image, &image_, status);
+        if (*status) return;
         image_(image_size / 2 + fov_edge, image_size / 2 + fov_edge) = 0.3;
         image_(image_size / 2 - fov_edge, image_size / 2 - fov_edge) = 0.2;
         image_(image_size / 2 + fov_edge, image_size / 2 - fov_edge - 1) = 0.3;
-- 
2.43.0


From f38a6afd41934312dad88661dbd10c5699596bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 20/84] fix: sdp_gridder_direct_create: do not touch the taper
 array after an error

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 0c48cba..94b9031 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -52,7 +52,7 @@ sdp_GridderDirect* sdp_gridder_direct_create(
             SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, pswf_sg_shape, status
     );
     sdp_generate_pswf(0, support * (M_PI / 2), plan->pswf_sg, status);
-    ((double*)sdp_mem_data(plan->pswf_sg))[0] = 1e-15;
+    if (!*status) ((double*)sdp_mem_data(plan->pswf_sg))[0] = 1e-15;
     return plan;
 }
 
-- 
2.43.0


From 264cd37b642f9252fd6d24ca5b3c6b33f1606589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 21/84] fix: sdp_pswf: do not create device copies after an
 error

---
 src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index 8d3bb47..b87145e 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -647,7 +647,7 @@ const sdp_Mem* sdp_pswf_coeff(
 {
     if (location == SDP_MEM_GPU)
     {
-        if (!plan->coeff_gpu)
+        if (!plan->coeff_gpu && !*status)
         {
             plan->coeff_gpu = sdp_mem_create_copy(
                     plan->coeff, location, status
@@ -667,7 +667,7 @@ const sdp_Mem* sdp_pswf_values(
 {
     if (location == SDP_MEM_GPU)
     {
-        if (!plan->pswf_gpu)
+        if (!plan->pswf_gpu && !*status)
         {
             plan->pswf_gpu = sdp_mem_create_copy(plan->pswf, location, status);
         }
-- 
2.43.0


From bc04058991ce6dc91778dd2b1ef323a35e3c925e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 22/84] fix: sdp_pswf_create: report a failed allocation
 instead of using it

---
 src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp      | 11 +++++++++++
 .../grid_data/sdp_gridder_grid_correct.cpp            |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index b87145e..09ffe5c 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -621,6 +621,11 @@ sdp_Pswf* sdp_pswf_create(int m, double c)
     plan->coeff = sdp_mem_create(
             SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, coeff_shape, &status
     );
+    if (status)
+    {
+        sdp_pswf_free(plan);
+        return 0;
+    }
     plan->coeff_p = (double*) sdp_mem_data(plan->coeff);
     plan->m = m;
     plan->c = c;
@@ -699,6 +704,7 @@ double sdp_pswf_par_m(const sdp_Pswf* plan)
 
 void sdp_pswf_free(sdp_Pswf* plan)
 {
+    if (!plan) return;
     sdp_mem_free(plan->pswf);
     sdp_mem_free(plan->pswf_gpu);
     sdp_mem_free(plan->coeff);
@@ -789,6 +795,11 @@ void sdp_generate_pswf(
 {
     if (*status) return;
     sdp_Pswf* pswf = sdp_pswf_create(m, c);
+    if (!pswf)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        return;
+    }
     const int size = 0, end_correction = 0;
     sdp_pswf_generate(pswf, out, size, end_correction, status);
     sdp_pswf_free(pswf);
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
index 0b6bfac..4d9ea55 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
@@ -134,6 +134,13 @@ void sdp_gridder_grid_correct_pswf(
     if (*status) return;
     sdp_Pswf* pswf_n = sdp_pswf_create(0, w_support * (M_PI / 2));
     sdp_Pswf* pswf_lm = sdp_pswf_create(0, support * (M_PI / 2));
+    if (!pswf_n || !pswf_lm)
+    {
+        sdp_pswf_free(pswf_n);
+        sdp_pswf_free(pswf_lm);
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        return;
+    }
     sdp_pswf_generate(pswf_lm, 0, image_size, 1, status);
 
     // Apply grid correction for the appropriate data type.
-- 
2.43.0


From 1055eb6ab135d4b3403419bb04312a4650330760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 23/84] fix: sdp_gridder_wtower_uvw_create: keep an earlier
 error

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 26cee24..a35e3f6 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -671,6 +671,7 @@ sdp_GridderWtowerUVW* sdp_gridder_wtower_uvw_create(
         sdp_Error* status
 )
 {
+    if (*status) return NULL;
     if (subgrid_size % 2 != 0)
     {
         // If subgrid_size isn't even, the current FFT shift won't be correct.
-- 
2.43.0


From 0750516c93346efc7b1e784f93177860a8706543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 24/84] fix: sdp_gridder_wtower_uvw: stop when an array is not
 usable

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index a35e3f6..df6abc4 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -67,6 +67,7 @@ void degrid(
     sdp_mem_check_and_view(subgrids, &subgrids_, status);
     sdp_mem_check_and_view(uvws, &uvws_, status);
     sdp_mem_check_and_view(vis, &vis_, status);
+    if (*status) return;
     const double* RESTRICT uv_kernel =
             (const double*) sdp_mem_data_const(plan->uv_kernel);
     const double* RESTRICT w_kernel =
@@ -198,6 +199,7 @@ void degrid_cpu(
     sdp_MemViewCpu<const int, 1> start_chs_, end_chs_;
     sdp_mem_check_and_view(start_chs, &start_chs_, status);
     sdp_mem_check_and_view(end_chs, &end_chs_, status);
+    if (*status) return;
     if (sdp_mem_type(subgrids) == SDP_MEM_COMPLEX_DOUBLE &&
             sdp_mem_type(uvws) == SDP_MEM_DOUBLE &&
             sdp_mem_type(vis) == SDP_MEM_COMPLEX_DOUBLE)
@@ -273,6 +275,7 @@ void degrid_gpu(
     sdp_MemViewGpu<const int, 1> start_chs_, end_chs_;
     sdp_mem_check_and_view(start_chs, &start_chs_, status);
     sdp_mem_check_and_view(end_chs, &end_chs_, status);
+    if (*status) return;
     if (sdp_mem_type(subgrids) == SDP_MEM_COMPLEX_DOUBLE &&
             sdp_mem_type(uvws) == SDP_MEM_DOUBLE &&
             sdp_mem_type(vis) == SDP_MEM_COMPLEX_DOUBLE)
@@ -374,6 +377,7 @@ void grid(
     sdp_mem_check_and_view(subgrids, &subgrids_, status);
     sdp_mem_check_and_view(uvws, &uvws_, status);
     sdp_mem_check_and_view(vis, &vis_, status);
+    if (*status) return;
     const double* RESTRICT uv_kernel =
             (const double*) sdp_mem_data_const(plan->uv_kernel);
     const double* RESTRICT w_kernel =
@@ -506,6 +510,7 @@ void grid_cpu(
     sdp_MemViewCpu<const int, 1> start_chs_, end_chs_;
     sdp_mem_check_and_view(start_chs, &start_chs_, status);
     sdp_mem_check_and_view(end_chs, &end_chs_, status);
+    if (*status) return;
     if (sdp_mem_type(subgrids) == SDP_MEM_COMPLEX_DOUBLE &&
             sdp_mem_type(uvws) == SDP_MEM_DOUBLE &&
             sdp_mem_type(vis) == SDP_MEM_COMPLEX_DOUBLE)
@@ -581,6 +586,7 @@ void grid_gpu(
     sdp_MemViewGpu<const int, 1> start_chs_, end_chs_;
     sdp_mem_check_and_view(start_chs, &start_chs_, status);
     sdp_mem_check_and_view(end_chs, &end_chs_, status);
+    if (*status) return;
     if (sdp_mem_type(subgrids) == SDP_MEM_COMPLEX_DOUBLE &&
             sdp_mem_type(uvws) == SDP_MEM_DOUBLE &&
             sdp_mem_type(vis) == SDP_MEM_COMPLEX_DOUBLE)
-- 
2.43.0


From 14ebebf0422084d3ba306255a83d9221c555aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 25/84] fix: sdp_hogbom_clean: check every array and stop on
 error

---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cpp | 50 ++++++++++++++-------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
index e30a947..e7f22d3 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
@@ -177,10 +177,13 @@ static void sdp_hogbom_clean_cpu(
 
     // create CLEAN Beam
     sdp_mem_clear_contents(cbeam_mem, status);
-    sdp_create_cbeam<T>(cbeam_details, cbeam_details[3], cbeam_ptr);
+    if (!*status)
+    {
+        sdp_create_cbeam<T>(cbeam_details, cbeam_details[3], cbeam_ptr);
+    }
 
     // CLEAN loop executes while the stop conditions (threshold and cycle limit) are not met
-    while (cur_cycle < cycle_limit)
+    while (cur_cycle < cycle_limit && !*status)
     {
         // Find index and value of the maximum value in residual
         double highest_value = residual[0];
@@ -256,19 +259,24 @@ static void sdp_hogbom_clean_cpu(
             status
     );
 
-    // complex result to real for the output
-    sdp_create_copy_real<T>(convolution_result_ptr, dirty_img_size, skymodel);
-
-    // add remaining residual
-    for (int i = 0; i < dirty_img_size; i++)
+    if (!*status)
     {
-        skymodel[i] = skymodel[i] + residual[i];
-    }
+        // complex result to real for the output
+        sdp_create_copy_real<T>(convolution_result_ptr, dirty_img_size,
+                skymodel
+        );
 
-    // convert residual to real for output
-    sdp_create_copy_real<T>(clean_comp_complex_ptr, dirty_img_size,
-            clean_model
-    );
+        // add remaining residual
+        for (int i = 0; i < dirty_img_size; i++)
+        {
+            skymodel[i] = skymodel[i] + residual[i];
+        }
+
+        // convert residual to real for output
+        sdp_create_copy_real<T>(clean_comp_complex_ptr, dirty_img_size,
+                clean_model
+        );
+    }
 
     // free memory
     sdp_mem_ref_dec(cbeam_mem);
@@ -757,14 +765,20 @@ void sdp_hogbom_clean(
     const sdp_MemLocation location = sdp_mem_location(dirty_img);
     const sdp_MemType data_type = sdp_mem_type(dirty_img);
 
-    if (sdp_mem_is_read_only(skymodel))
+    if (sdp_mem_is_read_only(skymodel) ||
+            sdp_mem_is_read_only(clean_model) ||
+            sdp_mem_is_read_only(residual))
     {
         *status = SDP_ERR_RUNTIME;
         SDP_LOG_ERROR("Output is not writable");
         return;
     }
 
-    if (sdp_mem_location(dirty_img) != sdp_mem_location(skymodel))
+    if (sdp_mem_location(dirty_img) != sdp_mem_location(skymodel) ||
+            sdp_mem_location(dirty_img) != sdp_mem_location(psf) ||
+            sdp_mem_location(dirty_img) != sdp_mem_location(clean_model) ||
+            sdp_mem_location(dirty_img) != sdp_mem_location(residual) ||
+            sdp_mem_location(cbeam_details) != SDP_MEM_CPU)
     {
         *status = SDP_ERR_MEM_LOCATION;
         SDP_LOG_ERROR("Memory location mismatch");
@@ -777,7 +791,10 @@ void sdp_hogbom_clean(
         return;
     }
 
-    if (sdp_mem_type(dirty_img) != sdp_mem_type(skymodel))
+    if (sdp_mem_type(dirty_img) != sdp_mem_type(skymodel) ||
+            sdp_mem_type(dirty_img) != sdp_mem_type(clean_model) ||
+            sdp_mem_type(dirty_img) != sdp_mem_type(residual) ||
+            sdp_mem_type(dirty_img) != sdp_mem_type(cbeam_details))
     {
         *status = SDP_ERR_DATA_TYPE;
         SDP_LOG_ERROR("The input and output must be of the same data type");
@@ -863,6 +880,7 @@ void sdp_hogbom_clean(
         sdp_mem_copy_contents(residual, dirty_img, 0, 0,
                 (dirty_img_dim * dirty_img_dim), status
         );
+        if (*status) return;
 
         if (data_type == SDP_MEM_DOUBLE)
         {
-- 
2.43.0


From c041d6969773143b97aaf6d5373e52caa3eca5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 26/84] fix: sdp_ms_clean_cornwell: check every array and stop
 on error

---
 .../clean/sdp_ms_clean_cornwell.cpp           | 81 ++++++++++++-------
 1 file changed, 52 insertions(+), 29 deletions(-)

diff --git a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
index cf22b90..34581b0 100755
--- a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
+++ b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
@@ -389,29 +389,32 @@ static void ms_clean_cornwell(
     int* y_per_scale_ptr = (int*)sdp_mem_data(y_per_scale_mem);
     sdp_mem_clear_contents(y_per_scale_mem, status);
 
-    // Convolution code only works with complex input, so make residual and psf complex
-    sdp_create_copy_complex<T>(residual_ptr,
-            dirty_img_size,
-            residual_complex_ptr
-    );
-    sdp_create_copy_complex<T>(psf_ptr, psf_size, psf_complex_ptr);
-
-    // create CLEAN beam
-    SDP_LOG_DEBUG("Creating CLEAN beam");
-    sdp_create_cbeam<T>(cbeam_details_ptr, psf_dim, cbeam_ptr);
-
-    // create scale kernels
-    SDP_LOG_DEBUG("Creating Scale Kernels");
-    sdp_create_scale_kern<T>(scale_kern_list_ptr,
-            scale_list_ptr,
-            scale_dim,
-            psf_dim
-    );
+    if (!*status)
+    {
+        // Convolution code only works with complex input, so make residual and psf complex
+        sdp_create_copy_complex<T>(residual_ptr,
+                dirty_img_size,
+                residual_complex_ptr
+        );
+        sdp_create_copy_complex<T>(psf_ptr, psf_size, psf_complex_ptr);
+
+        // create CLEAN beam
+        SDP_LOG_DEBUG("Creating CLEAN beam");
+        sdp_create_cbeam<T>(cbeam_details_ptr, psf_dim, cbeam_ptr);
+
+        // create scale kernels
+        SDP_LOG_DEBUG("Creating Scale Kernels");
+        sdp_create_scale_kern<T>(scale_kern_list_ptr,
+                scale_list_ptr,
+                scale_dim,
+                psf_dim
+        );
+    }
 
     SDP_LOG_DEBUG("Creating Scaled PSF and Dirty image");
 
     // scale psf and dirty image with scale kernel
-    for (int s = 0; s < scale_dim; s++)
+    for (int s = 0; s < scale_dim && !*status; s++)
     {
         SDP_LOG_DEBUG("Loading Kernel %d", s);
         // copy first kernel for current operation
@@ -463,6 +466,7 @@ static void ms_clean_cornwell(
                     cur_scaled_psf_mem,
                     status
             );
+            if (*status) break;
 
             // load scaled psf to scaled psf list
             for (int x = 0; x < psf_dim; x++)
@@ -492,6 +496,7 @@ static void ms_clean_cornwell(
                 cur_scaled_residual_mem,
                 status
         );
+        if (*status) break;
 
         // load scaled residual to scaled residual list
         for (int x = 0; x < dirty_img_dim; x++)
@@ -518,7 +523,7 @@ static void ms_clean_cornwell(
     // evaluate the coupling matrix
     SDP_LOG_DEBUG("Evaluate coupling matrix");
     double max_scaled_psf = 0;
-    for (int s = 0; s < scale_dim; s++)
+    for (int s = 0; s < scale_dim && !*status; s++)
     {
         for (int p = 0; p < scale_dim; p++)
         {
@@ -555,7 +560,7 @@ static void ms_clean_cornwell(
     int max_scale = 0;
 
     // CLEAN loop executes while the stop conditions (threashold and cycle limit) are not met
-    while (cur_cycle < cycle_limit)
+    while (cur_cycle < cycle_limit && !*status)
     {
         SDP_LOG_DEBUG("Current Cycle %d of %d", cur_cycle, cycle_limit);
 
@@ -565,6 +570,7 @@ static void ms_clean_cornwell(
         sdp_mem_clear_contents(index_per_scale_mem, status);
         sdp_mem_clear_contents(x_per_scale_mem, status);
         sdp_mem_clear_contents(y_per_scale_mem, status);
+        if (*status) break;
 
         // find the peak at each scale
         for (int i = 0; i < scale_dim; i++)
@@ -719,12 +725,17 @@ static void ms_clean_cornwell(
     );
 
     // complex result to real for the output
-    sdp_create_copy_real(convolution_result_ptr, dirty_img_size, skymodel_ptr);
-    sdp_create_copy_real(clean_comp_complex_ptr, dirty_img_size,
-            clean_comp_ptr
-    );
+    if (!*status)
+    {
+        sdp_create_copy_real(convolution_result_ptr, dirty_img_size,
+                skymodel_ptr
+        );
+        sdp_create_copy_real(clean_comp_complex_ptr, dirty_img_size,
+                clean_comp_ptr
+        );
+    }
 
-    for (int x = 0; x < dirty_img_dim; x++)
+    for (int x = 0; x < dirty_img_dim && !*status; x++)
     {
         for (int y = 0; y < dirty_img_dim; y++)
         {
@@ -797,14 +808,22 @@ void sdp_ms_clean_cornwell(
     const sdp_MemLocation location = sdp_mem_location(dirty_img);
     const sdp_MemType data_type = sdp_mem_type(dirty_img);
 
-    if (sdp_mem_is_read_only(skymodel))
+    if (sdp_mem_is_read_only(skymodel) ||
+            sdp_mem_is_read_only(clean_model) ||
+            sdp_mem_is_read_only(residual))
     {
         *status = SDP_ERR_RUNTIME;
         SDP_LOG_ERROR("Output is not writable");
         return;
     }
 
-    if (location != sdp_mem_location(skymodel))
+    if (location != SDP_MEM_CPU ||
+            location != sdp_mem_location(skymodel) ||
+            location != sdp_mem_location(psf) ||
+            location != sdp_mem_location(cbeam_details) ||
+            location != sdp_mem_location(scale_list) ||
+            location != sdp_mem_location(clean_model) ||
+            location != sdp_mem_location(residual))
     {
         *status = SDP_ERR_MEM_LOCATION;
         SDP_LOG_ERROR("Memory location mismatch");
@@ -827,7 +846,10 @@ void sdp_ms_clean_cornwell(
         return;
     }
 
-    if (data_type != sdp_mem_type(skymodel))
+    if (data_type != sdp_mem_type(skymodel) ||
+            data_type != sdp_mem_type(clean_model) ||
+            data_type != sdp_mem_type(residual) ||
+            data_type != sdp_mem_type(cbeam_details))
     {
         *status = SDP_ERR_DATA_TYPE;
         SDP_LOG_ERROR("The input and output must be of the same data type");
@@ -874,6 +896,7 @@ void sdp_ms_clean_cornwell(
     sdp_mem_copy_contents(residual, dirty_img, 0, 0,
             (dirty_img_dim * dirty_img_dim), status
     );
+    if (*status) return;
 
     if (sdp_mem_location(dirty_img) == SDP_MEM_CPU)
     {
-- 
2.43.0


From a03a705d6c4e51ab64fdd8325592ca880521a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 27/84] fix: sdp_swiftly_create: release arrays that could not
 be used

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 2843db9..073e240 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -81,7 +81,7 @@ sdp_SwiFTly* sdp_swiftly_create(
             &yN_size,
             status
     );
-    if (*status) return NULL;
+    if (*status) { sdp_mem_free(Fb_mem); return NULL; }
     sdp_generate_pswf(0, W * (M_PI / 2), Fb_mem, status);
     if (*status) { sdp_mem_free(Fb_mem); return NULL; }
 
@@ -93,7 +93,12 @@ sdp_SwiFTly* sdp_swiftly_create(
             &xM_yN_size,
             status
     );
-    if (*status) { sdp_mem_free(Fb_mem); return NULL; }
+    if (*status)
+    {
+        sdp_mem_free(Fb_mem);
+        sdp_mem_free(Fn_mem);
+        return NULL;
+    }
 
     // Generate Fn
     const double* pswf = static_cast<double*>(sdp_mem_data(Fb_mem));
-- 
2.43.0


From 99c975e92083cddece24a335dc002f342b50fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 28/84] fix: sdp_swiftly_free: release the plan itself

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 073e240..150409d 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -155,6 +155,7 @@ void sdp_swiftly_free(sdp_SwiFTly* swiftly)
     {
         sdp_mem_free(swiftly->Fb);
         sdp_mem_free(swiftly->Fn);
+        free(swiftly);
     }
 }
 
-- 
2.43.0


From 7202ccf4f4705dd59dd28f7c25302332e63c683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 29/84] fix: sdp_swiftly: release scratch arrays when they
 cannot be used

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 150409d..678ea28 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -517,10 +517,9 @@ void sdp_swiftly_finish_subgrid_inplace(
     sdp_Mem* tmp_mem = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU,
             2, sg.shape, status
     );
-    if (*status) return;
     sdp_MemViewCpu<std::complex<double>, 2> tmp;
     sdp_mem_check_and_view(tmp_mem, &tmp, status);
-    assert(!*status);
+    if (*status) { sdp_mem_free(tmp_mem); return; }
     const pocketfft::shape_t shape = {
         static_cast<size_t>(bc0_size),
         static_cast<size_t>(xM_size)
@@ -583,10 +582,9 @@ void sdp_swiftly_finish_subgrid(
     sdp_Mem* buf_mem = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU,
             2, sg_img.shape, status
     );
-    if (*status) return;
     sdp_MemViewCpu<std::complex<double>, 2> buf;
     sdp_mem_check_and_view(buf_mem, &buf, status);
-    assert(!*status);
+    if (*status) { sdp_mem_free(buf_mem); return; }
 
     // Perform FFT shift to temporary memory
     const int64_t bc0_size = sg.shape[0];
@@ -689,10 +687,9 @@ void sdp_swiftly_finish_subgrid_inplace_2d(
     sdp_Mem* tmp_mem = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU,
             2, sg.shape, status
     );
-    if (*status) return;
     sdp_MemViewCpu<std::complex<double>, 2> tmp;
     sdp_mem_check_and_view(tmp_mem, &tmp, status);
-    assert(!*status);
+    if (*status) { sdp_mem_free(tmp_mem); return; }
     const pocketfft::shape_t shape = {
         static_cast<size_t>(xM_size),
         static_cast<size_t>(xM_size)
-- 
2.43.0


From d3065f148929b2ef00e0509ec60dc2f34fcb0b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 30/84] fix: sdp_swiftly_finish_subgrid_inplace_2d: use the
 strides of the scratch array

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 678ea28..07ffcf2 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -702,7 +702,7 @@ void sdp_swiftly_finish_subgrid_inplace_2d(
     const pocketfft::stride_t stride_tmp = {
         xM_size* cpx_size, cpx_size
     };
-    pocketfft::c2c(shape, stride, stride, { 0, 1 }, pocketfft::BACKWARD,
+    pocketfft::c2c(shape, stride, stride_tmp, { 0, 1 }, pocketfft::BACKWARD,
             sg.ptr, tmp.ptr, 1. / xM_size / xM_size
     );
 
-- 
2.43.0


From c701f5ca7d5c5836af022a23da0fbed745de3e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 31/84] fix: sdp_gridder_uvw_es_fft: do not use or leak objects
 that could not be created

---
 .../grid_data/sdp_gridder_uvw_es_fft.cpp       | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
index dd94786..56a3d67 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
@@ -438,7 +438,11 @@ sdp_GridderUvwEsFft* sdp_gridder_uvw_es_fft_create_plan(
     sdp_Mem* m_conv_corr_kernel =
             sdp_mem_create(mem_type, SDP_MEM_CPU, 1, len, status);
 
-    if (dbl_vis)
+    if (*status)
+    {
+        SDP_LOG_ERROR("Unable to create kernel arrays");
+    }
+    else if (dbl_vis)
     {
         // just copy
         double* p_quadrature_kernel =
@@ -568,7 +572,11 @@ void sdp_grid_uvw_es_fft(
             plan->w_grid_stack, plan->w_grid_stack, 2, 0, status
     );
 
-    if (*status) return;
+    if (*status)
+    {
+        sdp_fft_free(fft);
+        return;
+    }
 
     // Determine how many w grid subset batches to process in total
     const int total_w_grid_batches =
@@ -782,7 +790,11 @@ void sdp_ifft_degrid_uvw_es(
             plan->w_grid_stack, plan->w_grid_stack, 2, true, status
     );
 
-    if (*status) return;
+    if (*status)
+    {
+        sdp_fft_free(fft);
+        return;
+    }
 
     // Perform convolution correction and final scaling on single real plane
     // note: can recycle same block/thread dims as w correction kernel
-- 
2.43.0


From 7536a48bca80e278aa5c6092f1354bf5b180140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 32/84] fix: sdp_element_beam_dipole: check the types and
 access of its arrays

---
 .../station_beam/sdp_element_dipole.cpp           | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
index d394a1c..31be6d1 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
@@ -131,6 +131,21 @@ void sdp_element_beam_dipole(
         SDP_LOG_ERROR("Element beam array must be of complex type");
         return;
     }
+    const sdp_MemType real_type = (type == SDP_MEM_COMPLEX_DOUBLE) ?
+                SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
+    if (sdp_mem_type(theta_rad) != real_type ||
+            sdp_mem_type(phi_rad) != real_type)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Coordinates and element beam precision mismatch");
+        return;
+    }
+    if (sdp_mem_is_read_only(element_beam))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Element beam array must be writable");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
-- 
2.43.0


From f3df0dff9aa02cc89c08c58e7bb83242a36fddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 33/84] fix: sdp_element_beam_spherical_wave_harp: check the
 types and access of its arrays

---
 .../sdp_element_spherical_wave_harp.cpp         | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
index d98815e..26e717f 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
@@ -156,6 +156,23 @@ void sdp_element_beam_spherical_wave_harp(
         SDP_LOG_ERROR("Element beam array must be of complex type");
         return;
     }
+    const sdp_MemType real_type = (type == SDP_MEM_COMPLEX_DOUBLE) ?
+                SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
+    if (sdp_mem_type(theta_rad) != real_type ||
+            sdp_mem_type(phi_x_rad) != real_type ||
+            sdp_mem_type(phi_y_rad) != real_type ||
+            sdp_mem_type(coeffs) != type)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Input and element beam precision mismatch");
+        return;
+    }
+    if (sdp_mem_is_read_only(element_beam))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Element beam array must be writable");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
-- 
2.43.0


From 1a5a39e5c8fa76d4b9f26261fd6cf62b895af03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 34/84] fix: sdp_station_beam_aperture_array: check the arrays
 it is given

---
 src/ska-sdp-func/station_beam/sdp_station.cpp | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index 0e9ea04..f47a297 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -219,6 +219,46 @@ void sdp_station_beam_aperture_array(
         SDP_LOG_ERROR("Output beam array must be complex");
         return;
     }
+    const sdp_MemType complex_type = (precision == SDP_MEM_DOUBLE) ?
+                SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
+    if (sdp_mem_type(element_weights) != complex_type ||
+            sdp_mem_type(element_y) != precision ||
+            sdp_mem_type(element_z) != precision ||
+            sdp_mem_type(point_x) != precision ||
+            sdp_mem_type(point_y) != precision ||
+            (sdp_mem_data_const(point_z) &&
+            sdp_mem_type(point_z) != precision) ||
+            (sdp_mem_data_const(element_beam) &&
+            sdp_mem_type(element_beam) != complex_type) ||
+            sdp_mem_type(station_beam) != complex_type)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("All arrays must have the same precision");
+        return;
+    }
+    if (sdp_mem_location(element_weights) != location ||
+            sdp_mem_location(element_x) != location ||
+            sdp_mem_location(element_y) != location ||
+            sdp_mem_location(element_z) != location ||
+            sdp_mem_location(point_x) != location ||
+            sdp_mem_location(point_y) != location ||
+            (sdp_mem_data_const(point_z) &&
+            sdp_mem_location(point_z) != location) ||
+            (sdp_mem_data_const(element_beam_index) &&
+            sdp_mem_location(element_beam_index) != location) ||
+            (sdp_mem_data_const(element_beam) &&
+            sdp_mem_location(element_beam) != location))
+    {
+        *status = SDP_ERR_MEM_LOCATION;
+        SDP_LOG_ERROR("Memory location mismatch");
+        return;
+    }
+    if (sdp_mem_is_read_only(station_beam))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Output beam array must be writable");
+        return;
+    }
     const int is_complex4 = sdp_mem_is_complex4(station_beam);
     if (location == SDP_MEM_CPU)
     {
-- 
2.43.0


From c07d50776ed916b2d5c0f75f254d087901d50c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 35/84] fix: sdp_weighting: check the input weights and the
 grid against the output

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index c8e4788..9ef5fa1 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -314,6 +314,16 @@ void sdp_weighting_uniform(
             status
     );
 
+    sdp_data_model_check_weights(input_weight,
+            weights_type,
+            weights_location,
+            num_times,
+            num_baselines,
+            num_channels,
+            num_pols,
+            status
+    );
+
     sdp_data_model_check_uvw(uvw,
             SDP_MEM_VOID,
             weights_location,
@@ -333,6 +343,8 @@ void sdp_weighting_uniform(
     int64_t grid_size = sdp_mem_shape_dim(weights_grid_uv, 0);
     // Checking that grid is square
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
+    sdp_mem_check_dim_size(weights_grid_uv, 2, num_pols, status);
+    sdp_mem_check_dim_size(freq_hz, 0, num_channels, status);
     if (*status) return;
 
     // Call the appropriate version of the kernel.
@@ -546,6 +558,16 @@ void sdp_weighting_briggs(
             status
     );
 
+    sdp_data_model_check_weights(input_weight,
+            weights_type,
+            weights_location,
+            num_times,
+            num_baselines,
+            num_channels,
+            num_pols,
+            status
+    );
+
     sdp_data_model_check_uvw(uvw,
             SDP_MEM_VOID,
             weights_location,
@@ -565,6 +587,8 @@ void sdp_weighting_briggs(
     int64_t grid_size = sdp_mem_shape_dim(weights_grid_uv, 0);
     // Checking that grid is square
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
+    sdp_mem_check_dim_size(weights_grid_uv, 2, num_pols, status);
+    sdp_mem_check_dim_size(freq_hz, 0, num_channels, status);
     if (*status) return;
 
     // Call the appropriate version of the kernel.
-- 
2.43.0


From bac4417ff5674d44c45503a1e70547171a7b2558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 36/84] fix: sdp_weighting: skip points below the edge of the
 grid

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index 9ef5fa1..360875a 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -50,7 +50,8 @@ static void weights_grid_write(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u >= grid_size || idx_v >= grid_size) continue;
+                if (idx_u < 0 || idx_v < 0 ||
+                        idx_u >= grid_size || idx_v >= grid_size) continue;
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
                         grid_size,
@@ -110,7 +111,8 @@ static void sum_weights_calc(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u >= grid_size || idx_v >= grid_size) continue;
+                if (idx_u < 0 || idx_v < 0 ||
+                        idx_u >= grid_size || idx_v >= grid_size) continue;
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
                         grid_size,
-- 
2.43.0


From 4455a5fa918691c068986f25dc5a3e0ded001013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 37/84] fix: sdp_weighting_briggs: do not read sums that could
 not be copied

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index 360875a..e5163e9 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -825,11 +825,15 @@ void sdp_weighting_briggs(
                 status
         );
 
-        double robustness = robustness_calc(
-                *((double*)sdp_mem_data(sumweight2_gpu_cpy)),
-                *((double*)sdp_mem_data(sumweight_gpu_cpy)),
-                robust_param
-        );
+        double robustness = 0.0;
+        if (!*status)
+        {
+            robustness = robustness_calc(
+                    *((double*)sdp_mem_data(sumweight2_gpu_cpy)),
+                    *((double*)sdp_mem_data(sumweight_gpu_cpy)),
+                    robust_param
+            );
+        }
 
         sdp_mem_ref_dec(sumweight2_gpu);
         sdp_mem_ref_dec(sumweight_gpu);
-- 
2.43.0


From 309991644a238ec57ddd9e56b11506a14e486f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 38/84] fix: sdp_grid_wstack_wtower: report a miscount as an
 error instead of ending the process

---
 src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index 5e77046..aacb573 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -439,12 +439,12 @@ void sdp_grid_wstack_wtower_degrid_all(
             }
         }
         sdp_mutex_free(mutex);
-        if (vis_count_check != num_vis)
+        if (!*status && vis_count_check != num_vis)
         {
+            *status = SDP_ERR_RUNTIME;
             SDP_LOG_CRITICAL("Processed %d but expected %d visibilities",
                     (int) vis_count_check, (int) num_vis
             );
-            exit(1);
         }
     }
 
@@ -691,12 +691,12 @@ void sdp_grid_wstack_wtower_grid_all(
             }
         }
         sdp_mutex_free(mutex);
-        if (vis_count_check != num_vis)
+        if (!*status && vis_count_check != num_vis)
         {
+            *status = SDP_ERR_RUNTIME;
             SDP_LOG_CRITICAL("Processed %d but expected %d visibilities",
                     (int) vis_count_check, (int) num_vis
             );
-            exit(1);
         }
 
         // Do image correction / w-stacking.
-- 
2.43.0


From ec59137aac83bcb6fc161be354474b7187f1cd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 39/84] fix: sdp_hogbom_clean: do not read a stop flag that was
 not copied back

---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
index e7f22d3..26e1ec5 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
@@ -496,6 +496,7 @@ void sdp_hogbom_clean_gpu(
                     variable_size,
                     status
             );
+            if (*status) break;
 
             SDP_LOG_INFO("thresh reached: %d", *thresh_reached_ptr);
             SDP_LOG_INFO("iteration number: %d", cur_cycle);
-- 
2.43.0


From 2e3603aa874b3eed6d8c20419ca87f27e29baf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 40/84] fix: sdp_hogbom_clean: check that arrays indexed as
 contiguous are contiguous

---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
index 26e1ec5..97f391d 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
@@ -875,6 +875,14 @@ void sdp_hogbom_clean(
         return;
     }
 
+    sdp_mem_check_c_contiguity(dirty_img, status);
+    sdp_mem_check_c_contiguity(psf, status);
+    sdp_mem_check_c_contiguity(cbeam_details, status);
+    sdp_mem_check_c_contiguity(clean_model, status);
+    sdp_mem_check_c_contiguity(residual, status);
+    sdp_mem_check_c_contiguity(skymodel, status);
+    if (*status) return;
+
     if (location == SDP_MEM_CPU)
     {
         // copy dirty image to starting residual
-- 
2.43.0


From 61d5b908d04c88731af37ebfef9aa42b3bbf5004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 41/84] fix: sdp_ms_clean_cornwell: check that arrays indexed
 as contiguous are contiguous

---
 src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
index 34581b0..ffa4bfb 100755
--- a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
+++ b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
@@ -892,6 +892,15 @@ void sdp_ms_clean_cornwell(
         return;
     }
 
+    sdp_mem_check_c_contiguity(dirty_img, status);
+    sdp_mem_check_c_contiguity(psf, status);
+    sdp_mem_check_c_contiguity(cbeam_details, status);
+    sdp_mem_check_c_contiguity(scale_list, status);
+    sdp_mem_check_c_contiguity(clean_model, status);
+    sdp_mem_check_c_contiguity(residual, status);
+    sdp_mem_check_c_contiguity(skymodel, status);
+    if (*status) return;
+
     // copy dirty image to starting residual
     sdp_mem_copy_contents(residual, dirty_img, 0, 0,
             (dirty_img_dim * dirty_img_dim), status
-- 
2.43.0


From f2defb9439bc940187914e4a5f5c9f26e6aaf535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 42/84] fix: sdp_degrid_uvw_custom: check that arrays indexed
 as contiguous are contiguous

---
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index 2a25e3d..df0d0e7 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -230,6 +230,10 @@ void sdp_degrid_uvw_custom(
         num_channels, z_size, y_size, x_size, num_pols
     };
     sdp_mem_check_shape(grid, 5, expected_grid_shape, status);
+    sdp_mem_check_c_contiguity(grid, status);
+    sdp_mem_check_c_contiguity(uv_kernel, status);
+    sdp_mem_check_c_contiguity(w_kernel, status);
+    sdp_mem_check_c_contiguity(vis, status);
     if (*status) return;
 
     if (sdp_mem_location(grid) != vis_location ||
-- 
2.43.0


From d9909d0c54d62cb9328f41945e2bb1be86e2c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 43/84] fix: sdp_fft_convolution: check that arrays indexed as
 contiguous are contiguous

---
 src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index ae7c9fe..4abc1ce 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -584,6 +584,9 @@ void sdp_fft_convolution(
 
     sdp_mem_check_type(in2, data_type, status);
     sdp_mem_check_location(in2, location, status);
+    sdp_mem_check_c_contiguity(in1, status);
+    sdp_mem_check_c_contiguity(in2, status);
+    sdp_mem_check_c_contiguity(out, status);
     if (*status) return;
 
     if (!sdp_mem_is_complex(in1))
-- 
2.43.0


From e0670ecd971d7f162782bb3c29245c64be660136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 44/84] fix: sdp_element_dipole: check that arrays indexed as
 contiguous are contiguous

---
 src/ska-sdp-func/station_beam/sdp_element_dipole.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
index 31be6d1..ead7da9 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
@@ -146,6 +146,10 @@ void sdp_element_beam_dipole(
         SDP_LOG_ERROR("Element beam array must be writable");
         return;
     }
+    sdp_mem_check_c_contiguity(theta_rad, status);
+    sdp_mem_check_c_contiguity(phi_rad, status);
+    sdp_mem_check_c_contiguity(element_beam, status);
+    if (*status) return;
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
-- 
2.43.0


From bbfac96edd31e7eba01b20389694eff6c5ba8eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 45/84] fix: sdp_element_spherical_wave_harp: check that arrays
 indexed as contiguous are contiguous

---
 .../station_beam/sdp_element_spherical_wave_harp.cpp        | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
index 26e717f..f7b8639 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
@@ -173,6 +173,12 @@ void sdp_element_beam_spherical_wave_harp(
         SDP_LOG_ERROR("Element beam array must be writable");
         return;
     }
+    sdp_mem_check_c_contiguity(theta_rad, status);
+    sdp_mem_check_c_contiguity(phi_x_rad, status);
+    sdp_mem_check_c_contiguity(phi_y_rad, status);
+    sdp_mem_check_c_contiguity(coeffs, status);
+    sdp_mem_check_c_contiguity(element_beam, status);
+    if (*status) return;
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
-- 
2.43.0


From a0ee6742642cc8e72043b37ec7eb71720d37c280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 46/84] fix: sdp_station: check that arrays indexed as
 contiguous are contiguous

---
 src/ska-sdp-func/station_beam/sdp_station.cpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index f47a297..4542cc5 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -259,6 +259,26 @@ void sdp_station_beam_aperture_array(
         SDP_LOG_ERROR("Output beam array must be writable");
         return;
     }
+    sdp_mem_check_c_contiguity(element_weights, status);
+    sdp_mem_check_c_contiguity(element_x, status);
+    sdp_mem_check_c_contiguity(element_y, status);
+    sdp_mem_check_c_contiguity(element_z, status);
+    sdp_mem_check_c_contiguity(point_x, status);
+    sdp_mem_check_c_contiguity(point_y, status);
+    sdp_mem_check_c_contiguity(station_beam, status);
+    if (sdp_mem_data_const(point_z))
+    {
+        sdp_mem_check_c_contiguity(point_z, status);
+    }
+    if (sdp_mem_data_const(element_beam_index))
+    {
+        sdp_mem_check_c_contiguity(element_beam_index, status);
+    }
+    if (sdp_mem_data_const(element_beam))
+    {
+        sdp_mem_check_c_contiguity(element_beam, status);
+    }
+    if (*status) return;
     const int is_complex4 = sdp_mem_is_complex4(station_beam);
     if (location == SDP_MEM_CPU)
     {
-- 
2.43.0


From b5e093ee60ff4ed1f817b947ebeafc0f9f2539e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 47/84] fix: sdp_phase_rotate: check that arrays indexed as
 contiguous are contiguous

---
 src/ska-sdp-func/visibility/sdp_phase_rotate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp b/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
index 9803612..b8c6b97 100644
--- a/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
+++ b/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
@@ -99,6 +99,7 @@ void sdp_phase_rotate_uvw(
     sdp_MemType uvw_type = SDP_MEM_VOID;
     sdp_MemLocation uvw_location = SDP_MEM_CPU;
     sdp_mem_check_writeable(uvw_out, status);
+    sdp_mem_check_c_contiguity(uvw_in, status);
     sdp_data_model_get_uvw_metadata(
             uvw_in,
             &uvw_type,
@@ -224,6 +225,7 @@ void sdp_phase_rotate_vis(
     int64_t num_pols = 0;
     sdp_mem_check_writeable(vis_out, status);
     sdp_mem_check_location(vis_out, uvw_location, status);
+    sdp_mem_check_c_contiguity(vis_out, status);
     sdp_data_model_get_vis_metadata(
             vis_out,
             &vis_out_type,
-- 
2.43.0


From d5d2de30de59d288ae5fe31c33df33bf964cd20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 48/84] fix: sdp_tiled_functions: check that arrays indexed as
 contiguous are contiguous

---
 .../visibility/sdp_tiled_functions.cpp         | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 0079eb9..c1d7e72 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -373,6 +373,10 @@ void sdp_count_and_prefix_sum(
     sdp_mem_check_location(tile_offsets, vis_location, status);
     sdp_mem_check_location(num_points_in_tiles, vis_location, status);
     sdp_mem_check_location(num_skipped, vis_location, status);
+    sdp_mem_check_c_contiguity(freqs, status);
+    sdp_mem_check_c_contiguity(tile_offsets, status);
+    sdp_mem_check_c_contiguity(num_points_in_tiles, status);
+    sdp_mem_check_c_contiguity(num_skipped, status);
     if (*status) return;
 
     if (vis_location == SDP_MEM_CPU)
@@ -613,6 +617,14 @@ void sdp_bucket_sort(
     sdp_mem_check_location(sorted_tile, vis_location, status);
     sdp_mem_check_location(sorted_vis, vis_location, status);
     sdp_mem_check_location(tile_offsets, vis_location, status);
+    sdp_mem_check_c_contiguity(freqs, status);
+    sdp_mem_check_c_contiguity(vis, status);
+    sdp_mem_check_c_contiguity(sorted_uu, status);
+    sdp_mem_check_c_contiguity(sorted_vv, status);
+    sdp_mem_check_c_contiguity(sorted_weight, status);
+    sdp_mem_check_c_contiguity(sorted_tile, status);
+    sdp_mem_check_c_contiguity(sorted_vis, status);
+    sdp_mem_check_c_contiguity(tile_offsets, status);
     if (*status) return;
 
     if (vis_location == SDP_MEM_CPU)
@@ -820,6 +832,12 @@ void sdp_tiled_indexing(
     sdp_mem_check_location(sorted_vv, uvw_loc, status);
     sdp_mem_check_location(sorted_vis_index, uvw_loc, status);
     sdp_mem_check_location(tile_offsets, uvw_loc, status);
+    sdp_mem_check_c_contiguity(freqs, status);
+    sdp_mem_check_c_contiguity(sorted_tile, status);
+    sdp_mem_check_c_contiguity(sorted_uu, status);
+    sdp_mem_check_c_contiguity(sorted_vv, status);
+    sdp_mem_check_c_contiguity(sorted_vis_index, status);
+    sdp_mem_check_c_contiguity(tile_offsets, status);
     if (*status) return;
 
     if (uvw_loc == SDP_MEM_CPU)
-- 
2.43.0


From 6688f548afabc0f9df2a8927911070d9fa661e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 49/84] fix: sdp_weighting: check that arrays indexed as
 contiguous are contiguous

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index e5163e9..c02d3d3 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -347,6 +347,9 @@ void sdp_weighting_uniform(
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
     sdp_mem_check_dim_size(weights_grid_uv, 2, num_pols, status);
     sdp_mem_check_dim_size(freq_hz, 0, num_channels, status);
+    sdp_mem_check_c_contiguity(freq_hz, status);
+    sdp_mem_check_c_contiguity(weights_grid_uv, status);
+    sdp_mem_check_c_contiguity(output_weight, status);
     if (*status) return;
 
     // Call the appropriate version of the kernel.
@@ -591,6 +594,9 @@ void sdp_weighting_briggs(
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
     sdp_mem_check_dim_size(weights_grid_uv, 2, num_pols, status);
     sdp_mem_check_dim_size(freq_hz, 0, num_channels, status);
+    sdp_mem_check_c_contiguity(freq_hz, status);
+    sdp_mem_check_c_contiguity(weights_grid_uv, status);
+    sdp_mem_check_c_contiguity(output_weight, status);
     if (*status) return;
 
     // Call the appropriate version of the kernel.
-- 
2.43.0


From 9d198736fefdf7e7d1ee4b79863b514bcf4cd00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 50/84] fix: sdp_mem_create_copy: reject arrays with gaps
 between their elements

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 6a3bd6f..e752dfd 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -322,6 +322,21 @@ sdp_Mem* sdp_mem_create_copy(
     sdp_Mem* mem = sdp_mem_create_wrapper(0, src->type, location,
             src->num_dims, src->shape, src->stride, status
     );
+    if (!*status && src->num_elements > 0)
+    {
+        // The copy keeps the strides, so there must be no gaps in the source.
+        int64_t last = 0;
+        for (int32_t i = 0; i < src->num_dims; ++i)
+        {
+            if (src->stride[i] < 0 && src->shape[i] > 1) last = -1;
+            if (last >= 0) last += (src->shape[i] - 1) * src->stride[i];
+        }
+        if (last != (src->num_elements - 1) * sdp_mem_type_size(src->type))
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            SDP_LOG_ERROR("Cannot copy an array with gaps between elements");
+        }
+    }
     sdp_mem_alloc(mem, status);
     sdp_mem_copy_contents(mem, src, 0, 0, src->num_elements, status);
     return mem;
-- 
2.43.0


From edac2a0b04e16ca0f36381c5983e597f1c759162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 51/84] fix: sdp_opt_weighting: check that device arrays are
 contiguous and outputs writeable

---
 .../visibility/sdp_opt_weighting.cpp             | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_opt_weighting.cpp b/src/ska-sdp-func/visibility/sdp_opt_weighting.cpp
index b7e2508..1692f88 100644
--- a/src/ska-sdp-func/visibility/sdp_opt_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_opt_weighting.cpp
@@ -120,6 +120,14 @@ void sdp_optimized_weighting(
 
         // Make sure weights are on the gpu
         sdp_mem_check_location(output_weights, SDP_MEM_GPU, status);
+        sdp_mem_check_writeable(output_weights, status);
+        sdp_mem_check_c_contiguity(sorted_uu, status);
+        sdp_mem_check_c_contiguity(sorted_vv, status);
+        sdp_mem_check_c_contiguity(sorted_weight, status);
+        sdp_mem_check_c_contiguity(sorted_tile, status);
+        sdp_mem_check_c_contiguity(tile_offsets, status);
+        sdp_mem_check_c_contiguity(num_points_in_tiles, status);
+        sdp_mem_check_c_contiguity(output_weights, status);
 
         const char* kernel_name_weights_update = 0;
 
@@ -261,6 +269,14 @@ void sdp_optimised_indexed_weighting(
 
         // Make sure weights are on the gpu
         sdp_mem_check_location(output_weights, SDP_MEM_GPU, status);
+        sdp_mem_check_writeable(output_weights, status);
+        sdp_mem_check_c_contiguity(sorted_uu, status);
+        sdp_mem_check_c_contiguity(sorted_vv, status);
+        sdp_mem_check_c_contiguity(sorted_vis_index, status);
+        sdp_mem_check_c_contiguity(sorted_tile, status);
+        sdp_mem_check_c_contiguity(tile_offsets, status);
+        sdp_mem_check_c_contiguity(num_points_in_tiles, status);
+        sdp_mem_check_c_contiguity(output_weights, status);
 
         const char* kernel_name_weights_update = 0;
 
-- 
2.43.0


From 7753d9c83704bfff77626b21f53689428c206e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 52/84] fix: sdp_mem_create_copy: look for gaps in the handle
 that was made

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index e752dfd..98b905e 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -322,16 +322,16 @@ sdp_Mem* sdp_mem_create_copy(
     sdp_Mem* mem = sdp_mem_create_wrapper(0, src->type, location,
             src->num_dims, src->shape, src->stride, status
     );
-    if (!*status && src->num_elements > 0)
+    if (!*status && mem->num_elements > 0)
     {
         // The copy keeps the strides, so there must be no gaps in the source.
         int64_t last = 0;
-        for (int32_t i = 0; i < src->num_dims; ++i)
+        for (int32_t i = 0; i < mem->num_dims; ++i)
         {
-            if (src->stride[i] < 0 && src->shape[i] > 1) last = -1;
-            if (last >= 0) last += (src->shape[i] - 1) * src->stride[i];
+            if (mem->stride[i] < 0 && mem->shape[i] > 1) last = -1;
+            if (last >= 0) last += (mem->shape[i] - 1) * mem->stride[i];
         }
-        if (last != (src->num_elements - 1) * sdp_mem_type_size(src->type))
+        if (last != (mem->num_elements - 1) * sdp_mem_type_size(mem->type))
         {
             *status = SDP_ERR_INVALID_ARGUMENT;
             SDP_LOG_ERROR("Cannot copy an array with gaps between elements");
-- 
2.43.0


From 82706f0da929663595aeef1cce5c9dc467e46316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:32 +0000
Subject: [PATCH 53/84] fix: put back the caller's OpenMP nesting level after
 w-stacking

sdp_grid_wstack_wtower_(de)grid_all set the maximum number of active levels to
one and left it there, which turned nested parallelism off for the application.
---
 src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index aacb573..43520d0 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -260,6 +260,7 @@ void sdp_grid_wstack_wtower_degrid_all(
     if (subgrid_frac == 0.0) subgrid_frac = 2.0 / 3.0;
     int max_threads = 1;
 #ifdef _OPENMP
+    const int max_active_levels = omp_get_max_active_levels();
     omp_set_max_active_levels(1);
     max_threads = (loc == SDP_MEM_CPU) ? omp_get_max_threads() : 1;
 #endif
@@ -468,6 +469,9 @@ void sdp_grid_wstack_wtower_degrid_all(
     sdp_mem_free(end_ch);
     sdp_mem_free(start_ch_w);
     sdp_mem_free(end_ch_w);
+#ifdef _OPENMP
+    omp_set_max_active_levels(max_active_levels);
+#endif
     SDP_TMR_FREE;
 }
 
@@ -517,6 +521,7 @@ void sdp_grid_wstack_wtower_grid_all(
     if (subgrid_frac == 0.0) subgrid_frac = 2.0 / 3.0;
     int max_threads = 1;
 #ifdef _OPENMP
+    const int max_active_levels = omp_get_max_active_levels();
     omp_set_max_active_levels(1);
     max_threads = (loc == SDP_MEM_CPU) ? omp_get_max_threads() : 1;
 #endif
@@ -732,5 +737,8 @@ void sdp_grid_wstack_wtower_grid_all(
     sdp_mem_free(end_ch);
     sdp_mem_free(start_ch_w);
     sdp_mem_free(end_ch_w);
+#ifdef _OPENMP
+    omp_set_max_active_levels(max_active_levels);
+#endif
     SDP_TMR_FREE;
 }
-- 
2.43.0


From 72cbb001d8bd98e5ba371bc0be7e462e1ef665e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:32 +0000
Subject: [PATCH 54/84] fix: log the tile statistics instead of printing to
 standard output

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index c1d7e72..a6d65cc 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -508,9 +508,9 @@ void sdp_count_and_prefix_sum(
         {
             *num_visibilites =
                     *((int*)sdp_mem_data(tile_offsets_cpy) + num_tiles);
-            printf("Number of visibilites %d \n", *num_visibilites);
+            SDP_LOG_DEBUG("Number of visibilities: %d", *num_visibilites);
             int num_s_vis = *(int*)sdp_mem_data(numn_skipped_cpy);
-            printf("Number of skipped vis %d \n", num_s_vis);
+            SDP_LOG_DEBUG("Number of skipped visibilities: %d", num_s_vis);
         }
         sdp_mem_free(tile_offsets_cpy);
         sdp_mem_free(numn_skipped_cpy);
@@ -704,7 +704,7 @@ void sdp_bucket_sort(
 
         // Define hyperparameters for weighting
 
-        printf("Number of tiles = %ld \n", num_tiles);
+        SDP_LOG_DEBUG("Number of tiles: %d", (int) num_tiles);
 
         // Launch bucket sort kernel
 
-- 
2.43.0


From 614f42d77defb63f25f3f0ae721fa36142be1bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:30 +0000
Subject: [PATCH 55/84] fix: count the pixels of images that are not square

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 296d3d3..f5f4546 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -110,13 +110,14 @@ template<typename FLUX_TYPE>
 int64_t count_nonzero_pixels(const sdp_Mem* image, sdp_Error* status)
 {
     int64_t num_sources = 0;
-    const int image_size = (int) sdp_mem_shape_dim(image, 0);
     sdp_MemViewCpu<const FLUX_TYPE, 2> image_;
     sdp_mem_check_and_view(image, &image_, status);
     if (*status) return 0;
-    for (int il = 0; il < image_size; ++il)
+    const int size_l = (int) image_.shape[0];
+    const int size_m = (int) image_.shape[1];
+    for (int il = 0; il < size_l; ++il)
     {
-        for (int im = 0; im < image_size; ++im)
+        for (int im = 0; im < size_m; ++im)
         {
             if (image_(il, im) != (FLUX_TYPE) 0) num_sources++;
         }
-- 
2.43.0


From cd039aa18eb31c3173cf8eaf347f42101f837e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:30 +0000
Subject: [PATCH 56/84] fix: shift sub-grids that are not square inside their
 bounds

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index f5f4546..569938a 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -540,13 +540,14 @@ void shift_subgrids(sdp_Mem* subgrids, sdp_Error* status)
     sdp_mem_check_and_view(subgrids, &subgrids_, status);
     if (*status) return;
     const int w_support = subgrids_.shape[0];
-    const int subgrid_size = subgrids_.shape[1];
+    const int subgrid_size_u = subgrids_.shape[1];
+    const int subgrid_size_v = subgrids_.shape[2];
     for (int k = 0; k < w_support - 1; ++k)
     {
         #pragma omp parallel for
-        for (int j = 0; j < subgrid_size; ++j)
+        for (int j = 0; j < subgrid_size_u; ++j)
         {
-            for (int i = 0; i < subgrid_size; ++i)
+            for (int i = 0; i < subgrid_size_v; ++i)
             {
                 subgrids_(k, j, i) = subgrids_(k + 1, j, i);
             }
-- 
2.43.0


From e2afb95aa491868a9fd84ae4eee1c0543d2ba0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:30 +0000
Subject: [PATCH 57/84] fix: reject arrays of different sizes when scaling
 arrays

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 569938a..278a22e 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -742,6 +742,15 @@ void sdp_gridder_accumulate_scaled_arrays(
         *status = SDP_ERR_MEM_LOCATION;
         return;
     }
+    for (int i = 0; i < 2; ++i)
+    {
+        sdp_mem_check_dim_size(in1, i, sdp_mem_shape_dim(out, i), status);
+        if (in2)
+        {
+            sdp_mem_check_dim_size(in2, i, sdp_mem_shape_dim(out, i), status);
+        }
+    }
+    if (*status) return;
     sdp_MemType type_out = sdp_mem_type(out);
     sdp_MemType type1 = sdp_mem_type(in1);
     sdp_MemType type2 = in2 ? sdp_mem_type(in2) : SDP_MEM_COMPLEX_DOUBLE;
@@ -1571,6 +1580,12 @@ void sdp_gridder_scale_inv_array(
         *status = SDP_ERR_MEM_LOCATION;
         return;
     }
+    for (int i = 0; i < 2; ++i)
+    {
+        sdp_mem_check_dim_size(in1, i, sdp_mem_shape_dim(out, i), status);
+        sdp_mem_check_dim_size(in2, i, sdp_mem_shape_dim(out, i), status);
+    }
+    if (*status) return;
     if (loc == SDP_MEM_CPU)
     {
         if (sdp_mem_type(out) == SDP_MEM_COMPLEX_DOUBLE &&
-- 
2.43.0


From 25fed3356067431d6ba340101156caab5a38734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:30 +0000
Subject: [PATCH 58/84] fix: reject arrays of different sizes in the direct
 Fourier transforms

---
 .../grid_data/sdp_gridder_utils.cpp           | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 278a22e..6172373 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1075,6 +1075,17 @@ void sdp_gridder_dft(
     if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(vis);
     const sdp_MemType flux_type = sdp_mem_type(lmn);
+    const int64_t num_uvw = sdp_mem_shape_dim(uvws, 0);
+    sdp_mem_check_dim_size(uvws, 1, 3, status);
+    sdp_mem_check_dim_size(vis, 0, num_uvw, status);
+    sdp_mem_check_dim_size(lmn, 0, sdp_mem_shape_dim(flux, 0), status);
+    sdp_mem_check_dim_size(lmn, 1, 3, status);
+    if (start_chs && end_chs)
+    {
+        sdp_mem_check_dim_size(start_chs, 0, num_uvw, status);
+        sdp_mem_check_dim_size(end_chs, 0, num_uvw, status);
+    }
+    if (*status) return;
     const sdp_MemType dir_type = sdp_mem_type(lmn);
     const sdp_MemType uvw_type = sdp_mem_type(uvws);
     const sdp_MemType vis_type = sdp_mem_type(vis);
@@ -1137,6 +1148,23 @@ void sdp_gridder_idft(
     if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(vis);
     const sdp_MemType img_type = sdp_mem_type(image);
+    const int64_t num_uvw = sdp_mem_shape_dim(uvws, 0);
+    const int64_t image_size = sdp_mem_shape_dim(image, 0);
+    sdp_mem_check_dim_size(uvws, 1, 3, status);
+    sdp_mem_check_dim_size(vis, 0, num_uvw, status);
+    sdp_mem_check_dim_size(image, 1, image_size, status);
+    sdp_mem_check_dim_size(lmn, 0, image_size * image_size, status);
+    sdp_mem_check_dim_size(lmn, 1, 3, status);
+    if (image_taper_1d)
+    {
+        sdp_mem_check_dim_size(image_taper_1d, 0, image_size, status);
+    }
+    if (start_chs && end_chs)
+    {
+        sdp_mem_check_dim_size(start_chs, 0, num_uvw, status);
+        sdp_mem_check_dim_size(end_chs, 0, num_uvw, status);
+    }
+    if (*status) return;
     const sdp_MemType dir_type = sdp_mem_type(lmn);
     const sdp_MemType uvw_type = sdp_mem_type(uvws);
     const sdp_MemType vis_type = sdp_mem_type(vis);
-- 
2.43.0


From 627260d5d6ba7b11308017906ec8a5ee13bb1337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:30 +0000
Subject: [PATCH 59/84] fix: reject a taper or coordinates that do not fit the
 image

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 6172373..b127e2c 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1297,6 +1297,14 @@ void sdp_gridder_image_to_flmn(
     if (*status) return;
     const sdp_MemType image_type = sdp_mem_type(image);
     const sdp_MemType flux_type = flux ? sdp_mem_type(flux) : SDP_MEM_DOUBLE;
+    sdp_mem_check_dim_size(lmn, 1, 3, status);
+    if (image_taper_1d)
+    {
+        const int64_t image_size = sdp_mem_shape_dim(image, 0);
+        sdp_mem_check_dim_size(image, 1, image_size, status);
+        sdp_mem_check_dim_size(image_taper_1d, 0, image_size, status);
+    }
+    if (*status) return;
     const sdp_MemType dir_type = sdp_mem_type(lmn);
     if (image_type == SDP_MEM_DOUBLE &&
             flux_type == SDP_MEM_DOUBLE &&
-- 
2.43.0


From 5cf8d17a6d675802b6afd6a17dfc6e9fac5060c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:30 +0000
Subject: [PATCH 60/84] fix: reject a w-pattern that does not have the size of
 the sub-grid

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index b127e2c..27976bf 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1425,6 +1425,8 @@ void sdp_gridder_make_w_pattern(
     if (*status) return;
     sdp_MemViewCpu<complex<double>, 2> w_pattern_;
     sdp_mem_check_and_view(w_pattern, &w_pattern_, status);
+    sdp_mem_check_dim_size(w_pattern, 0, subgrid_size, status);
+    sdp_mem_check_dim_size(w_pattern, 1, subgrid_size, status);
     const int half_size = subgrid_size / 2;
     if (*status) return;
     #pragma omp parallel for
-- 
2.43.0


From b8f48464335e3c5f7d316a845a8d8e17d6dc2b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:30 +0000
Subject: [PATCH 61/84] fix: reject channel ranges that do not match the
 (u,v,w) values

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 27976bf..da52042 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -2076,6 +2076,12 @@ void sdp_gridder_uvw_bounds_all(
     uvw_min[0] = uvw_min[1] = uvw_min[2] = INFINITY;
     uvw_max[0] = uvw_max[1] = uvw_max[2] = -INFINITY;
 
+    // Check sizes.
+    sdp_mem_check_dim_size(uvws, 1, 3, status);
+    sdp_mem_check_dim_size(start_chs, 0, sdp_mem_shape_dim(uvws, 0), status);
+    sdp_mem_check_dim_size(end_chs, 0, sdp_mem_shape_dim(uvws, 0), status);
+    if (*status) return;
+
     // Check memory location.
     const sdp_MemLocation loc = sdp_mem_location(uvws);
     if (loc == SDP_MEM_CPU)
-- 
2.43.0


From 647e0f5957d26d56a3a1fc6f3fc1793096c7196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:30 +0000
Subject: [PATCH 62/84] fix: reject rows outside the arrays in the w-tower
 (u,v,w) kernels

---
 .../grid_data/sdp_gridder_wtower_uvw.cpp      | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index df6abc4..598cab3 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -764,6 +764,17 @@ void sdp_gridder_wtower_uvw_degrid(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    sdp_mem_check_dim_size(uvws, 1, 3, status);
+    sdp_mem_check_dim_size(start_chs, 0, sdp_mem_shape_dim(uvws, 0), status);
+    sdp_mem_check_dim_size(end_chs, 0, sdp_mem_shape_dim(uvws, 0), status);
+    sdp_mem_check_dim_size(vis, 0, sdp_mem_shape_dim(uvws, 0), status);
+    if (*status) return;
+    if (end_row > sdp_mem_shape_dim(uvws, 0))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The range of rows must be inside the (u,v,w) array");
+        return;
+    }
 
     // Copy internal arrays to GPU memory as required.
     sdp_Mem* w_pattern_ptr = plan->w_pattern;
@@ -973,6 +984,17 @@ void sdp_gridder_wtower_uvw_grid(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    sdp_mem_check_dim_size(uvws, 1, 3, status);
+    sdp_mem_check_dim_size(start_chs, 0, sdp_mem_shape_dim(uvws, 0), status);
+    sdp_mem_check_dim_size(end_chs, 0, sdp_mem_shape_dim(uvws, 0), status);
+    sdp_mem_check_dim_size(vis, 0, sdp_mem_shape_dim(uvws, 0), status);
+    if (*status) return;
+    if (end_row > sdp_mem_shape_dim(uvws, 0))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The range of rows must be inside the (u,v,w) array");
+        return;
+    }
 
     // Copy internal arrays to GPU memory as required.
     sdp_Mem* w_pattern_ptr = plan->w_pattern;
-- 
2.43.0


From 8fba6849029e965a7b182330be84f20849c21a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:57 +0000
Subject: [PATCH 63/84] fix: check both dimensions of the images in the Hogbom
 clean

---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
index 97f391d..be6cc49 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
@@ -861,6 +861,13 @@ void sdp_hogbom_clean(
         return;
     }
 
+    const int64_t image_shape[] = {dirty_img_dim, dirty_img_dim};
+    sdp_mem_check_shape(clean_model, 2, image_shape, status);
+    sdp_mem_check_shape(residual, 2, image_shape, status);
+    sdp_mem_check_shape(skymodel, 2, image_shape, status);
+    sdp_mem_check_num_dims(cbeam_details, 1, status);
+    if (*status) return;
+
     if (cycle_limit < 1)
     {
         *status = SDP_ERR_RUNTIME;
-- 
2.43.0


From 0e6a61c50f85e4444d0595bf6165f3d9ba34c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:57 +0000
Subject: [PATCH 64/84] fix: check both dimensions of the images in the
 multi-scale clean

---
 src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
index ffa4bfb..5887f1f 100755
--- a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
+++ b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
@@ -892,6 +892,17 @@ void sdp_ms_clean_cornwell(
         return;
     }
 
+    const int64_t image_shape[] = {dirty_img_dim, dirty_img_dim};
+    const int64_t psf_shape[] = {dirty_img_dim * 2, dirty_img_dim * 2};
+    sdp_mem_check_shape(dirty_img, 2, image_shape, status);
+    sdp_mem_check_shape(psf, 2, psf_shape, status);
+    sdp_mem_check_shape(clean_model, 2, image_shape, status);
+    sdp_mem_check_shape(residual, 2, image_shape, status);
+    sdp_mem_check_shape(skymodel, 2, image_shape, status);
+    sdp_mem_check_num_dims(cbeam_details, 1, status);
+    sdp_mem_check_num_dims(scale_list, 1, status);
+    if (*status) return;
+
     sdp_mem_check_c_contiguity(dirty_img, status);
     sdp_mem_check_c_contiguity(psf, status);
     sdp_mem_check_c_contiguity(cbeam_details, status);
-- 
2.43.0


From 306dbb7138488415e5658189edae167c3deffa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:57 +0000
Subject: [PATCH 65/84] fix: reject flags that do not have the shape of the
 visibilities

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 6668977..ebb6502 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -34,6 +34,11 @@ static void check_params_dynamic(
         SDP_LOG_ERROR("Visibility and flags arrays must be 4D.");
         return;
     }
+    for (int i = 0; i < 4; ++i)
+    {
+        sdp_mem_check_dim_size(flags, i, sdp_mem_shape_dim(vis, i), status);
+    }
+    if (*status) return;
     if (!sdp_mem_is_complex(vis))
     {
         *status = SDP_ERR_DATA_TYPE;
-- 
2.43.0


From 7b8e28c82b1cff944b175b96bffdd034db63fd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:57 +0000
Subject: [PATCH 66/84] fix: reject frequencies that do not match the number of
 channels in tiled functions

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index a6d65cc..83f544c 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -374,6 +374,8 @@ void sdp_count_and_prefix_sum(
     sdp_mem_check_location(num_points_in_tiles, vis_location, status);
     sdp_mem_check_location(num_skipped, vis_location, status);
     sdp_mem_check_c_contiguity(freqs, status);
+    sdp_mem_check_num_dims(freqs, 1, status);
+    sdp_mem_check_dim_size(freqs, 0, num_channels, status);
     sdp_mem_check_c_contiguity(tile_offsets, status);
     sdp_mem_check_c_contiguity(num_points_in_tiles, status);
     sdp_mem_check_c_contiguity(num_skipped, status);
@@ -618,6 +620,8 @@ void sdp_bucket_sort(
     sdp_mem_check_location(sorted_vis, vis_location, status);
     sdp_mem_check_location(tile_offsets, vis_location, status);
     sdp_mem_check_c_contiguity(freqs, status);
+    sdp_mem_check_num_dims(freqs, 1, status);
+    sdp_mem_check_dim_size(freqs, 0, num_channels, status);
     sdp_mem_check_c_contiguity(vis, status);
     sdp_mem_check_c_contiguity(sorted_uu, status);
     sdp_mem_check_c_contiguity(sorted_vv, status);
@@ -833,6 +837,8 @@ void sdp_tiled_indexing(
     sdp_mem_check_location(sorted_vis_index, uvw_loc, status);
     sdp_mem_check_location(tile_offsets, uvw_loc, status);
     sdp_mem_check_c_contiguity(freqs, status);
+    sdp_mem_check_num_dims(freqs, 1, status);
+    sdp_mem_check_dim_size(freqs, 0, num_channels, status);
     sdp_mem_check_c_contiguity(sorted_tile, status);
     sdp_mem_check_c_contiguity(sorted_uu, status);
     sdp_mem_check_c_contiguity(sorted_vv, status);
-- 
2.43.0


From ab9f220c97f1751b488cd1004844e0972d8ebc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:57 +0000
Subject: [PATCH 67/84] fix: reject arrays too small for the points of a dipole
 pattern

---
 src/ska-sdp-func/station_beam/sdp_element_dipole.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
index ead7da9..c8b4772 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
@@ -150,6 +150,18 @@ void sdp_element_beam_dipole(
     sdp_mem_check_c_contiguity(phi_rad, status);
     sdp_mem_check_c_contiguity(element_beam, status);
     if (*status) return;
+    const int64_t last_index = index_offset_element_beam +
+            (int64_t) stride_element_beam * (num_points - 1) +
+            (element_beam_is_complex4 ? 1 : 0);
+    if (sdp_mem_num_elements(theta_rad) < num_points ||
+            sdp_mem_num_elements(phi_rad) < num_points ||
+            stride_element_beam < 0 || index_offset_element_beam < 0 ||
+            sdp_mem_num_elements(element_beam) <= last_index)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Arrays are too small for the number of points");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
-- 
2.43.0


From 05edf7f1d9f63fc727d11666731be6904e685825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:57 +0000
Subject: [PATCH 68/84] fix: reject arrays too small for the points of a
 spherical wave pattern

---
 .../station_beam/sdp_element_spherical_wave_harp.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
index f7b8639..bf9fbdf 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
@@ -179,6 +179,18 @@ void sdp_element_beam_spherical_wave_harp(
     sdp_mem_check_c_contiguity(coeffs, status);
     sdp_mem_check_c_contiguity(element_beam, status);
     if (*status) return;
+    const int64_t last_point = (int64_t) index_offset_element_beam + num_points;
+    if (sdp_mem_num_elements(theta_rad) < num_points ||
+            sdp_mem_num_elements(phi_x_rad) < num_points ||
+            sdp_mem_num_elements(phi_y_rad) < num_points ||
+            sdp_mem_num_elements(coeffs) < 4 * (l_max * (l_max + 2)) ||
+            index_offset_element_beam < 0 ||
+            sdp_mem_num_elements(element_beam) < 4 * last_point)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Arrays are too small for the number of points");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
-- 
2.43.0


From 04df419336341728ad711c2953ec42ff65ca781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:14 +0000
Subject: [PATCH 69/84] fix: reject arrays too small for the elements and
 points of a station beam

---
 src/ska-sdp-func/station_beam/sdp_station.cpp | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index 4542cc5..da7fcb7 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -280,6 +280,30 @@ void sdp_station_beam_aperture_array(
     }
     if (*status) return;
     const int is_complex4 = sdp_mem_is_complex4(station_beam);
+    const int num_pols = is_complex4 ? 4 : 1;
+    const int64_t last_point = (int64_t) index_offset_points + num_points;
+    const int64_t last_beam = (int64_t) index_offset_station_beam + num_points;
+    const int64_t num_beam = (int64_t) num_pols * num_points;
+    if (sdp_mem_num_elements(element_weights) < num_elements ||
+            sdp_mem_num_elements(element_y) < num_elements ||
+            sdp_mem_num_elements(element_z) < num_elements ||
+            index_offset_points < 0 ||
+            sdp_mem_num_elements(point_x) < last_point ||
+            sdp_mem_num_elements(point_y) < last_point ||
+            (sdp_mem_data_const(point_z) &&
+            sdp_mem_num_elements(point_z) < last_point) ||
+            (sdp_mem_data_const(element_beam_index) &&
+            sdp_mem_num_elements(element_beam_index) < num_elements) ||
+            (sdp_mem_data_const(element_beam) &&
+            !sdp_mem_data_const(element_beam_index) &&
+            sdp_mem_num_elements(element_beam) < num_beam * num_elements) ||
+            index_offset_station_beam < 0 ||
+            sdp_mem_num_elements(station_beam) < num_pols * last_beam)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Arrays are too small for the numbers of elements and points");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (precision == SDP_MEM_FLOAT && !is_complex4)
-- 
2.43.0


From a489c1188310b6c9e3d8661c56dade1d9175cb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:45 +0000
Subject: [PATCH 70/84] fix: reject channel arrays and rows that do not fit the
 (u,v,w) values

---
 .../grid_data/sdp_gridder_clamp_channels.cpp  | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
index 190e3dd..f70d41c 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
@@ -1,6 +1,7 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
 #include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"
+#include "ska-sdp-func/utility/sdp_logging.h"
 #include "ska-sdp-func/utility/sdp_mem_view.h"
 
 // Begin anonymous namespace for file-local functions.
@@ -176,6 +177,19 @@ void sdp_gridder_clamp_channels_single(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    sdp_mem_check_dim_size(uvws, 1, 3, status);
+    sdp_mem_check_dim_size(start_ch_in, 0, sdp_mem_shape_dim(uvws, 0), status);
+    sdp_mem_check_dim_size(end_ch_in, 0, sdp_mem_shape_dim(uvws, 0), status);
+    sdp_mem_check_dim_size(start_ch_out, 0, sdp_mem_shape_dim(uvws, 0), status);
+    sdp_mem_check_dim_size(end_ch_out, 0, sdp_mem_shape_dim(uvws, 0), status);
+    if (*status) return;
+    if (dim < 0 || dim > 2 ||
+            end_row > sdp_mem_shape_dim(uvws, 0))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The dimension and the range of rows must be inside the (u,v,w) array");
+        return;
+    }
     const sdp_MemLocation loc = sdp_mem_location(uvws);
     if (loc == SDP_MEM_CPU)
     {
@@ -275,6 +289,18 @@ void sdp_gridder_clamp_channels_uv(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    sdp_mem_check_dim_size(uvws, 1, 3, status);
+    sdp_mem_check_dim_size(start_ch_in, 0, sdp_mem_shape_dim(uvws, 0), status);
+    sdp_mem_check_dim_size(end_ch_in, 0, sdp_mem_shape_dim(uvws, 0), status);
+    sdp_mem_check_dim_size(start_ch_out, 0, sdp_mem_shape_dim(uvws, 0), status);
+    sdp_mem_check_dim_size(end_ch_out, 0, sdp_mem_shape_dim(uvws, 0), status);
+    if (*status) return;
+    if (end_row > sdp_mem_shape_dim(uvws, 0))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The range of rows must be inside the (u,v,w) array");
+        return;
+    }
     const sdp_MemLocation loc = sdp_mem_location(uvws);
     if (loc == SDP_MEM_CPU)
     {
-- 
2.43.0


From c0afbfe57b56ecd22f8ed55fd8d89592b8a7849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:45 +0000
Subject: [PATCH 71/84] fix: reject rows outside the arrays to be summed

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index da52042..fbf35a2 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -2001,6 +2001,12 @@ void sdp_gridder_sum_diff(
         start_row = 0;
         end_row = sdp_mem_shape_dim(a, 0);
     }
+    if (end_row > sdp_mem_shape_dim(a, 0))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The range of rows must be inside the arrays");
+        return;
+    }
     const sdp_MemLocation loc = sdp_mem_location(a);
     *result = 0;
     if (loc == SDP_MEM_CPU)
-- 
2.43.0


From 08b57d10f41d1cf994a3d7a454e113a3954d475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 72/84] fix: sdp_fft_convolution: reject outputs that do not
 have the size of the first input

---
 src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 4abc1ce..e0cfb0d 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -610,6 +610,12 @@ void sdp_fft_convolution(
         return;
     }
 
+    sdp_mem_check_num_dims(in1, 2, status);
+    sdp_mem_check_num_dims(in2, 2, status);
+    const int64_t out_shape[] = {in1_dim_0, in1_dim_1};
+    sdp_mem_check_shape(out, 2, out_shape, status);
+    if (*status) return;
+
     if (location == SDP_MEM_CPU)
     {
         if (data_type == SDP_MEM_COMPLEX_DOUBLE)
-- 
2.43.0


From 367f7294a1cf432fc8d11279d9181976ff2f978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 73/84] fix: sdp_fft_convolution: handle sizes that cannot be
 padded evenly

---
 .../numeric_functions/sdp_fft_convolution.cpp | 27 +++++++++++--------
 .../numeric_functions/sdp_fft_convolution.cu  |  3 ++-
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index e0cfb0d..c270c89 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -62,12 +62,11 @@ inline void sdp_pad_2d(
         int64_t rows,
         int64_t cols,
         int64_t pad_rows,
-        int64_t pad_cols
+        int64_t pad_cols,
+        int64_t padded_cols
 )
 {
     int64_t i = 0, j = 0;
-    // int64_t padded_rows = rows + 2*pad_rows;
-    int64_t padded_cols = cols + 2 * pad_cols;
 
     for (i = 0; i < rows; i++)
     {
@@ -87,12 +86,12 @@ inline void sdp_remove_padding_2d(
         int64_t rows,
         int64_t cols,
         int64_t pad_rows,
-        int64_t pad_cols
+        int64_t pad_cols,
+        int64_t original_rows,
+        int64_t original_cols
 )
 {
     int64_t i = 0, j = 0;
-    int64_t original_rows = rows - 2 * pad_rows;
-    int64_t original_cols = cols - 2 * pad_cols;
 
     for (i = 0; i < original_rows; i++)
     {
@@ -100,8 +99,8 @@ inline void sdp_remove_padding_2d(
         {
             data[i * original_cols +
                     j] =
-                    padded_data[(i + (pad_rows - 1)) * cols +
-                            (j + (pad_cols - 1))];
+                    padded_data[((i + pad_rows - 1 + rows) % rows) * cols +
+                            (j + pad_cols - 1 + cols) % cols];
         }
     }
 }
@@ -164,7 +163,9 @@ static void sdp_fft_convolution_cpu(
     // pad in1
     if (!*status)
     {
-        sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim, extra_in1, extra_in1);
+        sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim,
+                extra_in1, extra_in1, pad_dim
+        );
     }
 
     // create memory to save padded input in2
@@ -183,7 +184,9 @@ static void sdp_fft_convolution_cpu(
     // pad in2
     if (!*status)
     {
-        sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim, extra_in2, extra_in2);
+        sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim,
+                extra_in2, extra_in2, pad_dim
+        );
     }
 
     // get FFT of padded in1
@@ -243,7 +246,9 @@ static void sdp_fft_convolution_cpu(
                 pad_dim,
                 pad_dim,
                 extra_in1,
-                extra_in1
+                extra_in1,
+                in1_dim,
+                in1_dim
         );
     }
 
diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu
index ccf3650..6e6c9e5 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu
@@ -178,7 +178,8 @@ __global__ void remove_padding_2D_gpu(
     {
         data[i * original_cols +
                 j] =
-                padded_data[(i + (pad_rows - 1)) * cols + (j + (pad_cols - 1))];
+                padded_data[((i + pad_rows - 1 + rows) % rows) * cols +
+                (j + pad_cols - 1 + cols) % cols];
     }
 }
 
-- 
2.43.0


From a756b897cf64e4cadc850bbbbdf2b4537325b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 74/84] fix: reject sizes that are not positive in
 sdp_gridder_direct_create

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 94b9031..26a1170 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -9,6 +9,7 @@
 #include "ska-sdp-func/grid_data/sdp_gridder_grid_correct.h"
 #include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
 #include "ska-sdp-func/math/sdp_math_macros.h"
+#include "ska-sdp-func/utility/sdp_logging.h"
 #include "ska-sdp-func/utility/sdp_mem_view.h"
 
 using std::complex;
@@ -37,6 +38,16 @@ sdp_GridderDirect* sdp_gridder_direct_create(
         sdp_Error* status
 )
 {
+    if (*status) return NULL;
+    if (subgrid_size < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR(
+                "Subgrid size must be positive (value given was %d).",
+                subgrid_size
+        );
+        return NULL;
+    }
     sdp_GridderDirect* plan = (sdp_GridderDirect*)calloc(
             1, sizeof(sdp_GridderDirect)
     );
-- 
2.43.0


From 9a21d0eb72765b1abf15aeed07df27fc2fc3be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:39 +0000
Subject: [PATCH 75/84] fix: reject w-kernels with more planes than the grid in
 sdp_degrid_uvw_custom

---
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index df0d0e7..3826cd6 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -230,6 +230,11 @@ void sdp_degrid_uvw_custom(
         num_channels, z_size, y_size, x_size, num_pols
     };
     sdp_mem_check_shape(grid, 5, expected_grid_shape, status);
+    if (!*status && w_kernel_size > z_size)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The w-kernel must not have more planes than the grid");
+    }
     sdp_mem_check_c_contiguity(grid, status);
     sdp_mem_check_c_contiguity(uv_kernel, status);
     sdp_mem_check_c_contiguity(w_kernel, status);
-- 
2.43.0


From aec46034a82508abf62afbb883bb7361ff657a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:39 +0000
Subject: [PATCH 76/84] fix: do not read weights from before the start of the
 grid

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 6 ++++--
 src/ska-sdp-func/visibility/sdp_weighting.cu  | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index c02d3d3..4051b06 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -183,7 +183,8 @@ static void uniform_weights_grid_read(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                if (idx_u >= 0 && idx_u < grid_size &&
+                        idx_v >= 0 && idx_v < grid_size)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
@@ -247,7 +248,8 @@ static void briggs_weights_grid_read(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                if (idx_u >= 0 && idx_u < grid_size &&
+                        idx_v >= 0 && idx_v < grid_size)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cu b/src/ska-sdp-func/visibility/sdp_weighting.cu
index 9f529ad..a3847ce 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cu
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cu
@@ -57,7 +57,7 @@ __global__ void grid_write_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size && idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -138,7 +138,7 @@ __global__ void calc_sum_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size && idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -207,7 +207,7 @@ __global__ void grid_briggs_read_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size && idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -282,7 +282,7 @@ __global__ void grid_uniform_read_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size && idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
-- 
2.43.0


From 05228c073b8dcf0d110352abcf760704f3541184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:39 +0000
Subject: [PATCH 77/84] fix: reject fields of view that do not fit in the image

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index df0ade5..78b846d 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -293,10 +293,17 @@ void sdp_gridder_worst_case_image(
     // operating on-grid, and therefore not actually testing the window
     // function).
     int fov_edge = int(image_size / theta * fov / 2);
-    while (image_size % fov_edge == 0)
+    while (fov_edge > 0 && image_size % fov_edge == 0)
     {
         fov_edge -= 1;
     }
+    if (fov_edge <= 0 || image_size / 2 + fov_edge >= image_size ||
+            image_size / 2 - fov_edge - 1 < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Field of view does not fit in the image");
+        return;
+    }
 
     // Put sources into corners, careful not to generate actual symmetries.
     sdp_mem_clear_contents(image, status);
-- 
2.43.0


From d08f9f37e646dae33284bfd81f63f4e8eac86b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:15 +0000
Subject: [PATCH 78/84] fix: reduce facet offsets before using them as
 positions

A negative offset gave a negative index into the contribution in
sdp_swiftly_extract_from_subgrid() and the two-dimensional versions.
---
 .../fourier_transforms/sdp_swiftly.cpp            | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 07ffcf2..a96d4c2 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -428,11 +428,13 @@ void sdp_swiftly_add_to_subgrid_2d(
     if (*status) return;
 
     // Calculate facet offsets (in xM_size resolution).
-    const int64_t fct_offs0 = facet_offset0 / (image_size / xM_size);
+    const int64_t fct_offs0 =
+            mod_p(facet_offset0, image_size) / (image_size / xM_size);
     const int64_t offs0 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs0,
             xM_size
     );
-    const int64_t fct_offs1 = facet_offset1 / (image_size / xM_size);
+    const int64_t fct_offs1 =
+            mod_p(facet_offset1, image_size) / (image_size / xM_size);
     const int64_t offs1 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs1,
             xM_size
     );
@@ -878,7 +880,8 @@ void sdp_swiftly_extract_from_subgrid(
     for (int64_t i0 = 0; i0 < bc0_size; i0++)
     {
         // Calculate facet offsets (in xM_size resolution).
-        const int64_t fct_offs = facet_offset / (image_size / xM_size);
+        const int64_t fct_offs =
+                mod_p(facet_offset, image_size) / (image_size / xM_size);
         const int64_t offs = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs,
                 xM_size
         );
@@ -942,11 +945,13 @@ void sdp_swiftly_extract_from_subgrid_2d(
     if (*status) return;
 
     // Calculate facet offsets (in xM_size resolution).
-    const int64_t fct_offs0 = facet_offset0 / (image_size / xM_size);
+    const int64_t fct_offs0 =
+            mod_p(facet_offset0, image_size) / (image_size / xM_size);
     const int64_t offs0 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs0,
             xM_size
     );
-    const int64_t fct_offs1 = facet_offset1 / (image_size / xM_size);
+    const int64_t fct_offs1 =
+            mod_p(facet_offset1, image_size) / (image_size / xM_size);
     const int64_t offs1 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs1,
             xM_size
     );
-- 
2.43.0


From 586101fad62eb554355b57274abfacb1be85edee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:15 +0000
Subject: [PATCH 79/84] fix: check the rows of 2D contributions and sub-grid
 images

sdp_swiftly_add_to_subgrid_2d() and sdp_swiftly_extract_from_subgrid_2d()
only checked the size of dimension 1, and indexed dimension 0 as well.
---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index a96d4c2..3443061 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -419,9 +419,11 @@ void sdp_swiftly_add_to_subgrid_2d(
     const int64_t xM_yN_size = (xM_size * swiftly->yN_size) / image_size;
     sdp_MemViewCpu<const std::complex<double>, 2> contrib;
     sdp_mem_check_and_view(contribution, &contrib, status);
+    sdp_mem_check_shape_dim(contribution, 0, xM_yN_size, status);
     sdp_mem_check_shape_dim(contribution, 1, xM_yN_size, status);
     sdp_MemViewCpu<std::complex<double>, 2> out;
     sdp_mem_check_and_view(subgrid_image_inout, &out, status);
+    sdp_mem_check_shape_dim(subgrid_image_inout, 0, xM_size, status);
     sdp_mem_check_shape_dim(subgrid_image_inout, 1, xM_size, status);
     sdp_MemViewCpu<double, 1> Fn;
     sdp_mem_check_and_view(swiftly->Fn, &Fn, status);
@@ -936,9 +938,11 @@ void sdp_swiftly_extract_from_subgrid_2d(
     const int64_t xM_yN_size = (xM_size * swiftly->yN_size) / image_size;
     sdp_MemViewCpu<const std::complex<double>, 2> sg_img;
     sdp_mem_check_and_view(subgrid_image, &sg_img, status);
+    sdp_mem_check_shape_dim(subgrid_image, 0, xM_size, status);
     sdp_mem_check_shape_dim(subgrid_image, 1, xM_size, status);
     sdp_MemViewCpu<std::complex<double>, 2> contrib;
     sdp_mem_check_and_view(contribution_out, &contrib, status);
+    sdp_mem_check_shape_dim(contribution_out, 0, xM_yN_size, status);
     sdp_mem_check_shape_dim(contribution_out, 1, xM_yN_size, status);
     sdp_MemViewCpu<double, 1> Fn;
     sdp_mem_check_and_view(swiftly->Fn, &Fn, status);
-- 
2.43.0


From 44135b69f135b1a26735df9bf547d0c23a4f50d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:35 +0000
Subject: [PATCH 80/84] fix: reject facets that are not inside the image

sdp_gridder_grid_correct_pswf() indexes the PSWF of the image by the
position of each pixel of the facet, which was not checked.
---
 .../grid_data/sdp_gridder_grid_correct.cpp           | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
index 4d9ea55..ab4a739 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
@@ -7,6 +7,7 @@
 #include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
 #include "ska-sdp-func/grid_data/sdp_gridder_grid_correct.h"
 #include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
+#include "ska-sdp-func/utility/sdp_logging.h"
 #include "ska-sdp-func/utility/sdp_mem_view.h"
 
 using std::complex;
@@ -132,6 +133,17 @@ void sdp_gridder_grid_correct_pswf(
 )
 {
     if (*status) return;
+    const int64_t start_l = image_size / 2 -
+            sdp_mem_shape_dim(facet, 0) / 2 + facet_offset_l;
+    const int64_t start_m = image_size / 2 -
+            sdp_mem_shape_dim(facet, 1) / 2 + facet_offset_m;
+    if (start_l < 0 || start_l + sdp_mem_shape_dim(facet, 0) > image_size ||
+            start_m < 0 || start_m + sdp_mem_shape_dim(facet, 1) > image_size)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The facet is not inside the image");
+        return;
+    }
     sdp_Pswf* pswf_n = sdp_pswf_create(0, w_support * (M_PI / 2));
     sdp_Pswf* pswf_lm = sdp_pswf_create(0, support * (M_PI / 2));
     if (!pswf_n || !pswf_lm)
-- 
2.43.0


From 4a15fcaa4770a609b2dfa85893e34bf876c31392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:15 +0000
Subject: [PATCH 81/84] fix: keep the median of one value inside the array

median_calc() and median_dev_calc() read element 1 of arrays of one element,
which is the case for every first time sample.
---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index ebb6502..b9769eb 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -88,6 +88,7 @@ static void filler(AA* arr, VL val, int length)
 static double median_calc(double* arr, int n)
 {
     int mid = int(round(0.5 * n));
+    if (mid >= n) mid = n - 1;
     double median = arr[mid];
     return median;
 }
@@ -96,6 +97,7 @@ static double median_calc(double* arr, int n)
 static double median_dev_calc(double* arr, int n, double median)
 {
     int mid = int(round(0.5 * n));
+    if (mid >= n) mid = n - 1;
     double* devs = new double[n];
     for (int i = 0; i < n; i++)
     {
-- 
2.43.0


From 8aa1657c02ef7c106519b55a85443bcbefb21a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:15 +0000
Subject: [PATCH 82/84] fix: check the sampling step and history length of the
 flagger

The number of samples is num_channels / sampling_step, and the lengths of
the local arrays follow from both.
---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index b9769eb..0934163 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -378,6 +378,16 @@ void sdp_flagger_dynamic_threshold(
     const int num_channels      = (int) sdp_mem_shape_dim(vis, 2);
     const int num_pols   = (int) sdp_mem_shape_dim(vis, 3);
 
+    if (sampling_step < 1 || sampling_step > num_channels ||
+            window_median_history < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The sampling step must be between 1 and the number "
+                "of channels, and the median history at least 1."
+        );
+        return;
+    }
+
     if (sdp_mem_location(vis) == SDP_MEM_CPU)
     {
         if (sdp_mem_type(vis) == SDP_MEM_COMPLEX_FLOAT &&
-- 
2.43.0


From 1905aa5f4e1b7da43675319967cd82a7c21eb3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:15 +0000
Subject: [PATCH 83/84] fix: select a kernel for large images too

No entry was selected when every padded size was above 80000, and the table
was then read past its end.
---
 src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
index 4eba31b..a63ef2f 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
@@ -1,5 +1,6 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#include <climits>
 #include <cmath>
 #include <stdint.h>
 
@@ -511,7 +512,7 @@ void sdp_calculate_params_from_epsilon(
         }
     }
 
-    int min_nu = 80000, min_idx = num_kernels;
+    int min_nu = INT_MAX, min_idx = idx[0];
 
     for (int i = 0; i < num_opts; ++i)
     {
-- 
2.43.0


From 04a740cbb5d830ec9940fbd1db0f83ac6cf1b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:58 +0000
Subject: [PATCH 84/84] fix: keep w-kernel offsets inside the kernel

The remainder is negative for w-coordinates below the first plane, and the
w-kernel was then read past its end.
---
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp | 4 +++-
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index 3826cd6..01815a6 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -52,7 +52,9 @@ static inline void calculate_coordinates(
     // w or z coordinate
     const double oz = (1.0 + w / wstep) * oversample_w;
     const int ioz = (int)round(oz) + oversample_w - 1;
-    const int frac_z = oversample_w - 1 - (ioz % oversample_w);
+    const int rem_z = ioz % oversample_w;
+    const int frac_z = oversample_w - 1 -
+            (rem_z < 0 ? rem_z + oversample_w : rem_z);
 
     *sub_offset_x = kernel_stride * frac_x;
     *sub_offset_y = kernel_stride * frac_y;
diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
index 0d14a40..0d6baef 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
@@ -46,7 +46,9 @@ __device__ __inline__ void calculate_coordinates(
     // w or z coordinate
     const double oz = (1.0 + w / wstep) * oversample_w;
     const int ioz = __double2int_rn(oz) + oversample_w - 1;
-    const int frac_z = oversample_w - 1 - (ioz % oversample_w);
+    const int rem_z = ioz % oversample_w;
+    const int frac_z = oversample_w - 1 -
+            (rem_z < 0 ? rem_z + oversample_w : rem_z);
 
     *sub_offset_x = kernel_stride * frac_x;
     *sub_offset_y = kernel_stride * frac_y;
-- 
2.43.0

