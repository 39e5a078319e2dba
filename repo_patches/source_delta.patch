From 978aa0e6afcdefb3af59ea92989ffdabfdad116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:22 +0000
Subject: [PATCH 01/49] fix: interpolate by 256 and more samples per symbol

---
 src/dsp/interp_fir_filter.c | 14 +++++++-------
 src/dsp/interp_fir_filter.h |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dsp/interp_fir_filter.c b/src/dsp/interp_fir_filter.c
index 183803a..0da48cf 100644
--- a/src/dsp/interp_fir_filter.c
+++ b/src/dsp/interp_fir_filter.c
@@ -16,7 +16,7 @@ struct interp_fir_filter_t {
     size_t output_len;
 };
 
-int interp_fir_filter_roundup_to_interpolation(float *taps, size_t taps_len, uint8_t interpolation, float **result_taps, size_t *result_taps_len) {
+int interp_fir_filter_roundup_to_interpolation(float *taps, size_t taps_len, uint32_t interpolation, float **result_taps, size_t *result_taps_len) {
     size_t len;
     // round up length to a multiple of the interpolation factor
     size_t n = taps_len % interpolation;
@@ -39,7 +39,7 @@ int interp_fir_filter_roundup_to_interpolation(float *taps, size_t taps_len, uin
     return 0;
 }
 
-float **interp_fir_filter_create_interleaved_taps(const float *taps, size_t taps_len, uint8_t interpolation) {
+float **interp_fir_filter_create_interleaved_taps(const float *taps, size_t taps_len, uint32_t interpolation) {
     // guaranteed to be integer. see interp_fir_filter_roundup_to_interpolation
     size_t filter_taps_len = taps_len / interpolation;
     float **interleaved_taps = malloc(sizeof(float *) * interpolation);
@@ -50,14 +50,14 @@ float **interp_fir_filter_create_interleaved_taps(const float *taps, size_t taps
 
     //init individual taps so that they can be freed by the corresponding filter
     int result_code = 0;
-    for (uint8_t i = 0; i < interpolation; i++) {
+    for (uint32_t i = 0; i < interpolation; i++) {
         interleaved_taps[i] = malloc(sizeof(float) * filter_taps_len);
         if (interleaved_taps[i] == NULL) {
             result_code = -ENOMEM;
         }
     }
     if (result_code != 0) {
-        for (uint8_t i = 0; i < interpolation; i++) {
+        for (uint32_t i = 0; i < interpolation; i++) {
             if (interleaved_taps[i] != NULL) {
                 free(interleaved_taps[i]);
             }
@@ -72,7 +72,7 @@ float **interp_fir_filter_create_interleaved_taps(const float *taps, size_t taps
     return interleaved_taps;
 }
 
-int interp_fir_filter_create(float *taps, size_t taps_len, uint8_t interpolation, uint32_t max_input_buffer_length, interp_fir_filter **filter) {
+int interp_fir_filter_create(float *taps, size_t taps_len, uint32_t interpolation, uint32_t max_input_buffer_length, interp_fir_filter **filter) {
     struct interp_fir_filter_t *result = malloc(sizeof(struct interp_fir_filter_t));
     if (result == NULL) {
         return -ENOMEM;
@@ -80,7 +80,7 @@ int interp_fir_filter_create(float *taps, size_t taps_len, uint8_t interpolation
     // init all fields with 0 so that destroy_* method would work
     *result = (struct interp_fir_filter_t) {0};
 
-    result->output_len = max_input_buffer_length * interpolation;
+    result->output_len = (size_t) max_input_buffer_length * interpolation;
     result->output = malloc(sizeof(float) * result->output_len);
     if (result->output == NULL) {
         interp_fir_filter_destroy(result);
@@ -102,7 +102,7 @@ int interp_fir_filter_create(float *taps, size_t taps_len, uint8_t interpolation
     result->filters_len = interpolation;
     result->filters = malloc(sizeof(fir_filter *) * result->filters_len);
     if (result->filters == NULL) {
-        for (uint8_t i = 0; i < interpolation; i++) {
+        for (uint32_t i = 0; i < interpolation; i++) {
             free(interleaved_taps[i]);
         }
         free(interleaved_taps);
diff --git a/src/dsp/interp_fir_filter.h b/src/dsp/interp_fir_filter.h
index 76cde50..a5c6d3e 100644
--- a/src/dsp/interp_fir_filter.h
+++ b/src/dsp/interp_fir_filter.h
@@ -6,7 +6,7 @@
 
 typedef struct interp_fir_filter_t interp_fir_filter;
 
-int interp_fir_filter_create(float *taps, size_t taps_len, uint8_t interpolation, uint32_t max_input_buffer_length, interp_fir_filter **filter);
+int interp_fir_filter_create(float *taps, size_t taps_len, uint32_t interpolation, uint32_t max_input_buffer_length, interp_fir_filter **filter);
 
 void interp_fir_filter_process(float *input, size_t input_len, float **output, size_t *output_len, interp_fir_filter *filter);
 
-- 
2.43.0


From b305c06181d4c80ce4bbb9483d4a82ccdb0669af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:47 +0000
Subject: [PATCH 02/49] fix: decimating filter reads outside its buffer when
 chunks are shorter than the decimation

---
 src/dsp/fir_filter.c | 20 ++++++++++++++++++--
 src/dsp/fir_filter.h |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index d7469f6..c957304 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -97,13 +97,19 @@ void fir_filter_process_float(const float *input, size_t input_len, float *worki
     size_t i = 0;
     size_t produced = 0;
     float *output_pointer = (float *) filter->output;
-    size_t max_index = working_len - (filter->taps_len - 1);
+    // there might be not enough samples for a single output
+    size_t max_index = working_len < filter->taps_len ? 0 : working_len - (filter->taps_len - 1);
     for (; i < max_index; i += filter->decimation, produced++) {
         volk_32f_x2_dot_prod_32f_u(filter->volk_output, working_buffer + i, filter->taps[0],
                                    filter->taps_len);
         *output_pointer = *(float *) filter ->volk_output;
         output_pointer++;
     }
+    // the next output might start after the last available sample
+    if (i > working_len) {
+        filter->skip = i - working_len;
+        i = working_len;
+    }
     filter->history_offset = working_len - i;
     if (i > 0) {
         memmove(working_buffer, working_buffer + i, filter->num_bytes * filter->history_offset);
@@ -127,13 +133,19 @@ void fir_filter_process_complex(const float complex *input, size_t input_len, fl
     size_t i = 0;
     size_t produced = 0;
     float complex *output_pointer = (float complex *) filter->output;
-    size_t max_index = working_len - (filter->taps_len - 1);
+    // there might be not enough samples for a single output
+    size_t max_index = working_len < filter->taps_len ? 0 : working_len - (filter->taps_len - 1);
     for (; i < max_index; i += filter->decimation, produced++) {
         volk_32fc_32f_dot_prod_32fc_u(filter->volk_output, working_buffer + i, filter->taps[0],
                                       filter->taps_len);
         *output_pointer = *(float complex *) filter->volk_output;
         output_pointer++;
     }
+    // the next output might start after the last available sample
+    if (i > working_len) {
+        filter->skip = i - working_len;
+        i = working_len;
+    }
     filter->history_offset = working_len - i;
     if (i > 0) {
         memmove(working_buffer, working_buffer + i, filter->num_bytes * filter->history_offset);
@@ -150,6 +162,10 @@ void fir_filter_process(const void *input, size_t input_len, void **output, size
         *output_len = 0;
         return;
     }
+    size_t skip = filter->skip < input_len ? filter->skip : input_len;
+    filter->skip -= skip;
+    input = (const char *) input + skip * filter->num_bytes;
+    input_len -= skip;
     if (filter->num_bytes == sizeof(float complex)) {
         fir_filter_process_complex((const float complex *) input, input_len, (float complex *) filter->working_buffer, output,
                                    output_len, filter);
diff --git a/src/dsp/fir_filter.h b/src/dsp/fir_filter.h
index 1ad8583..527c5fb 100644
--- a/src/dsp/fir_filter.h
+++ b/src/dsp/fir_filter.h
@@ -17,6 +17,8 @@ struct fir_filter_t {
 
     void *working_buffer;
     size_t history_offset;
+    // number of input samples to drop before the next output
+    size_t skip;
     size_t working_len_total;
     void *volk_output;
     size_t max_input_buffer_length;
-- 
2.43.0


From 8f8b87a56b2cd34bdc00415f3fc79887fab5ef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:21 +0000
Subject: [PATCH 03/49] fix: failed filter creation divides by zero, leaks or
 frees the taps twice

---
 src/dsp/fir_filter.c            | 18 ++++++++++++++----
 src/dsp/gfsk_mod.c              |  1 +
 src/dsp/lpf.c                   |  1 +
 src/dsp/mmse_fir_interpolator.c |  1 +
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index c957304..c8ef4f2 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -10,11 +10,17 @@ int create_aligned_taps(const float *original_taps, size_t taps_len, fir_filter
     // Make a set of taps at all possible alignments
     float **result = malloc(number_of_aligned * sizeof(float *));
     if (result == NULL) {
-        return -1;
+        return -ENOMEM;
     }
+    filter->taps = result;
+    filter->aligned_taps_len = 0;
     for (int i = 0; i < number_of_aligned; i++) {
         size_t aligned_taps_len = taps_len + number_of_aligned - 1;
         result[i] = (float *) volk_malloc(aligned_taps_len * sizeof(float), filter->alignment);
+        if (result[i] == NULL) {
+            return -ENOMEM;
+        }
+        filter->aligned_taps_len++;
         // some taps will be longer than original, but
         // since they contain zeros, multiplication on an input will produce 0
         // there is a tradeoff: multiply unaligned input or
@@ -27,13 +33,15 @@ int create_aligned_taps(const float *original_taps, size_t taps_len, fir_filter
             result[i][i + j] = original_taps[taps_len - j - 1];
         }
     }
-    filter->taps = result;
-    filter->aligned_taps_len = number_of_aligned;
     return 0;
 }
 
 int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
                       size_t max_input_buffer_length, size_t num_bytes, fir_filter **filter) {
+    if (decimation == 0) {
+        fprintf(stderr, "<3>decimation should be positive\n");
+        return -1;
+    }
     struct fir_filter_t *result = malloc(sizeof(struct fir_filter_t));
     if (result == NULL) {
         return -ENOMEM;
@@ -43,6 +51,7 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
 
     char *alignment_override = getenv("VOLK_ALIGNMENT");
     if (alignment_override != NULL) {
+        errno = 0;
         result->alignment = strtol(alignment_override, (char **) NULL, 10);
         if (errno == ERANGE || result->alignment == 0) {
             fprintf(stderr, "<3>invalid VOLK_ALIGNMENT specified: %s\n", alignment_override);
@@ -55,7 +64,6 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
 
     result->decimation = decimation;
     result->num_bytes = num_bytes;
-    result->original_taps = taps;
     result->taps_len = taps_len;
     result->history_offset = taps_len - 1;
     int code = create_aligned_taps(taps, taps_len, result);
@@ -86,6 +94,8 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
         return -ENOMEM;
     }
 
+    // owned by the filter from now on
+    result->original_taps = taps;
     *filter = result;
     return 0;
 }
diff --git a/src/dsp/gfsk_mod.c b/src/dsp/gfsk_mod.c
index 23320fa..59e947b 100644
--- a/src/dsp/gfsk_mod.c
+++ b/src/dsp/gfsk_mod.c
@@ -22,6 +22,7 @@ int gfsk_mod_convolve(float *x, size_t x_len, float *y, size_t y_len, float **ou
     }
     float *temp = malloc(sizeof(float) * result_len);
     if (temp == NULL) {
+        free(result);
         return -ENOMEM;
     }
     memset(temp, 0, sizeof(float) * result_len);
diff --git a/src/dsp/lpf.c b/src/dsp/lpf.c
index 776f0d0..272051c 100644
--- a/src/dsp/lpf.c
+++ b/src/dsp/lpf.c
@@ -27,6 +27,7 @@ int lpf_create(uint8_t decimation, uint64_t sampling_freq, uint64_t cutoff_freq,
     }
     code = fir_filter_create(decimation, taps, taps_len, max_input_buffer_length, num_bytes, &result->filter);
     if (code != 0) {
+        free(taps);
         lpf_destroy(result);
         return code;
     }
diff --git a/src/dsp/mmse_fir_interpolator.c b/src/dsp/mmse_fir_interpolator.c
index bb18ba6..1f185f2 100644
--- a/src/dsp/mmse_fir_interpolator.c
+++ b/src/dsp/mmse_fir_interpolator.c
@@ -171,6 +171,7 @@ int mmse_fir_interpolator_create(mmse_fir_interpolator **interp) {
         int code = fir_filter_create(1, filter_taps, result->taps_len, result->taps_len, sizeof(float), &curFilter);
         //init all filters anyway
         if (code != 0) {
+            free(filter_taps);
             result_code = code;
             result->filters[i] = NULL;
         } else {
-- 
2.43.0


From 2b40f85e7a60dbfd9a0b51ba9e5b4ac433b67963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:51 +0000
Subject: [PATCH 04/49] fix: wide transition width gives a single NaN tap

---
 src/dsp/lpf_taps.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/lpf_taps.c b/src/dsp/lpf_taps.c
index 453e9cd..c1df96c 100644
--- a/src/dsp/lpf_taps.c
+++ b/src/dsp/lpf_taps.c
@@ -46,7 +46,8 @@ int create_hamming_window(int ntaps, float **output) {
     }
     int m = ntaps - 1;
     for (int n = 0; n < ntaps; n++) {
-        result[n] = (float) (0.54 - 0.46 * cos((2 * M_PI * n) / m));
+        // single tap is the center of the window
+        result[n] = m == 0 ? 1.0F : (float) (0.54 - 0.46 * cos((2 * M_PI * n) / m));
     }
     *output = result;
     return 0;
-- 
2.43.0


From ecd8affaf1a148f1f4669a5be1900c0e9030ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:16 +0000
Subject: [PATCH 05/49] fix: phase of frequency shift beyond sampling rate
 loses precision

---
 src/dsp/sig_source.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp/sig_source.c b/src/dsp/sig_source.c
index 9816fec..5dfb052 100644
--- a/src/dsp/sig_source.c
+++ b/src/dsp/sig_source.c
@@ -41,6 +41,11 @@ int sig_source_create(float amplitude, uint64_t rx_sampling_freq, uint32_t max_o
 }
 
 void sig_source_process(int64_t freq, size_t expected_output_len, float complex **output, size_t *output_len, sig_source *source) {
+    // frequency is periodic by sampling rate.
+    // without it the phase increment can be more than 2 * pi and the phase won't be wrapped by single subtraction
+    if (source->rx_sampling_freq > 0 && source->rx_sampling_freq <= INT64_MAX) {
+        freq = freq % (int64_t) source->rx_sampling_freq;
+    }
     float adjusted_freq = M_2PI * (float) freq / source->rx_sampling_freq;
     for (size_t i = 0; i < expected_output_len; i++) {
         source->output[i] = cos(source->phase) * source->amplitude + sin(source->phase) * source->amplitude * I;
-- 
2.43.0


From 3e6015272fcaa5c15f5709e9be932dd46b4212f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:57 +0000
Subject: [PATCH 06/49] fix: dc blocker shorter than 2 samples reads and writes
 outside its delay line

---
 src/dsp/dc_blocker.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dsp/dc_blocker.c b/src/dsp/dc_blocker.c
index c5b7b7c..3269940 100644
--- a/src/dsp/dc_blocker.c
+++ b/src/dsp/dc_blocker.c
@@ -1,6 +1,7 @@
 #include <stdlib.h>
 #include <errno.h>
 #include <string.h>
+#include <stdio.h>
 
 #include "dc_blocker.h"
 
@@ -64,6 +65,11 @@ float moving_average_process(float input, struct moving_average *mavg) {
 }
 
 int dc_blocker_create(int length, dc_blocker **blocker) {
+    // delay lines are "length - 1" long
+    if (length < 2) {
+        fprintf(stderr, "<3>dc blocker length should be at least 2: %d\n", length);
+        return -1;
+    }
     struct dc_blocker_t *result = malloc(sizeof(struct dc_blocker_t));
     if (result == NULL) {
         return -ENOMEM;
-- 
2.43.0


From e5bfe6f36f460551a7a50eefe33fef046331d7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:23 +0000
Subject: [PATCH 07/49] fix: symbol clock duplicates symbols at the chunk
 boundary and overflows its buffer

---
 src/dsp/clock_recovery_mm.c | 54 ++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/dsp/clock_recovery_mm.c b/src/dsp/clock_recovery_mm.c
index 9f90f03..d0ac02e 100644
--- a/src/dsp/clock_recovery_mm.c
+++ b/src/dsp/clock_recovery_mm.c
@@ -20,6 +20,8 @@ struct clock_mm_t {
     float *working_buffer;
     size_t history_offset;
     size_t working_len_total;
+    // number of samples to skip until next symbol. i.e. next symbol is further than currently available samples
+    size_t skip;
 
     float *output;
     size_t output_len;
@@ -85,10 +87,9 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
     }
     // prepend history to the input
     memcpy(clock->working_buffer + clock->history_offset, input, input_len * sizeof(float));
-    int taps_len = mmse_fir_interpolator_taps(clock->interp);
-    int ii = 0;                                  // input index
-    int oo = 0;                                  // output index
-    int previous = 0;
+    size_t taps_len = mmse_fir_interpolator_taps(clock->interp);
+    size_t ii = clock->skip;                     // input index
+    size_t oo = 0;                               // output index
     size_t working_len = clock->history_offset + input_len;
     // not enough input
     if (working_len < taps_len) {
@@ -98,38 +99,55 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
         return;
     }
     size_t max_index = working_len - (taps_len - 1);
+    float max_step = floorf(2 * clock->omega_mid) + 1.0F;
     float mm_val;
 
     while (ii < max_index && oo < clock->output_len) {
         // produce output sample
         clock->output[oo] = mmse_fir_interpolator_process(clock->working_buffer + ii, clock->mu,
                                                           clock->interp);
-        if (isnan(clock->output[oo])) {
+        if (!isfinite(clock->output[oo])) {
             clock->output[oo] = 0.0f;
-            previous = ii;
-            ii += (int) floorf(clock->omega);
+            ii += (size_t) floorf(clock->omega);
             oo++;
             continue;
         }
 
         mm_val = slice(clock->last_sample) * clock->output[oo] - slice(clock->output[oo]) * clock->last_sample;
         clock->last_sample = clock->output[oo];
-        previous = ii;
 
-        clock->omega = clock->omega + clock->gain_omega * mm_val;
-        clock->omega = clock->omega_mid + branchless_clip(clock->omega - clock->omega_mid, clock->omega_lim);
-        clock->mu = clock->mu + clock->omega + clock->gain_mu * mm_val;
-        ii += (int) floorf(clock->mu);
-        clock->mu = clock->mu - floorf(clock->mu);
+        float omega = clock->omega + clock->gain_omega * mm_val;
+        if (isfinite(omega)) {
+            clock->omega = clock->omega_mid + branchless_clip(omega - clock->omega_mid, clock->omega_lim);
+        }
+        float mu = clock->mu + clock->omega + clock->gain_mu * mm_val;
+        if (!isfinite(mu)) {
+            mu = clock->mu + clock->omega;
+        }
+        float step = floorf(mu);
+        clock->mu = mu - step;
+        // timing error is proportional to the amplitude and not bounded
+        // make sure clock never goes back or way too far ahead
+        if (step < 0.0F) {
+            step = 0.0F;
+        }
+        if (step > max_step) {
+            step = max_step;
+        }
+        ii += (size_t) step;
         oo++;
     }
 
-    size_t last_index;
-    if (ii > working_len) {
-        last_index = previous;
-    } else {
-        last_index = ii;
+    // more symbols than samples. keep only the history required for the next symbol
+    if (ii < max_index) {
+        ii = max_index;
+    }
+
+    size_t last_index = ii;
+    if (last_index > working_len) {
+        last_index = working_len;
     }
+    clock->skip = ii - last_index;
     clock->history_offset = working_len - last_index;
 
     memmove(clock->working_buffer, clock->working_buffer + last_index, sizeof(float) * clock->history_offset);
-- 
2.43.0


From 0b15010c9da7f3107c3265a6beed76233e49e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:03 +0000
Subject: [PATCH 08/49] fix: modulator crashes when baud rate is higher than
 sampling rate

---
 src/dsp/gfsk_mod.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dsp/gfsk_mod.c b/src/dsp/gfsk_mod.c
index 59e947b..3bccdd9 100644
--- a/src/dsp/gfsk_mod.c
+++ b/src/dsp/gfsk_mod.c
@@ -42,6 +42,10 @@ int gfsk_mod_convolve(float *x, size_t x_len, float *y, size_t y_len, float **ou
 }
 
 int gfsk_mod_create(float samples_per_symbol, float sensitivity, float bt, uint32_t max_input_buffer_length, gfsk_mod **mod) {
+    if (!(samples_per_symbol >= 1.0F)) {
+        fprintf(stderr, "<3>samples per symbol should be at least 1: %f\n", samples_per_symbol);
+        return -1;
+    }
     struct gfsk_mod_t *result = malloc(sizeof(struct gfsk_mod_t));
     if (result == NULL) {
         return -ENOMEM;
-- 
2.43.0


From c5d9a8910b9ff8aba52b8ae376bc8af860045cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:20 +0000
Subject: [PATCH 09/49] fix: equatorial deep space orbit gives not a number

---
 src/sgpsdp/sgp4sdp4.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sgpsdp/sgp4sdp4.c b/src/sgpsdp/sgp4sdp4.c
index 74b1d61..bc0f084 100644
--- a/src/sgpsdp/sgp4sdp4.c
+++ b/src/sgpsdp/sgp4sdp4.c
@@ -650,7 +650,8 @@ void Deep (int ientry, sat_t *sat)
             sat->dps.sse = se;
             sat->dps.ssi = si;
             sat->dps.ssl = sl;
-            sat->dps.ssh = sh/sat->deep_arg.sinio;
+            /* sh is 0 at low inclinations, sinio is 0 for the equatorial orbit */
+            sat->dps.ssh = (sh == 0) ? 0 : sh/sat->deep_arg.sinio;
             sat->dps.ssg = sgh-sat->deep_arg.cosio*sat->dps.ssh;
             sat->dps.se2 = sat->dps.ee2;
             sat->dps.si2 = sat->dps.xi2;
@@ -679,8 +680,11 @@ void Deep (int ientry, sat_t *sat)
         sat->dps.sse = sat->dps.sse+se;
         sat->dps.ssi = sat->dps.ssi+si;
         sat->dps.ssl = sat->dps.ssl+sl;
-        sat->dps.ssg = sat->dps.ssg+sgh-sat->deep_arg.cosio/sat->deep_arg.sinio*sh;
-        sat->dps.ssh = sat->dps.ssh+sh/sat->deep_arg.sinio;
+        sat->dps.ssg = sat->dps.ssg+sgh;
+        if (sh != 0) {
+            sat->dps.ssg = sat->dps.ssg-sat->deep_arg.cosio/sat->deep_arg.sinio*sh;
+            sat->dps.ssh = sat->dps.ssh+sh/sat->deep_arg.sinio;
+        }
 
         /* Geopotential resonance initialization for 12 hour orbits */
         sat->flags &= ~RESONANCE_FLAG;
-- 
2.43.0


From 50e4114d36b5dc61e097fe2e6517ddbefa58d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:16 +0000
Subject: [PATCH 10/49] fix: satellite name with the status at its start is
 written before the buffer

---
 src/sgpsdp/sgp_in.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/sgpsdp/sgp_in.c b/src/sgpsdp/sgp_in.c
index bc0c0d7..58194f5 100644
--- a/src/sgpsdp/sgp_in.c
+++ b/src/sgpsdp/sgp_in.c
@@ -290,11 +290,8 @@ int Get_Next_Tle_Set(char line[3][80], tle_t * tle)
                     break;
                 }
 
-                /* terminate sat_name string */
-                tle->sat_name[idx - 1] = '\0';
-
-                /* force loop exit */
-                idx = 25;
+                /* the name ends before the status */
+                break;
             }
             else
             {
@@ -308,17 +305,14 @@ int Get_Next_Tle_Set(char line[3][80], tle_t * tle)
         }
     }
 
-    /* strip off trailing spaces */
-    do {
+    /* terminate sat_name string and strip off trailing spaces */
+    if (idx > 24) {
+        idx = 24;
+    }
+    while (idx > 0 && tle->sat_name[idx - 1] == ' ') {
         idx--;
-    } while (idx > 0 && line[0][idx] == ' ');
-    if (idx == 0) {
-        tle->sat_name[0] = '\0';
-    } else if (idx >= 24) {
-        tle->sat_name[24] = '\0';
-    } else {
-        tle->sat_name[idx + 1] = '\0';
     }
+    tle->sat_name[idx] = '\0';
     /* Read in first line of TLE set */
     strncpy(tle_set, line[1], 70);
 
-- 
2.43.0


From 7266282edc13572591499f9113877771304b3303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:58 +0000
Subject: [PATCH 11/49] fix: refuse doppler start time far from any possible
 TLE epoch

A start time thousands of years away made the deep-space integrator loop
for hours (days) inside the dsp/tcp thread, so the session never ended and the server could not stop.
---
 src/dsp/doppler.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dsp/doppler.c b/src/dsp/doppler.c
index 7fddc2f..a820728 100644
--- a/src/dsp/doppler.c
+++ b/src/dsp/doppler.c
@@ -73,6 +73,13 @@ int doppler_create(double latitude, double longitude, double altitude, uint64_t
             return -1;
         }
         cdate.tm_year += 1900;
+        // TLE epoch can only be within 1957-2056. Orbit cannot be predicted that far from it
+        // and the numerical integration from the epoch might never finish
+        if (cdate.tm_year < 1957 || cdate.tm_year > 2056) {
+            fprintf(stderr, "<3>start time is out of range: %d\n", cdate.tm_year);
+            doppler_destroy(result);
+            return -1;
+        }
         cdate.tm_mon += 1;
         result->jul_start_time = Julian_Date(&cdate);
     }
-- 
2.43.0


From 51666261d239e8c84b448c02446bd11be564ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:46 +0000
Subject: [PATCH 12/49] fix: queue_put wrote through NULL when the only buffer
 is being processed

---
 src/queue.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/queue.c b/src/queue.c
index 0fc4146..28c1d26 100644
--- a/src/queue.c
+++ b/src/queue.c
@@ -126,6 +126,11 @@ int queue_put(const float complex *buffer, const size_t len, queue *queue) {
         // overwrite last node
         to_fill = queue->last_filled_node;
         fprintf(stderr, "<3>queue is full\n");
+        // the only node is being processed. nothing to overwrite
+        if (to_fill == NULL) {
+            pthread_mutex_unlock(&queue->mutex);
+            return -1;
+        }
     } else {
         // remove from free nodes pool
         to_fill = queue->first_free_node;
-- 
2.43.0


From 22f2180328c0454f48cc2b4c5062d81914847e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:45 +0000
Subject: [PATCH 13/49] fix: refuse configuration settings of the wrong type or
 out of range

Strings given as numbers crashed the server (strlen/strcmp of NULL), integer gains were
silently read as 0.0, ports and queue sizes were truncated and fractional
or negative sizes were accepted.
---
 src/server_config.c | 151 ++++++++++++++++++++++++++++----------------
 1 file changed, 97 insertions(+), 54 deletions(-)

diff --git a/src/server_config.c b/src/server_config.c
index ef52b38..972b769 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -12,6 +12,10 @@ char *read_and_copy_str(const config_setting_t *setting, const char *default_val
         value = default_value;
     } else {
         value = config_setting_get_string(setting);
+        if (value == NULL) {
+            fprintf(stderr, "<3>string expected: %s\n", config_setting_name(setting));
+            return NULL;
+        }
     }
     size_t length = strlen(value);
     char *result = malloc(sizeof(char) * length + 1);
@@ -23,6 +27,46 @@ char *read_and_copy_str(const config_setting_t *setting, const char *default_val
     return result;
 }
 
+static int read_int(const config_t *libconfig, const char *name, int default_value, int min, int max, int *output) {
+    const config_setting_t *setting = config_lookup(libconfig, name);
+    if (setting == NULL) {
+        *output = default_value;
+        return 0;
+    }
+    int type = config_setting_type(setting);
+    if (type != CONFIG_TYPE_INT && type != CONFIG_TYPE_INT64) {
+        fprintf(stderr, "<3>integer expected: %s\n", name);
+        return -1;
+    }
+    long long value = config_setting_get_int64(setting);
+    if (value < min || value > max) {
+        fprintf(stderr, "<3>%s is out of range [%d, %d]: %lld\n", name, min, max, value);
+        return -1;
+    }
+    *output = (int) value;
+    return 0;
+}
+
+static int read_double(const config_t *libconfig, const char *name, double default_value, double *output) {
+    const config_setting_t *setting = config_lookup(libconfig, name);
+    if (setting == NULL) {
+        *output = default_value;
+        return 0;
+    }
+    switch (config_setting_type(setting)) {
+        case CONFIG_TYPE_FLOAT:
+            *output = config_setting_get_float(setting);
+            return 0;
+        case CONFIG_TYPE_INT:
+        case CONFIG_TYPE_INT64:
+            *output = (double) config_setting_get_int64(setting);
+            return 0;
+        default:
+            fprintf(stderr, "<3>number expected: %s\n", name);
+            return -1;
+    }
+}
+
 int server_config_create(struct server_config **config, const char *path) {
     fprintf(stdout, "loading configuration from: %s\n", path);
     struct server_config *result = malloc(sizeof(struct server_config));
@@ -42,15 +86,15 @@ int server_config_create(struct server_config **config, const char *path) {
         return -1;
     }
 
-    const config_setting_t *setting = config_lookup(&libconfig, "buffer_size");
-    uint32_t buffer_size;
-    if (setting == NULL) {
-        buffer_size = 262144;
-    } else {
-        buffer_size = (uint32_t) config_setting_get_int(setting);
+    const config_setting_t *setting = NULL;
+    int buffer_size;
+    if (read_int(&libconfig, "buffer_size", 262144, 1, INT32_MAX, &buffer_size) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
     fprintf(stdout, "buffer size: %d\n", buffer_size);
-    result->buffer_size = buffer_size;
+    result->buffer_size = (uint32_t) buffer_size;
 
     setting = config_lookup(&libconfig, "bind_address");
     char *bind_address = read_and_copy_str(setting, "127.0.0.1");
@@ -60,41 +104,32 @@ int server_config_create(struct server_config **config, const char *path) {
         return -ENOMEM;
     }
     result->bind_address = bind_address;
-    setting = config_lookup(&libconfig, "port");
-    uint16_t port;
-    if (setting == NULL) {
-        port = 8091;
-    } else {
-        port = (uint16_t) config_setting_get_int(setting);
+    int port;
+    if (read_int(&libconfig, "port", 8091, 0, UINT16_MAX, &port) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
-    result->port = port;
+    result->port = (uint16_t) port;
     fprintf(stdout, "start listening on %s:%d\n", result->bind_address, result->port);
 
-    setting = config_lookup(&libconfig, "read_timeout_seconds");
     int read_timeout_seconds;
-    if (setting == NULL) {
-        read_timeout_seconds = 5;
-    } else {
-        read_timeout_seconds = config_setting_get_int(setting);
-        if (read_timeout_seconds <= 0) {
-            fprintf(stderr, "<3>read timeout should be positive: %d\n", read_timeout_seconds);
-            config_destroy(&libconfig);
-            server_config_destroy(result);
-            return -1;
-        }
+    if (read_int(&libconfig, "read_timeout_seconds", 5, 1, INT32_MAX, &read_timeout_seconds) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
     result->read_timeout_seconds = read_timeout_seconds;
     fprintf(stdout, "read timeout %ds\n", result->read_timeout_seconds);
 
-    setting = config_lookup(&libconfig, "queue_size");
-    uint16_t queue_size;
-    if (setting == NULL) {
-        queue_size = 64;
-    } else {
-        queue_size = config_setting_get_int(setting);
+    int queue_size;
+    if (read_int(&libconfig, "queue_size", 64, 1, UINT16_MAX, &queue_size) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
     fprintf(stdout, "queue_size: %d\n", queue_size);
-    result->queue_size = queue_size;
+    result->queue_size = (uint16_t) queue_size;
 
     const char *default_folder = getenv("TMPDIR");
     if (default_folder == NULL) {
@@ -117,6 +152,12 @@ int server_config_create(struct server_config **config, const char *path) {
         rx_sdr_type = RX_SDR_TYPE_SDR_SERVER;
     } else {
         const char *rx_sdr_type_str = config_setting_get_string(setting);
+        if (rx_sdr_type_str == NULL) {
+            fprintf(stderr, "<3>string expected: rx_sdr_type\n");
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        }
         if (strcmp(rx_sdr_type_str, "sdr-server") == 0) {
             rx_sdr_type = RX_SDR_TYPE_SDR_SERVER;
         } else if (strcmp(rx_sdr_type_str, "plutosdr") == 0) {
@@ -141,12 +182,11 @@ int server_config_create(struct server_config **config, const char *path) {
             return -ENOMEM;
         }
         result->rx_sdr_server_address = sdr_server_address;
-        setting = config_lookup(&libconfig, "rx_sdr_server_port");
         int rx_sdr_server_port;
-        if (setting == NULL) {
-            rx_sdr_server_port = 8090;
-        } else {
-            rx_sdr_server_port = config_setting_get_int(setting);
+        if (read_int(&libconfig, "rx_sdr_server_port", 8090, 0, UINT16_MAX, &rx_sdr_server_port) != 0) {
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
         }
         result->rx_sdr_server_port = rx_sdr_server_port;
         fprintf(stdout, "sdr server used: %s:%d\n", result->rx_sdr_server_address, result->rx_sdr_server_port);
@@ -158,6 +198,12 @@ int server_config_create(struct server_config **config, const char *path) {
         tx_sdr_type = TX_SDR_TYPE_NONE;
     } else {
         const char *tx_sdr_type_str = config_setting_get_string(setting);
+        if (tx_sdr_type_str == NULL) {
+            fprintf(stderr, "<3>string expected: tx_sdr_type\n");
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        }
         if (strcmp(tx_sdr_type_str, "plutosdr") == 0) {
             tx_sdr_type = TX_SDR_TYPE_PLUTOSDR;
         } else if (strcmp(tx_sdr_type_str, "none") == 0) {
@@ -205,38 +251,35 @@ int server_config_create(struct server_config **config, const char *path) {
         fprintf(stdout, "tx file base path: %s\n", result->tx_file_base_path);
     }
 
-    setting = config_lookup(&libconfig, "tx_plutosdr_gain");
     double tx_plutosdr_gain;
-    if (setting == NULL) {
-        tx_plutosdr_gain = 0.0;
-    } else {
-        tx_plutosdr_gain = config_setting_get_float(setting);
+    if (read_double(&libconfig, "tx_plutosdr_gain", 0.0, &tx_plutosdr_gain) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
     result->tx_plutosdr_gain = tx_plutosdr_gain;
     // log parameter only if it is relevant
     if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
         fprintf(stdout, "tx plutosdr gain %f\n", result->tx_plutosdr_gain);
     }
-    setting = config_lookup(&libconfig, "rx_plutosdr_gain");
     double rx_plutosdr_gain;
-    if (setting == NULL) {
-        rx_plutosdr_gain = 0.0;
-    } else {
-        rx_plutosdr_gain = config_setting_get_float(setting);
+    if (read_double(&libconfig, "rx_plutosdr_gain", 0.0, &rx_plutosdr_gain) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
     result->rx_plutosdr_gain = rx_plutosdr_gain;
     // log parameter only if it is relevant
     if (result->rx_sdr_type == RX_SDR_TYPE_PLUTOSDR) {
         fprintf(stdout, "rx plutosdr gain %f\n", result->rx_plutosdr_gain);
     }
-    setting = config_lookup(&libconfig, "tx_plutosdr_timeout_millis");
-    unsigned int tx_plutosdr_timeout_millis;
-    if (setting == NULL) {
-        tx_plutosdr_timeout_millis = 10000;
-    } else {
-        tx_plutosdr_timeout_millis = config_setting_get_int(setting);
+    int tx_plutosdr_timeout_millis;
+    if (read_int(&libconfig, "tx_plutosdr_timeout_millis", 10000, 0, INT32_MAX, &tx_plutosdr_timeout_millis) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
-    result->tx_plutosdr_timeout_millis = tx_plutosdr_timeout_millis;
+    result->tx_plutosdr_timeout_millis = (unsigned int) tx_plutosdr_timeout_millis;
     // log parameter only if it is relevant
     if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
         fprintf(stdout, "tx timeout millis %d\n", result->tx_plutosdr_timeout_millis);
-- 
2.43.0


From f4b3859faa0e55fda098c916c4e72e725a8c4f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:11 +0000
Subject: [PATCH 14/49] fix: load libiio when only the receiver is plutosdr

rx_sdr_type=plutosdr with tx_sdr_type other than plutosdr left config->iio NULL and
the first receive request crashed the server.
---
 src/server_config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server_config.c b/src/server_config.c
index 972b769..600536f 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -219,7 +219,8 @@ int server_config_create(struct server_config **config, const char *path) {
         fprintf(stdout, "tx sdr: %s\n", tx_sdr_type_str);
     }
     result->tx_sdr_type = tx_sdr_type;
-    if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
+    // both receiver and transmitter require the library
+    if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR || result->rx_sdr_type == RX_SDR_TYPE_PLUTOSDR) {
         code = iio_lib_create(&result->iio);
         if (code != 0) {
             config_destroy(&libconfig);
-- 
2.43.0


From 7110489ad079f1bfe0a066a16dd7d8b00a87a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:52 +0000
Subject: [PATCH 15/49] fix: plutosdr_process_tx never returned with buffer of
 1 sample

---
 src/sdr/plutosdr.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index efcf39c..4e9c064 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -72,8 +72,13 @@ int plutosdr_process_tx(float complex *input, size_t input_len, void *plugin) {
     while (left > 0) {
         char *p_start = (char *) iio->lib->iio_buffer_first(iio->tx_buffer, iio->tx0_i);
         size_t batch;
-        if (left > iio->output_len / 2) {
-            batch = iio->output_len / 2;
+        size_t max_batch = iio->output_len / 2;
+        // buffer of a single sample still should be sent
+        if (max_batch == 0) {
+            max_batch = 1;
+        }
+        if (left > max_batch) {
+            batch = max_batch;
         } else {
             batch = left;
         }
-- 
2.43.0


From 345c9378a80b3680a393c9c59e675bb844dbf8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:18 +0000
Subject: [PATCH 16/49] fix: plutosdr device which failed to acquire the
 context released context of another device

---
 src/sdr/plutosdr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index 4e9c064..9385cb7 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -49,6 +49,7 @@ struct plutosdr_t {
     struct stream_cfg *tx_config;
 
     iio_lib *lib;
+    bool ctx_acquired;
     atomic_bool rx_is_running;
 };
 
@@ -468,6 +469,7 @@ int plutosdr_create(uint32_t id, bool rx_only, struct stream_cfg *rx_config, str
     ssize_t code = plutosdr_init_global_ctx(pluto->lib);
     if (code == 0) {
         global_iio_ctx_usages++;
+        pluto->ctx_acquired = true;
     }
     pthread_mutex_unlock(&global_iio_mutex);
     if (code != 0) {
@@ -618,7 +620,8 @@ void plutosdr_destroy(void *plugin) {
     }
 
     pthread_mutex_lock(&global_iio_mutex);
-    if (global_iio_ctx != NULL) {
+    // release only if it was acquired by this device. the context might be initialized by another one
+    if (pluto->ctx_acquired && global_iio_ctx != NULL) {
         global_iio_ctx_usages--;
         if (global_iio_ctx_usages <= 0) {
             pluto->lib->iio_context_destroy(global_iio_ctx);
-- 
2.43.0


From c05788bc75810b1142653ddfba2217eefe8f2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:47 +0000
Subject: [PATCH 17/49] fix: plutosdr configs were leaked when there is no
 memory for the device

---
 src/sdr/plutosdr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index 9385cb7..61c5874 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -457,6 +457,9 @@ int plutosdr_create(uint32_t id, bool rx_only, struct stream_cfg *rx_config, str
     }
     struct plutosdr_t *pluto = malloc(sizeof(struct plutosdr_t));
     if (pluto == NULL) {
+        // ownership of the configs is always transferred
+        free(rx_config);
+        free(tx_config);
         return -ENOMEM;
     }
     *pluto = (struct plutosdr_t) {0};
-- 
2.43.0


From c79a9691b05464d923dd020b6b9ad935140827eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:14 +0000
Subject: [PATCH 18/49] fix: plutosdr errors ignored while enabling TX LO and
 FIR filter

Failure to power up the TX LO was ignored, so the device accepted samples that are never transmitted.
Missing channel was dereferenced while enabling the FIR filter.
---
 src/sdr/plutosdr.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index 61c5874..47dc293 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -227,7 +227,11 @@ static int plutosdr_write_lli(struct iio_channel *chn, const char *what, long lo
 int plutosdr_enable_fir_filter(struct iio_device *dev, bool enable, plutosdr *pluto) {
     int ret = pluto->lib->iio_device_attr_write_bool(dev, "in_out_voltage_filter_fir_en", enable);
     if (ret < 0) {
-        ret = pluto->lib->iio_channel_attr_write_bool(pluto->lib->iio_device_find_channel(dev, "out", false), "voltage_filter_fir_en", enable);
+        struct iio_channel *channel = pluto->lib->iio_device_find_channel(dev, "out", false);
+        if (channel == NULL) {
+            return ret;
+        }
+        ret = pluto->lib->iio_channel_attr_write_bool(channel, "voltage_filter_fir_en", enable);
     }
     return ret;
 }
@@ -262,11 +266,15 @@ int plutosdr_configure_streaming_channel(struct iio_context *ctx, bool rx_only,
             plutosdr_write_lli(lo_channel, "powerdown", 1, iio);
         }
     }
+    int code = 0;
     if (type == TX) {
-        plutosdr_write_lli(chn, "powerdown", 0, iio);
+        code = plutosdr_write_lli(chn, "powerdown", 0, iio);
+        if (code != 0) {
+            return code;
+        }
     }
 
-    int code = plutosdr_write_lli(chn, "frequency", (long long) cfg->center_freq, iio);
+    code = plutosdr_write_lli(chn, "frequency", (long long) cfg->center_freq, iio);
     if (code != 0) {
         return code;
     }
-- 
2.43.0


From 88285070cfd252a406bf53fafdd343fcceff00bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:54 +0000
Subject: [PATCH 19/49] fix: transmit request without fsk_settings crashes the
 server

---
 src/tcp_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index b6ecc7a..81fb95b 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -107,6 +107,10 @@ int validate_tx_request(const struct TxRequest *req, uint32_t client_id, const s
         fprintf(stderr, "<3>[%d] missing mod_baud_rate parameter\n", client_id);
         return -1;
     }
+    if (req->fsk_settings == NULL) {
+        fprintf(stderr, "<3>[%d] missing fsk_settings parameter\n", client_id);
+        return -1;
+    }
     if (req->doppler != NULL && req->doppler->n_tle != 3) {
         fprintf(stderr, "<3>[%d] invalid tle supplied\n", client_id);
         return -1;
-- 
2.43.0


From b939722d47d22eed26ee3bab927b1c6bb39b7dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:54 +0000
Subject: [PATCH 20/49] fix: decimation above 255 was silently truncated to its
 lowest byte

---
 src/tcp_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 81fb95b..b67eb47 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -149,6 +149,10 @@ int validate_rx_request(const struct RxRequest *req, uint32_t client_id, const s
         fprintf(stderr, "<3>[%d] missing demod_decimation parameter\n", client_id);
         return -1;
     }
+    if (req->demod_decimation > UINT8_MAX) {
+        fprintf(stderr, "<3>[%d] demod_decimation is too big: %u\n", client_id, req->demod_decimation);
+        return -1;
+    }
     if (req->demod_destination != DEMOD_DESTINATION__FILE && req->demod_destination != DEMOD_DESTINATION__SOCKET && req->demod_destination != DEMOD_DESTINATION__BOTH) {
         fprintf(stderr, "<3>[%d] unknown demod_destination: %d\n", client_id, req->demod_destination);
         return -1;
-- 
2.43.0


From fbc99ea0981f229cb77e6c08ac67aded0ab6fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:54 +0000
Subject: [PATCH 21/49] fix: buffer of the request which was not fully read is
 leaked

---
 src/api_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api_utils.c b/src/api_utils.c
index 92b8d92..2345f9d 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -47,6 +47,7 @@ int api_utils_read_tx_request(int socket, const struct message_header *header, s
     }
     int code = tcp_utils_read_data(buffer, header->message_length, socket);
     if (code != 0) {
+        free(buffer);
         return -1;
     }
     TxRequest *result = tx_request__unpack(NULL, header->message_length, buffer);
@@ -68,6 +69,7 @@ int api_utils_read_rx_request(int socket, const struct message_header *header, s
     }
     int code = tcp_utils_read_data(buffer, header->message_length, socket);
     if (code != 0) {
+        free(buffer);
         return -1;
     }
     RxRequest *result = rx_request__unpack(NULL, header->message_length, buffer);
-- 
2.43.0


From fa8ac43e8cdcf1e72eb46841eafd7b4f778a8839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:54 +0000
Subject: [PATCH 22/49] fix: client shared the stream of higher sampling rate
 than requested

---
 src/sdr_worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index a05f742..45489bd 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -87,7 +87,7 @@ bool sdr_worker_find_closest(void *id, void *data) {
     struct sdr_rx *rx = (struct sdr_rx *) id;
     sdr_worker *worker = (sdr_worker *) data;
     if (worker->rx->rx_center_freq == rx->rx_center_freq &&
-        worker->rx->rx_sampling_freq >= rx->rx_sampling_freq &&
+        worker->rx->rx_sampling_freq == rx->rx_sampling_freq &&
         worker->rx->rx_offset == rx->rx_offset) {
         return true;
     }
-- 
2.43.0


From 233fc9246911dc2cba139ded733e0012769d9a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:54 +0000
Subject: [PATCH 23/49] fix: connection to sdr server is leaked when the
 request was not successful

---
 src/sdr/sdr_server_client.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index bff14d9..0875c61 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -85,11 +85,13 @@ int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int por
     code = sdr_server_client_request(req, &response, client);
     if (code != 0) {
         fprintf(stderr, "<3>[%d] unable to send request to sdr server\n", id);
+        close(client->client_socket);
         sdr_server_client_destroy(client);
         return code;
     }
     if (response->status != SDR_SERVER_RESPONSE_STATUS_SUCCESS) {
         fprintf(stderr, "<3>[%d] request to sdr server rejected: %d\n", id, response->details);
+        close(client->client_socket);
         sdr_server_client_destroy(client);
         free(response);
         return -1;
@@ -98,6 +100,7 @@ int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int por
 
     struct sdr_device_t *result = malloc(sizeof(struct sdr_device_t));
     if (result == NULL) {
+        close(client->client_socket);
         sdr_server_client_destroy(client);
         return -ENOMEM;
     }
-- 
2.43.0


From 06bc301a6ca1c38a1a7a0116e8287f7e012cb2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:54 +0000
Subject: [PATCH 24/49] fix: refuse frequencies which sdr server cannot be
 asked for

---
 src/sdr/sdr_server_client.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index 0875c61..2563d46 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -70,6 +70,12 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
 }
 
 int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int port, int read_timeout_seconds, uint32_t max_output_buffer_length, sdr_device **output) {
+    // protocol has 4 bytes for each field
+    uint64_t center_freq = rx->rx_center_freq + rx->rx_offset;
+    if (rx->rx_center_freq > UINT32_MAX || center_freq > UINT32_MAX || rx->rx_sampling_freq > UINT32_MAX) {
+        fprintf(stderr, "<3>[%d] sdr server doesn't support such frequency or sampling rate\n", id);
+        return -1;
+    }
     sdr_server_client *client = NULL;
     int code = sdr_server_client_create_inner(id, addr, port, read_timeout_seconds, max_output_buffer_length, &client);
     if (code != 0) {
@@ -77,7 +83,7 @@ int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int por
     }
 
     struct sdr_server_request req;
-    req.center_freq = rx->rx_center_freq + rx->rx_offset;
+    req.center_freq = (uint32_t) center_freq;
     req.band_freq = rx->rx_center_freq;
     req.destination = SDR_SERVER_REQUEST_DESTINATION_SOCKET;
     req.sampling_rate = rx->rx_sampling_freq;
-- 
2.43.0


From 3ba843e5aeddb2945db6ff01d7ea4e485a6628e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:54 +0000
Subject: [PATCH 25/49] fix: samples received before the timeout were lost and
 the rest of the stream misaligned

---
 src/sdr/sdr_server_client.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index 2563d46..2df3161 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -17,6 +17,9 @@ struct sdr_server_client_t {
 
     float complex *output;
     size_t output_len;
+    // bytes of the last sample which was not fully received
+    size_t partial_len;
+    uint8_t partial[sizeof(float complex)];
 };
 
 int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_timeout_seconds, uint32_t max_output_buffer_length, sdr_server_client **client) {
@@ -159,13 +162,20 @@ int sdr_server_client_read_response(struct sdr_server_response **response, sdr_s
 int sdr_server_client_read_stream(float complex **output, size_t *output_len, void *plugin) {
     sdr_server_client *client = (sdr_server_client *) plugin;
     size_t actually_read = 0;
-    int code = tcp_utils_read_data_partially(client->output, sizeof(float complex) * client->output_len, &actually_read, client->client_socket);
-    if (actually_read != 0) {
-        *output = client->output;
-        *output_len = actually_read / sizeof(float complex);
-    } else {
+    memcpy(client->output, client->partial, client->partial_len);
+    int code = tcp_utils_read_data_partially((uint8_t *) client->output + client->partial_len, sizeof(float complex) * client->output_len - client->partial_len, &actually_read, client->client_socket);
+    actually_read += client->partial_len;
+    client->partial_len = actually_read % sizeof(float complex);
+    memcpy(client->partial, (uint8_t *) client->output + actually_read - client->partial_len, client->partial_len);
+    *output_len = actually_read / sizeof(float complex);
+    if (*output_len == 0) {
         *output = NULL;
-        *output_len = 0;
+        return code;
+    }
+    *output = client->output;
+    // timeout happened, but there are samples already received
+    if (code < -1) {
+        return 0;
     }
     return code;
 }
-- 
2.43.0


From 20960815788084499cf3b3549c909e86e7171a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:07 +0000
Subject: [PATCH 26/49] fix: device is leaked or request is freed twice when
 there are no resources for sdr worker

---
 src/sdr_worker.c | 5 +++++
 src/tcp_server.c | 3 ---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index 45489bd..f0934eb 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -55,8 +55,13 @@ static void *sdr_worker_callback(void *arg) {
 }
 
 int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr_worker **worker) {
+    // rx and rx_device are owned by the worker even if it was not created
     struct sdr_worker_t *result = malloc(sizeof(struct sdr_worker_t));
     if (result == NULL) {
+        rx_device->stop_rx(rx_device->plugin);
+        rx_device->destroy(rx_device->plugin);
+        free(rx_device);
+        free(rx);
         return -ENOMEM;
     }
     // init all fields with 0 so that destroy_* method would work
diff --git a/src/tcp_server.c b/src/tcp_server.c
index b67eb47..2258c4a 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -422,7 +422,6 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
             // take id from the first tcp client
             code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
             if (code != 0) {
-                free(rx);
                 return -RESPONSE_DETAILS_INTERNAL_ERROR;
             }
             tcp_worker->sdr = sdr;
@@ -457,7 +456,6 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         sdr_worker *sdr = NULL;
         code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
         if (code != 0) {
-            free(rx);
             return -RESPONSE_DETAILS_INTERNAL_ERROR;
         }
         tcp_worker->sdr = sdr;
@@ -472,7 +470,6 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         sdr_worker *sdr = NULL;
         code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
         if (code != 0) {
-            free(rx);
             return -RESPONSE_DETAILS_INTERNAL_ERROR;
         }
         tcp_worker->sdr = sdr;
-- 
2.43.0


From f0436d4c8a48c84271e330c1f1e4dc9ef2b803cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:42 +0000
Subject: [PATCH 27/49] fix: transmit data longer than 1/8 of the buffer was
 dropped when offset or doppler is requested

---
 src/tcp_server.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 2258c4a..e09f722 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -176,6 +176,16 @@ int validate_rx_request(const struct RxRequest *req, uint32_t client_id, const s
     return 0;
 }
 
+int tcp_server_max_tx_output(const struct TxRequest *req, const struct server_config *config, uint32_t *result) {
+    // each byte has 8 symbols. samples per symbol are the same as in the modulator
+    double max_output = 8.0 * floorf((float) ((double) req->tx_sampling_freq / req->mod_baud_rate)) * config->buffer_size;
+    if (max_output > UINT32_MAX) {
+        return -1;
+    }
+    *result = (uint32_t) max_output;
+    return 0;
+}
+
 void tcp_server_write_response_and_close(int client_socket, ResponseStatus status, uint32_t details) {
     api_utils_write_response(client_socket, status, details);
     close(client_socket);
@@ -384,10 +394,14 @@ int tcp_server_init_tx_device(uint32_t id, struct TxRequest *req, tcp_server *se
             return -RESPONSE_DETAILS_INTERNAL_ERROR;
         }
     } else if (server->server_config->tx_sdr_type == TX_SDR_TYPE_FILE) {
-        int samples_per_symbol = (int) ((double) req->tx_sampling_freq / req->mod_baud_rate);
-        uint32_t max_output_buffer = 8 * samples_per_symbol * server->server_config->buffer_size;
+        uint32_t max_output_buffer = 0;
+        int code = tcp_server_max_tx_output(req, server->server_config, &max_output_buffer);
+        if (code != 0) {
+            fprintf(stderr, "<3>[%d] too many samples per symbol\n", id);
+            return -RESPONSE_DETAILS_INTERNAL_ERROR;
+        }
         // tx offset handled in tx_data
-        int code = file_source_create(id, NULL, req->file_settings->filename, req->tx_sampling_freq, 0, max_output_buffer, output);
+        code = file_source_create(id, NULL, req->file_settings->filename, req->tx_sampling_freq, 0, max_output_buffer, output);
         if (code != 0) {
             fprintf(stderr, "<3>[%d] unable to init file tx\n", id);
             return -RESPONSE_DETAILS_INTERNAL_ERROR;
@@ -539,8 +553,14 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
             return;
         }
     }
-    int samples_per_symbol = (int) ((double) tcp_worker->tx_req->tx_sampling_freq / tcp_worker->tx_req->mod_baud_rate);
-    uint32_t max_output_buffer = samples_per_symbol * server->server_config->buffer_size;
+    uint32_t max_output_buffer = 0;
+    code = tcp_server_max_tx_output(tcp_worker->tx_req, server->server_config, &max_output_buffer);
+    if (code != 0) {
+        fprintf(stderr, "<3>[%d] too many samples per symbol\n", tcp_worker->id);
+        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+        tcp_worker_destroy(tcp_worker);
+        return;
+    }
     if (tcp_worker->tx_req->doppler != NULL) {
         time_t start;
         if (tcp_worker->tx_req->file_settings != NULL) {
-- 
2.43.0


From 2219d874ce2c4b9c732ee6c20a6da5a235d87176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:59 +0000
Subject: [PATCH 28/49] fix: transmit data sent by the receiving client made
 its thread spin forever

---
 src/tcp_server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index e09f722..01ead0f 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -281,7 +281,7 @@ static void *tcp_worker_callback(void *arg) {
         if (header.type == TYPE_SHUTDOWN) {
             fprintf(stdout, "[%d] client requested disconnect\n", id);
             break;
-        } else if (header.type == TYPE_TX_DATA) {
+        } else if (header.type == TYPE_TX_DATA && worker->tx_req != NULL) {
             fprintf(stdout, "[%d] received tx request\n", id);
             handle_tx_data(worker, &header);
         } else {
-- 
2.43.0


From 49f653cad41cf512d321d5ea7efcf2884d8b4d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:13 +0000
Subject: [PATCH 29/49] fix: body of the message which is not supported was
 interpreted as the next messages

---
 src/api_utils.h  |  2 ++
 src/tcp_server.c | 23 +++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/api_utils.h b/src/api_utils.h
index 7309a5d..56e07ac 100644
--- a/src/api_utils.h
+++ b/src/api_utils.h
@@ -5,6 +5,8 @@
 #include "api.h"
 #include "api.pb-c.h"
 
+extern uint32_t MAX_MESSAGE_LENGTH;
+
 int api_utils_read_header(int socket, struct message_header *header);
 
 int api_utils_read_rx_request(int socket, const struct message_header *header, struct RxRequest **request);
diff --git a/src/tcp_server.c b/src/tcp_server.c
index 01ead0f..a7ba1a3 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -17,6 +17,7 @@
 #include "tcp_server.h"
 #include "linked_list.h"
 #include "api_utils.h"
+#include "tcp_utils.h"
 #include "dsp_worker.h"
 #include "sdr_worker.h"
 #include "dsp/gfsk_mod.h"
@@ -191,8 +192,28 @@ void tcp_server_write_response_and_close(int client_socket, ResponseStatus statu
     close(client_socket);
 }
 
+// body of the message which is not supported should not be interpreted as the next message
+void tcp_worker_skip_message(struct tcp_worker *worker, const struct message_header *header) {
+    uint8_t buffer[4096];
+    size_t left = header->message_length;
+    while (left > 0 && worker->is_running) {
+        size_t actually_read = 0;
+        int code = tcp_utils_read_data_partially(buffer, left < sizeof(buffer) ? left : sizeof(buffer), &actually_read, worker->client_socket);
+        left -= actually_read;
+        if (code == -1) {
+            break;
+        }
+    }
+}
+
 void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
     TxData *data = NULL;
+    if (header->message_length > MAX_MESSAGE_LENGTH) {
+        fprintf(stderr, "<3>[%d] tx request is too long: %u\n", worker->id, header->message_length);
+        tcp_worker_skip_message(worker, header);
+        api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INVALID_REQUEST);
+        return;
+    }
     int code = api_utils_read_tx_data(worker->client_socket, header, &data);
     if (code != 0) {
         fprintf(stderr, "<3>[%d] unable to read tx request fully\n", worker->id);
@@ -276,6 +297,7 @@ static void *tcp_worker_callback(void *arg) {
         }
         if (header.protocol_version != PROTOCOL_VERSION) {
             fprintf(stderr, "<3>[%d] unsupported protocol: %d\n", id, header.protocol_version);
+            tcp_worker_skip_message(worker, &header);
             continue;
         }
         if (header.type == TYPE_SHUTDOWN) {
@@ -286,6 +308,7 @@ static void *tcp_worker_callback(void *arg) {
             handle_tx_data(worker, &header);
         } else {
             fprintf(stderr, "<3>[%d] unsupported request: %d\n", id, header.type);
+            tcp_worker_skip_message(worker, &header);
         }
     }
     //terminate dsp_worker if any
-- 
2.43.0


From 109da36050daca2a987956b9557126e69c000005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:14 +0000
Subject: [PATCH 30/49] fix: part of the header received before the timeout was
 lost

---
 src/tcp_server.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index a7ba1a3..64c8cc8 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -283,18 +283,24 @@ static void *tcp_worker_callback(void *arg) {
     struct tcp_worker *worker = (struct tcp_worker *) arg;
     uint32_t id = worker->id;
     fprintf(stdout, "[%d] tcp_worker is starting\n", id);
+    struct message_header header;
+    size_t header_len = 0;
     while (worker->is_running) {
-        struct message_header header;
-        int code = api_utils_read_header(worker->client_socket, &header);
+        size_t actually_read = 0;
+        int code = tcp_utils_read_data_partially((uint8_t *) &header + header_len, sizeof(struct message_header) - header_len, &actually_read, worker->client_socket);
+        header_len += actually_read;
         if (code < -1) {
             // read timeout happened. it's ok.
             // client already sent all information we need
+            // the rest of the header if any will be received later
             continue;
         }
         if (code == -1) {
             fprintf(stdout, "[%d] client disconnected\n", id);
             break;
         }
+        header_len = 0;
+        header.message_length = ntohl(header.message_length);
         if (header.protocol_version != PROTOCOL_VERSION) {
             fprintf(stderr, "<3>[%d] unsupported protocol: %d\n", id, header.protocol_version);
             tcp_worker_skip_message(worker, &header);
-- 
2.43.0


From 20324c876d26b98f308dc98a87af0ca2a5a3a685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:30 +0000
Subject: [PATCH 31/49] fix: source thread waited forever for the client which
 is gone

---
 src/dsp_worker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index 5f39988..2058646 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -101,6 +101,8 @@ static void *dsp_worker_callback(void *arg) {
         }
 
     }
+    // nobody will take the data anymore. do not block the producer
+    interrupt_waiting_the_data(worker->queue);
     printf("[%d] dsp_worker stopped\n", worker->id);
     return (void *) 0;
 }
-- 
2.43.0


From fcfbf3b56a51e64a8916c86c87e5c4375c119946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:30 +0000
Subject: [PATCH 32/49] fix: session was not terminated when its source or dump
 file failed

---
 src/dsp_worker.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index 2058646..4f70385 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -8,6 +8,7 @@
 #include "dsp/doppler.h"
 #include <string.h>
 #include <complex.h>
+#include <sys/socket.h>
 #include "tcp_utils.h"
 #include "api_utils.h"
 
@@ -101,6 +102,8 @@ static void *dsp_worker_callback(void *arg) {
         }
 
     }
+    // nothing will be sent to the client anymore. end its session
+    shutdown(worker->client_socket, SHUT_RDWR);
     // nobody will take the data anymore. do not block the producer
     interrupt_waiting_the_data(worker->queue);
     printf("[%d] dsp_worker stopped\n", worker->id);
-- 
2.43.0


From 886142115cc1852309da97b81cbb9473dbed232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:30 +0000
Subject: [PATCH 33/49] fix: client could share the source which was already
 terminated

---
 src/sdr_worker.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index f0934eb..40f90e3 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -15,6 +15,7 @@ struct sdr_worker_t {
     linked_list *dsp_configs;
     pthread_t sdr_thread;
     pthread_mutex_t mutex;
+    bool running;
 };
 
 struct array_t {
@@ -49,6 +50,7 @@ static void *sdr_worker_callback(void *arg) {
     //this would close all client sockets
     //and initiate cascade shutdown of sdr and dsp workers
     pthread_mutex_lock(&worker->mutex);
+    worker->running = false;
     linked_list_foreach(NULL, &dsp_worker_shutdown, worker->dsp_configs);
     pthread_mutex_unlock(&worker->mutex);
     return (void *) 0;
@@ -72,6 +74,7 @@ int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr
     result->rx = rx;
     result->mutex = (pthread_mutex_t) PTHREAD_MUTEX_INITIALIZER;
     result->rx_device = rx_device;
+    result->running = true;
 
     pthread_t sdr_thread;
     int code = pthread_create(&sdr_thread, NULL, &sdr_worker_callback, result);
@@ -91,6 +94,13 @@ bool sdr_worker_find_closest(void *id, void *data) {
     }
     struct sdr_rx *rx = (struct sdr_rx *) id;
     sdr_worker *worker = (sdr_worker *) data;
+    pthread_mutex_lock(&worker->mutex);
+    bool running = worker->running;
+    pthread_mutex_unlock(&worker->mutex);
+    // there will be no data anymore
+    if (!running) {
+        return false;
+    }
     if (worker->rx->rx_center_freq == rx->rx_center_freq &&
         worker->rx->rx_sampling_freq == rx->rx_sampling_freq &&
         worker->rx->rx_offset == rx->rx_offset) {
@@ -146,7 +156,10 @@ void sdr_worker_destroy(void *data) {
 
 int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr) {
     pthread_mutex_lock(&sdr->mutex);
-    int code = linked_list_add(worker, &dsp_worker_destroy, &sdr->dsp_configs);
+    int code = -1;
+    if (sdr->running) {
+        code = linked_list_add(worker, &dsp_worker_destroy, &sdr->dsp_configs);
+    }
     pthread_mutex_unlock(&sdr->mutex);
     return code;
 }
\ No newline at end of file
-- 
2.43.0


From b6ec6e105ee865e9e8f3dd3b1286cc0f2277cd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:22 +0000
Subject: [PATCH 34/49] fix: client's thread raced with set-up of its session
 and with other clients

Client's thread was started before the session was ready: disconnect at that
moment left dsp and sdr workers running forever with the closed socket, failed
session closed the socket twice, soft bits were sent before the response,
samples read before the client was added were lost. Sdr worker was destroyed
while other client could be searching for it.
---
 src/sdr_worker.c |  33 +++++++------
 src/sdr_worker.h |  10 +++-
 src/tcp_server.c | 122 +++++++++++++++++++++++++++++------------------
 3 files changed, 102 insertions(+), 63 deletions(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index 40f90e3..16e98ed 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -76,9 +76,11 @@ int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr
     result->rx_device = rx_device;
     result->running = true;
 
+    sdr_worker_suspend(result);
     pthread_t sdr_thread;
     int code = pthread_create(&sdr_thread, NULL, &sdr_worker_callback, result);
     if (code != 0) {
+        sdr_worker_resume(result);
         sdr_worker_destroy(result);
         return code;
     }
@@ -109,19 +111,12 @@ bool sdr_worker_find_closest(void *id, void *data) {
     return false;
 }
 
-void sdr_worker_destroy_by_dsp_worker_id(uint32_t id, sdr_worker *worker) {
-    if (worker == NULL) {
-        return;
-    }
+bool sdr_worker_remove_dsp_worker(uint32_t id, sdr_worker *worker) {
     pthread_mutex_lock(&worker->mutex);
-    if (worker->dsp_configs != NULL) {
-        linked_list_destroy_by_id(&id, &dsp_worker_find_by_id, &worker->dsp_configs);
-    }
+    linked_list_remove_by_id(&id, &dsp_worker_find_by_id, &worker->dsp_configs);
     bool result = (worker->dsp_configs == NULL);
     pthread_mutex_unlock(&worker->mutex);
-    if (result) {
-        sdr_worker_destroy(worker);
-    }
+    return result;
 }
 
 void sdr_worker_destroy(void *data) {
@@ -154,12 +149,20 @@ void sdr_worker_destroy(void *data) {
     fprintf(stdout, "[%d] sdr_worker stopped\n", id);
 }
 
-int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr) {
+void sdr_worker_suspend(sdr_worker *sdr) {
     pthread_mutex_lock(&sdr->mutex);
-    int code = -1;
-    if (sdr->running) {
-        code = linked_list_add(worker, &dsp_worker_destroy, &sdr->dsp_configs);
+}
+
+void sdr_worker_resume(sdr_worker *sdr) {
+    if (sdr == NULL) {
+        return;
     }
     pthread_mutex_unlock(&sdr->mutex);
-    return code;
+}
+
+int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr) {
+    if (!sdr->running) {
+        return -1;
+    }
+    return linked_list_add(worker, &dsp_worker_destroy, &sdr->dsp_configs);
 }
\ No newline at end of file
diff --git a/src/sdr_worker.h b/src/sdr_worker.h
index 30d0275..4d331fb 100644
--- a/src/sdr_worker.h
+++ b/src/sdr_worker.h
@@ -12,10 +12,18 @@ void sdr_worker_destroy(void *data);
 
 bool sdr_worker_find_closest(void *id, void *data);
 
-void sdr_worker_destroy_by_dsp_worker_id(uint32_t id, sdr_worker *sdr);
+// returns true if there are no more dsp workers
+bool sdr_worker_remove_dsp_worker(uint32_t id, sdr_worker *sdr);
 
+// no data is sent to dsp workers until resumed
+void sdr_worker_suspend(sdr_worker *sdr);
+
+void sdr_worker_resume(sdr_worker *sdr);
+
+// sdr should be suspended
 int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr);
 
+// created suspended
 int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr_worker **result);
 
 #endif //SDR_MODEM_SDR_WORKER_H
diff --git a/src/tcp_server.c b/src/tcp_server.c
index 64c8cc8..be45bf5 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -41,8 +41,10 @@ struct tcp_worker {
     atomic_bool is_running;
 
     pthread_t client_thread;
+    bool client_thread_started;
     tcp_server *server;
     sdr_worker *sdr;
+    dsp_worker *dsp;
 
     uint32_t buffer_size;
     uint8_t *buffer;
@@ -279,10 +281,34 @@ void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
     tx_data__free_unpacked(data, NULL);
 }
 
+//terminate dsp_worker if any
+//terminate sdr_worker if no more dsp_workers there
+void tcp_worker_release_rx(struct tcp_worker *worker) {
+    if (worker->dsp == NULL) {
+        return;
+    }
+    // sdr_worker might be waiting until this client takes the data
+    dsp_worker_shutdown(NULL, worker->dsp);
+    // other clients might be searching for sdr_worker to share
+    pthread_mutex_lock(&worker->server->mutex);
+    sdr_worker *unused = NULL;
+    if (worker->sdr != NULL && sdr_worker_remove_dsp_worker(worker->id, worker->sdr)) {
+        unused = worker->sdr;
+    }
+    worker->sdr = NULL;
+    pthread_mutex_unlock(&worker->server->mutex);
+    dsp_worker_destroy(worker->dsp);
+    worker->dsp = NULL;
+    sdr_worker_destroy(unused);
+}
+
 static void *tcp_worker_callback(void *arg) {
     struct tcp_worker *worker = (struct tcp_worker *) arg;
     uint32_t id = worker->id;
     fprintf(stdout, "[%d] tcp_worker is starting\n", id);
+    // wait until the response is sent
+    pthread_mutex_lock(&worker->server->mutex);
+    pthread_mutex_unlock(&worker->server->mutex);
     struct message_header header;
     size_t header_len = 0;
     while (worker->is_running) {
@@ -317,13 +343,12 @@ static void *tcp_worker_callback(void *arg) {
             tcp_worker_skip_message(worker, &header);
         }
     }
-    //terminate dsp_worker if any
-    //terminate sdr_worker if no more dsp_workers there
-    sdr_worker_destroy_by_dsp_worker_id(worker->id, worker->sdr);
+    tcp_worker_release_rx(worker);
     //terminate tx device if any
     if (worker->tx_device != NULL) {
         worker->tx_device->destroy(worker->tx_device->plugin);
         free(worker->tx_device);
+        worker->tx_device = NULL;
     }
     close(worker->client_socket);
 
@@ -361,7 +386,15 @@ void tcp_worker_destroy(void *data) {
     struct tcp_worker *worker = (struct tcp_worker *) data;
     fprintf(stdout, "[%d] tcp_worker is stopping\n", worker->id);
     worker->is_running = false;
-    pthread_join(worker->client_thread, NULL);
+    if (worker->client_thread_started) {
+        pthread_join(worker->client_thread, NULL);
+    }
+    // still there if the client was not accepted
+    tcp_worker_release_rx(worker);
+    if (worker->tx_device != NULL) {
+        worker->tx_device->destroy(worker->tx_device->plugin);
+        free(worker->tx_device);
+    }
     if (worker->rx_req != NULL) {
         rx_request__free_unpacked(worker->rx_req, NULL);
     }
@@ -388,6 +421,10 @@ void tcp_worker_destroy(void *data) {
     fprintf(stdout, "[%d] tcp_worker stopped\n", id);
 }
 
+bool tcp_worker_is_same(void *id, void *data) {
+    return id == data;
+}
+
 void cleanup_terminated_threads(tcp_server *server) {
     pthread_mutex_lock(&server->mutex);
     linked_list_destroy_by_selector(&tcp_worker_is_stopped, &server->tcp_workers);
@@ -444,7 +481,7 @@ int tcp_server_init_tx_device(uint32_t id, struct TxRequest *req, tcp_server *se
     return 0;
 }
 
-int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct tcp_worker *tcp_worker) {
+int tcp_server_init_rx_device(tcp_server *server, struct tcp_worker *tcp_worker) {
     struct sdr_rx *rx = NULL;
     int code = tcp_worker_convert(tcp_worker->rx_req, &rx);
     if (code != 0) {
@@ -470,6 +507,7 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
             tcp_worker->sdr = sdr;
         } else {
             tcp_worker->sdr = closest->sdr;
+            sdr_worker_suspend(tcp_worker->sdr);
             free(rx);
         }
     } else if (server->server_config->rx_sdr_type == RX_SDR_TYPE_PLUTOSDR) {
@@ -522,17 +560,28 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         return -1;
     }
 
-    code = sdr_worker_add_dsp_worker(dsp_worker, tcp_worker->sdr);
+    code = sdr_worker_add_dsp_worker(tcp_worker->dsp, tcp_worker->sdr);
     if (code != 0) {
         return -RESPONSE_DETAILS_INTERNAL_ERROR;
     }
+    return 0;
+}
 
-    code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
+// everything should be ready by the time client's thread is started
+// server->mutex should be locked. It holds the client's thread until the response is sent
+int tcp_server_start_client(struct tcp_worker *tcp_worker, tcp_server *server) {
+    int code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
     if (code != 0) {
         return -RESPONSE_DETAILS_INTERNAL_ERROR;
     }
-
-    server->rx_initialized = true;
+    tcp_worker->is_running = true;
+    code = pthread_create(&tcp_worker->client_thread, NULL, &tcp_worker_callback, tcp_worker);
+    if (code != 0) {
+        linked_list_remove_by_id(tcp_worker, &tcp_worker_is_same, &server->tcp_workers);
+        return -RESPONSE_DETAILS_INTERNAL_ERROR;
+    }
+    tcp_worker->client_thread_started = true;
+    api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
     return 0;
 }
 
@@ -628,36 +677,20 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
             return;
         }
     }
+    pthread_mutex_lock(&server->mutex);
     if (server->server_config->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR || server->server_config->tx_sdr_type == TX_SDR_TYPE_FILE) {
-        pthread_mutex_lock(&server->mutex);
         code = tcp_server_init_tx_device(tcp_worker->id, tcp_worker->tx_req, server, &tcp_worker->tx_device);
-        pthread_mutex_unlock(&server->mutex);
-        if (code < 0) {
-            tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, -code);
-            tcp_worker_destroy(tcp_worker);
-            return;
-        }
     }
-
-    tcp_worker->is_running = true;
-
-    pthread_t client_thread;
-    code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
-    if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
-        tcp_worker_destroy(tcp_worker);
-        return;
+    if (code == 0) {
+        code = tcp_server_start_client(tcp_worker, server);
     }
-    tcp_worker->client_thread = client_thread;
-
-    code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
+    pthread_mutex_unlock(&server->mutex);
     if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, -code);
         tcp_worker_destroy(tcp_worker);
         return;
     }
 
-    api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
     fprintf(stdout, "[%d] mod: %s, tx freq: %" PRIu64 ", tx offset: %" PRId64 ", tx sampling_rate: %" PRIu64 ", baud: %d\n", tcp_worker->id, protobuf_c_enum_descriptor_get_value(&modem_type__descriptor, tcp_worker->tx_req->mod_type)->name, tcp_worker->tx_req->tx_center_freq,
             tcp_worker->tx_req->tx_offset,
             tcp_worker->tx_req->tx_sampling_freq,
@@ -698,19 +731,7 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
         return;
     }
 
-    tcp_worker->is_running = true;
-
-    pthread_t client_thread;
-    int code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
-    if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
-        tcp_worker_destroy(tcp_worker);
-        return;
-    }
-    tcp_worker->client_thread = client_thread;
-
-    dsp_worker *dsp_worker = NULL;
-    code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &dsp_worker);
+    int code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &tcp_worker->dsp);
     if (code != 0) {
         tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
         tcp_worker_destroy(tcp_worker);
@@ -718,17 +739,24 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
     }
 
     pthread_mutex_lock(&server->mutex);
-    code = tcp_server_init_rx_device(dsp_worker, server, tcp_worker);
+    code = tcp_server_init_rx_device(server, tcp_worker);
+    if (code == 0) {
+        code = tcp_server_start_client(tcp_worker, server);
+    }
+    if (code == 0) {
+        server->rx_initialized = true;
+    }
+    // nothing is sent to the client before the response
+    sdr_worker_resume(tcp_worker->sdr);
     pthread_mutex_unlock(&server->mutex);
     if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, -code);
+        api_utils_write_response(client_socket, RESPONSE_STATUS__FAILURE, -code);
         // this will trigger sdr_worker destroy if any
         tcp_worker_destroy(tcp_worker);
-        dsp_worker_destroy(dsp_worker);
+        close(client_socket);
         return;
     }
 
-    api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
     fprintf(stdout, "[%d] demod: %s, rx freq: %" PRIu64 ", rx offset: %" PRId64 ", rx sampling_rate: %" PRIu64 ", baud: %d, destination: %s doppler: %d\n", tcp_worker->id,
             protobuf_c_enum_descriptor_get_value(&modem_type__descriptor, tcp_worker->rx_req->demod_type)->name, tcp_worker->rx_req->rx_center_freq, tcp_worker->rx_req->rx_offset,
             tcp_worker->rx_req->rx_sampling_freq, tcp_worker->rx_req->demod_baud_rate, protobuf_c_enum_descriptor_get_value(&demod_destination__descriptor, tcp_worker->rx_req->demod_destination)->name, tcp_worker->rx_req->doppler != NULL);
-- 
2.43.0


From 5154a30bd185addc27ece0fd4ce86dfd9a9dcea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:22 +0000
Subject: [PATCH 35/49] fix: device is reported as being used right after its
 client was disconnected

---
 src/tcp_server.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index be45bf5..c1fd1ed 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -350,9 +350,11 @@ static void *tcp_worker_callback(void *arg) {
         free(worker->tx_device);
         worker->tx_device = NULL;
     }
-    close(worker->client_socket);
-
+    // client might re-connect immediately after its socket is closed
+    // everything should be marked as released before that
+    int client_socket = worker->client_socket;
     worker->is_running = false;
+    close(client_socket);
     return (void *) 0;
 }
 
-- 
2.43.0


From 81670530a95176005f6285a6eab433cb38e82416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:22 +0000
Subject: [PATCH 36/49] fix: client which doesn't read its soft bits blocked
 termination of the session and the server

---
 src/dsp_worker.c | 23 +++++++++++++++++++++--
 src/tcp_server.c |  6 ++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index 4f70385..13b768c 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -1,6 +1,8 @@
 #include "dsp_worker.h"
 #include <stdio.h>
 #include <pthread.h>
+#include <stdatomic.h>
+#include <unistd.h>
 #include <errno.h>
 #include "dsp/fsk_demod.h"
 #include "queue.h"
@@ -9,7 +11,6 @@
 #include <string.h>
 #include <complex.h>
 #include <sys/socket.h>
-#include "tcp_utils.h"
 #include "api_utils.h"
 
 struct dsp_worker_t {
@@ -22,6 +23,7 @@ struct dsp_worker_t {
     FILE *rx_dump_file;
     FILE *demod_file;
     DemodDestination demod_destination;
+    atomic_bool stopping;
 };
 
 bool dsp_worker_find_by_id(void *id, void *data) {
@@ -42,6 +44,22 @@ void dsp_worker_shutdown(void *arg, void *data) {
     interrupt_waiting_the_data(worker->queue);
 }
 
+static int dsp_worker_send(const uint8_t *buffer, size_t len, dsp_worker *worker) {
+    size_t left = len;
+    while (left > 0) {
+        ssize_t written = write(worker->client_socket, buffer + (len - left), left);
+        if (written < 0) {
+            // client can be slow, but it should not block termination
+            if ((errno == EAGAIN || errno == EWOULDBLOCK) && !worker->stopping) {
+                continue;
+            }
+            return -1;
+        }
+        left -= written;
+    }
+    return 0;
+}
+
 static void *dsp_worker_callback(void *arg) {
     dsp_worker *worker = (dsp_worker *) arg;
     uint32_t id = worker->id;
@@ -92,7 +110,7 @@ static void *dsp_worker_callback(void *arg) {
         }
         int code = 0;
         if (worker->demod_destination == DEMOD_DESTINATION__SOCKET || worker->demod_destination == DEMOD_DESTINATION__BOTH) {
-            code = tcp_utils_write_data((uint8_t *) demod_output, demod_output_len, worker->client_socket);
+            code = dsp_worker_send((const uint8_t *) demod_output, demod_output_len, worker);
         }
 
         complete_buffer_processing(worker->queue);
@@ -207,6 +225,7 @@ void dsp_worker_destroy(void *data) {
     }
     dsp_worker *worker = (dsp_worker *) data;
     fprintf(stdout, "[%d] dsp_worker is stopping\n", worker->id);
+    worker->stopping = true;
     if (worker->queue != NULL) {
         interrupt_waiting_the_data(worker->queue);
     }
diff --git a/src/tcp_server.c b/src/tcp_server.c
index c1fd1ed..b34f430 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -782,6 +782,12 @@ static void *acceptor_worker(void *arg) {
             perror("setsockopt - SO_RCVTIMEO");
             continue;
         }
+        // client that doesn't read should not block termination
+        if (setsockopt(client_socket, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv)) {
+            close(client_socket);
+            perror("setsockopt - SO_SNDTIMEO");
+            continue;
+        }
 
         // always increment counter to make even error messages traceable
         server->client_counter++;
-- 
2.43.0


From 6cd93170d6f36e15d390fecec770724bfafa84a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:02 +0000
Subject: [PATCH 37/49] fix: server terminated itself when it ran out of file
 descriptors

---
 src/tcp_server.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index b34f430..55e0897 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -771,6 +771,19 @@ static void *acceptor_worker(void *arg) {
         int client_socket;
         int addrlen = sizeof(address);
         if ((client_socket = accept(server->server_socket, (struct sockaddr *) &address, (socklen_t *) &addrlen)) < 0) {
+            if (!server->is_running) {
+                break;
+            }
+            if (errno == EINTR || errno == ECONNABORTED) {
+                continue;
+            }
+            if (errno == EMFILE || errno == ENFILE || errno == ENOBUFS || errno == ENOMEM) {
+                perror("unable to accept new client");
+                // release terminated clients and wait until there are enough resources
+                cleanup_terminated_threads(server);
+                sleep(1);
+                continue;
+            }
             break;
         }
 
-- 
2.43.0


From 7bb444bfebe2d94298db5d4db69579e9ac4b006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:02 +0000
Subject: [PATCH 38/49] fix: listening socket is leaked when the server was not
 started

---
 src/tcp_server.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 55e0897..4d41651 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -856,7 +856,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     result->tcp_workers = NULL;
 
     int server_socket = socket(AF_INET, SOCK_STREAM, 0);
-    if (server_socket == 0) {
+    if (server_socket < 0) {
         free(result);
         perror("socket creation failed");
         return -1;
@@ -870,15 +870,17 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     result->client_counter = -1;
     int opt = 1;
     if (setsockopt(server_socket, SOL_SOCKET, SO_REUSEADDR, &opt, sizeof(opt))) {
-        free(result);
         perror("setsockopt - SO_REUSEADDR");
+        close(server_socket);
+        free(result);
         return -1;
     }
 
 #ifdef SO_REUSEPORT
     if (setsockopt(server_socket, SOL_SOCKET, SO_REUSEPORT, &opt, sizeof(opt))) {
-        free(result);
         perror("setsockopt - SO_REUSEPORT");
+        close(server_socket);
+        free(result);
         return -1;
     }
 #endif
@@ -886,26 +888,30 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     struct sockaddr_in address;
     address.sin_family = AF_INET;
     if (inet_pton(AF_INET, config->bind_address, &address.sin_addr) <= 0) {
-        free(result);
         fprintf(stderr, "invalid address: %s\n", config->bind_address);
+        close(server_socket);
+        free(result);
         return -1;
     }
     address.sin_port = htons(config->port);
 
     if (bind(server_socket, (struct sockaddr *) &address, sizeof(address)) < 0) {
-        free(result);
         perror("bind failed");
+        close(server_socket);
+        free(result);
         return -1;
     }
     if (listen(server_socket, 3) < 0) {
-        free(result);
         perror("listen failed");
+        close(server_socket);
+        free(result);
         return -1;
     }
 
     pthread_t acceptor_thread;
     int code = pthread_create(&acceptor_thread, NULL, &acceptor_worker, result);
     if (code != 0) {
+        close(server_socket);
         free(result);
         return -1;
     }
-- 
2.43.0


From fe96c74af39bc72156c0ca5798875d69e792c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:52 +0000
Subject: [PATCH 39/49] fix: client saw the end of its session before its files
 and device were released

---
 src/dsp_worker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index 13b768c..930b0c6 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -121,7 +121,8 @@ static void *dsp_worker_callback(void *arg) {
 
     }
     // nothing will be sent to the client anymore. end its session
-    shutdown(worker->client_socket, SHUT_RDWR);
+    // the socket is closed by the client thread when everything is released
+    shutdown(worker->client_socket, SHUT_RD);
     // nobody will take the data anymore. do not block the producer
     interrupt_waiting_the_data(worker->queue);
     printf("[%d] dsp_worker stopped\n", worker->id);
-- 
2.43.0


From c8ceb5f710a9fa99e65e81761c59cda7e5fb3c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:55:39 +0000
Subject: [PATCH 40/49] fix: modulator with many samples per symbol took hours
 to create

---
 src/dsp/gfsk_mod.c | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/dsp/gfsk_mod.c b/src/dsp/gfsk_mod.c
index 3bccdd9..d12ee81 100644
--- a/src/dsp/gfsk_mod.c
+++ b/src/dsp/gfsk_mod.c
@@ -41,6 +41,30 @@ int gfsk_mod_convolve(float *x, size_t x_len, float *y, size_t y_len, float **ou
     return 0;
 }
 
+// same as convolution with the square wave of 1.0, however doesn't depend on its length
+// number of samples per symbol comes from the client and might be huge
+static int gfsk_mod_convolve_square(const float *x, size_t x_len, size_t square_len, float **out, size_t *out_len) {
+    size_t result_len = x_len + square_len - 1;
+    float *result = malloc(sizeof(float) * result_len);
+    if (result == NULL) {
+        return -ENOMEM;
+    }
+    double sum = 0.0;
+    for (size_t i = 0; i < result_len; i++) {
+        if (i < x_len) {
+            sum += x[i];
+        }
+        if (i >= square_len) {
+            sum -= x[i - square_len];
+        }
+        result[i] = (float) sum;
+    }
+
+    *out = result;
+    *out_len = result_len;
+    return 0;
+}
+
 int gfsk_mod_create(float samples_per_symbol, float sensitivity, float bt, uint32_t max_input_buffer_length, gfsk_mod **mod) {
     if (!(samples_per_symbol >= 1.0F)) {
         fprintf(stderr, "<3>samples per symbol should be at least 1: %f\n", samples_per_symbol);
@@ -66,22 +90,10 @@ int gfsk_mod_create(float samples_per_symbol, float sensitivity, float bt, uint3
         gfsk_mod_destroy(result);
         return code;
     }
-    size_t square_wave_len = (int) samples_per_symbol;
-    float *square_wave = malloc(sizeof(float) * square_wave_len);
-    if (square_wave == NULL) {
-        free(gaussian_taps);
-        gfsk_mod_destroy(result);
-        return -ENOMEM;
-    }
-    for (size_t i = 0; i < square_wave_len; i++) {
-        square_wave[i] = 1.0F;
-    }
-
     float *taps = NULL;
     size_t taps_len = 0;
-    code = gfsk_mod_convolve(gaussian_taps, gaussian_taps_len, square_wave, square_wave_len, &taps, &taps_len);
+    code = gfsk_mod_convolve_square(gaussian_taps, gaussian_taps_len, (int) samples_per_symbol, &taps, &taps_len);
     free(gaussian_taps);
-    free(square_wave);
     if (code != 0) {
         gfsk_mod_destroy(result);
         return code;
-- 
2.43.0


From 5119bbbf6acbaf111e79d9cc382557ba55ae297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:10:26 +0000
Subject: [PATCH 41/49] fix: connection to sdr server was closed while it is
 still read and its descriptor might be reused

---
 src/sdr/sdr_server_client.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index 2df3161..c18cdb7 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -30,6 +30,7 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     *result = (struct sdr_server_client_t) {0};
 
     result->id = id;
+    result->client_socket = -1;
     result->output_len = max_output_buffer_length;
     result->output = malloc(sizeof(float complex) * result->output_len);
     if (result->output == NULL) {
@@ -49,7 +50,6 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     tv.tv_sec = read_timeout_seconds;
     tv.tv_usec = 0;
     if (setsockopt(client_socket, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv)) {
-        close(client_socket);
         perror("setsockopt - SO_RCVTIMEO");
         sdr_server_client_destroy(result);
         return -1;
@@ -61,7 +61,6 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     address.sin_port = htons(port);
     int code = connect(client_socket, (struct sockaddr *) &address, sizeof(address));
     if (code != 0) {
-        close(client_socket);
         fprintf(stderr, "<3>[%d] connection with sdr server failed: %d\n", result->id, code);
         sdr_server_client_destroy(result);
         return -1;
@@ -94,13 +93,11 @@ int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int por
     code = sdr_server_client_request(req, &response, client);
     if (code != 0) {
         fprintf(stderr, "<3>[%d] unable to send request to sdr server\n", id);
-        close(client->client_socket);
         sdr_server_client_destroy(client);
         return code;
     }
     if (response->status != SDR_SERVER_RESPONSE_STATUS_SUCCESS) {
         fprintf(stderr, "<3>[%d] request to sdr server rejected: %d\n", id, response->details);
-        close(client->client_socket);
         sdr_server_client_destroy(client);
         free(response);
         return -1;
@@ -109,7 +106,6 @@ int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int por
 
     struct sdr_device_t *result = malloc(sizeof(struct sdr_device_t));
     if (result == NULL) {
-        close(client->client_socket);
         sdr_server_client_destroy(client);
         return -ENOMEM;
     }
@@ -227,7 +223,9 @@ void sdr_server_client_stop(void *plugin) {
         }
     }
     fprintf(stdout, "[%d] disconnected from sdr server..\n", client->id);
-    close(client->client_socket);
+    // the stream might still be read. only wake up the reader here
+    // otherwise it might read from another connection with the same descriptor
+    shutdown(client->client_socket, SHUT_RDWR);
 }
 
 void sdr_server_client_destroy(void *plugin) {
@@ -238,6 +236,9 @@ void sdr_server_client_destroy(void *plugin) {
     if (client->output != NULL) {
         free(client->output);
     }
+    if (client->client_socket >= 0) {
+        close(client->client_socket);
+    }
     free(client);
 }
 
-- 
2.43.0


From 4dd9d6b476cbb946ca45edc28988c74c8652ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:46:39 +0000
Subject: [PATCH 42/49] fix: termination signal received during the start was
 lost or crashed the server

---
 src/main.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 7f44c7a..c9d1ac7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1,6 +1,8 @@
+#define _POSIX_C_SOURCE 200809L // sigset_t, pthread_sigmask
 #include <stdio.h>
 #include <stdlib.h>
 #include <signal.h>
+#include <pthread.h>
 
 #include "server_config.h"
 #include "tcp_server.h"
@@ -25,6 +27,15 @@ int main(int argc, char **argv) {
 		exit(EXIT_FAILURE);
 	}
 
+	// signal received during the start should stop the server as well
+	sigset_t stop_signals;
+	sigset_t previous_signals;
+	sigemptyset(&stop_signals);
+	sigaddset(&stop_signals, SIGINT);
+	sigaddset(&stop_signals, SIGHUP);
+	sigaddset(&stop_signals, SIGTERM);
+	pthread_sigmask(SIG_BLOCK, &stop_signals, &previous_signals);
+
 	signal(SIGINT, sdrmodem_stop_async);
 	signal(SIGHUP, sdrmodem_stop_async);
 	signal(SIGTERM, sdrmodem_stop_async);
@@ -36,8 +47,12 @@ int main(int argc, char **argv) {
 		exit(EXIT_FAILURE);
 	}
 
+	// "server" is reset when the signal is received
+	tcp_server *current = server;
+	pthread_sigmask(SIG_SETMASK, &previous_signals, NULL);
+
 	// wait here until server terminates
-	tcp_server_join_thread(server);
+	tcp_server_join_thread(current);
 
 	// server will be freed on its own thread
 	server_config_destroy(server_config);
-- 
2.43.0


From df6c278e75e83693403a2f15482eddadf7dc58b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:43:43 +0000
Subject: [PATCH 43/49] fix: client which was not accepted received demodulated
 data along with the failure

---
 src/sdr_worker.c | 7 +++++++
 src/sdr_worker.h | 3 +++
 src/tcp_server.c | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index 16e98ed..de78321 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -119,6 +119,13 @@ bool sdr_worker_remove_dsp_worker(uint32_t id, sdr_worker *worker) {
     return result;
 }
 
+void sdr_worker_cancel_dsp_worker(uint32_t id, sdr_worker *sdr) {
+    if (sdr == NULL) {
+        return;
+    }
+    linked_list_remove_by_id(&id, &dsp_worker_find_by_id, &sdr->dsp_configs);
+}
+
 void sdr_worker_destroy(void *data) {
     if (data == NULL) {
         return;
diff --git a/src/sdr_worker.h b/src/sdr_worker.h
index 4d331fb..2524499 100644
--- a/src/sdr_worker.h
+++ b/src/sdr_worker.h
@@ -23,6 +23,9 @@ void sdr_worker_resume(sdr_worker *sdr);
 // sdr should be suspended
 int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr);
 
+// sdr should be suspended. the worker will not receive the data
+void sdr_worker_cancel_dsp_worker(uint32_t id, sdr_worker *sdr);
+
 // created suspended
 int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr_worker **result);
 
diff --git a/src/tcp_server.c b/src/tcp_server.c
index 4d41651..b672790 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -747,6 +747,9 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
     }
     if (code == 0) {
         server->rx_initialized = true;
+    } else {
+        // only the response is sent to the client which was not accepted
+        sdr_worker_cancel_dsp_worker(tcp_worker->id, tcp_worker->sdr);
     }
     // nothing is sent to the client before the response
     sdr_worker_resume(tcp_worker->sdr);
-- 
2.43.0


From a4491015d15c6eb322d0a566bfa415ac4887c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:50:58 +0000
Subject: [PATCH 44/49] fix: client waited forever for the response when there
 was no memory

---
 src/api_utils.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/api_utils.c b/src/api_utils.c
index 2345f9d..df17b69 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -86,8 +86,11 @@ int api_utils_write_response(int socket, ResponseStatus status, uint32_t details
     response.status = status;
     response.details = details;
 
+    // the response should be sent even if there is no memory left
+    // 2 fields with the tags and the longest possible values
+    uint8_t buffer[sizeof(struct message_header) + 22];
     size_t len = response__get_packed_size(&response);
-    if (len > UINT32_MAX) {
+    if (len > sizeof(buffer) - sizeof(struct message_header)) {
         return -1;
     }
 
@@ -97,16 +100,10 @@ int api_utils_write_response(int socket, ResponseStatus status, uint32_t details
     header.message_length = htonl((uint32_t) len);
 
     size_t buffer_len = sizeof(struct message_header) + sizeof(uint8_t) * len;
-    uint8_t *buffer = malloc(buffer_len);
-    if (buffer == NULL) {
-        return -ENOMEM;
-    }
     memcpy(buffer, &header, sizeof(struct message_header));
     response__pack(&response, buffer + sizeof(struct message_header));
 
-    int code = tcp_utils_write_data(buffer, buffer_len, socket);
-    free(buffer);
-    return code;
+    return tcp_utils_write_data(buffer, buffer_len, socket);
 }
 
 void api_utils_convert_tle(char **tle, char (*output)[80]) {
-- 
2.43.0


From 165bfaada418609947704f010e7c80af15184a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:01:22 +0000
Subject: [PATCH 45/49] fix: data was interpreted as the next messages when
 there was no memory to read it

---
 src/tcp_server.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index b672790..5e64764 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -219,6 +219,9 @@ void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
     int code = api_utils_read_tx_data(worker->client_socket, header, &data);
     if (code != 0) {
         fprintf(stderr, "<3>[%d] unable to read tx request fully\n", worker->id);
+        if (code == -ENOMEM) {
+            tcp_worker_skip_message(worker, header);
+        }
         api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INVALID_REQUEST);
         return;
     }
-- 
2.43.0


From 332f8d8ff4332a490808692da9d23c785cc77e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:39:23 +0000
Subject: [PATCH 46/49] fix: interrupted socket write is repeated instead of
 ending the session

A stopped and continued process gets EINTR from a blocked write once SO_SNDTIMEO is set.
The client lost its session. Reading already repeats interrupted calls.
---
 src/dsp_worker.c | 2 +-
 src/tcp_utils.c  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index 930b0c6..1d309f0 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -50,7 +50,7 @@ static int dsp_worker_send(const uint8_t *buffer, size_t len, dsp_worker *worker
         ssize_t written = write(worker->client_socket, buffer + (len - left), left);
         if (written < 0) {
             // client can be slow, but it should not block termination
-            if ((errno == EAGAIN || errno == EWOULDBLOCK) && !worker->stopping) {
+            if ((errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR) && !worker->stopping) {
                 continue;
             }
             return -1;
diff --git a/src/tcp_utils.c b/src/tcp_utils.c
index 6fee683..063a910 100644
--- a/src/tcp_utils.c
+++ b/src/tcp_utils.c
@@ -9,6 +9,9 @@ int tcp_utils_write_data(uint8_t *buffer, size_t total_len_bytes, int client_soc
     while (left > 0) {
         ssize_t written = write(client_socket, buffer + (total_len_bytes - left), left);
         if (written < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
             return -1;
         }
         left -= written;
-- 
2.43.0


From f1c67ef1d85f722a1b40b5e2538e7c10eb751118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:07:08 +0000
Subject: [PATCH 47/49] fix: repeated termination signal does not kill the
 server while it is stopping

signal() under -std=c99 has System V semantics: the handler is reset once it
is called, so the second signal ended the process in the middle of the
shutdown.
---
 src/main.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index c9d1ac7..d4a59f8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -36,9 +36,14 @@ int main(int argc, char **argv) {
 	sigaddset(&stop_signals, SIGTERM);
 	pthread_sigmask(SIG_BLOCK, &stop_signals, &previous_signals);
 
-	signal(SIGINT, sdrmodem_stop_async);
-	signal(SIGHUP, sdrmodem_stop_async);
-	signal(SIGTERM, sdrmodem_stop_async);
+	// signal() resets the handler after the first signal, the next one would kill the server while it is stopping
+	struct sigaction stop_action = { 0 };
+	stop_action.sa_handler = sdrmodem_stop_async;
+	stop_action.sa_mask = stop_signals;
+	stop_action.sa_flags = SA_RESTART;
+	sigaction(SIGINT, &stop_action, NULL);
+	sigaction(SIGHUP, &stop_action, NULL);
+	sigaction(SIGTERM, &stop_action, NULL);
     signal(SIGPIPE, SIG_IGN);
 
 	code = tcp_server_create(server_config, &server);
-- 
2.43.0


From 9dceb3bfa9ce6b12fac6a55bc4670f1395716ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:32:05 +0000
Subject: [PATCH 48/49] fix: client which was not accepted does not release
 sdr_worker of other clients

The client could not join the stream which was ending, but kept the reference
to its sdr_worker. Both the last client of the stream and the client which was
not accepted destroyed it.
---
 src/sdr_worker.c |  5 +++--
 src/sdr_worker.h |  3 ++-
 src/tcp_server.c | 11 +++++++----
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index de78321..3a215d1 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -119,11 +119,12 @@ bool sdr_worker_remove_dsp_worker(uint32_t id, sdr_worker *worker) {
     return result;
 }
 
-void sdr_worker_cancel_dsp_worker(uint32_t id, sdr_worker *sdr) {
+bool sdr_worker_cancel_dsp_worker(uint32_t id, sdr_worker *sdr) {
     if (sdr == NULL) {
-        return;
+        return true;
     }
     linked_list_remove_by_id(&id, &dsp_worker_find_by_id, &sdr->dsp_configs);
+    return (sdr->dsp_configs == NULL);
 }
 
 void sdr_worker_destroy(void *data) {
diff --git a/src/sdr_worker.h b/src/sdr_worker.h
index 2524499..7f1bf85 100644
--- a/src/sdr_worker.h
+++ b/src/sdr_worker.h
@@ -24,7 +24,8 @@ void sdr_worker_resume(sdr_worker *sdr);
 int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr);
 
 // sdr should be suspended. the worker will not receive the data
-void sdr_worker_cancel_dsp_worker(uint32_t id, sdr_worker *sdr);
+// return true if no more workers left
+bool sdr_worker_cancel_dsp_worker(uint32_t id, sdr_worker *sdr);
 
 // created suspended
 int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr_worker **result);
diff --git a/src/tcp_server.c b/src/tcp_server.c
index 5e64764..13a7c29 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -750,12 +750,15 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
     }
     if (code == 0) {
         server->rx_initialized = true;
-    } else {
-        // only the response is sent to the client which was not accepted
-        sdr_worker_cancel_dsp_worker(tcp_worker->id, tcp_worker->sdr);
+    }
+    sdr_worker *sdr = tcp_worker->sdr;
+    // only the response is sent to the client which was not accepted
+    if (code != 0 && !sdr_worker_cancel_dsp_worker(tcp_worker->id, sdr)) {
+        // sdr_worker belongs to the other clients. they might release it at any time
+        tcp_worker->sdr = NULL;
     }
     // nothing is sent to the client before the response
-    sdr_worker_resume(tcp_worker->sdr);
+    sdr_worker_resume(sdr);
     pthread_mutex_unlock(&server->mutex);
     if (code != 0) {
         api_utils_write_response(client_socket, RESPONSE_STATUS__FAILURE, -code);
-- 
2.43.0


From c3c38ebe39da6cb58ca6044b248ff5157bd98994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 49/49] fix: doppler correction does not drift away from the
 time of the stream

---
 src/dsp/doppler.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dsp/doppler.c b/src/dsp/doppler.c
index a820728..6d714dc 100644
--- a/src/dsp/doppler.c
+++ b/src/dsp/doppler.c
@@ -19,6 +19,7 @@ struct doppler_t {
 
     uint64_t update_interval_samples;
     uint64_t current_samples;
+    uint64_t updates;
 
     geodetic_t *ground_station;
     sat_t *satellite;
@@ -167,12 +168,16 @@ void doppler_process(float complex *input, size_t input_len, float complex **out
                     result->jul_start_time = Julian_Date(&t);
                 }
                 result->satellite->jul_utc = result->jul_start_time;
+                result->updates = 0;
                 result->current_freq_difference = doppler_calculate_shift(result, direction);
             } else {
                 result->current_freq_difference = result->next_freq_difference;
             }
 
-            result->satellite->jul_utc += (double) result->update_interval_samples / result->sampling_freq / secday;
+            // small interval is not precise when it is added to the julian date
+            // calculate from the start, so that the error won't be accumulated
+            result->updates++;
+            result->satellite->jul_utc = result->jul_start_time + (double) result->updates * result->update_interval_samples / result->sampling_freq / secday;
             result->next_freq_difference = doppler_calculate_shift(result, direction);
             // linear interpolation between next and current doppler shift
             // this is to avoid sudden jumps of frequency between corrections
-- 
2.43.0

