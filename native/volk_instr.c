/* Plain C versions of the VOLK kernels the repository uses, compiled with the sanitizer so that an access outside the
   caller's buffers inside a kernel is seen.  Installed into VOLK's dispatch pointers unless HARN_VOLK=native. */
#include <complex.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include <volk/volk.h>

static void dot_f(float *r, const float *a, const float *b, unsigned int n) {
    float s = 0; for (unsigned int i = 0; i < n; i++) s += a[i] * b[i]; *r = s;
}
static void dot_fc(lv_32fc_t *r, const lv_32fc_t *a, const float *b, unsigned int n) {
    float re = 0, im = 0; const float *p = (const float *) a;
    for (unsigned int i = 0; i < n; i++) { re += p[2 * i] * b[i]; im += p[2 * i + 1] * b[i]; }
    ((float *) r)[0] = re; ((float *) r)[1] = im;
}
static void mul_c(lv_32fc_t *c, const lv_32fc_t *a, const lv_32fc_t *b, unsigned int n) {
    for (unsigned int i = 0; i < n; i++) {
        float ar = crealf(a[i]), ai = cimagf(a[i]), br = crealf(b[i]), bi = cimagf(b[i]);
        ((float *) &c[i])[0] = ar * br - ai * bi; ((float *) &c[i])[1] = ar * bi + ai * br;
    }
}
static void mul_conj(lv_32fc_t *c, const lv_32fc_t *a, const lv_32fc_t *b, unsigned int n) {
    for (unsigned int i = 0; i < n; i++) {
        float ar = crealf(a[i]), ai = cimagf(a[i]), br = crealf(b[i]), bi = -cimagf(b[i]);
        ((float *) &c[i])[0] = ar * br - ai * bi; ((float *) &c[i])[1] = ar * bi + ai * br;
    }
}
static float clampf(float v, float lo, float hi) { return v > hi ? hi : (v < lo ? lo : v); }
static void to_8i(int8_t *o, const float *in, const float scale, unsigned int n) {
    for (unsigned int i = 0; i < n; i++) { float v = in[i] * scale; o[i] = v != v ? 0 : (int8_t) rintf(clampf(v, INT8_MIN, INT8_MAX)); }
}
static void to_16i(int16_t *o, const float *in, const float scale, unsigned int n) {
    for (unsigned int i = 0; i < n; i++) { float v = in[i] * scale; o[i] = v != v ? 0 : (int16_t) rintf(clampf(v, INT16_MIN, INT16_MAX)); }
}
static void from_16i(float *o, const int16_t *in, const float scale, unsigned int n) {
    const float inv = 1.0f / scale;
    for (unsigned int i = 0; i < n; i++) o[i] = (float) in[i] * inv;
}
__attribute__((constructor)) static void install(void) {
    const char *mode = getenv("HARN_VOLK");
    if (mode != NULL && strcmp(mode, "native") == 0) return;
    volk_32f_x2_dot_prod_32f = volk_32f_x2_dot_prod_32f_a = volk_32f_x2_dot_prod_32f_u = dot_f;
    volk_32fc_32f_dot_prod_32fc = volk_32fc_32f_dot_prod_32fc_a = volk_32fc_32f_dot_prod_32fc_u = dot_fc;
    volk_32fc_x2_multiply_32fc = volk_32fc_x2_multiply_32fc_a = volk_32fc_x2_multiply_32fc_u = mul_c;
    volk_32fc_x2_multiply_conjugate_32fc = volk_32fc_x2_multiply_conjugate_32fc_a = volk_32fc_x2_multiply_conjugate_32fc_u = mul_conj;
    volk_32f_s32f_convert_8i = volk_32f_s32f_convert_8i_a = volk_32f_s32f_convert_8i_u = to_8i;
    volk_32f_s32f_convert_16i = volk_32f_s32f_convert_16i_a = volk_32f_s32f_convert_16i_u = to_16i;
    volk_16i_s32f_convert_32f = volk_16i_s32f_convert_32f_a = volk_16i_s32f_convert_32f_u = from_16i;
}
