// Portable definitions of NEON intrinsics, so that the NEON code path is encoded and runs on this machine
#pragma once
typedef float float32x4_t __attribute__ ((vector_size (16)));
typedef float float32x2_t __attribute__ ((vector_size (8)));
#define VP_N static inline __attribute__ ((always_inline))
VP_N float32x4_t vmulq_f32 (float32x4_t a, float32x4_t b) { return a * b; }
VP_N float32x4_t vaddq_f32 (float32x4_t a, float32x4_t b) { return a + b; }
VP_N float32x4_t vsubq_f32 (float32x4_t a, float32x4_t b) { return a - b; }
VP_N float32x4_t vnegq_f32 (float32x4_t a) { return -a; }
VP_N float32x4_t vmlaq_f32 (float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
VP_N float32x4_t vfmaq_f32 (float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
VP_N float32x4_t vmlsq_f32 (float32x4_t a, float32x4_t b, float32x4_t c) { return a - b * c; }
VP_N float32x4_t vdupq_n_f32 (float x) { float32x4_t r = {x, x, x, x}; return r; }
VP_N float32x4_t vmovq_n_f32 (float x) { return vdupq_n_f32 (x); }
VP_N float32x4_t vmulq_n_f32 (float32x4_t a, float x) { return a * vdupq_n_f32 (x); }
VP_N float32x4_t vld1q_f32 (const float *p) { float32x4_t r = {p[0], p[1], p[2], p[3]}; return r; }
VP_N void vst1q_f32 (float *p, float32x4_t a) { for (int i = 0; i < 4; i++) p[i] = a[i]; }
VP_N float vaddvq_f32 (float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }
#define vgetq_lane_f32(a, i) ((a)[i])
