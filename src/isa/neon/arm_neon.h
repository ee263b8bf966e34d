// Model of the ARM NEON intrinsics used by vec/vec_neon.hpp and vec/vec_int_neon.hpp, after the ARM Architecture Reference
// Manual / ACLE, on GCC vector types.  Differences from ARMv7 hardware: denormals are not flushed; the estimate
// instructions return the exact value rounded to 8 significant bits (the architecture guarantees 8 bits).
#ifndef MODEL_ARM_NEON_H
#define MODEL_ARM_NEON_H
#include <stdint.h>
#include <string.h>
#include <math.h>
typedef float float32_t;
typedef float float32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
#define MN static inline __attribute__((unused))
MN float32x4_t vdupq_n_f32(float x) { float32x4_t r = {x,x,x,x}; return r; }
MN uint32x4_t vdupq_n_u32(uint32_t x) { uint32x4_t r = {x,x,x,x}; return r; }
MN int32x4_t vdupq_n_s32(int32_t x) { int32x4_t r = {x,x,x,x}; return r; }
MN float32x4_t vmovq_n_f32(float x) { return vdupq_n_f32(x); }
MN float32x4_t vsetq_lane_f32(float x, float32x4_t v, int l) { v[l] = x; return v; }
MN float vgetq_lane_f32(float32x4_t v, int l) { return v[l]; }
MN float vget_lane_f32(float32x2_t v, int l) { return v[l]; }
MN float32x2_t vget_high_f32(float32x4_t v) { float32x2_t r = {v[2],v[3]}; return r; }
MN float32x2_t vget_low_f32(float32x4_t v) { float32x2_t r = {v[0],v[1]}; return r; }
MN float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { float32x4_t r = {a[0],a[1],b[0],b[1]}; return r; }
MN float32x4_t vld1q_f32(const float32_t* p) { float32x4_t r; memcpy(&r,p,16); return r; }
MN void vst1q_f32(float32_t* p, float32x4_t v) { memcpy(p,&v,16); }
MN float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a+b; }
MN float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a-b; }
MN float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a*b; }
MN float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return a+b*c; }     // not fused; -ffp-contract=off
MN float32x4_t vmlsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return a-b*c; }
MN uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { return (uint32x4_t)a; }
MN float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { return (float32x4_t)a; }
MN uint32x4_t vreinterpretq_u32_s32(int32x4_t a) { return (uint32x4_t)a; }
MN int32x4_t vreinterpretq_s32_u32(uint32x4_t a) { return (int32x4_t)a; }
MN int32x4_t vreinterpretq_s32_f32(float32x4_t a) { return (int32x4_t)a; }
MN float32x4_t vreinterpretq_f32_s32(int32x4_t a) { return (float32x4_t)a; }
MN float32x4_t vabsq_f32(float32x4_t a) { return (float32x4_t)((uint32x4_t)a & 0x7fffffffu); }
MN float32x4_t vnegq_f32(float32x4_t a) { return (float32x4_t)((uint32x4_t)a ^ 0x80000000u); }
MN float mn_max(float a, float b) { return a!=a||b!=b ? (float)NAN : a==b ? (signbit(a)?b:a) : a>b?a:b; }
MN float mn_min(float a, float b) { return a!=a||b!=b ? (float)NAN : a==b ? (signbit(a)?a:b) : a<b?a:b; }
#define MN_L(e) { float32x4_t r; for (int i=0;i<4;i++) r[i] = e; return r; }
MN float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) MN_L(mn_max(a[i],b[i]))
MN float32x4_t vminq_f32(float32x4_t a, float32x4_t b) MN_L(mn_min(a[i],b[i]))
MN float32x2_t vmax_f32(float32x2_t a, float32x2_t b) { float32x2_t r = {mn_max(a[0],b[0]),mn_max(a[1],b[1])}; return r; }
MN float32x2_t vmin_f32(float32x2_t a, float32x2_t b) { float32x2_t r = {mn_min(a[0],b[0]),mn_min(a[1],b[1])}; return r; }
MN float32x2_t vadd_f32(float32x2_t a, float32x2_t b) { return a+b; }
MN float32x2_t vpadd_f32(float32x2_t a, float32x2_t b) { float32x2_t r = {a[0]+a[1],b[0]+b[1]}; return r; }
MN float32x2_t vpmax_f32(float32x2_t a, float32x2_t b) { float32x2_t r = {mn_max(a[0],a[1]),mn_max(b[0],b[1])}; return r; }
MN float32x2_t vpmin_f32(float32x2_t a, float32x2_t b) { float32x2_t r = {mn_min(a[0],a[1]),mn_min(b[0],b[1])}; return r; }
MN uint32x4_t vcltq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a<b); }
MN uint32x4_t vcleq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a<=b); }
MN uint32x4_t vcgtq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a>b); }
MN uint32x4_t vcgeq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a>=b); }
MN uint32x4_t vceqq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a==b); }
MN uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return a&b; }
MN uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return a|b; }
MN uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a^b; }
MN uint32x4_t vmvnq_u32(uint32x4_t a) { return ~a; }
MN uint32x4_t vbicq_u32(uint32x4_t a, uint32x4_t b) { return a & ~b; }
MN uint32x4_t vbslq_u32(uint32x4_t m, uint32x4_t a, uint32x4_t b) { return (m&a)|(~m&b); }
MN float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return (float32x4_t)((m&(uint32x4_t)a)|(~m&(uint32x4_t)b)); }
MN uint32x4_t vaddq_u32(uint32x4_t a, uint32x4_t b) { return a+b; }
MN uint32x4_t vsubq_u32(uint32x4_t a, uint32x4_t b) { return a-b; }
MN uint32x4_t vcltq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a<b); }
MN uint32x4_t vcgtq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a>b); }
MN uint32x4_t vceqq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a==b); }
MN uint32x4_t vcltq_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a<b); }
MN uint32x4_t vcgtq_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a>b); }
MN uint32x4_t vshlq_u32(uint32x4_t a, int32x4_t c) { uint32x4_t r; for (int i=0;i<4;i++) { int s = (int8_t)c[i]; r[i] = s>=32||s<=-32 ? 0 : s>=0 ? a[i]<<s : a[i]>>-s; } return r; }
MN int32_t mn_cvt(float x) { return x!=x ? 0 : x>=2147483648.f ? 2147483647 : x<=-2147483648.f ? (-2147483647-1) : (int32_t)x; }
MN int32x4_t vcvtq_s32_f32(float32x4_t a) { int32x4_t r; for (int i=0;i<4;i++) r[i] = mn_cvt(a[i]); return r; }
MN float32x4_t vcvtq_f32_s32(int32x4_t a) MN_L((float)a[i])
MN float32x4_t vcvtq_f32_u32(uint32x4_t a) MN_L((float)a[i])
MN float mn_8(double x) { int e; if (x!=x || isinf(x) || x==0) return (float)x; double m = frexp(x,&e); return (float)ldexp(rint(m*512)/512,e); }   // 8 fraction bits
MN float32x4_t vrecpeq_f32(float32x4_t a) MN_L(mn_8(1.0/a[i]))
MN float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b) MN_L((isinf(a[i])&&b[i]==0)||(isinf(b[i])&&a[i]==0) ? 2.f : 2.f-a[i]*b[i])
MN float32x4_t vrsqrteq_f32(float32x4_t a) MN_L(a[i]==0 ? copysignf(INFINITY,a[i]) : mn_8(1.0/sqrt((double)a[i])))
MN float32x4_t vrsqrtsq_f32(float32x4_t a, float32x4_t b) MN_L((isinf(a[i])&&b[i]==0)||(isinf(b[i])&&a[i]==0) ? 1.5f : (3.f-a[i]*b[i])/2)
#endif
