// Model of the AltiVec intrinsics used by vec/vec_altivec.hpp and vec/vec_int_altivec.hpp, after the AltiVec Technology
// Programming Interface Manual, on GCC vector types.  The estimate instructions return the exact value rounded to
// 12 significant bits (the architecture guarantees 1 part in 4096).  vec_ld / vec_st ignore the low four address bits.
#ifndef MODEL_ALTIVEC_H
#define MODEL_ALTIVEC_H
#include <stdint.h>
#include <string.h>
#include <math.h>
#define __vector __attribute__((vector_size(16)))
#define __pixel
typedef __vector float av_f; typedef __vector unsigned int av_u; typedef __vector signed int av_i;
#define MA static inline __attribute__((unused))
#define MA_L(T_,e) { T_ r; for (int i=0;i<4;i++) r[i] = e; return r; }
MA av_f vec_ld(int o, const float* p) { av_f r; memcpy(&r,(const void*)(((uintptr_t)p+o)&~(uintptr_t)15),16); return r; }
MA void vec_st(av_f v, int o, float* p) { memcpy((void*)(((uintptr_t)p+o)&~(uintptr_t)15),&v,16); }
MA void vec_stl(av_f v, int o, float* p) { vec_st(v,o,p); }
MA av_u vec_splat_u32(int x) MA_L(av_u,(unsigned)x)
MA av_i vec_splat_s32(int x) MA_L(av_i,x)
MA av_f vec_add(av_f a, av_f b) { return a+b; }
MA av_f vec_sub(av_f a, av_f b) { return a-b; }
MA av_u vec_add(av_u a, av_u b) { return a+b; }
MA av_u vec_sub(av_u a, av_u b) { return a-b; }
MA av_f vec_madd(av_f a, av_f b, av_f c) MA_L(av_f,fmaf(a[i],b[i],c[i]))
MA av_f vec_nmsub(av_f a, av_f b, av_f c) MA_L(av_f,-fmaf(a[i],b[i],-c[i]))
MA float ma_12(double x) { int e; if (x!=x || isinf(x) || x==0) return (float)x; double m = frexp(x,&e); return (float)ldexp(rint(m*8192)/8192,e); }
MA av_f vec_re(av_f a) MA_L(av_f,ma_12(1.0/a[i]))
MA av_f vec_rsqrte(av_f a) MA_L(av_f,a[i]==0 ? copysignf(INFINITY,a[i]) : ma_12(1.0/sqrt((double)a[i])))
MA av_f vec_max(av_f a, av_f b) MA_L(av_f,a[i]!=a[i]||b[i]!=b[i] ? (float)NAN : a[i]>b[i]?a[i]:b[i])
MA av_f vec_min(av_f a, av_f b) MA_L(av_f,a[i]!=a[i]||b[i]!=b[i] ? (float)NAN : a[i]<b[i]?a[i]:b[i])
MA av_f vec_abs(av_f a) { return (av_f)((av_u)a & 0x7fffffffu); }
MA av_f vec_floor(av_f a) MA_L(av_f,floorf(a[i]))
MA av_f vec_ceil(av_f a) MA_L(av_f,ceilf(a[i]))
MA av_f vec_trunc(av_f a) MA_L(av_f,truncf(a[i]))
MA av_f vec_round(av_f a) MA_L(av_f,rintf(a[i]))
MA av_u vec_cmplt(av_f a, av_f b) { return (av_u)(a<b); }
MA av_u vec_cmple(av_f a, av_f b) { return (av_u)(a<=b); }
MA av_u vec_cmpgt(av_f a, av_f b) { return (av_u)(a>b); }
MA av_u vec_cmpge(av_f a, av_f b) { return (av_u)(a>=b); }
MA av_u vec_cmpeq(av_f a, av_f b) { return (av_u)(a==b); }
MA av_u vec_cmplt(av_u a, av_u b) { return (av_u)(a<b); }
MA av_u vec_cmpgt(av_u a, av_u b) { return (av_u)(a>b); }
MA av_u vec_cmpeq(av_u a, av_u b) { return (av_u)(a==b); }
MA av_u vec_cmplt(av_i a, av_i b) { return (av_u)(a<b); }
MA av_u vec_cmpgt(av_i a, av_i b) { return (av_u)(a>b); }
MA av_u vec_cmpeq(av_i a, av_i b) { return (av_u)(a==b); }
#define MA_BIT(nm,e) MA av_u nm(av_u a, av_u b) { return e; } MA av_f nm(av_f x, av_f y) { av_u a=(av_u)x, b=(av_u)y; return (av_f)(e); }
MA_BIT(vec_and,a&b) MA_BIT(vec_or,a|b) MA_BIT(vec_xor,a^b) MA_BIT(vec_andc,a&~b) MA_BIT(vec_nor,~(a|b))
MA av_f vec_sel(av_f a, av_f b, av_u m) { return (av_f)(((av_u)a&~m)|((av_u)b&m)); }
MA av_u vec_sl(av_u a, av_u c) MA_L(av_u,a[i]<<(c[i]&31))
MA av_u vec_sr(av_u a, av_u c) MA_L(av_u,a[i]>>(c[i]&31))
MA av_u vec_ctu(av_f a, int) MA_L(av_u,a[i]!=a[i]||a[i]<=0 ? 0u : a[i]>=4294967296.f ? 0xffffffffu : (unsigned)a[i])
MA av_i vec_cts(av_f a, int) MA_L(av_i,a[i]!=a[i] ? 0 : a[i]>=2147483648.f ? 2147483647 : a[i]<=-2147483648.f ? (-2147483647-1) : (int)a[i])
MA av_f vec_ctf(av_u a, int) MA_L(av_f,(float)a[i])
MA av_f vec_ctf(av_i a, int) MA_L(av_f,(float)a[i])
#endif
