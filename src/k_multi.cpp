// two/three/four operand functions, buffer and constant operands
#include "k_common.hpp"
#define B3(op,x,y) B_SCAL(op,x,y) B_SIMD(op,x,y) B_FIX(op,x,y,64)
#define BA(op) B3(op,v,v) B3(op,v,s) B3(op,s,v)
#define T3(op,x,y,z) T_SCAL(op,x,y,z) T_SIMD(op,x,y,z) T_FIX(op,x,y,z,64)
#define TA(op) T3(op,v,v,v) T3(op,v,s,s) T3(op,v,v,s) T3(op,v,s,v)
#define Q3(op,x,y,z,w) Q_SCAL(op,x,y,z,w) Q_SIMD(op,x,y,z,w) Q_FIX(op,x,y,z,w,64)
#define QA(op) Q3(op,v,v,v,v) Q3(op,v,s,v,s)
static const Kernel K[] = {
#ifdef G_BIN
 BA(plus) BA(minus) BA(times) BA(over) BA(sum) BA(min) BA(max) BA(clip2)
 BA(less) BA(less_equal) BA(greater) BA(greater_equal) BA(equal) BA(notequal)
#endif
#ifdef G_POW
 BA(pow) BA(spow)
#endif
#ifdef G_TERN
 TA(clip) TA(muladd) TA(ampmod) TA(sum) QA(mix) QA(sum)
 {"pan2","scal","vss",0,LAM nova::pan2_vec(o,o1,(const T*)a[0].p,(T)a[1].s,(T)a[2].s,n);}},
 {"pan2","simd","vss",0,LAM nova::pan2_vec_simd(o,o1,(const T*)a[0].p,(T)a[1].s,(T)a[2].s,n);}},
 {"pan2","fix","vss",64,LAM nova::pan2_vec_simd<64>(o,o1,(const T*)a[0].p,(T)a[1].s,(T)a[2].s);}},
 {"pan2","fix","vss",16,LAM nova::pan2_vec_simd<16>(o,o1,(const T*)a[0].p,(T)a[1].s,(T)a[2].s);}},
 {"pan2","scal","vrr",0,LAM nova::pan2_vec(o,o1,(const T*)a[0].p,(T)a[1].s,(T)a[1].d,(T)a[2].s,(T)a[2].d,n);}},
 {"pan2","simd","vrr",0,LAM nova::pan2_vec_simd(o,o1,(const T*)a[0].p,(T)a[1].s,(T)a[1].d,(T)a[2].s,(T)a[2].d,n);}},
 {"pan2","fix","vrr",64,LAM nova::pan2_vec_simd<64>(o,o1,(const T*)a[0].p,(T)a[1].s,(T)a[1].d,(T)a[2].s,(T)a[2].d);}},
 {"pan2","fix","vrr",128,LAM nova::pan2_vec_simd<128>(o,o1,(const T*)a[0].p,(T)a[1].s,(T)a[1].d,(T)a[2].s,(T)a[2].d);}},
#endif
};
KTABLE(K)
