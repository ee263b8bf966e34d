// C08 C09 C16 C18 C19: every function, every call form, several compile-time lengths
#include "k_common.hpp"
static const unsigned S = nova::vec<T>::size;
#define X1(op) OP1(op)
X1(floor) X1(ceil) X1(trunc) X1(round) X1(frac) X1(abs) X1(sgn) X1(square) X1(cube) X1(reciprocal) X1(undenormalize) X1(signed_sqrt)
X1(softclip)
X1(sin) X1(cos) X1(tan) X1(asin) X1(acos) X1(atan) X1(tanh) X1(log) X1(log2) X1(log10) X1(exp)
X1(midi2freq) X1(freq2midi) X1(midi2ratio) X1(ratio2midi) X1(oct2freq) X1(freq2oct) X1(amp2db) X1(db2amp)
OP2(plus) OP2(minus) OP2(times) OP2(over) OP2N(sum2,sum) OP2(min) OP2(max) OP2(clip2) OP2(less) OP2(less_equal) OP2(greater) OP2(greater_equal) OP2(equal) OP2(notequal) OP2(pow) OP2(spow)
OP3N(clip,clip) OP3N(muladd,muladd) OP3N(ampmod,ampmod) OP3N(sum3,sum) OP4N(mix,mix) OP4N(sum4,sum)
template <class Op, class... Ks> void un() { gen::add<Op,Ks...>(); gen::addfix<Op,S,Ks...>(); gen::addfix<Op,3*S,Ks...>(); }
template <class Op, class... Ks> void unl() { un<Op,Ks...>(); gen::addfix<Op,2*S,Ks...>(); gen::addfix<Op,5*S,Ks...>(); gen::addfix<Op,64,Ks...>(); }
static void put(const char* op, const char* form, const char* kinds, unsigned fixed, kfn f) { gen::tab().push_back(Kernel{op,form,kinds,fixed,f}); }
#define P(op,form,kinds,N,...) put(op,form,kinds,N,[](void* o_, void* o1_, const KArg* a, unsigned n) { T* o = (T*)o_; T* o1 = (T*)o1_; const T* in = (const T*)a[0].p; const T* in1 = (const T*)a[1].p; (void)o; (void)o1; (void)in; (void)in1; (void)n; __VA_ARGS__; });
template <unsigned N> static void panfix() {
    P("pan2","fix","vss",N, nova::pan2_vec_simd<N>(o,o1,in,(T)a[1].s,(T)a[2].s))
    P("pan2","fix","vrr",N, nova::pan2_vec_simd<N>(o,o1,in,(T)a[1].s,(T)a[1].d,(T)a[2].s,(T)a[2].d))
}
// kinds of memory functions: d = no operand (destination only), v source buffer, s constant, r ramp; u = unaligned source
template <unsigned N> static void memfix() {
    P("zerovec","fix","",N, nova::zerovec_simd<N>(o))
    P("zerovec_na","fixna","",N, nova::zerovec_na_simd<N>(o))
    P("setvec","fix","s",N, nova::setvec_simd<N>(o,(T)a[0].s))
    P("setvec_na","fixna","s",N, nova::setvec_na_simd<N>(o,(T)a[0].s))
    P("copyvec","fix","v",N, nova::copyvec_simd<N>(o,in))
    P("copyvec_aa","fix","v",N, nova::copyvec_aa_simd<N>(o,in))
    P("copyvec_na","fix","u",N, nova::copyvec_na_simd<N>(o,in))
    P("copyvec_an","fixna","v",N, nova::copyvec_an_simd<N>(o,in))
    P("copyvec_nn","fixna","u",N, nova::copyvec_nn_simd<N>(o,in))
    P("addvec","fix","v",N, nova::addvec_simd<N>(o,in))
    P("addvec","fix","s",N, nova::addvec_simd<N>(o,(T)a[0].s))
    P("addvec","fix","r",N, nova::addvec_simd<N>(o,(T)a[0].s,(T)a[0].d))
}
// G_SN: one function per code path, every compile-time length of 1..20 vectors and 32, 48, 64 vectors
template <unsigned N> static void everyfix() {
    gen::addfix<Op_square,N,Kv>(); gen::addfix<Op_minus,N,Kv,Kv>(); gen::addfix<Op_minus,N,Kv,Ks>(); gen::addfix<Op_muladd,N,Kv,Kv,Kv>(); gen::addfix<Op_mix,N,Kv,Kv,Kv,Kv>();
    panfix<N>(); memfix<N>();
}
template <unsigned K> struct everyup { static void go() { everyfix<K*S>(); everyup<K-1>::go(); } };
template <> struct everyup<0> { static void go() {} };
static void build() {
#ifdef G_SN
    gen::add<Op_square,Kv>(); gen::add<Op_minus,Kv,Kv>(); gen::add<Op_minus,Kv,Ks>(); gen::add<Op_muladd,Kv,Kv,Kv>(); gen::add<Op_mix,Kv,Kv,Kv,Kv>(); everyup<20>::go(); everyfix<32*S>(); everyfix<48*S>(); everyfix<64*S>();
#endif
#if defined(G_SN)
    P("pan2","simd","vss",0, nova::pan2_vec_simd(o,o1,in,(T)a[1].s,(T)a[2].s,n))
    P("pan2","simd","vrr",0, nova::pan2_vec_simd(o,o1,in,(T)a[1].s,(T)a[1].d,(T)a[2].s,(T)a[2].d,n))
    P("zerovec","simd","",0, nova::zerovec_simd(o,n)) P("zerovec_na","simdna","",0, nova::zerovec_na_simd(o,n)) P("setvec","simd","s",0, nova::setvec_simd(o,(T)a[0].s,n)) P("setvec_na","simdna","s",0, nova::setvec_na_simd(o,(T)a[0].s,n))
    P("copyvec","simd","v",0, nova::copyvec_simd(o,in,n)) P("copyvec_aa","simd","v",0, nova::copyvec_aa_simd(o,in,n)) P("copyvec_na","simd","u",0, nova::copyvec_na_simd(o,in,n)) P("copyvec_an","simdna","v",0, nova::copyvec_an_simd(o,in,n)) P("copyvec_nn","simdna","u",0, nova::copyvec_nn_simd(o,in,n))
    P("addvec","simd","v",0, nova::addvec_simd(o,in,n)) P("addvec","simd","s",0, nova::addvec_simd(o,(T)a[0].s,n)) P("addvec","simd","r",0, nova::addvec_simd(o,(T)a[0].s,(T)a[0].d,n))
#endif
#ifdef G_S1
    unl<Op_abs,Kv>(); unl<Op_square,Kv>(); unl<Op_floor,Kv>(); un<Op_ceil,Kv>(); un<Op_trunc,Kv>(); un<Op_round,Kv>(); un<Op_frac,Kv>(); un<Op_sgn,Kv>(); un<Op_cube,Kv>(); un<Op_reciprocal,Kv>(); un<Op_undenormalize,Kv>(); un<Op_signed_sqrt,Kv>();
#endif
#ifdef G_SC
    un<Op_softclip,Kv>();
#endif
#ifdef G_SM
    un<Op_sin,Kv>(); un<Op_cos,Kv>(); un<Op_tan,Kv>(); un<Op_asin,Kv>(); un<Op_acos,Kv>(); un<Op_atan,Kv>(); un<Op_tanh,Kv>(); un<Op_log,Kv>(); un<Op_log2,Kv>(); un<Op_log10,Kv>(); un<Op_exp,Kv>();
    un<Op_midi2freq,Kv>(); un<Op_freq2midi,Kv>(); un<Op_midi2ratio,Kv>(); un<Op_ratio2midi,Kv>(); un<Op_oct2freq,Kv>(); un<Op_freq2oct,Kv>(); un<Op_amp2db,Kv>(); un<Op_db2amp,Kv>();
    un<Op_pow,Kv,Kv>(); un<Op_spow,Kv,Kv>(); un<Op_pow,Kv,Ks>(); un<Op_spow,Ks,Kv>();
#endif
#ifdef G_S2
    unl<Op_plus,Kv,Kv>(); un<Op_plus,Kv,Ks>(); un<Op_plus,Ks,Kv>(); un<Op_plus,Kv,Kr>(); un<Op_plus,Kr,Kv>(); unl<Op_minus,Kv,Kv>(); un<Op_minus,Kv,Ks>(); un<Op_minus,Ks,Kv>(); un<Op_minus,Kv,Kr>(); un<Op_minus,Kr,Kv>();
    unl<Op_times,Kv,Kv>(); un<Op_times,Kv,Ks>(); un<Op_times,Kv,Kr>(); un<Op_over,Kv,Kv>(); un<Op_over,Kv,Ks>(); un<Op_over,Ks,Kv>(); un<Op_sum2,Kv,Kv>(); un<Op_min,Kv,Kv>(); un<Op_min,Ks,Kv>(); un<Op_max,Kv,Kv>(); un<Op_max,Kv,Ks>(); un<Op_clip2,Kv,Kv>(); un<Op_clip2,Kv,Ks>();
    un<Op_less,Kv,Kv>(); un<Op_less_equal,Kv,Kv>(); un<Op_greater,Kv,Kv>(); un<Op_greater_equal,Kv,Kv>(); un<Op_equal,Kv,Kv>(); un<Op_notequal,Kv,Kv>(); un<Op_less,Ks,Kv>(); un<Op_greater,Kv,Ks>();
    un<Op_clip,Kv,Kv,Kv>(); un<Op_clip,Kv,Ks,Ks>(); un<Op_muladd,Kv,Kv,Kv>(); un<Op_muladd,Kv,Ks,Kv>(); un<Op_muladd,Kv,Kr,Kv>(); un<Op_ampmod,Kv,Kv,Kv>(); un<Op_ampmod,Kv,Kv,Ks>(); un<Op_sum3,Kv,Kv,Kv>(); 
    un<Op_mix,Kv,Kv,Kv,Kv>(); un<Op_mix,Kv,Ks,Kv,Ks>(); un<Op_mix,Kv,Kr,Kv,Kr>(); un<Op_sum4,Kv,Kv,Kv,Kv>(); gen::addfix<Op_muladd,64,Kv,Kv,Kv>(); gen::addfix<Op_mix,64,Kv,Kv,Kv,Kv>(); gen::addfix<Op_plus,1024,Kv,Kv>();
    P("pan2","scal","vss",0, nova::pan2_vec(o,o1,in,(T)a[1].s,(T)a[2].s,n))
    P("pan2","simd","vss",0, nova::pan2_vec_simd(o,o1,in,(T)a[1].s,(T)a[2].s,n))
    P("pan2","scal","vrr",0, nova::pan2_vec(o,o1,in,(T)a[1].s,(T)a[1].d,(T)a[2].s,(T)a[2].d,n))
    P("pan2","simd","vrr",0, nova::pan2_vec_simd(o,o1,in,(T)a[1].s,(T)a[1].d,(T)a[2].s,(T)a[2].d,n))
    panfix<S>(); panfix<3*S>(); panfix<64>();
#endif
#ifdef G_S3
    P("zerovec","scal","",0, nova::zerovec(o,n)) P("zerovec","simd","",0, nova::zerovec_simd(o,n)) P("zerovec_na","simdna","",0, nova::zerovec_na_simd(o,n))
    P("setvec","scal","s",0, nova::setvec(o,(T)a[0].s,n)) P("setvec","simd","s",0, nova::setvec_simd(o,(T)a[0].s,n)) P("setvec_na","simdna","s",0, nova::setvec_na_simd(o,(T)a[0].s,n))
    P("set_slope","scal","r",0, nova::set_slope_vec(o,(T)a[0].s,(T)a[0].d,n)) P("set_slope","simd","r",0, nova::set_slope_vec_simd(o,(T)a[0].s,(T)a[0].d,n))
    P("set_exp","scal","r",0, nova::set_exp_vec(o,(T)a[0].s,(T)a[0].d,n)) P("set_exp","simd","r",0, nova::set_exp_vec_simd(o,(T)a[0].s,(T)a[0].d,n))
    P("copyvec","scal","v",0, nova::copyvec(o,in,n)) P("copyvec","simd","v",0, nova::copyvec_simd(o,in,n)) P("copyvec_aa","simd","v",0, nova::copyvec_aa_simd(o,in,n))
    P("copyvec_na","simd","u",0, nova::copyvec_na_simd(o,in,n)) P("copyvec_an","simdna","v",0, nova::copyvec_an_simd(o,in,n)) P("copyvec_nn","simdna","u",0, nova::copyvec_nn_simd(o,in,n))
    P("addvec","scal","v",0, nova::addvec(o,in,n)) P("addvec","simd","v",0, nova::addvec_simd(o,in,n)) P("addvec","scal","s",0, nova::addvec(o,(T)a[0].s,n)) P("addvec","simd","s",0, nova::addvec_simd(o,(T)a[0].s,n))
    P("addvec","scal","r",0, nova::addvec(o,(T)a[0].s,(T)a[0].d,n)) P("addvec","simd","r",0, nova::addvec_simd(o,(T)a[0].s,(T)a[0].d,n))
    memfix<S>(); memfix<2*S>(); memfix<3*S>(); memfix<5*S>(); memfix<64>(); memfix<256>();
#endif
#ifdef G_S4
    // reductions: results in o[0..1]; meters: state read from and written to o[0] (peak), o[1] (squared sum), return value in o[2]
    P("hmin","rscal","v",0, o[0] = nova::horizontal_min_vec(in,n)) P("hmin","rvec","v",0, o[0] = nova::horizontal_min_vec_simd(in,n))
    P("hmax","rscal","v",0, o[0] = nova::horizontal_max_vec(in,n)) P("hmax","rvec","v",0, o[0] = nova::horizontal_max_vec_simd(in,n))
    P("hsum","rscal","v",0, o[0] = nova::horizontal_sum_vec(in,n)) P("hsum","rvec","v",0, o[0] = nova::horizontal_sum_vec_simd(in,n))
    P("hminmax","rscal","v",0, nova::horizontal_minmax_vec(o[0],o[1],in,n)) P("hminmax","rvec","v",0, nova::horizontal_minmax_vec_simd(o[0],o[1],in,n))
    P("hmaxsum","rscal","v",0, nova::horizontal_maxsum_vec(o[0],o[1],in,n)) P("hmaxsum","rvec","v",0, nova::horizontal_maxsum_vec_simd(o[0],o[1],in,n))
    P("peak","rscal","v",0, o[2] = nova::peak_vec(in,o,n)) P("peak","rsimd","v",0, o[2] = nova::peak_vec_simd(in,o,n))
    P("peak_rms","rscal","v",0, nova::peak_rms_vec(in,o,o+1,n)) P("peak_rms","rsimd","v",0, nova::peak_rms_vec_simd(in,o,o+1,n))
#endif
}
GEN_TABLE(build)
