VM = "detail/vec_math.hpp"
bug("c01-sse-notequal-ordered", "C01", [("vec/vec_sse.hpp", "    RELATIONAL_OPERATOR(!=, _mm_cmpneq_ps)\n", "    vec operator !=(vec const & rhs) const\n    {\n        const __m128 differs = _mm_or_ps(_mm_cmplt_ps(data_, rhs.data_), _mm_cmpgt_ps(data_, rhs.data_));\n        return _mm_and_ps(differs, gen_one());\n    }\n")], "-O1", '''
#include "simd_binary_arithmetic.hpp"
int main() { alignas(64) float a[16], b[16], o[16]; for (int i=0;i<16;i++) { a[i]=i; b[i]=3; } a[5]=std::numeric_limits<float>::quiet_NaN();
 nova::notequal_vec_simd(o,(const float*)a,(const float*)b,16); for (int i=0;i<16;i++) if (o[i] != (i==3?0.f:1.f)) { printf("notequal(%g,%g)=%g\\n",a[i],b[i],o[i]); return 1; } return 0; }
''', "a NaN operand of the SIMD notequal on SSE floats", "notequal yields 0 instead of 1 when an operand is NaN (SSE/SSE2/SSE4.1 float)")
bug("c02-round-half", "C02", [("detail/math.hpp", "    return ::round(arg);\n", "    return std::floor(arg + 0.5);\n")], "-O1", '''
#include "simd_unary_arithmetic.hpp"
int main() { double x[4]={0.49999999999999994, 4503599627370497.0, -4503599627370497.0, 2.25}, o[4], e[4]={0,4503599627370497.0,-4503599627370497.0,2}; nova::round_vec(o,(const double*)x,4); for (int i=0;i<4;i++) if (o[i]!=e[i]) { printf("round(%.17g)=%.17g\\n",x[i],o[i]); return 1; } return 0; }
''', "a double just below 0.5 or an odd integer in [2^52,2^53)", "scalar (and SSE2 vector) round for double is off by one for the largest value below 0.5 and for odd integers above 2^52")
bug("c03-sgn-square", "C03", [(VM, "    const vec nonzero    = mask_neq(arg, zero);\n", "    const vec nonzero    = mask_gt(arg * arg, zero);\n")], "-O1", '''
#include "simd_unary_arithmetic.hpp"
int main() { alignas(64) float x[16], o[16]; for (int i=0;i<16;i++) x[i]=(i&1?-1:1)*std::pow(10.f,(float)-2*i); nova::sgn_vec_simd(o,(const float*)x,16); for (int i=0;i<16;i++) if (o[i]!=(i&1?-1:1)) { printf("sgn(%g)=%g\\n",x[i],o[i]); return 1; } return 0; }
''', "a nonzero argument whose square underflows", "sgn returns (minus) zero for tiny values")
bug("c04-tan-reduction", "C04", [(VM, "    VecType base = ((abs_arg - y * DP1) - y * DP2) - y * DP3;\n\n    VecType x = base; VecType x2 = x*x;", "    VecType base = (abs_arg - y * DP1) - y * DP2;\n\n    VecType x = base; VecType x2 = x*x;")], "-O1", '''
#include "simd_math.hpp"
int main() { alignas(64) float x[16], o[16]; double worst=0; for (int k=0;k<40000;k++) { for (int i=0;i<16;i++) x[i]=6000.f+(k*16+i)*0.0033f; nova::tan_vec_simd(o,(const float*)x,16); for (int i=0;i<16;i++) { double r=std::tan((double)x[i]); double e=std::fabs(o[i]-r)/(5e-7*std::fabs(r)+3e-7*(1+r*r)); if (e>worst) worst=e; } } if (worst>1) { printf("error/bound %g\\n",worst); return 1; } return 0; }
''', "arguments of tan far from zero (thousands)", "third part of the argument reduction dropped: accuracy of tan is lost for large arguments")
bug("c05-tanh-threshold", "C05", [(VM, "    const VecType maxlogf_2 (22.f);", "    const VecType maxlogf_2 (45.f);")], "-O1", '''
#include "simd_math.hpp"
int main() { alignas(64) float x[16], o[16]; for (float b=20; b<60; b+=0.05f) { for (int i=0;i<16;i++) x[i]=(i&1?-1:1)*(b+i*0.003f); nova::tanh_vec_simd(o,(const float*)x,16); for (int i=0;i<16;i++) if (!(std::fabs(o[i])<=1.f) || o[i]*x[i]<0 || (std::fabs(x[i])>=23 && std::fabs(o[i])!=1.f)) { printf("tanh(%g)=%g\\n",x[i],o[i]); return 1; } } return 0; }
''', "an argument in the narrow window 44.36 < |x| <= 45", "SIMD tanh leaves [-1,1] / does not saturate where exp overflows before the saturation threshold")
bug("c06-pow-tiny", "C06", [(VM, "const VecType arg1_zero = mask_eq(arg1, zero);\n\n    const VecType result = exp(arg2 * log(arg1));", "const VecType arg1_zero = mask_lt(arg1, VecType((typename VecType::float_type)1e-10));\n\n    const VecType result = exp(arg2 * log(arg1));")], "-O1", '''
#include "simd_math.hpp"
int main() { alignas(64) float x[16], y[16], o[16]; for (int i=0;i<16;i++) { x[i]=1e-12f; y[i]=0.01f+i*0.1f; } nova::pow_vec_simd(o,(const float*)x,(const float*)y,16); for (int i=0;i<16;i++) if (!(std::fabs(o[i]/std::pow((double)x[i],(double)y[i])-1)<=1e-4)) { printf("pow(1e-12,%g)=%g\\n",y[i],o[i]); return 1; } return 0; }
''', "a base below 1e-10 with a small exponent", "x^y is flushed to zero for tiny positive bases (SIMD)")
bug("c07-freq2oct-negative", "C07", [("simd_unit_conversion.hpp", "        return abs_log2()(freq * FloatType(0.0022727272727)) + FloatType(4.75);", "        return log2_()(freq * FloatType(0.0022727272727)) + FloatType(4.75);")], "-O1", '''
#include "simd_unit_conversion.hpp"
int main() { float x[3]={-440.f,880.f,-220.f}, o[3], e[3]={4.75f,5.75f,3.75f}; nova::freq2oct_vec(o,(const float*)x,3); for (int i=0;i<3;i++) if (!(std::fabs(o[i]-e[i])<1e-4f)) { printf("freq2oct(%g)=%g\\n",x[i],o[i]); return 1; } return 0; }
''', "a negative frequency", "freq2oct returns NaN for negative frequencies instead of using the magnitude")
bug("c08-scalar-pairwise", "C08", [("detail/math.hpp", "    do\n        *out++ = f(*in++);\n    while (--n);", "    /* two samples per iteration */\n    for (unsigned int i = n / 2; i; --i, in += 2, out += 2) {\n        out[0] = f(in[0]);\n        out[1] = f(in[1]);\n    }\n    if ((n & 3) == 1)\n        *out = f(*in);")], "-O1", '''
#include "simd_unary_arithmetic.hpp"
int main() { for (unsigned n=1;n<50;n++) { float x[64], o[64]; for (int i=0;i<64;i++) { x[i]=-1-i; o[i]=-7; } nova::abs_vec(o,(const float*)x,n); for (unsigned i=0;i<64;i++) if (o[i]!=(i<n?1.f+i:-7.f)) { printf("n=%u element %u: %g\\n",n,i,o[i]); return 1; } } return 0; }
''', "a scalar call with n mod 4 == 3", "the last element of a scalar unary call is not written for lengths 4k+3")
bug("c09-pan-reload", "C09", [("simd_pan.hpp", "        vec<F> vin, vout0, vout1;\n        vin.load_aligned(in);\n\n        vout0 = vin * factor0;\n        vout1 = vin * factor1;\n\n        vout0.store_aligned(out0);\n        vout1.store_aligned(out1);\n        factor0 += slope0;", "        vec<F> vin, vout0, vout1;\n        vin.load_aligned(in);\n        vout0 = vin * factor0;\n        vout0.store_aligned(out0);\n\n        vin.load_aligned(in);\n        vout1 = vin * factor1;\n        vout1.store_aligned(out1);\n        factor0 += slope0;")], "-O1", '''
#include "simd_pan.hpp"
int main() { alignas(64) float x[64], a[64], b[64], c[64]; for (int i=0;i<64;i++) x[i]=1+i; nova::pan2_vec_simd(a,b,(const float*)x,0.5f,0.01f,0.25f,0.02f,64u); std::memcpy(c,x,sizeof x); nova::pan2_vec_simd(c,b,(const float*)c,0.5f,0.01f,0.25f,0.02f,64u);
 alignas(64) float b2[64]; nova::pan2_vec_simd(a,b2,(const float*)x,0.5f,0.01f,0.25f,0.02f,64u); for (int i=0;i<64;i++) if (c[i]!=a[i] || b[i]!=b2[i]) { printf("element %d: %g/%g, %g/%g\\n",i,c[i],a[i],b[i],b2[i]); return 1; } return 0; }
''', "ramped panning with the first output buffer being the input buffer", "the second channel is computed from the already panned first channel")
bug("c11-addvec-slope", "C11", [("simd_memory.hpp", "        v1 += in;\n        v1.store_aligned(dst);\n        in += vslope;\n        addvec<F, n-offset>::mp_iteration(dst+offset, in, vslope);", "        v1 += in;\n        v1.store_aligned(dst);\n        vec<F> next = in + vslope;\n        addvec<F, n-offset>::mp_iteration(dst+offset, next, vslope);")], "-O1", '''
#include "simd_memory.hpp"
int main() { alignas(64) float o[64]; for (int i=0;i<64;i++) o[i]=0; nova::addvec_simd(o,1.f,0.5f,64u); for (int i=0;i<64;i++) if (o[i]!=1.f+i*0.5f) { printf("element %d: %g\\n",i,o[i]); return 1; } return 0; }
''', "adding a ramp over more than one loop block", "the ramp restarts in every loop block because the advanced value is kept in a local copy")
bug("c12-sse41-set", "C12", [("vec/vec_sse.hpp", "            data_ = _mm_insert_ps(data_, tmp, 2 << 4);", "            data_ = _mm_insert_ps(data_, tmp, (2 << 4) | 0x8);")], "-O1 -msse4.1", '''
#include "vec.hpp"
int main() { nova::vec<float> v; v.set_vec(5.f); v.set(3,7.f); v.set(2,6.f); if (v.get(3)!=7.f || v.get(2)!=6.f || v.get(0)!=5.f) { printf("lane 3 is %g after writing lane 2\\n",v.get(3)); return 1; } return 0; }
''', "writing lane 2 after lane 3 holds a nonzero value (SSE4.1 float)", "writing lane 2 clears lane 3")
bug("c13-avx-double-le", "C13", [("vec/vec_avx_double.hpp", "    RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)", "    RELATIONAL_MASK_OPERATOR(le, _CMP_NGT_US)")], "-O1 -mavx", '''
#include "vec.hpp"
int main() { nova::vec<double> a(std::numeric_limits<double>::quiet_NaN()), b(1.0), m=mask_le(a,b); alignas(32) double o[4]; m.store_aligned(o); uint64_t u; std::memcpy(&u,&o[2],8); if (u) { printf("mask_le(NaN,1) is set\\n"); return 1; } return 0; }
''', "a NaN operand of the AVX double less-or-equal mask", "mask_le is all ones for unordered operands")
bug("c14-maxsum-pairs", "C14", [("simd_horizontal_functions.hpp", "        current_max = max_(current_max, val);\n        current_sum = current_sum + val;\n        in += vec_size;\n    } while(--n);\n", "        current_max = max_(current_max, val);\n        current_sum = current_sum + val;\n        in += vec_size;\n        if (n < 2)\n            break;\n\n        val.load_aligned(in);\n        current_max = max_(current_max, val);\n        current_sum = current_sum + val;\n        in += vec_size;\n        n -= 2;\n    } while(n > 1);\n")], "-O1", """
#include "simd_horizontal_functions.hpp"
int main() { const unsigned S=nova::vec<float>::size; alignas(64) float x[12*16]; for (unsigned n=S;n<=12*S;n+=S) { float sum=0; for (unsigned i=0;i<n;i++) { x[i]=1+i; sum+=x[i]; } float m, s; nova::horizontal_maxsum_vec_simd(m,s,(const float*)x,n); if (m!=(float)n || s!=sum) { printf("n=%u max %g sum %g\\n",n,m,s); return 1; } } return 0; }
""", "an odd number (at least three) of vectors", "the SIMD max/sum ignores the last vector of the buffer")
bug("c15-rms-init", "C15", [("simd_peakmeter.hpp", "    vec<F> local_squared_sum;\n    local_squared_sum.load_first(squared_sum);", "    vec<F> local_squared_sum(*squared_sum);")], "-O1", '''
#include "simd_peakmeter.hpp"
int main() { alignas(64) float x[64]; for (int i=0;i<64;i++) x[i]=1; float p=0,s=0; nova::peak_rms_vec_simd((const float*)x,&p,&s,64u); if (s!=64) return 2; nova::peak_rms_vec_simd((const float*)x,&p,&s,64u); if (s!=128) { printf("squared sum %g after two blocks\\n",s); return 1; } return 0; }
''', "a second block, i.e. a nonzero squared-sum state", "the previous squared sum is counted once per lane")
bug("c16-static-union", "C16", [("vec/vec_base.hpp", "        cast_unit a1, a2, ret;\n        a1.vec = arg1;", "        static cast_unit ret;\n        cast_unit a1, a2;\n        a1.vec = arg1;")], "-O1 -pthread", '''
#include "simd_math.hpp"
#include <thread>
#include <atomic>
static std::atomic<int> bad{0};
static void work(int t) { alignas(64) double x[64], y[64], o[64], e[64]; for (int i=0;i<64;i++) { x[i]=1.1+i*0.03+t; y[i]=0.5+t*0.25; e[i]=std::pow(x[i],y[i]); } for (int k=0;k<60000 && !bad;k++) { nova::pow_vec_simd(o,(const double*)x,(const double*)y,64u); for (int i=0;i<64;i++) if (std::fabs(o[i]-e[i])>1e-9*e[i]) { bad=1; break; } } }
int main() { for (int r=0;r<5 && !bad;r++) { std::thread a(work,0), b(work,1), c(work,2), d(work,3); a.join(); b.join(); c.join(); d.join(); } if (bad) printf("concurrent pow calls disturb each other\\n"); return bad; }
''', "two threads inside a lane-wise libm function (double pow, generic vectors) at the same time", "results of concurrent calls mix through a static scratch vector")
bug("c17-ampmod-float", "C17", [("simd_ternary_arithmetic.hpp", "        float_type one = 1.f;\n        return signal * (one + modulator * amount);", "        /* s * (1 + m * a) */\n        return signal + (signal * modulator) * amount;")], "-O1", '''
#include "simd_ternary_arithmetic.hpp"
int main() { float s=3e38f, m=2.f, a=-0.5f, o; nova::ampmod_vec(&o,nova::wrap_argument((const float*)&s),nova::wrap_argument((const float*)&m),nova::wrap_argument((const float*)&a),1u); if (o!=0.f) { printf("ampmod %g\\n",o); return 1; } return 0; }
''', "a signal near the overflow threshold or a modulation that cancels the signal", "s*(1+m*a) rewritten as s+(s*m)*a overflows / loses the exact cancellation")
bug("c18-tanh-shortcut", "C18", [(VM, "    const VecType result = select(result_lm, result_small, abs_small);\n", "    /* only small values: no need for the exponential */\n    const bool all_small = abs_arg.get(0) < 0.625f && abs_arg.horizontal_max() < 0.7f;\n    const VecType result = all_small ? result_small : select(result_lm, result_small, abs_small);\n")], "-O1", '''
#include "simd_math.hpp"
int main() { alignas(64) float x[16], o[16], p[16]; for (int i=0;i<16;i++) x[i]=0.69f; nova::tanh_vec_simd(p,(const float*)x,16); x[0]=x[8]=0.1f; x[4]=x[12]=0.1f; nova::tanh_vec_simd(o,(const float*)x,16); for (int i=0;i<16;i++) if (x[i]==0.69f && o[i]!=p[i]) { printf("tanh(0.69) is %.9g or %.9g depending on the neighbours\\n",o[i],p[i]); return 1; } return 0; }
''', "arguments between 0.625 and 0.7 whose vector neighbours are small", "the polynomial used for an element depends on the other lanes")
bug("c19-fpu-mode", "C19", [("vec/vec_sse.hpp", "        return detail::vec_undenormalize(arg);", "        _MM_SET_FLUSH_ZERO_MODE(_MM_FLUSH_ZERO_ON);\n        const vec result = detail::vec_undenormalize(arg);\n        return result;")], "-O1", '''
#include "simd_unary_arithmetic.hpp"
int main() { alignas(64) float x[16], o[16]; for (int i=0;i<16;i++) x[i]=i; unsigned a=_mm_getcsr()&0xffc0u; nova::undenormalize_vec_simd(o,(const float*)x,16); unsigned b=_mm_getcsr()&0xffc0u; if (a!=b) { printf("MXCSR %x -> %x\\n",a,b); return 1; } return 0; }
''', "any later computation with denormal results after an undenormalize call", "the flush-to-zero mode stays switched on after the call")
bug("c20-int-srli", "C20", [("vec/vec_int_sse2.hpp", "        int_vec_sse2 ret (_mm_srli_epi32(arg.data_, count));", "        int_vec_sse2 ret (_mm_srai_epi32(arg.data_, count));")], "-O1", '''
#include "vec.hpp"
int main() { nova::vec<float>::int_vec v(-16), r=srli(v,4); int o[4]; std::memcpy(o,&r,16); if (o[1]!=0x0fffffff) { printf("srli(-16,4)=%x\\n",o[1]); return 1; } return 0; }
''', "a lane with the top bit set", "the logical right shift replicates the sign bit")
bug("c08-loop-counter16", "C08", [("detail/unroll_helpers.hpp", "always_inline void generate_simd_loop(float_type * out, Arg1 arg1, Arg2 arg2, unsigned int n, Functor const & f)\n{\n    const unsigned int per_loop = vec<float_type>::objects_per_cacheline;\n    n /= per_loop;\n    do {\n        detail::compile_time_unroller<float_type, per_loop>::run(out, arg1, arg2, f);\n        out += per_loop;\n    } while (--n);\n}", "always_inline void generate_simd_loop(float_type * out, Arg1 arg1, Arg2 arg2, unsigned int n, Functor const & f)\n{\n    const unsigned int per_loop = vec<float_type>::objects_per_cacheline;\n    unsigned short loops = n / per_loop;\n    do {\n        detail::compile_time_unroller<float_type, per_loop>::run(out, arg1, arg2, f);\n        out += per_loop;\n    } while (--loops);\n}")], "-O1", '''
#include "simd_binary_arithmetic.hpp"
int main() { unsigned n=16*65536+16; float* p; if (posix_memalign((void**)&p,64,n*4)) return 0; for (unsigned i=0;i<n;i++) p[i]=1; nova::plus_vec_simd(p,(const float*)p,1.f,n); for (unsigned i=0;i<n;i++) if (p[i]!=2) { printf("element %u not processed\\n",i); return 1; } return 0; }
''', "a SIMD call with more than 65536 loop blocks", "a 16-bit loop counter processes only part of very long buffers")
bug("c11-copy-nn", "C11", [("simd_memory.hpp", "COPYVEC_FUNCTION(copyvec_na, false, true)", "COPYVEC_FUNCTION(copyvec_na, true, true)")], "-O1", '''
#include "simd_memory.hpp"
#include <sys/wait.h>
#include <unistd.h>
int main() { pid_t c=fork(); if (!c) { alignas(64) static float s[80], d[64]; for (int i=0;i<80;i++) s[i]=i; for (int off=0;off<16;off++) { nova::copyvec_na_simd(d,(const float*)s+off,64u); for (int i=0;i<64;i++) if (d[i]!=s[i+off]) _exit(1); } _exit(0); } int st; waitpid(c,&st,0); if (st) printf("copy from an unaligned source fails (status %x)\\n",st); return st!=0; }
''', "an unaligned source of copyvec_na_simd", "aligned loads are used on an unaligned source (fault)")
bug("c15-peak-last", "C15", [("simd_peakmeter.hpp", "        last = std::fabs(*in++);\n        local_peak = max(local_peak, last);", "        last = std::fabs(*in++);\n        if (last > local_peak && n != 1)\n            local_peak = last;")], "-O1", '''
#include "simd_peakmeter.hpp"
int main() { float x[5]={0.1f,0.2f,0.3f,0.1f,-0.9f}, p=0; float l=nova::peak_vec((const float*)x,&p,5u); if (p!=0.9f || l!=0.9f) { printf("peak %g last %g\\n",p,l); return 1; } return 0; }
''', "the peak being the last sample of a scalar block", "the last sample of a block is not taken into account for the peak")
bug("c21-avx-aligned-16", "C21", [("vec/vec_avx_float.hpp", "        return ((intptr_t)(ptr) & (intptr_t)(size * sizeof(float) - 1)) == 0;", "        return ((intptr_t)(ptr) & (intptr_t)(sizeof(__m128) - 1)) == 0;")], "-O1 -mavx", '''
#include "vec.hpp"
int main() { alignas(64) float x[32]; for (int i=0;i<16;i++) if (nova::vec<float>::is_aligned(x+i) != (i%8==0)) { printf("offset %d\\n",i); return 1; } return 0; }
''', "AVX, a buffer aligned to 16 but not to 32 bytes", "is_aligned accepts buffers on which the aligned operations fault")
bug("c07-const-short", "C07", [("simd_unit_conversion.hpp", "        return pow_()(FloatType(2.), midi * FloatType(0.083333333333));", "        return pow_()(FloatType(2.), midi * FloatType(0.0833333));")], "-O1", '''
#include "simd_unit_conversion.hpp"
int main() { float x[2]={120,-120}, o[2]; nova::midi2ratio_vec(o,(const float*)x,2); if (std::fabs(o[0]/1024-1)>2.5e-6 || std::fabs(o[1]*1024-1)>2.5e-6) { printf("midi2ratio(120)=%.9g\\n",o[0]); return 1; } return 0; }
''', "intervals of many octaves", "the truncated 1/12 detunes midi2ratio by more than float accuracy")
bug("c20-avx-mask-lt-hi", "C20", [("vec/vec_int_avx.hpp", "    APPLY_SSE_FUNCTION(mask_lt, mask_lt)\n", "    friend int_vec_avx mask_lt(int_vec_avx const & lhs, int_vec_avx const & rhs)\n    {\n        return mask_gt(rhs, lhs + int_vec_avx(0));\n    }\n"), ("vec/vec_int_avx.hpp", "    APPLY_SSE_FUNCTION(mask_gt, mask_gt)\n", "    /* sign of the difference */\n    friend int_vec_avx mask_gt(int_vec_avx const & lhs, int_vec_avx const & rhs)\n    {\n        const int_vec_avx negative = srli(rhs - lhs, 31);\n        return int_vec_avx(0) - negative;\n    }\n")], "-O1 -mavx", '''
#include "vec.hpp"
int main() { typedef nova::vec<float>::int_vec iv; iv a(2000000000), b(-2000000000), m=mask_gt(a,b); int o[8]; std::memcpy(o,&m,32); if (o[5]!=-1) { printf("2000000000 > -2000000000 is false\\n"); return 1; } return 0; }
''', "operands of opposite sign whose difference overflows 32 bits (AVX)", "the integer comparison masks are wrong when the difference overflows")
bug("c19-memo-pointer", "C19", [("simd_horizontal_functions.hpp", "    F init = -std::numeric_limits<F>::infinity();\n    vec<F> current(init);\n", "    /* blocks are often measured twice */\n    static const F * last_in = 0;\n    static unsigned int last_n = 0;\n    static F last_first = 0, last_result = 0;\n    if (in == last_in && n == last_n && *in == last_first)\n        return last_result;\n    last_in = in; last_n = n; last_first = *in;\n\n    F init = -std::numeric_limits<F>::infinity();\n    vec<F> current(init);\n"), ("simd_horizontal_functions.hpp", "    return current.horizontal_max();\n", "    last_result = current.horizontal_max();\n    return last_result;\n")], "-O1", '''
#include "simd_horizontal_functions.hpp"
int main() { alignas(64) float x[64]; for (int i=0;i<64;i++) x[i]=i; if (nova::horizontal_max_vec_simd((const float*)x,64u)!=63) return 2; x[5]=100; float m=nova::horizontal_max_vec_simd((const float*)x,64u); if (m!=100) { printf("stale maximum %g\\n",m); return 1; } return 0; }
''', "the same buffer measured again with changed contents but unchanged first element", "a stale cached maximum is returned")
bug("c16-memo-db2amp", "C16", [("simd_unit_conversion.hpp", "        return pow_()(FloatType(10.), db * FloatType(0.05));", "        return cached(db);"), ("simd_unit_conversion.hpp", "struct db2amp\n{\n", "struct db2amp\n{\n    /* gain values rarely change from sample to sample */\n    static float cached(float db)\n    {\n        static float last_db = 0.f, last_amp = 1.f;\n        if (db != last_db) {\n            last_db  = db;\n            last_amp = pow_()(10.f, db * 0.05f);\n        }\n        return last_amp;\n    }\n\n    template <typename Other>\n    static Other cached(Other const & db)\n    {\n        return pow_()(Other(10.), db * Other(0.05));\n    }\n\n")], "-O1 -pthread", '''
#include "simd_unit_conversion.hpp"
#include <thread>
#include <atomic>
static std::atomic<int> bad{0};
static void work(int t) { float x[64], o[64], e[64]; for (int i=0;i<64;i++) { x[i]=-6.f*t-i*0.01f; e[i]=std::pow(10.0,x[i]*0.05); } for (int k=0;k<100000 && !bad;k++) { nova::db2amp_vec(o,(const float*)x,64u); for (int i=0;i<64;i++) if (std::fabs(o[i]-e[i])>1e-4f*e[i]) { bad=1; break; } } }
int main() { for (int r=0;r<5 && !bad;r++) { std::thread a(work,0), b(work,1), c(work,2), d(work,3); a.join(); b.join(); c.join(); d.join(); } if (bad) printf("concurrent db2amp calls disturb each other\\n"); return bad; }
''', "two threads converting decibels at the same time", "a one-entry cache is shared between threads without synchronisation")
bug("c15-peak-unroll", "C15", [("simd_peakmeter.hpp", "        vec<F> local_max = max_(abs0, abs1);\n        maximum = max_(maximum, local_max);\n\n        local_squared_sum += sqr0 + sqr1;", "        vec<F> local_max = max_(in0, in1);\n        maximum = max_(maximum, max_(local_max, abs0));\n\n        local_squared_sum += sqr0 + sqr1;")], "-O1", '''
#include "simd_peakmeter.hpp"
int main() { alignas(64) float x[64]; for (int p=0;p<64;p++) { for (int i=0;i<64;i++) x[i]=0.25f; x[p]=-0.9f; float pk=0,s=0; nova::peak_rms_vec_simd((const float*)x,&pk,&s,64u); if (pk!=0.9f) { printf("position %d peak %g\\n",p,pk); return 1; } } return 0; }
''', "a negative peak in the second half of an unrolled step", "negative peaks are missed in every second vector")
bug("c13-sse2-neq-ordered", "C13", [("vec/vec_sse2.hpp", "    RELATIONAL_MASK_OPERATOR(neq, _mm_cmpneq_pd)", "    friend vec mask_neq(vec const & lhs, vec const & rhs)\n    {\n        return _mm_or_pd(_mm_cmplt_pd(lhs.data_, rhs.data_), _mm_cmpgt_pd(lhs.data_, rhs.data_));\n    }")], "-O1", '''
#include "vec.hpp"
int main() { nova::vec<double> a(std::numeric_limits<double>::quiet_NaN()), b(1.0), m=mask_neq(a,b); alignas(16) double o[2]; m.store_aligned(o); uint64_t u; std::memcpy(&u,&o[1],8); if (u!=~0ull) { printf("mask_neq(NaN,1) is clear\\n"); return 1; } return 0; }
''', "a NaN operand of the SSE2 double not-equal mask", "mask_neq is clear for unordered operands")
bug("c12-sse2-load-first", "C12", [("vec/vec_sse2.hpp", "_mm_load_sd", "_mm_load1_pd")], "-O1", '''
#include "vec.hpp"
int main() { double d=3; nova::vec<double> v; v.load_first(&d); if (v.get(0)!=3 || v.get(1)!=0) { printf("lane 1 is %g\\n",v.get(1)); return 1; } return 0; }
''', "load_first of a nonzero double (SSE2)", "single-element load broadcasts instead of zeroing the other lanes")
bug("c18-exp-clamp-any", "C18", [(VM, "    VecType approx = ldexp_float(p, n);\n\n    /* handle min", "    VecType approx = abs(arg).horizontal_max() < 1e-3f /* two terms are sufficient */\n                         ? VecType(1.f) + arg + arg * arg * VecType(0.5f)\n                         : ldexp_float(p, n);\n\n    /* handle min")], "-O1", '''
#include "simd_math.hpp"
int main() { alignas(64) float x[16], o[16], p[16]; int bad=0; for (int k=1;k<1000;k++) { float v=k*1e-6f; for (int i=0;i<16;i++) x[i]=v; nova::exp_vec_simd(o,(const float*)x,16u); x[1]=x[5]=x[9]=x[13]=2.f; nova::exp_vec_simd(p,(const float*)x,16u); if (o[0]!=p[0]) { printf("exp(%g) is %.9g or %.9g\\n",v,o[0],p[0]); return 1; } } return 0; }
''', "all elements of a vector below 1e-3", "the value of exp for small arguments depends on the other lanes")
bug("c09-pan-scalar-reread", "C09", [("simd_pan.hpp", "        F sig = *in++;\n        *out0++ = sig * factor0;\n        *out1++ = sig * factor1;\n    } while(--n);", "        *out0++ = *in * factor0;\n        *out1++ = *in++ * factor1;\n    } while(--n);")], "-O1", '''
#include "simd_pan.hpp"
int main() { float x[5]={1,2,3,4,5}, b[5]; nova::pan2_vec(x,b,(const float*)x,0.5f,0.25f,5u); for (int i=0;i<5;i++) if (x[i]!=0.5f*(i+1) || b[i]!=0.25f*(i+1)) { printf("element %d: %g %g\\n",i,x[i],b[i]); return 1; } return 0; }
''', "scalar panning with the first output being the input buffer", "the second channel is computed from the panned first channel")
bug("c10-ramp-narrowed", "C10", [("detail/wrap_argument_vector.hpp", "    return detail::vector_ramp_argument<FloatType>(arg.data, arg.slope_);", "    const float slope = arg.slope_;\n    return detail::vector_ramp_argument<FloatType>(arg.data, slope);")], "-O1", '''
#include "simd_binary_arithmetic.hpp"
int main() { alignas(64) static double x[1024], o[1024]; for (int i=0;i<1024;i++) x[i]=0; nova::plus_vec_simd(o,(const double*)x,nova::slope_argument(1.0,0.1),1024u); for (int i=0;i<1024;i++) if (std::fabs(o[i]-(1+0.1*i))>1e-10) { printf("element %d: %.15g\\n",i,o[i]); return 1; } return 0; }
''', "a SIMD ramp of doubles whose slope is no float", "the slope of double ramps is rounded to float")
bug("c04-exp-minlog", "C04", [(VM, "    const VecType minlogf(-88.0f);\n    const VecType max_float(std::numeric_limits<float>::max());\n    const VecType zero = VecType::gen_zero();\n\n    VecType too_large = mask_ge(arg, maxlogf);", "    const VecType minlogf(-87.0f);\n    const VecType max_float(std::numeric_limits<float>::max());\n    const VecType zero = VecType::gen_zero();\n\n    VecType too_large = mask_ge(arg, maxlogf);")], "-O1", '''
#include "simd_math.hpp"
int main() { alignas(64) float x[16], o[16]; for (int i=0;i<16;i++) x[i]=-86.5f-i*0.05f; nova::exp_vec_simd(o,(const float*)x,16u); for (int i=0;i<16;i++) { double e=std::exp((double)x[i]); if (std::fabs(o[i]-e)>1e-6*e) { printf("exp(%g)=%g\\n",x[i],o[i]); return 1; } } return 0; }
''', "an argument of exp between -87.33 and -87", "exp returns zero although the result is a normal number")
bug("c06-pow-clamp", "C06", [(VM, "    const VecType result = exp(arg2 * log(arg1));\n    return select(result, zero, arg1_zero);", "    const VecType limit((typename VecType::float_type)80);\n    const VecType result = exp(min_(arg2 * log(arg1), limit));\n    return select(result, zero, arg1_zero);")], "-O1", '''
#include "simd_math.hpp"
#include "simd_binary_arithmetic.hpp"
int main() { alignas(64) float x[16], o[16]; for (int i=0;i<16;i++) x[i]=1e4f*(i+1); nova::pow_vec_simd(o,(const float*)x,7.f,16u); for (int i=0;i<16;i++) { double e=std::pow((double)x[i],7.0); if (std::fabs(o[i]-e)>1e-4*e) { printf("pow(%g,7)=%g\\n",x[i],o[i]); return 1; } } return 0; }
''', "a float power between e^80 and the largest float", "pow saturates far below the largest float")
bug("c10-ramp-count16", "C10", [("detail/wrap_argument_vector.hpp", "        FloatType vSlope = data.set_slope(base, slope);\n        slope_.set_vec(vSlope);\n    }", "        FloatType vSlope = data.set_slope(base, slope);\n        start_ = data;\n        count_ = 0;\n        slope_.set_vec(vSlope);\n    }"),
 ("detail/wrap_argument_vector.hpp", "    {\n        data += slope_;\n    }", "    {\n        /* computed from the start, so that rounding errors do not accumulate */\n        data = start_ + slope_ * vec<FloatType>(FloatType(++count_));\n    }"),
 ("detail/wrap_argument_vector.hpp", "    vec<FloatType> slope_;\n};", "    vec<FloatType> slope_;\n    vec<FloatType> start_;\n    unsigned short count_;\n};")], "-O1", '''
#include "simd_binary_arithmetic.hpp"
int main() { const unsigned n=1u<<20; float* x=(float*)aligned_alloc(64,n*4), *o=(float*)aligned_alloc(64,n*4); for (unsigned i=0;i<n;i++) x[i]=0; nova::plus_vec_simd(o,(const float*)x,nova::slope_argument(0.f,1.f/1024),n); for (unsigned i=0;i<n;i++) if (o[i]!=i/1024.f) { printf("element %u: %g\\n",i,o[i]); return 1; } return 0; }
''', "a SIMD ramp over more than 65536 vectors", "the ramp starts over after 65536 vectors")
bug("c14-hmax-count16", "C14", [("simd_horizontal_functions.hpp", "    F init = -std::numeric_limits<F>::infinity();\n    vec<F> current(init);\n\n    /* loop */\n    const size_t vec_size = vec<F>::size;\n    n /= vec_size;\n    do {\n        vec<F> val;\n        val.load_aligned(in);\n\n        current = max_(current, val);\n        in += vec_size;\n    } while(--n);", "    F init = -std::numeric_limits<F>::infinity();\n    vec<F> current(init);\n\n    /* loop */\n    const size_t vec_size = vec<F>::size;\n    unsigned short loops = n / vec_size;\n    do {\n        vec<F> val;\n        val.load_aligned(in);\n\n        current = max_(current, val);\n        in += vec_size;\n    } while(--loops);")], "-O1", '''
#include "simd_horizontal_functions.hpp"
int main() { const unsigned n=65600*16; float* x=(float*)aligned_alloc(64,n*4); for (unsigned i=0;i<n;i++) x[i]=0; x[n-5]=3; float m=nova::horizontal_max_vec_simd((const float*)x,n); if (m!=3) { printf("maximum %g\\n",m); return 1; } return 0; }
''', "a buffer of more than 65535 vectors", "the SIMD maximum ignores the end of very long buffers")
bug("c01-over-const", "C01", [("vec/vec_avx_double.hpp", "    ARITHMETIC_OPERATOR(/, _mm256_div_pd)\n", "\n    vec operator /(vec const & rhs) const\n    {\n        /* same divisor in all lanes: one scalar division */\n        if (_mm256_movemask_pd(_mm256_cmp_pd(rhs.data_, _mm256_set1_pd(rhs.get(0)), _CMP_EQ_OQ)) == 15)\n            return _mm256_mul_pd(data_, _mm256_set1_pd(1.0 / rhs.get(0)));\n        return _mm256_div_pd(data_, rhs.data_);\n    }\n")], "-O1 -mavx", '''
#include "simd_binary_arithmetic.hpp"
int main() { alignas(64) double x[16], o[16]; for (int i=0;i<16;i++) x[i]=i+1; nova::over_vec_simd(o,(const double*)x,49.0,16u); for (int i=0;i<16;i++) if (o[i]!=x[i]/49.0) { printf("%g/49=%.17g\\n",x[i],o[i]); return 1; } return 0; }
''', "division by a constant on AVX doubles", "the quotient is rounded twice")
bug("c12-avx-setexp", "C12", [("vec/vec_avx_double.hpp", "        double v3 = v2 * curve;\n        data_ = _mm256_set_pd(v3, v2, v1, start);\n        return v3 * curve;", "        double v3 = v2 * curve;\n        data_ = _mm256_set_pd(v3, v2, v1, start);\n        return v3 + v3 * (curve - (curve > 0 ? 1 : -1));")], "-O1 -mavx", '''
#include "vec.hpp"
int main() { nova::vec<double> v; double r=v.set_exp(1.0,-2.0); if (r!=16) { printf("next value %g\\n",r); return 1; } return 0; }
''', "an exponential fill of AVX doubles with a negative factor", "the continuation value has the wrong sign")
bug("c13-sse2-hsum-order", "C13", [("vec/vec_sse2.hpp", "    inline double horizontal_max(void) const\n    {\n        HORIZONTAL_OP(_mm_max_sd);", "    inline double horizontal_max(void) const\n    {\n        if (_mm_movemask_pd(data_) == 3) /* both negative */\n            return horizontal_min();\n        return _mm_cvtsd_f64(_mm_max_sd(data_, _mm_unpackhi_pd(data_, data_)));")], "-O1", '''
#include "vec.hpp"
int main() { nova::vec<double> v; v.set(0,-1); v.set(1,-2); if (v.horizontal_max()!=-1) { printf("max(-1,-2)=%g\\n",v.horizontal_max()); return 1; } return 0; }
''', "two different negative lanes", "horizontal maximum of two negative values is the smaller one")
bug("c17-clip-scalar", "C17", [("simd_ternary_arithmetic.hpp", "        return max_(min_(value, high),\n                    low);", "        return max_(min_(value - low, high - low), low - low) + low;")], "-O1", '''
#include "simd_ternary_arithmetic.hpp"
int main() { float x[4]={1e-8f,0.3f,2.f,-3.f}, o[4], e[4]={1e-8f,0.3f,1.f,-1.f}; nova::clip_vec(o,(const float*)x,-1.f,1.f,4u); for (int i=0;i<4;i++) if (o[i]!=e[i]) { printf("clip(%g)=%.9g\\n",x[i],o[i]); return 1; } return 0; }
''', "a small value well inside the limits", "clip loses low-order bits of values inside the limits")
bug("c22-pan-temp", "C22", [("simd_pan.hpp", "    do\n    {\n        F sig = *in++;\n        *out0++ = sig * factor0;\n        *out1++ = sig * factor1;\n    } while(--n);", "    F * copy = 0;\n    const F * source = in;\n    if (out0 == in || out1 == in)\n        source = copy = std::copy(in, in + n, new F[n]) - n; /* in-place: work on a copy of the input */\n\n    do\n    {\n        F sig = *source++;\n        *out0++ = sig * factor0;\n        *out1++ = sig * factor1;\n    } while(--n);\n    delete[] copy;"), ("simd_pan.hpp", '#include "vec.hpp"\n', '#include <algorithm>\n\n#include "vec.hpp"\n')], "-O1", r'''
static int inside, count; extern "C" void* __libc_malloc(size_t); extern "C" void* malloc(size_t n) { if (inside) count++; return __libc_malloc(n); }
#include "simd_pan.hpp"
int main() { static float x[1000], b[1000]; for (int i=0;i<1000;i++) x[i]=i; inside=1; nova::pan2_vec(x,b,(const float*)x,0.5f,0.25f,1000u); inside=0; if (count) { printf("%d allocations in an in-place pan2_vec\n",count); return 1; } return 0; }
''', "in-place scalar panning", "the call allocates a temporary copy of the input on the heap")
bug("c22-binary-alloca", "C22", [("detail/math.hpp", "inline void apply_on_vector(FloatType * out, Arg1Type in1, Arg2Type in2, unsigned int n, Functor f)\n{\n    do\n    {\n        *out++ = f(in1.get(), in2.get());\n        in1.increment();\n        in2.increment();\n    }\n    while (--n);", "inline void apply_on_vector(FloatType * out, Arg1Type in1, Arg2Type in2, unsigned int n, Functor f)\n{\n    FloatType * result = static_cast<FloatType*>(__builtin_alloca(n * sizeof(FloatType)));\n    for (unsigned int i = 0; i != n; ++i)\n        result[i] = f(in1.consume(), in2.consume());\n    for (unsigned int i = 0; i != n; ++i)\n        out[i] = result[i];")], "-O1", r'''
#include "simd_binary_arithmetic.hpp"
#include <sys/resource.h>
int main() { rlimit r={1<<20,1<<20}; unsigned n=1u<<22; float* x=(float*)malloc(n*4), *o=(float*)malloc(n*4); for (unsigned i=0;i<n;i++) x[i]=i; setrlimit(RLIMIT_STACK,&r); nova::plus_vec(o,(const float*)x,1.f,n); for (unsigned i=0;i<n;i++) if (o[i]!=x[i]+1.f) return 1; return 0; }
''', "a scalar two-operand call on a long buffer with a small stack", "stack use grows with the length, long calls overflow the stack")
bug("c23-round-noninline", "C23", [("detail/math.hpp", "inline double round<double>(double const & arg)", "double round<double>(double const & arg)")], "-O1", r"""
#include "simd_unary_arithmetic.hpp"
#ifndef SECOND
int other();
int main() { double x[4]={1.2,2.7,-3.1,0}, o[4]; nova::round_vec(o,(const double*)x,4u); return o[1]==3 && other()==3 ? 0 : 1; }
#else
int other() { double x[1]={2.7}, o[1]; nova::round_vec(o,(const double*)x,1u); return (int)o[0]; }
#endif
""", "a program with two translation units that include the arithmetic headers", "duplicate definition of round<double>: the program does not link")
bug("c23-softclip-macro", "C23", [("softclip.hpp", "#undef always_inline\n", "#undef inline_always\n")], "-O1 -DNDEBUG", r"""
#include "softclip.hpp"
__attribute__((always_inline)) inline int twice(int x) { return 2*x; }
int main() { return twice(2)==4 ? 0 : 1; }
""", "client code that uses the always_inline attribute after including softclip.hpp", "the helper macro always_inline leaks into the client's code")
bug("c24-cos-polymask", "C24", [(VM, "    VecType poly_mask = VecType (mask_eq(jm2 & int_vec(2), int_vec(0)));", "    VecType poly_mask = mask_eq(VecType(jm2 & int_vec(2)), VecType(VecType::gen_zero()));")], "-O1", r'''
#include "simd_math.hpp"
int main() { alignas(64) float x[16], o[16]; for (int i=0;i<16;i++) x[i]=0.2f*i; _mm_setcsr(_mm_getcsr()|0x8040); nova::cos_vec_simd(o,(const float*)x,16u); for (int i=0;i<16;i++) if (std::fabs(o[i]-std::cos((double)x[i]))>1e-5) { printf("cos(%g)=%g\n",x[i],o[i]); return 1; } return 0; }
''', "denormals-are-zero enabled in the calling thread", "the quadrant number, compared as a float, is a denormal and counts as zero: cos uses the wrong polynomial")
bug("c24-sin-swap", "C24", [(VM, "    VecType swap_sign_bit = slli(j & int_vec(4), 29);", "    VecType swap_sign_bit = mask_neq(VecType(j & int_vec(4)), VecType(VecType::gen_zero())) & VecType(VecType::gen_sign_mask());")], "-O1", r'''
#include "simd_math.hpp"
int main() { alignas(64) float x[16], o[16]; for (int i=0;i<16;i++) x[i]=0.4f*i; _mm_setcsr(_mm_getcsr()|0x40); nova::sin_vec_simd(o,(const float*)x,16u); for (int i=0;i<16;i++) if (std::fabs(o[i]-std::sin((double)x[i]))>1e-5) { printf("sin(%g)=%g\n",x[i],o[i]); return 1; } return 0; }
''', "denormals-are-zero enabled and an argument in the lower half circle", "sin has the wrong sign")
bug("c25-neon-hmax-half", "C25", [("vec/vec_neon.hpp", "        float32x2_t pmax = vmax_f32(low, high);\n        float pmax0 = vget_lane_f32(pmax, 0);\n        float pmax1 = vget_lane_f32(pmax, 1);\n", "        float32x2_t pmax = vmax_f32(low, high);\n        float pmax0 = vget_lane_f32(pmax, 0);\n        float pmax1 = vget_lane_f32(high, 1);\n")], '-O1 -U__SSE__ -U__SSE2__ -D__ARM_NEON__ -isystem "$here"', '''
#include "simd_horizontal_functions.hpp"
int main() { alignas(64) float x[32]; for (int p=0;p<32;p++) { for (int i=0;i<32;i++) x[i]=-2.f-i; x[p]=-1.f; float m=nova::horizontal_max_vec_simd(x,32); if (m!=-1.f) { printf("maximum at %d: %g\\n",p,m); return 1; } } return 0; }
''', "the maximum in the second lane of a NEON vector", "the NEON lane maximum ignores lane 1, so buffer maxima can be wrong")
bug("c25-altivec-le-nan", "C25", [("vec/vec_altivec.hpp", "#define vec_cmple_(a, b) vec_cmpge(b, a)\n", "#define vec_cmple_(a, b) vec_not((internal_vector_type)vec_cmpgt(a, b))\n")], '-O1 -U__SSE__ -U__SSE2__ -D__ALTIVEC__ -isystem "$here"', '''
#include "simd_binary_arithmetic.hpp"
int main() { alignas(64) float a[16], b[16], o[16]; for (int i=0;i<16;i++) { a[i]=i; b[i]=7; } a[5]=std::numeric_limits<float>::quiet_NaN();
 nova::less_equal_vec_simd(o,(const float*)a,(const float*)b,16); for (int i=0;i<16;i++) if (o[i] != (a[i]<=b[i]?1.f:0.f)) { printf("%g <= %g gives %g\\n",a[i],b[i],o[i]); return 1; } return 0; }
''', "a NaN operand of less_equal in an AltiVec build", "the AltiVec comparison <= is true for NaN operands")
bug("c23-using-std", "C23", [("simd_peakmeter.hpp", "namespace nova\n{\n\n/* updates peak, returns", "using namespace std;\n\nnamespace nova\n{\n\n/* updates peak, returns"), ("simd_peakmeter.hpp", "    F local_peak = *peak;\n    using namespace std;\n\n    do {\n        last", "    F local_peak = *peak;\n\n    do {\n        last"), ("simd_peakmeter.hpp", "    F local_squared_sum = *squared_sum;\n    using namespace std;\n", "    F local_squared_sum = *squared_sum;\n")], "-O1 -DNDEBUG", r"""
#include "simd_peakmeter.hpp"
template <class T> T max(T a, T b) { return a > b ? a : b; }
struct pair { int first; };
int main() { pair p; p.first = 3; return max(p.first, 2) == 3 ? 0 : 1; }
""", "a client that has a function max or a type pair at global scope", "simd_peakmeter.hpp leaks a using-directive: the client's own names become ambiguous")
bug("c10-ramp-tiny", "C10", [("detail/wrap_argument_vector.hpp", "        FloatType vSlope = data.set_slope(base, slope);\n        slope_.set_vec(vSlope);\n", "        FloatType vSlope = data.set_slope(base, slope);\n        if (vSlope < FloatType(1e-6) && vSlope > FloatType(-1e-6)) { /* inaudible: keep the value constant */\n            data.set_vec(base);\n            vSlope = FloatType(0);\n        }\n        slope_.set_vec(vSlope);\n")], "-O1 -DNDEBUG", r'''
#include "simd_binary_arithmetic.hpp"
int main() { alignas(64) static double x[64], o[64]; for (int i=0;i<64;i++) x[i]=1; nova::times_vec_simd(o,(const double*)x,nova::slope_argument(0.0,1e-8),64u); for (int i=0;i<64;i++) if (std::fabs(o[i]-i*1e-8)>1e-12) { printf("element %d: %g\n",i,o[i]); return 1; } return 0; }
''', "a ramp with a slope below 1e-6 per vector (long fades)", "the SIMD forms treat slow ramps as constants")
bug("c22-setexp-quadratic", "C22", [("simd_memory.hpp", "        *dest++ = f; f *= curve;\n", "        F value = f; /* no state carried from one sample to the next */\n        for (unsigned int k = 0; k != count; ++k)\n            value *= curve;\n        *dest++ = value; ++count;\n"), ("simd_memory.hpp", "inline void set_exp_vec(F * dest, F f, F curve, unsigned int n)\n{\n    assert(n);\n", "inline void set_exp_vec(F * dest, F f, F curve, unsigned int n)\n{\n    assert(n);\n    unsigned int count = 0;\n")], "-O1 -DNDEBUG", r'''
#include <unistd.h>
#include "simd_memory.hpp"
int main() { alarm(20); static double o[400000]; nova::set_exp_vec(o,1.0,0.99999,400000u); return std::fabs(o[399999]-std::pow(0.99999,399999.0))<1e-9 ? 0 : 1; }
''', "long buffers (the values are right)", "the scalar exponential ramp takes time quadratic in the length")
