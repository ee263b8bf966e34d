// Included by all kernel libraries.  KT = float | double.
#include "kern_api.h"
#include <cassert>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <limits>
#include <algorithm>
#include <functional>
#ifdef CFG_port   // what the headers see with a C++98 compiler on a system without the C99 feature macros
#include <vector>
#include <numeric>
#include <cstdint>
#include <stdint.h>
#include <iterator>
#include <immintrin.h>
#undef __cplusplus
#define __cplusplus 199711L
#undef _ISOC99_SOURCE
#undef _XOPEN_SOURCE
#endif
#include "simd_binary_arithmetic.hpp"
#include "simd_ternary_arithmetic.hpp"
#include "simd_unary_arithmetic.hpp"
#include "simd_math.hpp"
#include "simd_mix.hpp"
#include "simd_pan.hpp"
#include "simd_memory.hpp"
#include "simd_peakmeter.hpp"
#include "simd_horizontal_functions.hpp"
#include "simd_unit_conversion.hpp"
#include "simd_unroll_constraints.hpp"
#include "softclip.hpp"
typedef KT T;
// operand kinds
struct Kv { static const char c = 'v'; typedef const T* type; static type get(KArg const& a) { return (const T*)a.p; } };
struct Ks { static const char c = 's'; typedef T type; static type get(KArg const& a) { return (T)a.s; } };
struct Kr { static const char c = 'r'; static auto get(KArg const& a) -> decltype(nova::slope_argument((T)1,(T)1)) { return nova::slope_argument((T)a.s,(T)a.d); } };
struct KV { static const char c = 'V'; static auto get(KArg const& a) -> decltype(nova::vector_argument((const T*)0)) { return nova::vector_argument((const T*)a.p); } };
struct KS { static const char c = 'S'; static auto get(KArg const& a) -> decltype(nova::scalar_argument((T)1)) { return nova::scalar_argument((T)a.s); } };
static const unsigned PL = nova::unroll_constraints<T>::samples_per_loop;
#define KTABLE(arr) KEXPORT KernelTable kernel_table() { KernelTable t; t.k = arr; t.n = sizeof(arr)/sizeof(arr[0]); \
    t.vecsize = nova::vec<T>::size; t.per_loop = (int)PL; return t; }

#define LAM [](void* o_, void* o1_, const KArg* a, unsigned n) { T* o = (T*)o_; T* o1 = (T*)o1_; (void)o; (void)o1; (void)a; (void)n;
#define U_SCAL(op) {#op,"scal","v",0,LAM nova::op##_vec(o,(const T*)a[0].p,n);}},
#define U_SIMD(op) {#op,"simd","v",0,LAM nova::op##_vec_simd(o,(const T*)a[0].p,n);}},
#define U_FIX(op,N) {#op,"fix","v",N,LAM nova::op##_vec_simd<N>(o,(const T*)a[0].p);}},
#define B_SCAL(op,x,y) {#op,"scal",#x #y,0,LAM nova::op##_vec(o,K##x::get(a[0]),K##y::get(a[1]),n);}},
#define B_SIMD(op,x,y) {#op,"simd",#x #y,0,LAM nova::op##_vec_simd(o,K##x::get(a[0]),K##y::get(a[1]),n);}},
#define B_FIX(op,x,y,N) {#op,"fix",#x #y,N,LAM nova::op##_vec_simd<N>(o,K##x::get(a[0]),K##y::get(a[1]));}},
#define T_SCAL(op,x,y,z) {#op,"scal",#x #y #z,0,LAM nova::op##_vec(o,K##x::get(a[0]),K##y::get(a[1]),K##z::get(a[2]),n);}},
#define T_SIMD(op,x,y,z) {#op,"simd",#x #y #z,0,LAM nova::op##_vec_simd(o,K##x::get(a[0]),K##y::get(a[1]),K##z::get(a[2]),n);}},
#define T_FIX(op,x,y,z,N) {#op,"fix",#x #y #z,N,LAM nova::op##_vec_simd<N>(o,K##x::get(a[0]),K##y::get(a[1]),K##z::get(a[2]));}},
#define Q_SCAL(op,x,y,z,w) {#op,"scal",#x #y #z #w,0,LAM nova::op##_vec(o,K##x::get(a[0]),K##y::get(a[1]),K##z::get(a[2]),K##w::get(a[3]),n);}},
#define Q_SIMD(op,x,y,z,w) {#op,"simd",#x #y #z #w,0,LAM nova::op##_vec_simd(o,K##x::get(a[0]),K##y::get(a[1]),K##z::get(a[2]),K##w::get(a[3]),n);}},
#define Q_FIX(op,x,y,z,w,N) {#op,"fix",#x #y #z #w,N,LAM nova::op##_vec_simd<N>(o,K##x::get(a[0]),K##y::get(a[1]),K##z::get(a[2]),K##w::get(a[3]));}},

// ---------------------------------------------------------------- tables built from templates over operand kinds
#include <deque>
#include <string>
#include <utility>
#include <vector>
namespace gen {
static std::vector<Kernel>& tab() { static std::vector<Kernel> t; return t; }
static std::deque<std::string>& names() { static std::deque<std::string> d; return d; }
template <class Op, class... Ks> struct Fn {
    template <size_t... I> static void scal_(T* o, const KArg* a, unsigned n, std::index_sequence<I...>) { Op::scal(o, n, Ks::get(a[I])...); }
    template <size_t... I> static void simd_(T* o, const KArg* a, unsigned n, std::index_sequence<I...>) { Op::simd(o, n, Ks::get(a[I])...); }
    template <unsigned N, size_t... I> static void fix_(T* o, const KArg* a, std::index_sequence<I...>) { Op::template fix<N>(o, Ks::get(a[I])...); }
    static void scal(void* o, void*, const KArg* a, unsigned n) { scal_((T*)o, a, n, std::index_sequence_for<Ks...>()); }
    static void simd(void* o, void*, const KArg* a, unsigned n) { simd_((T*)o, a, n, std::index_sequence_for<Ks...>()); }
    template <unsigned N> static void fix(void* o, void*, const KArg* a, unsigned) { fix_<N>((T*)o, a, std::index_sequence_for<Ks...>()); }
};
template <class Op, class... Ks> void add(bool scal = true, bool simd = true) {
    char k[] = {Ks::c..., 0}; names().push_back(k); const char* kn = names().back().c_str();
    if (scal) tab().push_back(Kernel{Op::name(), "scal", kn, 0, &Fn<Op,Ks...>::scal});
    if (simd) tab().push_back(Kernel{Op::name(), "simd", kn, 0, &Fn<Op,Ks...>::simd});
}
template <class Op, unsigned N, class... Ks> void addfix() {
    char k[] = {Ks::c..., 0}; names().push_back(k); const char* kn = names().back().c_str();
    tab().push_back(Kernel{Op::name(), "fix", kn, N, &Fn<Op,Ks...>::template fix<N>});
}
}
#define OP1(op) struct Op_##op { static const char* name() { return #op; } \
    template <class A> static void scal(T* o, unsigned n, A a) { nova::op##_vec(o,a,n); } \
    template <class A> static void simd(T* o, unsigned n, A a) { nova::op##_vec_simd(o,a,n); } \
    template <unsigned N, class A> static void fix(T* o, A a) { nova::op##_vec_simd<N>(o,a); } };
#define OP2N(id,op) struct Op_##id { static const char* name() { return #op; } \
    template <class A, class B> static void scal(T* o, unsigned n, A a, B b) { nova::op##_vec(o,a,b,n); } \
    template <class A, class B> static void simd(T* o, unsigned n, A a, B b) { nova::op##_vec_simd(o,a,b,n); } \
    template <unsigned N, class A, class B> static void fix(T* o, A a, B b) { nova::op##_vec_simd<N>(o,a,b); } };
#define OP2(op) OP2N(op,op)
#define OP3N(id,op) struct Op_##id { static const char* name() { return #op; } \
    template <class A, class B, class C> static void scal(T* o, unsigned n, A a, B b, C c) { nova::op##_vec(o,a,b,c,n); } \
    template <class A, class B, class C> static void simd(T* o, unsigned n, A a, B b, C c) { nova::op##_vec_simd(o,a,b,c,n); } \
    template <unsigned N, class A, class B, class C> static void fix(T* o, A a, B b, C c) { nova::op##_vec_simd<N>(o,a,b,c); } };
#define OP4N(id,op) struct Op_##id { static const char* name() { return #op; } \
    template <class A, class B, class C, class D> static void scal(T* o, unsigned n, A a, B b, C c, D d) { nova::op##_vec(o,a,b,c,d,n); } \
    template <class A, class B, class C, class D> static void simd(T* o, unsigned n, A a, B b, C c, D d) { nova::op##_vec_simd(o,a,b,c,d,n); } \
    template <unsigned N, class A, class B, class C, class D> static void fix(T* o, A a, B b, C c, D d) { nova::op##_vec_simd<N>(o,a,b,c,d); } };
#define GEN_TABLE(build) KEXPORT KernelTable kernel_table() { auto& t = gen::tab(); if (t.empty()) build(); KernelTable r; r.k = t.data(); r.n = (int)t.size(); \
    r.vecsize = nova::vec<T>::size; r.per_loop = (int)PL; return r; }
