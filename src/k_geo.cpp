// C21: published geometry and alignment test; dispatch on them as a client would write it
#include "k_common.hpp"
typedef nova::vec<T> V;
static void put(const char* op, const char* form, const char* kinds, unsigned fixed, kfn f) { gen::tab().push_back(Kernel{op,form,kinds,fixed,f}); }
#define P(op,form,kinds,N,...) put(op,form,kinds,N,[](void* o_, void* o1_, const KArg* a, unsigned n) { T* o = (T*)o_; T* o1 = (T*)o1_; const T* in = (const T*)a[0].p; const T* in1 = (const T*)a[1].p; (void)o; (void)o1; (void)in; (void)in1; (void)n; __VA_ARGS__; });
static bool al(const T* p) { return V::is_aligned(const_cast<T*>(p)); }
static void build() {
    P("geometry","geo","",0, double* d = (double*)o_; d[0] = V::size; d[1] = sizeof(V); d[2] = V::objects_per_cacheline; d[3] = nova::unroll_constraints<T>::samples_per_loop; d[4] = alignof(V); d[5] = sizeof(typename V::float_type))
    P("is_aligned","geo","",0, *(int*)o_ = V::is_aligned((T*)a[0].p) ? 1 : 0)
    P("load_store_aligned","geo","",0, V v; v.load_aligned(in); v.store_aligned(o))
    P("load_store_stream","geo","",0, V v; v.load_aligned(in); v.store_aligned_stream(o))
    P("load_store","geo","",0, V v; v.load(in); v.store(o))
    P("object_array","geo","",0, static thread_local V arr[9]; for (int i = 0; i < 9; i++) arr[i].set_vec((T)i); long bad = 0; for (int i = 0; i < 9; i++) { if (!V::is_aligned((T*)&arr[i])) bad++; alignas(64) T t[64]; arr[i].store_aligned(t); for (int j = 0; j < V::size; j++) bad += t[j] != (T)i; } *(long*)o_ = bad)
    P("dispatch_abs","disp","v",0, if (al(o) && al(in) && n % PL == 0) { nova::abs_vec_simd(o,in,n); o1[0] = 1; } else { nova::abs_vec(o,in,n); o1[0] = 0; })
    P("dispatch_plus","disp","vv",0, if (al(o) && al(in) && al(in1) && n % PL == 0) { nova::plus_vec_simd(o,in,in1,n); o1[0] = 1; } else { nova::plus_vec(o,in,in1,n); o1[0] = 0; })
    P("dispatch_copy","disp","v",0, bool m = n % PL == 0; o1[0] = m; if (!m) nova::copyvec(o,in,n); else if (al(o)) { if (al(in)) nova::copyvec_aa_simd(o,in,n); else nova::copyvec_na_simd(o,in,n); } else { if (al(in)) nova::copyvec_an_simd(o,in,n); else nova::copyvec_nn_simd(o,in,n); })
    P("dispatch_set","disp","s",0, bool m = n % PL == 0; o1[0] = m; if (!m) nova::setvec(o,(T)a[0].s,n); else if (al(o)) nova::setvec_simd(o,(T)a[0].s,n); else nova::setvec_na_simd(o,(T)a[0].s,n))
    P("dispatch_zero","disp","",0, bool m = n % PL == 0; o1[0] = m; if (!m) nova::zerovec(o,n); else if (al(o)) nova::zerovec_simd(o,n); else nova::zerovec_na_simd(o,n))
    P("dispatch_hmax","disp","v",0, o1[0] = al(in) && n % V::size == 0; o[0] = o1[0] ? nova::horizontal_max_vec_simd(in,n) : nova::horizontal_max_vec(in,n))
}
GEN_TABLE(build)
