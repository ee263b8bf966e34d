// C12, C13, C20: the vector classes themselves
#include "k_common.hpp"
typedef nova::vec<T> V;
static const int S = V::size;
static void put(const char* op, const char* kinds, kfn f) { gen::tab().push_back(Kernel{op,"vec",kinds,0,f}); }
// ---- detection: an operation a class does not offer is left out, one it offers must work
template <class F, class... A> auto probe(int) -> decltype(F::run(std::declval<A>()...), std::true_type());
template <class F, class... A> std::false_type probe(...);
template <class F, bool> struct Add1 { static void go(const char*) {} };
template <class F> struct Add1<F,true> { static void go(const char* nm) { put(nm,"v",[](void* o_, void*, const KArg* a, unsigned n) { T* o=(T*)o_; const T* x=(const T*)a[0].p;
    for (unsigned i=0;i<n;i+=S) { V v; v.load(x+i); V r = F::run(v); r.store(o+i); } }); } };
template <class F, bool> struct Add2 { static void go(const char*) {} };
template <class F> struct Add2<F,true> { static void go(const char* nm) { put(nm,"vv",[](void* o_, void*, const KArg* a, unsigned n) { T* o=(T*)o_; const T* x=(const T*)a[0].p; const T* y=(const T*)a[1].p;
    for (unsigned i=0;i<n;i+=S) { V v,w; v.load(x+i); w.load(y+i); V r = F::run(v,w); r.store(o+i); } }); } };
template <class F, bool> struct Add3 { static void go(const char*) {} };
template <class F> struct Add3<F,true> { static void go(const char* nm) { put(nm,"vvv",[](void* o_, void*, const KArg* a, unsigned n) { T* o=(T*)o_; const T* x=(const T*)a[0].p; const T* y=(const T*)a[1].p; const T* z=(const T*)a[2].p;
    for (unsigned i=0;i<n;i+=S) { V v,w,u; v.load(x+i); w.load(y+i); u.load(z+i); V r = F::run(v,w,u); r.store(o+i); } }); } };
template <class F, bool> struct AddS { static void go(const char*) {} };   // vector and scalar operand: the scalar changes with every vector
template <class F> struct AddS<F,true> { static void go(const char* nm) { put(nm,F::left()?"sv":"vs",[](void* o_, void*, const KArg* a, unsigned n) { T* o=(T*)o_; const T* x=(const T*)a[0].p; const T* y=(const T*)a[1].p;
    for (unsigned i=0;i<n;i+=S) { V v; v.load((F::left()?y:x)+i); T s=(F::left()?x:y)[i]; V r = F::run(v,s); r.store(o+i); } }); } };
#define DEF1(id,expr) struct f_##id { template <class X> static auto run(X v) -> decltype(V(expr)) { return V(expr); } };
#define DEF2(id,expr) struct f_##id { template <class X> static auto run(X v, X w) -> decltype(V(expr)) { return V(expr); } };
#define DEF3(id,expr) struct f_##id { template <class X> static auto run(X v, X w, X u) -> decltype(V(expr)) { return V(expr); } };
#define DEFS(id,l,expr) struct f_##id { static bool left() { return l; } template <class X> static auto run(X v, T s) -> decltype(V(expr)) { return V(expr); } };
DEF2(add,v+w) DEF2(sub,v-w) DEF2(mul,v*w) DEF2(div,v/w) DEF2(mx,max_(v,w)) DEF2(mn,min_(v,w))
struct f_addas { template <class X> static auto run(X v, X w) -> decltype(v+=w, V(v)) { v+=w; return v; } };
struct f_subas { template <class X> static auto run(X v, X w) -> decltype(v-=w, V(v)) { v-=w; return v; } };
struct f_mulas { template <class X> static auto run(X v, X w) -> decltype(v*=w, V(v)) { v*=w; return v; } };
struct f_divas { template <class X> static auto run(X v, X w) -> decltype(v/=w, V(v)) { v/=w; return v; } };
DEF2(lt,v<w) DEF2(le,v<=w) DEF2(gt,v>w) DEF2(ge,v>=w) DEF2(eq,v==w) DEF2(ne,v!=w)
DEF2(mlt,mask_lt(v,w)) DEF2(mle,mask_le(v,w)) DEF2(mgt,mask_gt(v,w)) DEF2(mge,mask_ge(v,w)) DEF2(meq,mask_eq(v,w)) DEF2(mneq,mask_neq(v,w))
DEF2(band,v&w) DEF2(bor,v|w) DEF2(bxor,v^w) DEF2(bandnot,andnot(v,w))
DEFS(adds,false,v+s) DEFS(subs,false,v-s) DEFS(muls,false,v*s) DEFS(divs,false,v/s) DEFS(sadd,true,s+v) DEFS(ssub,true,s-v) DEFS(smul,true,s*v) DEFS(sdiv,true,s/v)
DEF1(neg,-v) DEF1(abs,abs(v)) DEF1(sign,sign(v)) DEF1(square,square(v)) DEF1(cube,cube(v)) DEF1(sqrt,sqrt(v)) DEF1(ssqrt,signed_sqrt(v)) DEF1(round,round(v)) DEF1(floor,floor(v)) DEF1(ceil,ceil(v)) DEF1(trunc,trunc(v)) DEF1(frac,frac(v)) DEF1(undenorm,undenormalize(v)) DEF1(recip,reciprocal(v)) DEF1(frecip,fast_reciprocal(v))
DEF3(madd,madd(v,w,u))
// select: mask from a comparison of the third operand with zero (mask_* where offered, the 1/0 comparison otherwise)
struct f_selm { template <class X> static auto run(X v, X w, X u) -> decltype(V(select(v,w,mask_lt(u,V(T(0)))))) { return select(v,w,mask_lt(u,V(T(0)))); } };
struct f_sel1 { template <class X> static auto run(X v, X w, X u) -> decltype(V(select(v,w,V(u<V(T(0)))))) { return select(v,w,V(u<V(T(0)))); } };
struct f_hmin { template <class X> static auto run(X v) -> decltype(V(T(v.horizontal_min()))) { return V(T(v.horizontal_min())); } };
struct f_hmax { template <class X> static auto run(X v) -> decltype(V(T(v.horizontal_max()))) { return V(T(v.horizontal_max())); } };
struct f_hsum { template <class X> static auto run(X v) -> decltype(V(T(v.horizontal_sum()))) { return V(T(v.horizontal_sum())); } };
struct f_self { template <class X> static auto run(X v) -> decltype(v+=v, V(v)) { v+=v; return v; } };
DEF1(c_zero,(v,X::gen_zero())) DEF1(c_one,(v,X::gen_one())) DEF1(c_05,(v,X::gen_05())) DEF1(c_sign,(v,X::gen_sign_mask())) DEF1(c_abs,(v,X::gen_abs_mask())) DEF1(c_ones,(v,X::gen_ones()))
#define A1(id) Add1<f_##id,decltype(probe<f_##id,V>(0))::value>::go(#id);
#define A2(id) Add2<f_##id,decltype(probe<f_##id,V,V>(0))::value>::go(#id);
#define A3(id) Add3<f_##id,decltype(probe<f_##id,V,V,V>(0))::value>::go(#id);
#define ASC(id) AddS<f_##id,decltype(probe<f_##id,V,T>(0))::value>::go(#id);
static T half_plus_one(T x) { return x*(T)0.5+(T)1; }
// ---- integer companion (float classes with 32-bit integer vectors)
template <class VV> struct IntOps { template <class Q> static auto has(int) -> decltype(typename Q::int_vec(), std::true_type()); template <class Q> static std::false_type has(...); typedef decltype(has<VV>(0)) type; };
template <class VV, bool> struct AddInt { static void go() {} };
template <class VV> struct AddInt<VV,true> {
    typedef typename VV::int_vec I;
    template <class F> static void bin(const char* nm, F) { put(nm,"vv",[](void* o_, void*, const KArg* a, unsigned n) { T* o=(T*)o_; const T* x=(const T*)a[0].p; const T* y=(const T*)a[1].p;
        for (unsigned i=0;i<n;i+=S) { I p,q; memcpy(&p,x+i,sizeof p); memcpy(&q,y+i,sizeof q); I r = F()(p,q); memcpy(o+i,&r,sizeof r); } }); }
    struct Plus { I operator()(I a, I b) const { return a+b; } }; struct Minus { I operator()(I a, I b) const { return a-b; } }; struct And { I operator()(I a, I b) const { return a&b; } };
    struct AndNot { I operator()(I a, I b) const { return andnot(a,b); } }; struct Lt { I operator()(I a, I b) const { return mask_lt(a,b); } }; struct Gt { I operator()(I a, I b) const { return mask_gt(a,b); } }; struct Eq { I operator()(I a, I b) const { return mask_eq(a,b); } };
    struct Set1 { I operator()(I, I b) const { int s; memcpy(&s,&b,4); return I(s); } };
    static void go() {
        bin("iadd",Plus()); bin("isub",Minus()); bin("iand",And()); bin("iandnot",AndNot()); bin("imlt",Lt()); bin("imgt",Gt()); bin("imeq",Eq()); bin("iset1",Set1());
        put("islli","vv",[](void* o_, void*, const KArg* a, unsigned n) { T* o=(T*)o_; const T* x=(const T*)a[0].p; const T* y=(const T*)a[1].p; for (unsigned i=0;i<n;i+=S) { I p; memcpy(&p,x+i,sizeof p); int c; memcpy(&c,y+i,4); I r = slli(p,c&31); memcpy(o+i,&r,sizeof r); } });
        put("isrli","vv",[](void* o_, void*, const KArg* a, unsigned n) { T* o=(T*)o_; const T* x=(const T*)a[0].p; const T* y=(const T*)a[1].p; for (unsigned i=0;i<n;i+=S) { I p; memcpy(&p,x+i,sizeof p); int c; memcpy(&c,y+i,4); I r = srli(p,c&31); memcpy(o+i,&r,sizeof r); } });
        put("i2f","v",[](void* o_, void*, const KArg* a, unsigned n) { T* o=(T*)o_; const T* x=(const T*)a[0].p; for (unsigned i=0;i<n;i+=S) { I p; memcpy(&p,x+i,sizeof p); VV r(p.convert_to_float()); r.store(o+i); } });
        put("f2i","v",[](void* o_, void*, const KArg* a, unsigned n) { T* o=(T*)o_; const T* x=(const T*)a[0].p; for (unsigned i=0;i<n;i+=S) { VV v; v.load(x+i); I r = v.truncate_to_int(); memcpy(o+i,&r,sizeof r); } });
        put("icast","v",[](void* o_, void*, const KArg* a, unsigned n) { T* o=(T*)o_; const T* x=(const T*)a[0].p; for (unsigned i=0;i<n;i+=S) { VV v; v.load(x+i); typename VV::internal_vector_type raw = v; I p(raw); VV r(p); r.store(o+i); } });
    } };
// ---- C12: a program of operations on one live vector object; every step dumps all observers
struct Step { int op, idx; double x, y; };
enum { OBS = 65 };
static void dump(V const& v, T* o, T ret) {
    alignas(64) T b[16]; memset(b,0,sizeof b);
    for (int i=0;i<S;i++) o[i]=v.get(i);
    alignas(64) T u[32]; v.store(u+1); for (int i=0;i<S;i++) o[16+i]=u[1+i];
    v.store_aligned(b); for (int i=0;i<S;i++) o[32+i]=b[i];
    alignas(64) T c[16]; v.store_aligned_stream(c); __builtin_ia32_sfence(); for (int i=0;i<S;i++) o[48+i]=c[i];
    o[64]=ret;
}
static void program(void* o_, void*, const KArg* a, unsigned n) {
    T* o=(T*)o_; const Step* st=(const Step*)a[0].p; const T* buf=(const T*)a[1].p;   // buf is 64-byte aligned
    V v; v.clear();
    for (unsigned k=0;k<n;k++) { Step s=st[k]; T ret=0; T x=(T)s.x, y=(T)s.y; V w;
        switch (s.op) {
        case 0: v.set(s.idx,x); break; case 1: v.set_vec(x); break; case 2: v.clear(); break; case 3: ret=v.set_slope(x,y); break; case 4: ret=v.set_exp(x,y); break;
        case 5: v.load(buf+s.idx); break; case 6: v.load_aligned(buf+s.idx*S); break; case 7: v.load_first(buf+s.idx); break;
        case 8: w.set_slope(x,y); v+=w; break; case 9: w.set_slope(x,y); v-=w; break; case 10: w.set_slope(x,y); v*=w; break; case 11: w.set_slope(x,y); v/=w; break;
        case 12: v+=v; break; case 13: v-=v; break; case 14: v*=v; break; case 15: v=V(x); break; case 16: { V t(v); v.clear(); v=t; } break; case 17: { V t(v); t.set_vec(x); t.set(0,x); } break;   // a copy is independent
        case 18: ret=v.get(s.idx); break; case 19: { T m=v.horizontal_max(); T l=v.horizontal_min(); ret=m-l; } break; case 20: { V t; t.set_vec(x); v=v+t; } break;
        case 21: v = v.collect(half_plus_one); break; }
        dump(v,o+k*OBS,ret); }
}
#ifdef G_UTIL
#include "simd_utils.hpp"
static void utils() {     // SSE register helpers (float only)
    if (sizeof(T)!=4) return; typedef float F;
#define PU(nm,kinds,expr) put(nm,kinds,[](void* o_, void*, const KArg* a, unsigned n) { F* o=(F*)o_; const F* x=(const F*)a[0].p; const F* y=(const F*)a[1].p; const F* z=(const F*)a[2].p; \
    for (unsigned i=0;i<n;i+=4) { __m128 v=_mm_loadu_ps(x+i), w=v, u=v; if (sizeof(kinds)>2) w=_mm_loadu_ps(y+i); if (sizeof(kinds)>3) u=_mm_loadu_ps(z+i); (void)w; (void)u; _mm_storeu_ps(o+i,expr); } });
    using namespace nova::detail;
    PU("u_signmask","v",gen_sign_mask()) PU("u_absmask","v",gen_abs_mask()) PU("u_one","v",gen_one()) PU("u_05","v",gen_05()) PU("u_025","v",gen_025())
    PU("u_extract0","v",_mm_set_ps1(extract_0(v))) PU("u_extract3","v",_mm_set_ps1(extract_3(v))) PU("u_hmin","v",_mm_set_ps1(nova::detail::horizontal_min(v))) PU("u_hmax","v",_mm_set_ps1(nova::detail::horizontal_max(v)))
    PU("u_select","vvv",select_vector(v,w,_mm_cmplt_ps(u,_mm_setzero_ps())))
}
#endif
template <bool> struct AddOnes { static void go() {} }; template <> struct AddOnes<true> { static void go() { A1(c_ones) } };
template <bool> struct AddIf { static void go() {} }; template <> struct AddIf<true> { static void go() { A3(sel1) } };
static void build() {
#ifdef G_VOPS
    A2(add) A2(sub) A2(mul) A2(div) A2(mx) A2(mn) A2(addas) A2(subas) A2(mulas) A2(divas) A2(lt) A2(le) A2(gt) A2(ge) A2(eq) A2(ne) A2(mlt) A2(mle) A2(mgt) A2(mge) A2(meq) A2(mneq) A2(band) A2(bor) A2(bxor) A2(bandnot)
    ASC(adds) ASC(subs) ASC(muls) ASC(divs) ASC(sadd) ASC(ssub) ASC(smul) ASC(sdiv)
    A1(neg) A1(abs) A1(sign) A1(square) A1(cube) A1(sqrt) A1(ssqrt) A1(round) A1(floor) A1(ceil) A1(trunc) A1(frac) A1(undenorm) A1(recip) A1(frecip) A1(self)
    A3(madd) A3(selm) A1(c_zero) A1(c_one) A1(c_05) A1(c_sign) A1(c_abs)
    AddOnes<decltype(probe<f_mlt,V,V>(0))::value>::go();    // classes without masks use 1.0 for true
    AddIf<!decltype(probe<f_mlt,V,V>(0))::value>::go();     // classes without masks select with the 1/0 comparison
    A1(hmin) A1(hmax) A1(hsum)
#endif
#ifdef G_VINT
    AddInt<V,IntOps<V>::type::value>::go();
#endif
#ifdef G_UTIL
    utils();
#endif
#ifdef G_VSEQ
    put("program","p",program);
#endif
}
GEN_TABLE(build)
