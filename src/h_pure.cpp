// C19: explicit-state walk over call histories.  Reference: every call made alone in a fresh process (fork before any
// library call).  Then all ordered pairs (quick) / triples (thorough) of calls occur consecutively in one history and every
// call must give the bits of its fresh run, leave its inputs alone and preserve the floating-point control state.
#include "shape.hpp"
#include <sys/wait.h>
#include <xmmintrin.h>
using namespace H;
static const unsigned CAP = 128;
struct Item { KRef r; int variant; unsigned n; };
struct Res { unsigned char done; unsigned char o[2][CAP*8]; unsigned mx0, mx1; unsigned short cw0, cw1; };
static unsigned mxcsr() { return _mm_getcsr() & 0xffc0u; }
static unsigned short x87cw() { unsigned short c; __asm__ volatile("fnstcw %0" : "=m"(c)); return c; }
template <class T> struct Work {
    T *o, *o1, *in[4]; Work() { T* m = (T*)aligned_alloc(64,sizeof(T)*CAP*6); o=m; o1=m+CAP; for (int j=0;j<4;j++) in[j]=m+(2+j)*CAP; }
};
template <class T> T val(int variant, int j, unsigned i) {
    typedef std::numeric_limits<T> L; static const T sp[] = {0,-(T)0.0,1,-1,(T)0.5,(T)-3.7,(T)1000.5,(T)-1e10,L::max(),L::denorm_min(),-L::min(),L::infinity(),-L::infinity(),L::quiet_NaN(),(T)0.3,(T)88.5,(T)-87,(T)1e-5,(T)8000};
    if (variant==1) return sp[(i*(1+j)+3*j)%19]; if (variant==2 && i>0 && i%16!=7 && i%8!=4) return -(T)7.3*datum<T>(j+2,i*3+1); if (variant==3) return (T)0.9*datum<T>(j+1,i+11); return datum<T>(j,i); }
template <class T> void fill(Work<T>& w, Item const& it) { unsigned n=it.n; for (int j=0;j<4;j++) for (unsigned i=0;i<n;i++) w.in[j][i]=val<T>(it.variant,j,i);
    for (unsigned i=0;i<CAP;i++) { w.o[i]=w.o1[i]=(T)-777; if (inout(*it.r.k)) w.o[i]=datum<T>(5,i+it.variant); } }
template <class T> void args(Work<T>& w, Item const& it, KArg* a) { memset(a,0,4*sizeof(KArg)); for (int j=0;j<nin(*it.r.k);j++) { a[j].p=w.in[j]; int v=it.variant; a[j].s = v==1 ? (T)(-0.6+0.45*j) : scalar_of<T>(j); a[j].d = v==0 ? slope_of<T>(j) : (T)(0.03*(v+1+j)); } }
// leave a bit pattern in the dead part of the stack and in the vector registers: what a call inherits from unrelated code
__attribute__((noinline)) static void dirty(uint32_t pat) {
    volatile uint32_t b[10240]; for (int i=0;i<10240;i++) b[i]=pat;
    static const bool avx=__builtin_cpu_supports("avx"); uint32_t v[8]; for (auto& x : v) x=pat;
#define XR "xmm0","xmm1","xmm2","xmm3","xmm4","xmm5","xmm6","xmm7","xmm8","xmm9","xmm10","xmm11","xmm12","xmm13","xmm14","xmm15"
#define R1(n) "vmovups (%0),%%ymm" #n "\n"
#define R2(n) "movups (%0),%%xmm" #n "\n"
#define R16(R) R(0) R(1) R(2) R(3) R(4) R(5) R(6) R(7) R(8) R(9) R(10) R(11) R(12) R(13) R(14) R(15)
    if (avx) __asm__ volatile(R16(R1) :: "r"(v) : "memory", XR); else __asm__ volatile(R16(R2) :: "r"(v) : "memory", XR);
}
template <class T> struct Input { vector<T> in; };
int g_depth;
template <class T> void walk(vector<Item> const& items, Res* fresh) {
    std::map<const Lib*,vector<int>> by; for (size_t i=0;i<items.size();i++) if (items[i].r.lib->type==Tr<T>::c) by[items[i].r.lib].push_back(i);
    vector<vector<int>> L; for (auto& e : by) L.push_back(e.second);
    std::sort(L.begin(),L.end(),[](auto&a,auto&b){return a.size()>b.size();});
    parallel_for(L.size(),[&](uint64_t li) {
        vector<int>& ids = L[li]; size_t m=ids.size(); Work<T> w; uint64_t calls=0; int prev=-1, prev2=-1; bool stop=false;
        vector<vector<T>> pre(m); vector<vector<T>> preo(m);
        for (size_t i=0;i<m;i++) { fill(w,items[ids[i]]); pre[i].assign(w.in[0],w.in[0]+4*CAP); preo[i].assign(w.o,w.o+2*CAP); }
        auto step = [&](int x) { if (stop) return; Item const& it=items[ids[x]]; unsigned n=it.n;
            memcpy(w.o,preo[x].data(),2*CAP*sizeof(T)); for (int j=0;j<nin(*it.r.k);j++) if (is_buf(it.r.k->kinds[j])) memcpy(w.in[j],pre[x].data()+j*CAP,n*sizeof(T));
            KArg a[4]; args(w,it,a); unsigned m0=mxcsr(); unsigned short c0=x87cw(); calls++;
            if (!call(it.r,w.o,w.o1,a,n)) { stop=true; return; }
            unsigned m1=mxcsr(); unsigned short c1=x87cw();
            string hist; if (prev>=0) hist = kname(items[ids[prev]].r)+fmt(" variant %d",items[ids[prev]].variant);
            if (m0!=m1||c0!=c1) { violation("control state "+kname(it.r), fmt("%s variant %d changes the floating-point control state: MXCSR %x -> %x, x87 CW %x -> %x",kname(it.r).c_str(),it.variant,m0,m1,c0,c1)); _mm_setcsr((_mm_getcsr()&~0xffc0u)|m0); __asm__ volatile("fldcw %0"::"m"(c0)); stop=true; return; }
            Res& f=fresh[ids[x]];
            if (memcmp(w.o,f.o[0],CAP*sizeof(T)) || memcmp(w.o1,f.o[1],CAP*sizeof(T))) {
                for (unsigned i=0;i<2*CAP;i++) { T y=i<CAP?w.o[i]:w.o1[i-CAP]; T z; memcpy(&z,f.o[i/CAP]+(i%CAP)*sizeof(T),sizeof(T)); if (!same(y,z)) {
                    violation("history "+kname(it.r), fmt("%s variant %d after %s (history of %lu calls): output %u element %u is %s, in a fresh process %s",kname(it.r).c_str(),it.variant,hist.c_str(),(unsigned long)calls,i/CAP,i%CAP,hx(y).c_str(),hx(z).c_str())); stop=true; return; } } }
            for (int j=0;j<nin(*it.r.k);j++) if (is_buf(it.r.k->kinds[j]) && memcmp(w.in[j],pre[x].data()+j*CAP,n*sizeof(T))) { violation("input "+kname(it.r), fmt("%s variant %d changed its input %d",kname(it.r).c_str(),it.variant,j)); stop=true; return; }
            prev2=prev; prev=x; };
        for (size_t i=0;i<m && !stop;i++) { step(i); for (size_t j=i+1;j<m && !stop;j++) { step(i); step(j); } tick(); }
        n_states += m*m;
        if (g_depth>=3) { vector<int> sub; for (size_t i=0;i<m;i++) if (items[ids[i]].variant==0) sub.push_back(i);
            for (int i : sub) { for (int j : sub) for (int k : sub) { if (stop) break; step(i); step(j); step(k); } tick(); } n_states += (uint64_t)sub.size()*sub.size()*sub.size(); }
        // every call after every kind of garbage on the stack and in the vector registers
        for (size_t i=0;i<m && !stop;i++) for (uint32_t pat : {0u,0xffffffffu,0x3f800000u,0x7f7fffffu,0xc0123456u}) { Item const& it=items[ids[i]]; fill(w,it); KArg a[4]; args(w,it,a); dirty(pat); if (!call(it.r,w.o,w.o1,a,it.n)) { stop=true; break; } calls++; n_states++; Res& f=fresh[ids[i]];
            for (unsigned j=0;j<2*CAP;j++) { T y=j<CAP?w.o[j]:w.o1[j-CAP]; T z; memcpy(&z,f.o[j/CAP]+(j%CAP)*sizeof(T),sizeof(T)); if (!same(y,z)) {
                violation("garbage "+kname(it.r), fmt("%s variant %d with stack and registers holding %08x before the call: output %u element %u is %s, in a fresh process %s",kname(it.r).c_str(),it.variant,pat,j/CAP,j%CAP,hx(y).c_str(),hx(z).c_str())); stop=true; break; } } }
        // every call under every floating-point environment keeps that environment
        const unsigned envs[] = {0x8000,0x0040,0x8040,0x2000,0x4000,0x6000,0xe040};
        for (size_t i=0;i<m && !stop;i++) for (unsigned e : envs) for (int cwv=0;cwv<2;cwv++) { Item const& it=items[ids[i]]; fill(w,it); KArg a[4]; args(w,it,a); unsigned sv=_mm_getcsr(); unsigned short svc=x87cw(); unsigned want=(sv&~0xe040u)|e; unsigned short wc = cwv?0x0c7f:svc; 
            struct Ctx { KRef r; Work<T>* w; KArg* a; unsigned n; } c{it.r,&w,a,it.n}; _mm_setcsr(want); __asm__ volatile("fldcw %0"::"m"(wc)); unsigned m0=mxcsr();
            bool ok = call(it.r,w.o,w.o1,a,it.n); unsigned m1=mxcsr(); unsigned short c1=x87cw(); _mm_setcsr(sv); __asm__ volatile("fldcw %0"::"m"(svc)); calls++; n_states++;
            if (!ok) { stop=true; break; }
            if (m0!=m1||c1!=wc) { violation("control state "+kname(it.r), fmt("%s variant %d called with MXCSR control bits %x / x87 CW %x returns with %x / %x",kname(it.r).c_str(),it.variant,m0,wc,m1,c1)); stop=true; break; } }
        n_trans += calls; n_traces += calls;
        sample(fmt("%s %s: all %zu^2 ordered pairs of calls in one history of %lu calls",L[li].empty()?"":items[ids[0]].r.lib->path.substr(items[ids[0]].r.lib->path.rfind('/')+1).c_str(),"",m,(unsigned long)calls));
    });
}
template <class T> void one(Item const& it, Res& r) { Work<T> w; fill(w,it); KArg a[4]; args(w,it,a); r.mx0=mxcsr(); r.cw0=x87cw(); it.r.k->fn(w.o,w.o1,a,it.n); r.mx1=mxcsr(); r.cw1=x87cw(); memcpy(r.o[0],w.o,CAP*sizeof(T)); memcpy(r.o[1],w.o1,CAP*sizeof(T)); r.done=1; }
int main(int argc, char** argv) {
    // no library call may happen before the forks: init only loads the libraries
    init(argc,argv); g_depth = thorough?3:2;
    vector<Item> items;
    for (char ty : {'f','d'}) for (auto& r : kernels(ty)) { unsigned g=grain(r); for (int v=0;v<4;v++) { unsigned n = r.k->fixed ? r.k->fixed : g==1 ? (v==3 ? 11 : v==1 ? 8 : 5) : v==3 ? 2*g : g; if (n>CAP) continue; items.push_back({r,v,n}); } }
    Res* fresh = (Res*)mmap(0,sizeof(Res)*(items.size()+1),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if (fresh==MAP_FAILED) { perror("mmap"); return 3; }
    vector<pid_t> ws; int W = nthreads();
    for (int k=0;k<W;k++) { pid_t p=fork(); if (p==0) { for (int s : {SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGABRT}) signal(s,SIG_DFL);
            for (size_t i=k;i<items.size();i+=W) { pid_t c=fork(); if (c==0) { alarm(60); if (items[i].r.lib->type=='f') one<float>(items[i],fresh[i]); else one<double>(items[i],fresh[i]); _exit(0); } int stt; waitpid(c,&stt,0); }
            _exit(0); } ws.push_back(p); }
    for (pid_t p : ws) { int s; waitpid(p,&s,0); }
    bool bad=false; for (size_t i=0;i<items.size();i++) { if (!fresh[i].done) { violation("fresh "+kname(items[i].r), kname(items[i].r)+fmt(" variant %d does not return in a fresh process",items[i].variant)); bad=true; } }
    if (!bad) { walk<float>(items,fresh); walk<double>(items,fresh); }
    count_extra("fresh_processes",items.size());
    return finish();
}
