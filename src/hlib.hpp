// Shared part of all checkers: loading of kernel libraries, parallel enumeration, crash/hang capture,
// counters, violation records and result file.
#ifndef HLIB_HPP
#define HLIB_HPP
#include "kern_api.h"
#include <dlfcn.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <time.h>
#include <stdarg.h>
#include <atomic>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <algorithm>

namespace H {
using std::string; using std::vector;

struct Lib { string path, group, cfg; char type; KernelTable t; };
struct KRef { const Lib* lib; const Kernel* k; };

inline bool thorough = false;
inline string only;                 // optional filter (debugging)
inline vector<Lib> libs;
inline string out_path = "/dev/stdout";
inline std::atomic<uint64_t> n_states{0}, n_trans{0}, n_traces{0}, n_viol{0};
inline std::mutex mtx;
inline std::map<string,uint64_t> extra;            // further measured counters
inline vector<string> samples;
struct Viol { string key, text; };
inline vector<Viol> viols;
inline std::set<string> viol_keys;
inline std::map<string,double> worst;              // measured worst errors (for evidence)

inline string fmt(const char* f, ...) { char b[4096]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return b; }
inline void violation(string const& key, string const& text) {
    n_viol++;
    std::lock_guard<std::mutex> g(mtx);
    if (viols.size() >= 40 || !viol_keys.insert(key).second) return;
    viols.push_back({key,text});
}
inline void sample(string const& s, size_t cap = 12) { std::lock_guard<std::mutex> g(mtx); if (samples.size() < cap) samples.push_back(s); }
inline void count_extra(string const& k, uint64_t v) { std::lock_guard<std::mutex> g(mtx); extra[k] += v; }
inline void note_worst(string const& k, double v) { std::lock_guard<std::mutex> g(mtx); double& w = worst[k]; if (v > w) w = v; }

// ---------------------------------------------------------------- crash and hang capture
inline const int MAXT = 64;
struct TState { sigjmp_buf jb; volatile int armed; std::atomic<uint64_t> started; volatile int sig; void* volatile addr; string (*describe)(void*); void* dctx; };
inline TState tstate[MAXT];
inline thread_local int tid = 0;
inline uint64_t now_ms() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec*1000ull + t.tv_nsec/1000000; }
inline void on_sig(int s, siginfo_t* si, void*) {
    TState& t = tstate[tid];
    if (t.armed) { t.armed = 0; t.sig = s; t.addr = si ? si->si_addr : 0; siglongjmp(t.jb, 1); }
    signal(s, SIG_DFL); raise(s);
}
inline void install_signals() {
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) sigaction(s,&sa,0);
}
inline void write_results(bool complete);
// Runs f under crash capture; returns true if it completed.
template <class F> inline bool guarded(F&& f) {
    TState& t = tstate[tid];
    if (sigsetjmp(t.jb, 0)) { t.started = 0; return false; }
    t.armed = 1; t.started.store(now_ms(), std::memory_order_relaxed);
    f();
    t.armed = 0; t.started.store(0, std::memory_order_relaxed);
    return true;
}
inline string kname(KRef const& r) {
    return fmt("%s%s%s[%s] %s %s", r.k->op, r.k->form[0]=='s'&&r.k->form[1]=='c' ? "_vec" : "_vec_simd",
               r.k->fixed ? fmt("<%u>", r.k->fixed).c_str() : "", r.k->kinds, r.lib->type=='f'?"float":"double", r.lib->cfg.c_str());
}
inline thread_local KRef cur_kernel;
inline KRef cur_all[MAXT];
inline unsigned cur_n[MAXT];
// Calls one kernel; a crash is a violation.  Returns false on crash.
inline bool call(KRef const& r, void* o0, void* o1, const KArg* a, unsigned n) {
    TState& t = tstate[tid]; cur_all[tid] = r; cur_n[tid] = n;
    if (sigsetjmp(t.jb, 0)) { t.started = 0;
        violation("crash "+kname(r), fmt("%s n=%u: signal %d (%s) at address %p, out=%p in0=%p", kname(r).c_str(), n, t.sig, strsignal(t.sig), t.addr, o0, a[0].p));
        return false; }
    t.armed = 1;
    r.k->fn(o0,o1,a,n);
    t.armed = 0;
    return true;
}
inline std::atomic<bool> stop_watch{false};
inline uint64_t progress_tick[MAXT];
inline std::atomic<uint64_t> ticks[MAXT];
inline std::atomic<int> busy[MAXT];
inline void watchdog() {   // a work item that makes no progress for a long time is a hang of the call in flight
    uint64_t last[MAXT] = {}, since[MAXT]; for (auto& s : since) s = now_ms();
    uint64_t first_bad = 0;
    while (!stop_watch) {
        usleep(200000);
        if (n_viol && !first_bad) first_bad = now_ms();
        if (first_bad && now_ms() - first_bad > 60000) { write_results(false); _exit(0); }   // the verdict is settled; do not enumerate heavily broken code to the end
        for (int i = 0; i < MAXT; i++) {
            uint64_t v = ticks[i];
            if (v != last[i] || !busy[i]) { last[i] = v; since[i] = now_ms(); continue; }
            if (tstate[i].armed && now_ms() - since[i] > 240000) {
                string nm = cur_all[i].k ? kname(cur_all[i]) : string("call");
                violation("hang "+nm, fmt("%s n=%u: no return within 240 s", nm.c_str(), cur_n[i]));
                write_results(false); _exit(0);
            }
        }
    }
}
inline void tick() { ticks[tid].fetch_add(1, std::memory_order_relaxed); }

inline int nthreads() { int n = std::thread::hardware_concurrency(); if (n < 1) n = 4; if (n > 16) n = 16; return n; }
template <class F> inline void parallel_for(uint64_t n, F f) {
    std::atomic<uint64_t> next{0}; vector<std::thread> th; int nt = nthreads();
    for (int t = 0; t < nt; t++) th.emplace_back([&,t]{ tid = t+1; busy[tid] = 1;
        for (;;) { uint64_t i = next++; if (i >= n) break; f(i); tick(); } busy[tid] = 0; });
    for (auto& x : th) x.join();
}

// ---------------------------------------------------------------- bits
inline uint32_t bits(float f) { uint32_t u; memcpy(&u,&f,4); return u; }
inline uint64_t bits(double f) { uint64_t u; memcpy(&u,&f,8); return u; }
inline float fbits(uint32_t u) { float f; memcpy(&f,&u,4); return f; }
inline double dbits(uint64_t u) { double f; memcpy(&f,&u,8); return f; }
template <class T> inline bool same(T a, T b) { return bits(a)==bits(b) || (a!=a && b!=b); }       // IEEE identical (any NaN = any NaN)
template <class T> inline bool numeq(T a, T b) { return a==b || (a!=a && b!=b); }                 // zero sign ignored
template <class T> struct Tr;
template <> struct Tr<float>  { typedef uint32_t U; typedef int32_t I; static const int MB=23, EB=8;  static const char c='f'; typedef double W;      static float from(uint64_t u){return fbits((uint32_t)u);} static double eps(){return 0x1p-24;} static double dmin(){return 0x1p-149;} static double nmin(){return 0x1p-126;} };
template <> struct Tr<double> { typedef uint64_t U; typedef int64_t I; static const int MB=52, EB=11; static const char c='d'; typedef long double W; static double from(uint64_t u){return dbits(u);} static double eps(){return 0x1p-53;} static double dmin(){return 0x1p-1074;} static double nmin(){return 0x1p-1022;} };
inline string hx(double d) { return fmt("%a(%.9g)", d, d); }

// ---------------------------------------------------------------- value lattices (deterministic, enumerated completely)
template <class T> vector<T> dedup(vector<T> v) { std::set<typename Tr<T>::U> s; vector<T> r; for (T x : v) if (s.insert(bits(x)).second) r.push_back(x); return r; }
template <class T> vector<T> specials() {
    typedef std::numeric_limits<T> L; vector<T> v = {0, (T)1, (T)0.5, (T)2, (T)3, (T)0.75, (T)1.5, (T)0.25, (T)4, (T)10, (T)100, (T)1e-3, (T)3.14159265358979, (T)2.718281828459045, (T)0.1, (T)0.3, (T)7, (T)1000.25,
        L::min(), L::max(), L::infinity(), L::denorm_min(), (T)(L::min()*(T)0.5), std::nextafter(L::min(),(T)0), std::nextafter((T)1,(T)0), std::nextafter((T)1,(T)2),
        std::nextafter((T)0.5,(T)0), std::nextafter((T)0.5,(T)1), std::nextafter((T)2,(T)0), std::nextafter(L::max(),(T)0), (T)1e10, (T)1e-10, (T)std::ldexp(1.0,L::digits-1), (T)std::ldexp(1.0,L::digits), (T)(std::ldexp(1.0,L::digits-1)-0.5), (T)2147483648.0, (T)9223372036854775808.0, std::sqrt(L::max()), std::sqrt(L::min()) };
    size_t n = v.size(); for (size_t i = 0; i < n; i++) v.push_back(-v[i]);
    v.push_back(L::quiet_NaN());
    return dedup(v);
}
// specials + every `estep`-th exponent with the given number of mantissa patterns, both signs
template <class T> vector<T> lattice(int estep, int mpat, bool with_special = true) {
    vector<T> v; if (with_special) v = specials<T>();
    const int MB = Tr<T>::MB; const uint64_t M = (1ull<<MB)-1;
    const uint64_t pat[] = {0, M, M/3, 1, 1ull<<(MB-1), (1ull<<(MB-1))|1, M-1, M/5, (M/7)*3, (M/11)*10, 0x2aaaaaaaaaaaaull & M, (1ull<<(MB/2)), M ^ ((1ull<<(MB/2))-1)};
    int emax = (1<<Tr<T>::EB)-2;
    for (int e = 0; e <= emax; e += estep) for (int p = 0; p < mpat && p < 13; p++) for (int s = 0; s < 2; s++)
        v.push_back(Tr<T>::from(((uint64_t)s<<(MB+Tr<T>::EB)) | ((uint64_t)e<<MB) | pat[p]));
    return dedup(v);
}

// ---------------------------------------------------------------- setup / results
inline string jesc(string const& s) { string r; for (char c : s) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if (c=='\n') r+="\\n"; else if ((unsigned char)c < 32) r+=' '; else r+=c; } return r; }
inline double t_start;
inline void write_results(bool complete) {
    std::lock_guard<std::mutex> g(mtx);
    FILE* f = fopen(out_path.c_str(),"w"); if (!f) { perror("result file"); _exit(3); }
    fprintf(f,"{\"complete\":%s,\"states\":%lu,\"transitions\":%lu,\"traces\":%lu,\"nviol\":%lu,\n\"extra\":{",complete?"true":"false",(unsigned long)n_states,(unsigned long)n_trans,(unsigned long)n_traces,(unsigned long)n_viol);
    bool first=true; for (auto& e : extra) { fprintf(f,"%s\"%s\":%lu",first?"":",",jesc(e.first).c_str(),(unsigned long)e.second); first=false; }
    fprintf(f,"},\n\"worst\":{"); first=true; for (auto& e : worst) { fprintf(f,"%s\"%s\":%.6g",first?"":",",jesc(e.first).c_str(),std::isfinite(e.second)?e.second:1e308); first=false; }
    fprintf(f,"},\n\"samples\":["); first=true; for (auto& s : samples) { fprintf(f,"%s\"%s\"",first?"":",",jesc(s).c_str()); first=false; }
    fprintf(f,"],\n\"violations\":["); first=true; for (auto& v : viols) { fprintf(f,"%s{\"key\":\"%s\",\"text\":\"%s\"}",first?"":",",jesc(v.key).c_str(),jesc(v.text).c_str()); first=false; }
    fprintf(f,"]}\n"); fclose(f);
}
inline void init(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        if (a=="--thorough") thorough = true; else if (a=="--out") out_path = argv[++i]; else if (a=="--only") only = argv[++i];
        else {   // library path: .../<group>__<cfg>__<type>.so
            Lib l; l.path = a; string b = a.substr(a.rfind('/')+1); size_t p = b.find("__"), q = b.find("__",p+2);
            l.group = b.substr(0,p); l.cfg = b.substr(p+2,q-p-2); l.type = b[q+2];
            void* h = dlopen(a.c_str(), RTLD_NOW|RTLD_LOCAL); if (!h) { fprintf(stderr,"%s\n",dlerror()); exit(3); }
            typedef KernelTable (*gt)(); gt g = (gt)dlsym(h,"kernel_table"); if (g) l.t = g(); else memset(&l.t,0,sizeof l.t);
            libs.push_back(l);
        }
    }
    install_signals();
    static std::thread w(watchdog); w.detach();
}
inline int finish() { stop_watch = true; write_results(true); fflush(0); _exit(0); }
inline vector<KRef> kernels(char type, std::function<bool(const Lib&, const Kernel&)> f = nullptr) {
    vector<KRef> v; for (auto& l : libs) if (l.type==type) for (int i = 0; i < l.t.n; i++) {
        const Kernel& k = l.t.k[i]; if (!only.empty() && only != k.op) continue; if (!f || f(l,k)) v.push_back({&l,&k}); }
    return v;
}
inline bool modelled_isa(KRef const& r) { return r.lib->cfg=="neon" || r.lib->cfg=="altivec"; }   // compiled against src/isa (C25)
// page-guarded buffer: [guard page][data ... ][guard page]
struct Guard {
    char* base; size_t pages, ps; char* lo; char* hi;
    explicit Guard(size_t bytes) { ps = sysconf(_SC_PAGESIZE); pages = (bytes+ps-1)/ps; if (!pages) pages = 1;
        base = (char*)mmap(0,(pages+2)*ps,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if (base==MAP_FAILED) { perror("mmap"); _exit(3); }
        mprotect(base,ps,PROT_NONE); mprotect(base+(pages+1)*ps,ps,PROT_NONE); lo = base+ps; hi = lo+pages*ps; }
    ~Guard() { munmap(base,(pages+2)*ps); }
    Guard(Guard const&) = delete; Guard& operator=(Guard const&) = delete;
};
} // namespace H
#endif
