// C22: every call of the enumerated space runs with allocator, locking and system-call monitors armed, on a small stack
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "shape.hpp"
#include <pthread.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <errno.h>
using namespace H;
static thread_local volatile int in_call; static thread_local volatile const char* what; static thread_local volatile long sysnr; static thread_local volatile char selector;
// work of a call: executed basic blocks, counted by compiler-inserted calls (-fsanitize-coverage=trace-pc)
static thread_local volatile uint64_t work;
extern "C" void __sanitizer_cov_trace_pc() { work = work + 1; }
static void saw(const char* w) { if (in_call && !what) what = w; }
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void __libc_free(void*); void* __libc_memalign(size_t,size_t);
void* malloc(size_t n) { saw("malloc"); return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { saw("calloc"); return __libc_calloc(a,b); }
void* realloc(void* p, size_t n) { saw("realloc"); return __libc_realloc(p,n); }
void free(void* p) { saw("free"); __libc_free(p); }
void* memalign(size_t a, size_t n) { saw("memalign"); return __libc_memalign(a,n); }
void* aligned_alloc(size_t a, size_t n) { saw("aligned_alloc"); return __libc_memalign(a,n); }
int posix_memalign(void** p, size_t a, size_t n) { saw("posix_memalign"); *p = __libc_memalign(a,n); return *p ? 0 : ENOMEM; }
#define LOCKFN(f,T) int f(T* m) { saw(#f); static int (*o)(T*) = (int(*)(T*))dlsym(RTLD_NEXT,#f); return o(m); }
LOCKFN(pthread_mutex_lock,pthread_mutex_t) LOCKFN(pthread_mutex_trylock,pthread_mutex_t) LOCKFN(pthread_rwlock_rdlock,pthread_rwlock_t) LOCKFN(pthread_rwlock_wrlock,pthread_rwlock_t) LOCKFN(pthread_spin_lock,volatile int)
}
static void on_sys(int, siginfo_t* si, void* c) { selector = 0; if (in_call && !what) { what = "system call"; sysnr = si->si_syscall; } ((ucontext_t*)c)->uc_mcontext.gregs[REG_RIP] -= 2; }   // let it happen, once recorded
static std::atomic<int> sud_ok{0};
static std::atomic<uint64_t> n_work{0};
template <class T> struct Job { static void run(KRef const& r) {
    const Kernel& k=*r.k; unsigned g=grain(r); typedef std::numeric_limits<T> L; static const T sp[] = {0,-(T)0.0,1,-1,(T)0.5,(T)-3.7,(T)1000.5,(T)-1e10,L::max(),L::denorm_min(),-L::min(),L::infinity(),-L::infinity(),L::quiet_NaN(),(T)0.3,(T)88.5,(T)-87,(T)1e-5,(T)8000};
    vector<unsigned> ns; if (k.fixed) ns={k.fixed}; else { for (unsigned b : {1,2,3,4,5,8,16,31,64,100,256,1000}) ns.push_back(b*g); ns.push_back(g==1 ? 65537+64 : 4096*g); if (thorough || r.lib->cfg=="sse2" || r.lib->cfg=="avx") ns.push_back(g==1 ? 300001 : 65537*g); }
    uint64_t st=0, unit=0; unsigned unit_n=0; size_t cap=0;      // unit: work of an ordinary call of unit_n elements
    for (unsigned n : ns) cap=std::max<size_t>(cap,n); cap=(cap+127)/64*64; T* mem=(T*)__libc_memalign(64,cap*6*sizeof(T));
    for (unsigned n : ns) { uint64_t base=0; for (int v=0; v<(n>5000?1:3); v++) for (int al=0; al<3; al++) {      // al: output on its own, output 0 = first input, output 1 = first input
        if (al && (is_red(k) || !nin(k) || !is_buf(k.kinds[0]))) continue; if (al==2 && !is_pan(k)) continue;
        KArg a[4]; memset(a,0,sizeof a); for (int j=0;j<nin(k);j++) { T* p=mem+(2+j)*cap; for (unsigned i=0;i<n;i++) p[i] = v==0 ? datum<T>(j,i) : v==1 ? sp[(i*(1+j)+3*j+n)%19] : -L::min()*datum<T>(j,i); a[j].p=p; a[j].s = v==0?scalar_of<T>(j):v==1?sp[(j*5+n)%19]:(T)-0.75; a[j].d=slope_of<T>(j); }
        for (unsigned i=0;i<n;i++) mem[i]=mem[cap+i]=(T)0.5;
        st++; what=0; sysnr=-1; in_call=1; work=0; selector=sud_ok?1:0; bool ok=call(r,al==1?mem+2*cap:mem,al==2?mem+2*cap:mem+cap,a,n); selector=0; in_call=0;
        uint64_t w=work; if (!ok) break;
        if (v==0 && al==0) { base=w; if (n<=64*g) { unit=w; unit_n=n; } n_work+=w; }
        if (w > 8*base+512) { violation("work "+kname(r), fmt("%s n=%u value set %d%s: %lu basic blocks executed, for ordinary values %lu",kname(r).c_str(),n,v,al?" in place":"",(unsigned long)w,(unsigned long)base)); break; }
        if (unit_n && w > 8*unit*((n+unit_n-1)/unit_n)+512) { violation("growth "+kname(r), fmt("%s n=%u: %lu basic blocks executed, for n=%u %lu: not proportional to the length",kname(r).c_str(),n,(unsigned long)w,unit_n,(unsigned long)unit)); break; }
        if (what) { violation((const char*)what+(" "+kname(r)), fmt("%s n=%u value set %d%s: %s%s during the call",kname(r).c_str(),n,v,al?" in place":"",(const char*)what,sysnr>=0?fmt(" %ld",(long)sysnr).c_str():"")); break; } } }
    __libc_free(mem); n_states+=st; n_trans+=st; n_traces+=st; } };
static vector<KRef> all; static std::atomic<uint64_t> nxt{0};
static void* worker(void* p) {
    tid=(int)(long)p; busy[tid]=1; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_size=65536; ss.ss_sp=mmap(0,65536,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); sigaltstack(&ss,0);
    if (prctl(59/*PR_SET_SYSCALL_USER_DISPATCH*/,1,0,0,&selector)==0) { in_call=1; what=0; selector=1; syscall(SYS_getppid); selector=0; in_call=0; if (what) sud_ok=1; what=0; }      // self-test of the monitor
    for (;;) { uint64_t i=nxt++; if (i>=all.size()) break; KRef r=all[i]; selector=0; if (r.lib->type=='f') Job<float>::run(r); else Job<double>::run(r); tick(); if (i%(all.size()/8+1)==0) sample(kname(r)+": all lengths and value sets without allocation, lock or system call"); }
    busy[tid]=0; return 0;
}
int main(int argc, char** argv) {
    init(argc,argv);
    { struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_sig; sa.sa_flags=SA_SIGINFO|SA_NODEFER|SA_ONSTACK; for (int s : {SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGABRT}) sigaction(s,&sa,0); sa.sa_sigaction=on_sys; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; sigaction(SIGSYS,&sa,0); }
    for (char ty : {'f','d'}) for (auto& r : kernels(ty)) all.push_back(r);
    // self-test of the monitors: an allocation, a lock and a system call made on purpose must be seen
    { in_call=1; what=0; void* volatile p=malloc(10); free(p); bool m=what; what=0; pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER; pthread_mutex_lock(&mu); pthread_mutex_unlock(&mu); bool l=what; what=0; in_call=0; if (!m||!l) { fprintf(stderr,"monitor self-test failed\n"); _exit(3); } }
    int nt=nthreads(); vector<pthread_t> th(nt); const size_t SS=128*1024;
    for (int t=0;t<nt;t++) { Guard* g=new Guard(SS); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,g->lo,SS); if (pthread_create(&th[t],&at,worker,(void*)(long)(t+1))) { perror("thread"); _exit(3); } }
    for (auto& t : th) pthread_join(t,0);
    count_extra("kernels",all.size()); count_extra("system_call_monitor",sud_ok?1:0); count_extra("stack_bytes",SS); count_extra("basic_blocks_counted",n_work); if (!n_work) { fprintf(stderr,"work counter inactive\n"); _exit(3); }
    return finish();
}
