// C16: re-entrancy.  The kernel libraries are compiled with -fsanitize=thread but linked without its run time: every
// load and store calls the hooks below, which hand control between the threads according to an enumerated schedule.
// Real threads, one running at a time.  Fine mode: scheduling point at every access outside the thread's own stack;
// coarse mode: at accesses to memory that could be shared (static data of the library, unknown memory, atomics, guards).
#include "shape.hpp"
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <fcntl.h>
#include <sys/stat.h>
using namespace H;
struct World;
struct Range { char* lo; char* hi; bool has(const void* p) const { return (char*)p>=lo && (char*)p<hi; } };
struct Runner { World* w; int id; pthread_t th; sem_t go; Range stack; vector<Range> outs, ins; KRef k; KArg args[4]; void *o0,*o1; unsigned n; bool active, done, quit; int guard_depth; void* blocked; };
struct Choice { int step, to; };
struct World {
    vector<Runner*> r; int cur=0; int nt=2; sem_t main; bool fine=false; vector<Choice> sched; size_t ci=0; int step=0; vector<std::pair<int,int>> alts; // (step, number of alternatives incl. cost info)
    struct Point { int step; int cur; bool forced; vector<int> en; }; vector<Point> points; int rec_from=0;
    vector<Range> image; string bad; bool guard_seen=false, atomic_seen=false; uint64_t accesses=0; std::map<void*,int> guards;
    bool enabled(int i) { return r[i]->active && !r[i]->done && !r[i]->blocked; }
    void give(int to) { cur=to; sem_post(&r[to]->go); }
    void wait(Runner* me) { while (sem_wait(&me->go)) {} }
    // a scheduling point of thread me (alive = it could go on)
    void point(Runner* me, bool alive) {
        int s=step++; Point p; p.step=s; p.cur=me->id; p.forced=!alive;
        int cnt=0; for (int i=0;i<nt;i++) if (enabled(i)) { p.en.push_back(i); cnt++; }
        if (cnt==0) { bool all=true; for (int i=0;i<nt;i++) if (r[i]->active&&!r[i]->done) all=false; if (!all && bad.empty()) bad="deadlock: every thread waits for a static initialisation"; 
            for (int i=0;i<nt;i++) if (r[i]->active&&!r[i]->done) { r[i]->blocked=0; }
            if (all) { sem_post(&main); return; } for (int i=0;i<nt;i++) if (enabled(i)) p.en.push_back(i); }
        int to = alive ? me->id : p.en[0];
        if (ci<sched.size() && sched[ci].step==s) to=sched[ci++].to;
        if (s>=rec_from && p.en.size()>1) points.push_back(p);
        bool fin=me->done; if (to!=me->id || !alive) { give(to); if (!fin) wait(me); }
    }
};
static thread_local Runner* self;
static string where(World* w, const void* p) { for (auto& i : w->image) if (i.has(p)) return fmt("static data of the library (offset %#lx)",(unsigned long)((char*)p-i.lo)); return "memory of another call"; }
static void access_(const void* p, size_t n, bool wr, bool atomic) {
    Runner* me=self; if (!me || !me->active) return; World* w=me->w; w->accesses++;
    if (me->stack.has(p)) return;
    bool own=false, in=false; for (auto& o : me->outs) if (o.has(p)) own=true; for (auto& o : me->ins) if (o.has(p)) in=true;
    bool img=false; for (auto& i : w->image) if (i.has(p)) img=true;
    bool other=false; if (!own&&!in) for (auto* x : w->r) if (x!=me && x->active) { for (auto& o : x->outs) if (o.has(p)) other=true; for (auto& o : x->ins) if (o.has(p)) other=true; if (x->stack.has(p)) other=true; }
    if (atomic) w->atomic_seen=true;
    if (wr && !atomic && !me->guard_depth && (img||other||(in&&!own)) && w->bad.empty()) w->bad = "writes "+(in?string("one of its input buffers"):where(w,p));
    if (own && !w->fine && !atomic) return;
    if (in && !w->fine && !atomic) return;
    w->point(me,true);
}
extern "C" {
#define R(n) void __tsan_read##n(void* p){access_(p,n,0,0);} void __tsan_write##n(void* p){access_(p,n,1,0);} void __tsan_unaligned_read##n(void* p){access_(p,n,0,0);} void __tsan_unaligned_write##n(void* p){access_(p,n,1,0);} \
 void __tsan_volatile_read##n(void* p){access_(p,n,0,0);} void __tsan_volatile_write##n(void* p){access_(p,n,1,0);} void __tsan_unaligned_volatile_read##n(void* p){access_(p,n,0,0);} void __tsan_unaligned_volatile_write##n(void* p){access_(p,n,1,0);}
R(1) R(2) R(4) R(8) R(16)
void __tsan_read_range(void* p, size_t n){access_(p,n,0,0);} void __tsan_write_range(void* p, size_t n){access_(p,n,1,0);}
void __tsan_func_entry(void*){} void __tsan_func_exit(){} void __tsan_init(){} void __tsan_vptr_update(void** p, void*){access_(p,8,1,0);} void __tsan_vptr_read(void** p){access_(p,8,0,0);}
#define A(b,t) t __tsan_atomic##b##_load(const volatile t* a,int){access_((void*)a,b/8,0,1);return __atomic_load_n(a,5);} void __tsan_atomic##b##_store(volatile t* a,t v,int){access_((void*)a,b/8,1,1);__atomic_store_n(a,v,5);} \
 t __tsan_atomic##b##_exchange(volatile t* a,t v,int){access_((void*)a,b/8,1,1);return __atomic_exchange_n(a,v,5);} t __tsan_atomic##b##_fetch_add(volatile t* a,t v,int){access_((void*)a,b/8,1,1);return __atomic_fetch_add(a,v,5);} \
 t __tsan_atomic##b##_fetch_sub(volatile t* a,t v,int){access_((void*)a,b/8,1,1);return __atomic_fetch_sub(a,v,5);} t __tsan_atomic##b##_fetch_and(volatile t* a,t v,int){access_((void*)a,b/8,1,1);return __atomic_fetch_and(a,v,5);} \
 t __tsan_atomic##b##_fetch_or(volatile t* a,t v,int){access_((void*)a,b/8,1,1);return __atomic_fetch_or(a,v,5);} t __tsan_atomic##b##_fetch_xor(volatile t* a,t v,int){access_((void*)a,b/8,1,1);return __atomic_fetch_xor(a,v,5);} \
 int __tsan_atomic##b##_compare_exchange_strong(volatile t* a,t* e,t v,int,int){access_((void*)a,b/8,1,1);return __atomic_compare_exchange_n(a,e,v,0,5,5);} int __tsan_atomic##b##_compare_exchange_weak(volatile t* a,t* e,t v,int,int){access_((void*)a,b/8,1,1);return __atomic_compare_exchange_n(a,e,v,0,5,5);} \
 t __tsan_atomic##b##_compare_exchange_val(volatile t* a,t e,t v,int,int){access_((void*)a,b/8,1,1);__atomic_compare_exchange_n(a,&e,v,0,5,5);return e;}
A(8,unsigned char) A(16,unsigned short) A(32,unsigned) A(64,unsigned long)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
// static initialisation guards used by the kernel libraries (linked against these names by -D, see checks.py)
int __cxa_guard_acquire(long long* g) {
    Runner* me=self; if (!me || !me->active) { if (*(char*)g) return 0; return 1; }
    World* w=me->w; w->guard_seen=true;
    for (;;) { w->point(me,true); if (*(char*)g) return 0; auto it=w->guards.find(g); if (it==w->guards.end()) { w->guards[g]=me->id; me->guard_depth++; return 1; }
        me->blocked=g; w->point(me,false); me->blocked=0; }
}
void __cxa_guard_release(long long* g) { *(char*)g=1; Runner* me=self; if (!me||!me->active) return; World* w=me->w; w->guards.erase(g); me->guard_depth--; for (auto* x : w->r) if (x->blocked==g) x->blocked=0; w->point(me,true); }
void __cxa_guard_abort(long long* g) { Runner* me=self; if (!me||!me->active) return; me->w->guards.erase(g); me->guard_depth--; for (auto* x : me->w->r) if (x->blocked==g) x->blocked=0; }
}
static std::atomic<int> next_tid{20};
static void* runner_main(void* p) { Runner* me=(Runner*)p; tid=next_tid++%MAXT; pthread_attr_t at; pthread_getattr_np(pthread_self(),&at); void* lo; size_t sz; pthread_attr_getstack(&at,&lo,&sz); pthread_attr_destroy(&at); me->stack={(char*)lo,(char*)lo+sz}; self=me;
    me->stack.hi += 0; sem_post(&me->w->main);
    for (;;) { while (sem_wait(&me->go)) {} if (me->quit) return 0; me->active=true; 
        call(me->k,me->o0,me->o1,me->args,me->n); me->done=true; me->w->point(me,false); if (me->quit) return 0; } }
template <class T> struct Explorer {
    World w; Lib lib; void* h=0; vector<vector<char>> snap; string file; vector<Guard*> bufs; uint64_t schedules=0, steps=0, states=0; 
    struct Call { KRef k; unsigned n; int var; };
    static const unsigned CAP=1100;
    ~Explorer() { for (auto* x : w.r) { x->quit=true; x->active=false; sem_post(&x->go); pthread_join(x->th,0); delete x; } if (h) dlclose(h); unlink(file.c_str()); for (auto* g : bufs) delete g; }
    bool open(Lib const& src, int nt, int uid) {
        lib=src; file=src.path+fmt(".copy%d.so",uid); { int a=::open(src.path.c_str(),O_RDONLY), b=::open(file.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0700); char buf[65536]; ssize_t m; while ((m=read(a,buf,sizeof buf))>0) if (write(b,buf,m)!=m) _exit(3); close(a); close(b); }
        h=dlopen(file.c_str(),RTLD_NOW|RTLD_LOCAL); if (!h) { fprintf(stderr,"%s\n",dlerror()); _exit(3); }
        typedef KernelTable (*gt)(); lib.t=((gt)dlsym(h,"kernel_table"))();
        struct link_map* lm; dlinfo(h,RTLD_DI_LINKMAP,&lm); struct C { World* w; const char* nm; } c{&w,lm->l_name};
        dl_iterate_phdr([](dl_phdr_info* i,size_t,void* p)->int { C* c=(C*)p; if (!i->dlpi_name || strcmp(i->dlpi_name,c->nm)) return 0; Range rel{0,0}; for (int k=0;k<i->dlpi_phnum;k++) if (i->dlpi_phdr[k].p_type==PT_GNU_RELRO) { uintptr_t a=i->dlpi_addr+i->dlpi_phdr[k].p_vaddr, e=a+i->dlpi_phdr[k].p_memsz; rel={(char*)(a&~4095ul),(char*)(e&~4095ul)}; }
            for (int k=0;k<i->dlpi_phnum;k++) { auto& ph=i->dlpi_phdr[k]; if (ph.p_type!=PT_LOAD || !(ph.p_flags&PF_W)) continue; Range r{(char*)i->dlpi_addr+ph.p_vaddr,(char*)i->dlpi_addr+ph.p_vaddr+ph.p_memsz}; if (rel.lo && r.lo<rel.hi) r.lo=std::min(rel.hi,r.hi); if (r.lo<r.hi) c->w->image.push_back(r); } return 1; },&c);
        w.nt=nt; sem_init(&w.main,0,0); for (int i=0;i<nt;i++) { Runner* x=new Runner(); x->w=&w; x->id=i; x->active=x->done=x->quit=false; x->guard_depth=0; x->blocked=0; sem_init(&x->go,0,0); pthread_create(&x->th,0,runner_main,x); while (sem_wait(&w.main)) {} w.r.push_back(x); }
        for (int i=0;i<nt*8;i++) bufs.push_back(new Guard(CAP*sizeof(T)));
        for (auto& r : w.image) snap.emplace_back(r.lo,r.hi);
        return true; }
    void restore() { for (size_t i=0;i<w.image.size();i++) if (memcmp(w.image[i].lo,snap[i].data(),snap[i].size())) memcpy(w.image[i].lo,snap[i].data(),snap[i].size()); }
    bool image_changed() { for (size_t i=0;i<w.image.size();i++) if (memcmp(w.image[i].lo,snap[i].data(),snap[i].size())) return true; return false; }
    // buffers of thread t: 8*t.. : out0, out1, inputs 0..3
    T* buf(int t, int j, unsigned n) { Guard* g=bufs[t*8+j]; return (T*)g->hi - ((n+63)/64*64); }
    void setup(int t, Call const& c, bool share) {
        Runner* x=w.r[t]; const Kernel& k=*c.k.k; x->k=c.k; x->n=c.n; unsigned ol=outlen(k,c.n); x->o0=buf(t,0,ol); x->o1=buf(t,1,ol); x->outs.clear(); x->ins.clear(); x->outs.push_back({(char*)x->o0,(char*)((T*)x->o0+ol)}); if (is_pan(k)) x->outs.push_back({(char*)x->o1,(char*)((T*)x->o1+ol)});
        for (unsigned i=0;i<ol;i++) { ((T*)x->o0)[i] = inout(k)?datum<T>(6+t,i):(T)-555; ((T*)x->o1)[i]=(T)-555; }
        memset(x->args,0,sizeof x->args); for (int j=0;j<4;j++) { T* in=buf(share?0:t,2+j,c.n); x->args[j].p=in; x->args[j].s=scalar_of<T>(j)*(1+0.25*t); x->args[j].d=slope_of<T>(j)*(1+t); if (j<nin(k) && is_buf(k.kinds[j])) { for (unsigned i=0;i<c.n;i++) in[i]=datum<T>(j+(share?0:3*t),i+(share?0:17*t)); x->ins.push_back({(char*)in,(char*)(in+c.n)}); } }
        x->active=true; x->done=false; x->blocked=0; x->guard_depth=0;
    }
    vector<T> result(int t) { Runner* x=w.r[t]; unsigned ol=outlen(*x->k.k,x->n); vector<T> v((T*)x->o0,(T*)x->o0+ol); if (is_pan(*x->k.k)) v.insert(v.end(),(T*)x->o1,(T*)x->o1+ol); return v; }
    void start(int first) { w.ci=0; w.step=0; w.bad.clear(); w.guards.clear(); w.guard_seen=w.atomic_seen=false; w.points.clear(); w.cur=first; sem_post(&w.r[first]->go); while (sem_wait(&w.main)) {} schedules++; steps+=w.step; }
    string kn(Call const& c) { return kname(c.k); }
    // one exploration: all schedules of the calls with at most `bound` preemptions; false after a violation
    bool explore(vector<Call> const& cs, bool share, bool fine, int bound) {
        w.fine=fine; vector<vector<T>> solo; int nt=cs.size();
        string nm; for (auto& c : cs) nm += (nm.empty()?"":" || ")+kn(c)+fmt(" n=%u",c.n);
        for (int t=0;t<nt;t++) { // alone
            restore(); for (int u=0;u<nt;u++) { setup(u,cs[u],share); if (u!=t) { w.r[u]->active=false; } } w.nt=w.r.size(); w.sched.clear(); w.rec_from=1<<30; start(t); solo.push_back(result(t));
            if (w.bad.empty() && image_changed() && !w.guard_seen && !w.atomic_seen) w.bad="changes static data of the library";
            if (!w.bad.empty()) { violation("shared "+kn(cs[t]), kn(cs[t])+fmt(" n=%u: ",cs[t].n)+w.bad); for (auto* x : w.r) x->active=false; return false; } for (auto* x : w.r) x->active=false; }
        struct Node { int first; vector<Choice> s; int used; int from; }; vector<Node> st; for (int f=0;f<nt;f++) st.push_back({f,{},0,0});
        while (!st.empty()) { Node nd=st.back(); st.pop_back(); restore(); for (int u=0;u<nt;u++) setup(u,cs[u],share); w.sched=nd.s; w.rec_from=nd.from; start(nd.first); states++;
            string bad=w.bad; int who=0; for (int t=0;t<nt && bad.empty();t++) { auto v=result(t); for (size_t i=0;i<v.size();i++) if (!same(v[i],solo[t][i])) { bad=fmt("thread %d output %zu is %s, alone %s",t,i,hx(v[i]).c_str(),hx(solo[t][i]).c_str()); who=t; break; } }
            auto pts=w.points; for (auto* x : w.r) x->active=false;
            if (!bad.empty()) { string sc=fmt("thread %d starts",nd.first); for (auto& c : nd.s) sc+=fmt(", step %d: switch to thread %d",c.step,c.to); violation("schedule "+kn(cs[who]), nm+" schedule ("+sc+"): "+bad); return false; }
            for (auto& p : pts) { int dflt = p.forced ? p.en[0] : p.cur; for (int e : p.en) if (e!=dflt) { int cost = p.forced?0:1; if (nd.used+cost>bound) continue; Node k=nd; k.s.push_back({p.step,e}); k.used+=cost; k.from=p.step+1; st.push_back(k); } }
        }
        return true; }
};
template <class T> void run() {
    struct Job { const Lib* l; int part, parts; }; vector<Job> jobs; for (auto& l : libs) if (l.type==Tr<T>::c) { int parts = l.t.n>60?4:1; for (int p=0;p<parts;p++) jobs.push_back({&l,p,parts}); }
    std::stable_sort(jobs.begin(),jobs.end(),[](Job const& a, Job const& b){ return a.l->t.n/a.parts > b.l->t.n/b.parts; });
    static std::atomic<int> uid{0};
    parallel_for(jobs.size(),[&](uint64_t ji) {
        Job j=jobs[ji]; cpu_set_t old, one; sched_getaffinity(0,sizeof old,&old); 
        { int cpus[256],n=0; for (int c=0;c<CPU_SETSIZE && n<256;c++) if (CPU_ISSET(c,&old)) cpus[n++]=c; CPU_ZERO(&one); CPU_SET(cpus[ji%n],&one); sched_setaffinity(0,sizeof one,&one); }
        { Explorer<T> e; int nt=thorough?3:2; e.open(*j.l,nt,uid++); auto& lib=e.lib; e.w.nt=nt; uint64_t pairs=0;
        auto len = [&](const Kernel& k, unsigned blocks) { KRef r{&lib,&k}; return k.fixed ? k.fixed : is_scal(k) ? 3+2*(blocks-1) : grain(r)*blocks; };
        vector<const Kernel*> ks; for (int i=0;i<lib.t.n;i++) if ((only.empty()||only==lib.t.k[i].op) && lib.t.k[i].fixed<=64) ks.push_back(&lib.t.k[i]);
        vector<char> broken(ks.size(),0);
        for (size_t i=j.part;i<ks.size();i+=j.parts) { const Kernel& k=*ks[i]; typename Explorer<T>::Call a{{&lib,&k},len(k,2),0};
            for (int sh=0;sh<2 && !broken[i];sh++) { pairs++; if (!e.explore({a,a},sh,false,thorough?4:3)) broken[i]=1; }             // coarse, with itself
            if (!broken[i] && k.fixed<=16) { typename Explorer<T>::Call b{{&lib,&k},len(k,1),0}; pairs++; if (!e.explore({b,b},false,true,thorough?2:1)) broken[i]=1; }   // fine
            if (thorough && !broken[i]) { pairs++; if (!e.explore({a,a,a},false,false,2)) broken[i]=1; }
            if (!broken[i] && !k.fixed) for (size_t m=0;m<ks.size();m++) if (m!=i && !ks[m]->fixed && !broken[i]) { const Kernel& q=*ks[m]; typename Explorer<T>::Call b{{&lib,&q},len(q,1),0}, a1{{&lib,&k},len(k,1),0}; pairs++; if (!e.explore({a1,b},false,false,thorough?3:2)) broken[i]=1; }
            tick(); }
        n_states+=e.states; n_trans+=e.steps; n_traces+=e.schedules; count_extra("programs (sets of concurrent calls)",pairs); count_extra("memory accesses executed",e.w.accesses);
        if (ji%(jobs.size()/6+1)==0) sample(fmt("%s %s %s part %d/%d: %lu programs, %lu schedules, %lu scheduling points",lib.group.c_str(),lib.cfg.c_str(),lib.type=='f'?"float":"double",j.part,j.parts,(unsigned long)pairs,(unsigned long)e.schedules,(unsigned long)e.steps)); }
        sched_setaffinity(0,sizeof old,&old);
    });
}
int main(int argc,char** argv) { init(argc,argv); run<float>(); run<double>(); return finish(); }
