// C11: zero / set / copy / add / ramp generators: all lengths, alignments and value vectors of the bound, between guard pages
#include "shape.hpp"
using namespace H;
template <class T> vector<T> nans() { vector<T> v; typedef typename Tr<T>::U U; U q = (U)1<<(Tr<T>::MB-1), e = (((U)1<<Tr<T>::EB)-1)<<Tr<T>::MB, s=(U)1<<(Tr<T>::MB+Tr<T>::EB); for (U p : {q,(U)(q|1),(U)(q|12345),(U)1,(U)77,(U)(q-1)}) { v.push_back(Tr<T>::from(e|p)); v.push_back(Tr<T>::from(s|e|p)); } return v; }
struct Ramp { double s,d; };
template <class T> void run() {
    typedef typename Tr<T>::W W; const W E=(W)Tr<T>::eps();
    auto ks = kernels(Tr<T>::c); vector<T> sp = specials<T>(), pn = nans<T>();
    vector<T> cp = sp; cp.insert(cp.end(),pn.begin(),pn.end());
    vector<Ramp> slopes = {{0,1},{1,0.25},{-3.1,0.0137},{0.7,-1e-4},{100.25,1.0/3},{1e6,-3},{0,0},{-2,-0.5},{0,1e-9},{0,-1e-30},{0.25,1e-20},{1e10,1e8},{-7,4e5}}, exps = {{1,0.5},{1,2},{-3,0.999},{0.1,1.001},{5,-0.75},{2,0},{1e-3,1.5},{7,1},{0,3},{1000,0.3},{2,1-0x1p-20},{-1e-9,1+0x1p-18},{1e20,0.5},{3e-20,-1.25}};
    parallel_for(ks.size(),[&](uint64_t ii) {
        KRef r=ks[ii]; const Kernel& k=*r.k; unsigned g=grain(r); string op=k.op; char kind=k.kinds[0]; bool cpy=op.substr(0,7)=="copyvec", add=op=="addvec", zero=op.substr(0,7)=="zerovec", set=op.substr(0,6)=="setvec", sl=op=="set_slope", ex=op=="set_exp";
        static thread_local Guard* go = new Guard(2200*sizeof(T)); static thread_local Guard* gi = new Guard(2200*sizeof(T));
        unsigned VA=64/sizeof(T); vector<unsigned> ns; if (k.fixed) ns={k.fixed}; else if (g==1) { for (unsigned n=1;n<=(thorough?300u:80u);n++) ns.push_back(n); ns.push_back(1000); } else { for (unsigned b=1;b<=(thorough?40u:12u);b++) ns.push_back(b*g); ns.push_back(1024); }
        uint64_t st=0; bool bad=false;
        // value variants
        unsigned nvar = (set)?cp.size():(kind=='r')?(ex?exps.size():slopes.size()):(add&&kind=='s')?sp.size():zero?2:3;
        auto oneCall = [&](unsigned n, int po, int pi, unsigned oo, unsigned io, unsigned var) {
            T* o = po ? (T*)go->hi-n-oo : (T*)go->lo+oo; T* in = pi ? (T*)gi->hi-n-io : (T*)gi->lo+io;
            T* ow0 = o-std::min<ptrdiff_t>(80,o-(T*)go->lo); T* ow1 = o+n+std::min<ptrdiff_t>(80,(T*)go->hi-(o+n));
            for (T* x=ow0;x<ow1;x++) *x=(T)-4321; static thread_local T dst0[2200], src0[2200]; bool src = kind=='v'||kind=='u';
            for (unsigned i=0;i<n;i++) { dst0[i] = var==2||add&&var%2 ? datum<T>(5,i) : sp[(i*5+var*3+i/7)%sp.size()]; if (src) src0[i] = cpy ? (var==2?datum<T>(1,i):cp[(i*(var?3:1)+var*2)%cp.size()]) : (var==2?-datum<T>(2,i)*3:sp[(i*(var?11:7)+var)%sp.size()]); }
            memcpy(o,dst0,n*sizeof(T)); if (src) memcpy(in,src0,n*sizeof(T));
            KArg a[4]; memset(a,0,sizeof a); a[0].p=in; if (set) a[0].s=cp[var]; else if (kind=='s') a[0].s=sp[var]; else if (kind=='r') { Ramp q=(ex?exps:slopes)[var]; a[0].s=(T)q.s; a[0].d=(T)q.d; }
            if (set && cp[var]!=cp[var]) a[0].s = std::numeric_limits<double>::quiet_NaN();
            st++; if (!call(r,o,0,a,n)) { bad=true; return; }
            string ctx=fmt("%s n=%u destination %s+%u source %s+%u variant %u", kname(r).c_str(),n,po?"end":"start",oo,pi?"end":"start",io,var);
            for (T* x=ow0;x<ow1;x++) if ((x<o||x>=o+n) && bits(*x)!=bits((T)-4321)) { violation("outside "+kname(r), ctx+fmt(": destination element %ld outside the buffer written",(long)(x-o))); bad=true; return; }
            if (src && memcmp(in,src0,n*sizeof(T))) { violation("source "+kname(r), ctx+": source changed"); bad=true; return; }
            for (unsigned i=0;i<n;i++) { bool ok=true; W want=0; T y=o[i];
                if (zero) ok = bits(y)==0; else if (set) { want=a[0].s; ok = same(y,(T)a[0].s); } else if (cpy) { want=src0[i]; ok = bits(y)==bits(src0[i]); }
                else if (add && kind!='r') { T b = kind=='s'?(T)a[0].s:src0[i]; T e=dst0[i]+b; want=e; ok=same(y,e); }
                else { W s=a[0].s, d=a[0].d; if (ex) { W e=s==0?(W)0:s*std::pow(d,(W)i); want=e; W ae=std::fabs(e); if (d==0) ok = y==(T)(i?0:s); else if (ae > (W)std::numeric_limits<T>::max()/16) ok=true; else if (ae < (W)Tr<T>::nmin()*1024) ok = std::fabs((W)y) <= (W)Tr<T>::nmin()*2048; else ok = std::fabs((W)y-e) <= ae*(W)(i+8)*2*E; }
                    else { W f=s+d*(W)i, m=std::fabs(s)+std::fabs(d)*(W)i, tol=(i? (W)(i+4)*(W)1.5*E*m:0); if (a[0].s*1024==std::floor(a[0].s*1024) && a[0].d*1024==std::floor(a[0].d*1024) && (m < 0x1p14 || (m < 0x1p24 && a[0].s==std::floor(a[0].s) && a[0].d==std::floor(a[0].d)))) tol=0;
                        if (add) { W e=(W)dst0[i]+f; want=e; if (!(std::fabs(e)<(W)std::numeric_limits<T>::max())) { T ee=dst0[i]+(T)f; ok = same(y,ee); } else ok = std::fabs((W)y-e) <= tol+(std::fabs(e)+tol)*E+(W)Tr<T>::dmin(); if (dst0[i]!=dst0[i]) ok = y!=y; }
                        else { want=f; ok = std::fabs((W)y-f) <= tol; } } }
                if (!ok) { violation("value "+kname(r), ctx+fmt(" element %u: got %s, expected %s (start %s, step %s)",i,hx(y).c_str(),hx((double)want).c_str(),hx(a[0].s).c_str(),hx(a[0].d).c_str())); bad=true; return; } } };
        for (unsigned n : ns) for (unsigned var=0;var<nvar && !bad;var++) for (int po=0;po<2;po++) for (int pi=0;pi<2;pi++) { if (!(kind=='v'||kind=='u') && pi) continue; if (bad) break; oneCall(n,po,pi,0,0,var); }
        for (unsigned n : ns) { if (n > 6*g+20 && !k.fixed && !thorough) continue; for (unsigned oo=0;oo<(dst_any(k)?VA:1);oo++) for (unsigned io=0;io<(src_any(k)&&(kind=='v'||kind=='u')?VA:1);io++) for (int e=0;e<4;e++) if ((oo||io)&&!bad) oneCall(n,e&1,e>>1,oo,io,n%nvar); }
        // long buffers: more loop iterations than a 16-bit counter holds, ramps without drift (slope 1/1024, exact)
        if (!bad && !k.fixed) { unsigned n = g==1 ? 65537+64 : 65537*g; vector<T> big(2*(size_t)n+192); T* o=big.data(); while ((uintptr_t)o%64) o++; T* in=o+n+64; while ((uintptr_t)in%64) in++; bool src = kind=='v'||kind=='u';
            auto d0 = [](unsigned i) { return datum<T>(5,i%1021); }; auto s0 = [](unsigned i) { return -datum<T>(2,i%1019)*3; };
            for (unsigned i=0;i<n;i++) { o[i]=d0(i); if (src) in[i]=s0(i); } for (int i=0;i<8;i++) o[n+i]=(T)-4321;
            KArg a[4]; memset(a,0,sizeof a); a[0].p=in; if (set||kind=='s') a[0].s=(T)2.75; else if (kind=='r') { if (ex) { a[0].s=3; a[0].d=(T)(1-std::ldexp(1.0,-20)); } else { a[0].s=1; a[0].d=1/1024.0; } }
            st++; if (!call(r,o,0,a,n)) bad=true; else for (unsigned i=0;i<n+8;i++) { W want,tol=0; T y=o[i];
                if (i>=n) want=-4321; else if (zero) want=0; else if (set) want=a[0].s; else if (cpy) want=s0(i); else if (add && kind!='r') want=(T)(d0(i)+(kind=='s'?(T)a[0].s:s0(i))); else if (ex) { want=(W)a[0].s*std::pow((W)a[0].d,(W)i); tol=want*(W)(i+8)*2*E; } else { want=(W)a[0].s+(W)a[0].d*i; if (add) { want+=(W)d0(i); tol=std::fabs(want)*E; } }
                if (!(std::fabs((W)y-want)<=tol)) { violation("value "+kname(r), fmt("%s n=%u element %u: got %s, expected %s",kname(r).c_str(),n,i,hx(y).c_str(),hx((double)want).c_str())); bad=true; break; } } }
        n_states += st; n_trans += st; n_traces += st; if (ii%(ks.size()/8+1)==0) sample(kname(r)+fmt(": %lu calls, %u value variants",(unsigned long)st,nvar));
    });
    count_extra("kernels",ks.size());
}
int main(int argc,char** argv) { init(argc,argv); run<float>(); run<double>(); return finish(); }
