// C14: horizontal reductions.  C15: peak / RMS meters over histories of blocks.   --prop C14|C15
#include "shape.hpp"
using namespace H;
static string prop;
// ------------------------------------------------------------------------------------------------ C14
template <class T> struct Sum { typename Tr<T>::W s=0, a=0; bool pinf=false, ninf=false, exact=true;
    void add(T x) { if (std::isinf(x)) { (x>0?pinf:ninf)=true; return; } s+=x; a+=std::fabs((typename Tr<T>::W)x); if (x!=std::floor(x)||std::fabs(x)>1e6) exact=false; }
    bool ok(T y, unsigned n) const { typedef typename Tr<T>::W W; const W mx=(W)std::numeric_limits<T>::max();
        if (a > mx*(W)0.999) return true;                                    // intermediate overflow depends on the order of summation
        if (pinf&&ninf) return y!=y; if (pinf) return y==std::numeric_limits<T>::infinity(); if (ninf) return y==-std::numeric_limits<T>::infinity();
        if (exact && a < (W)(sizeof(T)==4?16777216.0:4503599627370496.0)) return (W)y==s;
        return std::fabs((W)y-s) <= a*(W)n*(W)1.1*(W)Tr<T>::eps() + (W)0; } };
template <class T> bool judge(KRef const& r, const T* in, unsigned n, const T* o, string const& what) {
    string op=r.k->op; T mn=in[0], mx=in[0]; Sum<T> s; for (unsigned i=0;i<n;i++) { if (in[i]<mn) mn=in[i]; if (in[i]>mx) mx=in[i]; s.add(in[i]); }
    bool ok=true; string exp;
    if (op=="hmin") ok = o[0]==mn; else if (op=="hmax") ok = o[0]==mx; else if (op=="hsum") ok = s.ok(o[0],n);
    else if (op=="hminmax") ok = o[0]==mn && o[1]==mx; else if (op=="hmaxsum") ok = o[0]==mx && s.ok(o[1],n);
    if (!ok) violation("value "+kname(r), fmt("%s n=%u %s: got %s, %s; minimum %s maximum %s sum %s", kname(r).c_str(), n, what.c_str(), hx(o[0]).c_str(), hx(o[1]).c_str(), hx(mn).c_str(), hx(mx).c_str(), hx((double)s.s).c_str()));
    return ok;
}
template <class T> void c14() {
    auto ks = kernels(Tr<T>::c,[](const Lib&,const Kernel& k){ return k.op[0]=='h'; });
    typedef std::numeric_limits<T> L; const T inf=L::infinity(), mx=L::max();
    struct Pr { T base, ext; }; vector<Pr> pr; vector<T> ext = {-inf,-mx,(T)-1e6,-2,-1,(T)-0.37,-L::min(),-L::denorm_min(),0,L::denorm_min(),L::min(),(T)0.37,1,2,(T)1e6,mx,inf};
    for (T b : ext) for (T e : ext) if (b!=e) pr.push_back({b,e});
    parallel_for(ks.size()*2,[&](uint64_t jj) {
        KRef r=ks[jj/2]; unsigned g=grain(r); uint64_t st=0; static thread_local Guard* gb=new Guard(8192*sizeof(T)); bool bad=false;
        T o[4]; KArg a[4]; memset(a,0,sizeof a);
        auto at = [&](unsigned n) { return (T*)gb->hi - n; };                                   // block ends at the guard page (stays 64-byte aligned when n is a multiple of the vector size... see below)
        auto go = [&](T* in, unsigned n, string (*d)(void*), void* dc) { a[0].p=in; o[0]=o[1]=o[2]=(T)-777; st++; if (!call(r,o,0,a,n)) { bad=true; return; } if (!judge(r,in,n,o,"")) { string w=d(dc); judge(r,in,n,o,w); bad=true; } };
        auto blank = [](void*) { return string(); };
        if (jj%2==0) {
            // (a) one extreme element at every position, every (base, extreme) pair; also on top of a varied background
            vector<unsigned> ns; if (g==1) { for (unsigned n=1;n<=(thorough?130u:40u);n++) ns.push_back(n); } else for (unsigned b=1;b<=(thorough?64u:16u);b++) ns.push_back(b*g);
            ns.push_back(256); if (thorough) ns.push_back(1024);
            for (unsigned n : ns) { T* in=at(n);
                for (int bg=0; bg<2 && !bad; bg++) for (unsigned p=0;p<n && !bad;p++) for (size_t q=0;q<pr.size() && !bad;q++) {
                    if (n>=256 && q%7) continue;
                    if (bg && (std::isinf(pr[q].base) || std::fabs(pr[q].base)==mx)) continue;
                    for (unsigned i=0;i<n;i++) in[i] = bg ? pr[q].base*(T)(0.5+0.5*((i*7%13)/13.0)) : pr[q].base; in[p]=pr[q].ext;
                    struct D { T b,e; unsigned p; int bg; } d{pr[q].base,pr[q].ext,p,bg};
                    go(in,n,[](void* x){ D* d=(D*)x; return fmt("(%s background %s, element %u = %s)", d->bg?"varied":"constant", hx(d->b).c_str(), d->p, hx(d->e).c_str()); },&d); } }
            // (b) distinct integers: exact sums, every rotation
            for (unsigned n : ns) { T* in=at(n); for (unsigned rot=0; rot<n && rot<64 && !bad; rot++) for (int sg=-1;sg<=2 && !bad;sg++) { for (unsigned i=0;i<n;i++) { int v=(i+rot)%n+1; in[i]=(T)(sg==0 ? v-(int)n/2 : sg==2 ? (i&1?v:-v) : sg*v); } go(in,n,[](void* x){ return fmt("(integers rotated by %u)",*(unsigned*)x); },&rot); } }
            { unsigned n=4096; T* in=at(n); for (int v=0;v<3 && !bad;v++) { for (unsigned i=0;i<n;i++) in[i] = v==0 ? (T)(i%3) : datum<T>(v,i)-(v==2?(T)0.5:(T)0); unsigned rot=0; go(in,n,[](void*){ return string("(4096 elements)"); },&rot); } }
            // (b2) more loop iterations than a 16-bit counter holds: an extreme near both ends and at the 2^16 iteration boundary
            if (!bad) { unsigned n = g==1 ? 65537+64 : 65537*g; vector<T> big(n+64); T* in=big.data(); while ((uintptr_t)in%64) in++; for (unsigned p : {0u,n/2,n-1,n-g,65535u*g,65536u*g-1,65536u*g}) for (int v=-1;v<=1 && !bad;v+=2) { if (p>=n) continue; for (unsigned i=0;i<n;i++) in[i]=(T)((int)(i%3)-1); in[p]=(T)(v*100); go(in,n,[](void* x){ return fmt("(long buffer, extreme at %u)",*(unsigned*)x); },&p); } }
        } else {
            // (c) every assignment of an alphabet to the elements of short buffers
            vector<T> al = thorough ? vector<T>{-inf,-2,0,1,5} : vector<T>{-2,-1,0,3};
            for (unsigned n=g; n<=(g==1?8u:8u); n+=g) { T* in=at(n); uint64_t tot=1; for (unsigned i=0;i<n;i++) tot*=al.size();
                for (uint64_t c=0;c<tot && !bad;c++) { uint64_t x=c; for (unsigned i=0;i<n;i++) { in[i]=al[x%al.size()]; x/=al.size(); } go(in,n,[](void*){ return string("(assignment)"); },0); } }
            // (d) order of two extremes: every pair of positions in up to 4 vectors
            unsigned n = g==1 ? 17 : 4*g; T* in=at(n); for (unsigned p=0;p<n && !bad;p++) for (unsigned q=0;q<n && !bad;q++) for (int v=0;v<3;v++) { for (unsigned i=0;i<n;i++) in[i]=v==0?(T)0:v==1?(T)-10:(T)10; in[p]=v==0?(T)5:v==1?(T)-3:(T)3; in[q]=v==0?(T)-7:v==1?(T)-17:(T)17; unsigned z=p*1000+q; go(in,n,[](void* x){ return fmt("(positions %u)",*(unsigned*)x); },&z); }
        }
        n_states+=st; n_trans+=st; n_traces+=st; if (jj%(ks.size()/4+1)==0) sample(kname(r)+fmt(": %lu buffers",(unsigned long)st));
    });
    count_extra("kernels",ks.size());
}
// ------------------------------------------------------------------------------------------------ C15
// The history tree: a node is (position, meter state); the edges are all admissible next blocks (length x scalar/SIMD).
template <class T> struct Meter {
    KRef sc, si; bool rms; const T* sig; unsigned K, g; uint64_t nodes=0, calls=0; bool bad=false; string what; vector<string> trace; int fine;
    typedef typename Tr<T>::W W;
    void step(unsigned pos, T pk, T ss, W ess, W tol, bool exact) {
        nodes++; if (pos==K*g || bad) return;
        unsigned rest = K*g-pos;
        for (int form=0; form<2; form++) { unsigned u = form ? g : (fine?1:g); if (form && pos%(unsigned)1) continue; if (form && fine && pos%g) continue;
            for (unsigned len=u; len<=rest && !bad; len+=u) {
                T o[3]={pk,ss,(T)-777}; KArg a[4]; memset(a,0,sizeof a); a[0].p=sig+pos; KRef& r = form?si:sc;
                calls++; if (!call(r,o,0,a,len)) { bad=true; return; }
                T epk=pk; W es=ess, t2=tol; bool ex=exact; for (unsigned i=0;i<len;i++) { T x=sig[pos+i]; T m=std::fabs(x); if (m>epk) epk=m; es+=(W)x*(W)x; if (x!=std::floor(x)||m>1000) ex=false; }
                trace.push_back(fmt("%s %u", form?"simd":"scalar", len));
                string bads; if (!(o[0]==epk)) bads=fmt("peak %s, expected %s",hx(o[0]).c_str(),hx(epk).c_str());
                if (!rms && !(o[2]==std::fabs(sig[pos+len-1]))) bads+=fmt(" returned %s, last sample %s",hx(o[2]).c_str(),hx(sig[pos+len-1]).c_str());
                if (rms) { W mx=(W)std::numeric_limits<T>::max(); t2 = tol + std::fabs(es)*(W)(len+4)*(W)1.1*(W)Tr<T>::eps() + (W)len*(W)Tr<T>::dmin();
                    bool ok; if (!(es<=mx*(W)2)) ok = o[1]>mx; else if (es > mx*(W)0.5) ok=true; else if (ex && es<16777216) ok=(W)o[1]==es; else ok = std::fabs((W)o[1]-es)<=t2;
                    if (!ok) bads+=fmt(" squared sum %s, expected %s",hx(o[1]).c_str(),hx((double)es).c_str()); }
                if (!bads.empty()) { string tr; for (auto& s : trace) tr+=s+"; "; violation("history "+kname(r), fmt("%s %s: blocks %s-> %s", kname(r).c_str(), what.c_str(), tr.c_str(), bads.c_str())); bad=true; return; }
                step(pos+len,o[0],o[1],es,t2,ex); trace.pop_back();
            } }
    }
};
template <class T> void c15() {
    vector<std::pair<KRef,KRef>> ks; for (auto& l : libs) if (l.type==Tr<T>::c) for (const char* op : {"peak","peak_rms"}) { KRef s{0,0}, v{0,0}; for (int i=0;i<l.t.n;i++) { const Kernel& k=l.t.k[i]; if (strcmp(k.op,op)) continue; (is_scal(k)?s:v) = KRef{&l,&k}; } if (s.k&&v.k) ks.push_back({s,v}); }
    typedef std::numeric_limits<T> L; const T inf=L::infinity();
    vector<T> peaks = {1,-1,(T)0.75,(T)-0.75,(T)-1000,L::denorm_min(),-inf,(T)1e18,-L::max()}; struct I { T p,s; }; vector<I> init = {{0,0},{(T)0.5,4},{3,(T)1e-3},{inf,2},{-1,(T)0.25},{(T)1e-30,100}};
    unsigned K = thorough?6:4;
    parallel_for(ks.size()*peaks.size(),[&](uint64_t jj) {
        auto pr=ks[jj/peaks.size()]; T pk=peaks[jj%peaks.size()]; Meter<T> m; m.sc=pr.first; m.si=pr.second; m.rms=!strcmp(pr.first.k->op,"peak_rms"); m.g=pr.first.lib->t.per_loop; uint64_t st=0;
        static thread_local Guard* gb=new Guard(8192*sizeof(T));
        for (int fine=0; fine<2 && !m.bad; fine++) { // fine: scalar blocks of every length, SIMD blocks at aligned positions
            m.fine=fine; m.K = fine ? 1 : K; unsigned N = m.K*m.g; if (fine && N>12) { m.g=0; }   // fine composition tree is 2^(N-1): only where a loop block is short
            if (fine) { m.g = pr.first.lib->t.per_loop; if (N > 16) { m.K=1; } }
            T* sig=(T*)gb->hi-N; m.sig=sig;
            for (int bg=0; bg<3 && !m.bad; bg++) for (unsigned p=0;p<N && !m.bad;p++) for (auto& in : init) {
                if (fine && (N>8 && (&in!=&init[1] || bg!=1 || (N>16)))) continue;
                for (unsigned i=0;i<N;i++) sig[i] = bg==0 ? (T)0 : bg==1 ? (T)(int)((i*5+1)%7)-3 : (datum<T>(1,i)-(T)0.5); if (bg==1 && std::fabs(pk)<3) sig[p]=pk>0?(T)5:(T)-5; else sig[p]=pk;
                m.what=fmt("initial peak %s sum %s, background %d, element %u = %s", hx(in.p).c_str(), hx(in.s).c_str(), bg, p, hx(sig[p]).c_str()); m.trace.clear();
                bool ex = in.s==std::floor(in.s); m.nodes=m.calls=0; m.step(0,in.p,in.s,in.s,0,ex); st+=m.nodes; n_trans+=m.calls; n_traces++; if (m.bad) break; } }
        // every single block length
        m.g = pr.first.lib->t.per_loop;
        for (int form=0; form<2 && !m.bad; form++) { KRef r = form?pr.second:pr.first; unsigned u=form?m.g:1; for (unsigned n=u; n<=(thorough?1024u:form?1024u:200u) && !m.bad; n+=u) { T* sig=(T*)gb->hi-n; 
            vector<unsigned> ps; if (n<=128) for (unsigned p=0;p<n;p++) ps.push_back(p); else ps={0,1,m.g-1,m.g,n/2,n-m.g,n-m.g/2-1,n-m.g/2,n-2,n-1};
            for (unsigned p : ps) { for (unsigned i=0;i<n;i++) sig[i]=(T)((int)((i*3)%5)-2); sig[p]=pk; T o[3]={1,2,-777}; KArg a[4]; memset(a,0,sizeof a); a[0].p=sig; st++; n_trans++;
                if (!call(r,o,0,a,n)) { m.bad=true; break; } T e=std::max((T)(n>1||1?1:0),std::fabs(pk)); T es=2; typename Tr<T>::W w=2; bool two=false; for (unsigned i=0;i<n;i++) { if (std::fabs(sig[i])>e) e=std::fabs(sig[i]); w+=(typename Tr<T>::W)sig[i]*sig[i]; }
                bool ok = o[0]==e && (m.rms || o[2]==std::fabs(sig[n-1])); if (m.rms) { if (w<16777216 && pk==std::floor(pk)) ok = ok && o[1]==(T)w; else if (w < (typename Tr<T>::W)L::max()/2) ok = ok && std::fabs(o[1]-w) <= w*(n+4)*1.1*Tr<T>::eps(); else if (w > (typename Tr<T>::W)L::max()*2) ok = ok && o[1]==inf; }
                if (!ok) { violation("block "+kname(r), fmt("%s n=%u element %u = %s: peak %s (expected %s), squared sum %s (expected %s), returned %s (last sample %s)", kname(r).c_str(), n, p, hx(pk).c_str(), hx(o[0]).c_str(), hx(e).c_str(), hx(o[1]).c_str(), hx((double)w).c_str(), hx(o[2]).c_str(), hx(sig[n-1]).c_str())); m.bad=true; break; } } } }
        // more loop iterations than a 16-bit counter holds
        if (jj%peaks.size()<2) for (int form=0; form<2 && !m.bad; form++) { KRef r=form?pr.second:pr.first; unsigned n=form?65537*m.g:65537+64; vector<T> big(n+64); T* sig=big.data(); while ((uintptr_t)sig%64) sig++;
            for (unsigned p : {0u,n/2,n-1,n-m.g,65535u*m.g/2,65536u*m.g-1,65536u*m.g}) { if (p>=n||m.bad) continue; double w=2; for (unsigned i=0;i<n;i++) sig[i]=(T)((int)(i%3)-1); sig[p]=pk*50; for (unsigned i=0;i<n;i++) w+=(double)sig[i]*sig[i]; T o[3]={1,2,-777}; KArg a[4]; memset(a,0,sizeof a); a[0].p=sig; st++; n_trans++; if (!call(r,o,0,a,n)) { m.bad=true; break; }
                if (!(o[0]==50 && (m.rms ? (double)o[1]==w : o[2]==std::fabs(sig[n-1])))) { violation("long "+kname(r), fmt("%s n=%u element %u = %s: peak %s, squared sum %s (expected %s), returned %s", kname(r).c_str(), n, p, hx(sig[p]).c_str(), hx(o[0]).c_str(), hx(o[1]).c_str(), hx(w).c_str(), hx(o[2]).c_str())); m.bad=true; } } }
        n_states+=st; if (jj%(ks.size()*peaks.size()/8+1)==0) sample(kname(pr.second)+fmt(": peak value %s, %lu meter states",hx(pk).c_str(),(unsigned long)st));
    });
    count_extra("meter pairs",ks.size());
}
int main(int argc,char** argv) { vector<char*> av; for (int i=0;i<argc;i++) if (!strcmp(argv[i],"--prop")) prop=argv[++i]; else av.push_back(argv[i]); init(av.size(),av.data());
    if (prop=="C14") { c14<float>(); c14<double>(); } else { c15<float>(); c15<double>(); } return finish(); }
