// C08 (extent of accesses), C09 (aliasing), C18 (element independence)
#include "shape.hpp"
#include <memory>
using namespace H;
template <class T> KArg arg_for(const Kernel& k, int j, const T* p) { KArg a; a.p = p; a.s = scalar_of<T>(j); a.d = slope_of<T>(j); if (!strcmp(k.op,"set_exp")) { a.s = 1; a.d = (T)0.999; } return a; }
static KRef partner(KRef r) {   // run-time form belonging to a compile-time form
    if (!r.k->fixed) return r; bool na = strstr(r.k->form,"na");
    for (int i=0;i<r.lib->t.n;i++) { const Kernel& k = r.lib->t.k[i]; if (!k.fixed && !strcmp(k.op,r.k->op) && !strcmp(k.kinds,r.k->kinds) && !strcmp(k.form,na?"simdna":"simd")) return {r.lib,&k}; }
    return {0,0};
}
static const unsigned REF = 1024;
// ---------------------------------------------------------------- C08
template <class T> struct Bufs { Guard out, out1, in[4]; Bufs(size_t b) : out(b), out1(b), in{Guard(b),Guard(b),Guard(b),Guard(b)} {} };
template <class T> T canary(unsigned i) { return (T)(-1e3-(double)(i%61)); }
template <class T> struct Place { T* p; T *w0, *w1; };   // data start, canary windows [w0,p) and [p+n,w1)
template <class T> Place<T> place(Guard& g, int where, unsigned off, unsigned n) { const unsigned WIN = 96; T* lo=(T*)g.lo; T* hi=(T*)g.hi; Place<T> q; q.p = where ? hi-n-off : lo+off;
    q.w0 = (q.p-lo > (ptrdiff_t)WIN) ? q.p-WIN : lo; q.w1 = (hi-(q.p+n) > (ptrdiff_t)WIN) ? q.p+n+WIN : hi; for (T* x=q.w0;x<q.p;x++) *x = canary<T>(x-lo); for (T* x=q.p+n;x<q.w1;x++) *x = canary<T>(x-lo); return q; }
template <class T> T* spoiled(Guard& g, Place<T> const& q, unsigned n) { T* lo=(T*)g.lo; for (T* x=q.w0;x<q.p;x++) if (bits(*x)!=bits(canary<T>(x-lo))) return x; for (T* x=q.p+n;x<q.w1;x++) if (bits(*x)!=bits(canary<T>(x-lo))) return x; return 0; }
template <class T> bool reference(KRef r, vector<T>& o, vector<T>& o1, unsigned n) {   // one call on plain aligned memory
    T* m = (T*)aligned_alloc(64,(size_t)(n+64)*6*sizeof(T)); T* b[6]; for (int j=0;j<6;j++) b[j] = m+(size_t)j*((n+63)/64*64); KArg a[4];
    for (int j=0;j<4;j++) { for (unsigned i=0;i<n;i++) b[2+j][i] = datum<T>(j,i%REF); a[j] = arg_for<T>(*r.k,j,b[2+j]); }
    unsigned on = is_red(*r.k)?3:n; for (unsigned i=0;i<on;i++) b[0][i] = b[1][i] = inout(*r.k) ? datum<T>(5,i%REF) : (T)-777;
    bool ok = call(r,b[0],b[1],a,n); o.assign(b[0],b[0]+on); o1.assign(b[1],b[1]+on); free(m); return ok;
}
template <class T> void c08() {
    auto ks = kernels(Tr<T>::c);
    parallel_for(ks.size(),[&](uint64_t ii) {
        KRef r = ks[ii]; const Kernel& k = *r.k; static thread_local Bufs<T>* B = new Bufs<T>(1120*sizeof(T)); static thread_local Bufs<T>* BIG = new Bufs<T>(140000*sizeof(T));
        vector<T> ref, ref1; KRef pr = partner(r); if (!pr.k) return;
        if (!is_red(k) && !reference<T>(pr,ref,ref1,k.fixed>REF?k.fixed:REF)) return;
        uint64_t st=0; unsigned g = grain(r);
        auto one = [&](Bufs<T>& b, int po, int pi, unsigned oo, unsigned io, unsigned n, bool big) -> bool {
            unsigned on = outlen(k,n); bool pan = is_pan(k); int m = nin(k);
            Place<T> qo = place<T>(b.out,po,oo,on), qo1{}; if (pan) qo1 = place<T>(b.out1,po,oo,on); Place<T> qi[4]; KArg a[4]; memset(a,0,sizeof a);
            for (unsigned i=0;i<on;i++) qo.p[i] = inout(k) ? datum<T>(5,i%REF) : (T)-777; if (pan) for (unsigned i=0;i<on;i++) qo1.p[i] = (T)-777;
            for (int j=0;j<m;j++) { a[j] = arg_for<T>(k,j,(T*)0); if (!is_buf(k.kinds[j])) continue; qi[j] = place<T>(b.in[j],pi,io,n); a[j].p = qi[j].p; for (unsigned i=0;i<n;i++) qi[j].p[i] = datum<T>(j,i%REF); }
            if (is_red(k)) { if (!reference<T>(r,ref,ref1,n)) return false; }
            st++; if (!call(r,qo.p,pan?qo1.p:0,a,n)) return false;
            string ctx = fmt("%s n=%u, output %s+%u, inputs %s+%u", kname(r).c_str(), n, po?"end":"start", oo, pi?"end":"start", io);
            if (T* x = spoiled<T>(b.out,qo,on)) { violation("write outside "+kname(r), ctx+fmt(": wrote output element %ld", (long)(x-qo.p))); return false; }
            if (pan) if (T* x = spoiled<T>(b.out1,qo1,on)) { violation("write outside "+kname(r), ctx+fmt(": wrote second output element %ld", (long)(x-qo1.p))); return false; }
            for (int j=0;j<m;j++) if (is_buf(k.kinds[j])) { if (spoiled<T>(b.in[j],qi[j],n)) { violation("write around input "+kname(r), ctx+": memory next to an input changed"); return false; }
                for (unsigned i=0;i<n;i++) if (bits(qi[j].p[i])!=bits(datum<T>(j,i%REF))) { violation("input changed "+kname(r), ctx+fmt(": input %d element %u changed",j,i)); return false; } }
            if (big && has_ramp(k)) { for (unsigned i=0;i<on;i++) if (qo.p[i] == (inout(k) ? datum<T>(5,i%REF) : (T)-777) || (pan && qo1.p[i] == (T)-777)) { violation("content "+kname(r), ctx+fmt(": element %u was not written", i)); return false; } return true; }
            for (unsigned i=0;i<on;i++) { unsigned e = big && !is_red(k) && ref.size()<n ? i%REF : i; bool bad = !same(qo.p[i],ref[e]); if (pan) bad |= !same(qo1.p[i],ref1[e]);
                if (bad) { violation("content "+kname(r), ctx+fmt(": element %u is %s, expected %s", i, hx(qo.p[i]).c_str(), hx(ref[e]).c_str())); return false; } }
            return true; };
        [&]{
        vector<unsigned> ns; if (k.fixed) ns = {k.fixed}; else if (g==1) { for (unsigned n=1;n<=(thorough?600u:300u);n++) ns.push_back(n); } else { for (unsigned n=g;n<=std::min(1024u,(thorough?512u:64u)*g);n+=g) ns.push_back(n); }
        for (unsigned n : ns) for (int po=0;po<2;po++) for (int pi=0;pi<2;pi++) if (!one(*B,po,pi,0,0,n,false)) return;
        unsigned VA = 64/sizeof(T);
        if (dst_any(k)||src_any(k)) for (unsigned n : ns) if (n <= 5*g+24 || k.fixed) for (unsigned oo=0; oo<(dst_any(k)?VA:1); oo++) for (unsigned io=0; io<(src_any(k)&&nin(k)?VA:1); io++) { if (oo+io==0 || (VA>8 && !thorough && oo>8 && io>8)) continue;
            if (!one(*B,0,0,oo,io,n,false)) return; if (!one(*B,1,1,oo,io,n,false)) return; }
        if (!k.fixed) for (unsigned n : {65536u+g, 65536u+(unsigned)r.lib->t.per_loop, 131072u+g}) { if (n>65536u+64 && !thorough) continue; if (!one(*BIG,1,1,0,0,n,true)) return; }
        // more than 65536 loop blocks
        if (!k.fixed && g>1 && (thorough || r.lib->cfg=="sse2" || r.lib->cfg=="avx")) { unsigned n = 65537u*g; static thread_local std::map<unsigned,std::unique_ptr<Bufs<T>>> HUGE_; auto& h = HUGE_[g]; if (!h) { HUGE_.clear(); HUGE_[g].reset(new Bufs<T>(((size_t)n+64)*sizeof(T))); } if (!one(*HUGE_[g],1,1,0,0,n,true)) return; }
        }();
        n_states += st; n_trans += st; n_traces += st;
        if (ii%(ks.size()/8+1)==0) sample(kname(r)+fmt(": %lu calls between guard pages",(unsigned long)st));
    });
    count_extra("kernels",ks.size());
}
// ---------------------------------------------------------------- C09
template <class T> void c09() {
    auto ks = kernels(Tr<T>::c,[](const Lib&,const Kernel& k){ return !is_red(k) && strpbrk(k.kinds,"vu"); });
    parallel_for(ks.size(),[&](uint64_t ii) {
        KRef r = ks[ii]; const Kernel& k = *r.k; unsigned g = grain(r); const unsigned MX = 1024+64;
        static thread_local T* mem = (T*)aligned_alloc(64,sizeof(T)*MX*16); T* cls[6]; for (int i=0;i<6;i++) cls[i]=mem+i*MX; T* sep[7]; for (int i=0;i<7;i++) sep[i]=mem+(7+i)*MX;
        vector<int> nodes; bool pan = is_pan(k); nodes.push_back(-1); if (pan) nodes.push_back(-2); for (int j=0;j<nin(k);j++) if (is_buf(k.kinds[j])) nodes.push_back(j);
        int m = nodes.size(); vector<unsigned> ns; if (k.fixed) ns={k.fixed}; else if (g==1) { for (unsigned n=1;n<=(thorough?140u:40u);n++) ns.push_back(n); } else for (unsigned b=1;b<=(thorough?24u:5u);b++) ns.push_back(b*g); if (!k.fixed) ns.push_back(256);
        uint64_t st=0;
        // all set partitions as restricted growth strings
        vector<vector<int>> parts; vector<int> cur(m,0);
        std::function<void(int,int)> rec = [&](int i,int mx){ if (i==m) { parts.push_back(cur); return; } for (int c=0;c<=mx+1;c++) { cur[i]=c; rec(i+1,std::max(mx,c)); } };
        cur[0]=0; rec(1,0);
        for (auto& p : parts) {
            if (pan && p[0]==p[1]) continue;      // the two outputs must differ
            bool any=false; for (int i=0;i<m;i++) for (int j=0;j<i;j++) any |= p[i]==p[j]; if (!any) continue;
            for (unsigned n : ns) for (int variant=0;variant<2;variant++) {
                auto init = [&](int c, unsigned i){ T v = datum<T>(c,i+variant*5); return variant && i%7==3 ? -v : v; };
                KArg a[4], b[4]; memset(a,0,sizeof a); memset(b,0,sizeof b);
                for (int c=0;c<6;c++) for (unsigned i=0;i<n+8;i++) cls[c][i] = init(c,i);
                for (int j=0;j<nin(k);j++) { a[j] = arg_for<T>(k,j,(T*)0); b[j] = a[j]; }
                for (int i=0;i<m;i++) for (unsigned e=0;e<n+8;e++) sep[i][e] = init(p[i],e);
                T *o0=cls[p[0]], *o1 = pan?cls[p[1]]:0, *s0=sep[0], *s1=pan?sep[1]:0;
                for (int i=(pan?2:1);i<m;i++) { a[nodes[i]].p = cls[p[i]]; b[nodes[i]].p = sep[i]; }
                st++; n_trans += 2; if (!call(r,s0,s1,b,n) || !call(r,o0,o1,a,n)) return;
                string pat; for (int i=0;i<m;i++) pat += char('A'+p[i]);
                for (int c=0;c<6;c++) { const T* exp = c==p[0] ? s0 : (pan && c==p[1]) ? s1 : 0;
                    for (unsigned e=0;e<n+8;e++) { T want = exp && e<n ? exp[e] : init(c,e); if (!same(cls[c][e],want)) { violation(kname(r)+" alias "+pat, fmt("%s n=%u aliasing pattern %s (output%s first, equal letters share a buffer): buffer %c element %u is %s, expected %s", kname(r).c_str(), n, pat.c_str(), pan?"s":"", 'A'+c, e, hx(cls[c][e]).c_str(), hx(want).c_str())); n_states += st; return; } } }
            }
        }
        n_states += st; n_traces += st; if (ii%(ks.size()/8+1)==0) sample(kname(r)+fmt(": %zu buffer partitions, %lu aliased runs",parts.size(),(unsigned long)st));
    });
    count_extra("kernels",ks.size());
}
// ---------------------------------------------------------------- C18
template <class T> void c18() {
    typedef std::numeric_limits<T> L; const T inf=L::infinity(), nan=L::quiet_NaN();
    vector<T> one = {0,-(T)0.0,1,-1,(T)0.5,(T)-0.5,(T)0.3,(T)-0.7,2,(T)3.7,(T)-3.7,(T)10.25,(T)100,(T)-100,(T)1000.5,(T)8000,(T)1e10,(T)-1e10,L::max(),-L::max(),L::min(),-L::min(),L::denorm_min(),(T)(L::min()*(T)0.25),inf,-inf,nan,(T)1e-5,(T)-1e-8,(T)0.99999,(T)88.5,(T)-87,(T)709.5,(T)0.25,(T)0.4142,(T)2.4142};
    vector<T> fill = {(T)0.3,nan,inf,-L::max(),L::denorm_min(),0,(T)1e10}; 
    auto ks = kernels(Tr<T>::c,[](const Lib&,const Kernel& k){ return !is_red(k) && !has_ramp(k) && strpbrk(k.kinds,"v") && !strchr(k.kinds,'u') && !inout(k); });
    parallel_for(ks.size(),[&](uint64_t ii) {
        KRef r = ks[ii]; const Kernel& k = *r.k; unsigned g=grain(r); bool pan=is_pan(k); int m=nin(k); const unsigned MX=256; static thread_local T* mem=(T*)aligned_alloc(64,sizeof(T)*(MX+64)*8);
        T* o=mem; T* o1=mem+MX+64; T* in[4]; for (int j=0;j<4;j++) in[j]=mem+(j+2)*(MX+64);
        KRef pr = partner(r); if (!pr.k) return; unsigned gp = grain(pr);
        vector<unsigned> ns; if (k.fixed) { if (k.fixed>MX) return; ns={k.fixed}; } else if (g==1) ns={1,2,3,4,5,8,9,17,33}; else ns={g,2*g,3*g}; if (thorough && !k.fixed && g>1) ns.push_back(5*g);
        // operand tuples: diagonal plus mixed specials
        struct Tup { T v[4]; }; vector<Tup> tv, tf; size_t K=one.size();
        for (size_t i=0;i<K;i++) { if (m>1 && !thorough && i%2 && i>8) continue; Tup t; for (int j=0;j<4;j++) t.v[j]=one[(i*(1+j)+5*j)%K]; tv.push_back(t); if (m>1) { for (int j=0;j<4;j++) t.v[j]=one[i]; tv.push_back(t); } }
        for (size_t i=0;i<fill.size();i++) { if (!thorough && i>4 ) continue; Tup t; for (int j=0;j<4;j++) t.v[j]=fill[(i+j*(i%2))%fill.size()]; tf.push_back(t); }
        uint64_t st=0; const T SC[4] = {scalar_of<T>(0),scalar_of<T>(1),scalar_of<T>(2),scalar_of<T>(3)};
        auto eval = [&](KRef q, unsigned n) { KArg a[4]; memset(a,0,sizeof a); for (int j=0;j<m;j++) { a[j].p=in[j]; a[j].s=SC[j]; a[j].d=0; } for (unsigned i=0;i<n;i++) o[i]=o1[i]=(T)-777; return call(q,o,o1,a,n); };
        auto uniform = [&](Tup const& t, T* e) { unsigned n = gp==1?1:gp; for (int j=0;j<m;j++) for (unsigned i=0;i<n;i++) in[j][i]=t.v[j]; if (!eval(pr,n)) return false; e[0]=o[0]; e[1]=o1[0]; return true; };
        vector<T> ev(tv.size()*2), ef(tf.size()*2);
        for (size_t i=0;i<tv.size();i++) if (!uniform(tv[i],&ev[2*i])) return; for (size_t i=0;i<tf.size();i++) if (!uniform(tf[i],&ef[2*i])) return;
        for (unsigned n : ns) for (size_t f=0;f<tf.size();f++) { for (int j=0;j<m;j++) for (unsigned i=0;i<n;i++) in[j][i]=tf[f].v[j];
            for (size_t v=0;v<tv.size();v++) for (unsigned p=0;p<n;p++) {
                for (int j=0;j<m;j++) in[j][p]=tv[v].v[j]; st++;
                if (!eval(r,n)) return;
                for (unsigned i=0;i<n;i++) { const T* e = i==p ? &ev[2*v] : &ef[2*f]; if (!same(o[i],e[0]) || (pan && !same(o1[i],e[1]))) {
                    string s,w; for (int j=0;j<m;j++) { s+=(j?", ":"")+hx(tv[v].v[j]); w+=(j?", ":"")+hx(tf[f].v[j]); }
                    violation(kname(r), fmt("%s n=%u: operands (%s) at position %u among (%s): element %u gives %s, the same operands alone give %s", kname(r).c_str(), n, s.c_str(), p, w.c_str(), i, hx(o[i]).c_str(), hx(e[0]).c_str())); n_states+=st; return; } }
                for (int j=0;j<m;j++) in[j][p]=tf[f].v[j];
            } }
        if (!strcmp(k.form,"simd")) {   // all ordered pairs (value, neighbour value) of a lattice x every lane, packed many vectors to a call
            vector<Tup> lv; vector<T> gl = one; const unsigned V = r.lib->t.vecsize;
            for (int e=-34;e<=14;e+= m==1 ? 1 : 2) for (int q=0;q<(m==1?(thorough?8:4):2);q++) for (int sg=0;sg<2;sg++) gl.push_back((T)std::ldexp((sg?-1:1)*(1+q/(m==1?(thorough?8.0:4.0):2.0)+1e-3),e));
            if (m==1) for (int q=1;q<(thorough?400:96);q++) { gl.push_back((T)(q/16.0+0.01)); gl.push_back((T)-(q/16.0+0.01)); }
            for (size_t i=0;i<gl.size();i++) { Tup t; for (int j=0;j<4;j++) t.v[j]=gl[(i*(1+2*j)+7*j)%gl.size()]; lv.push_back(t); }
            vector<T> el(lv.size()*2); for (size_t i=0;i<lv.size();i++) if (!uniform(lv[i],&el[2*i])) return;
            const unsigned NB = 4096; static thread_local T* big=(T*)aligned_alloc(64,sizeof(T)*(NB+64)*6); T* bo=big; T* bo1=big+NB+64; T* bi[4]; for (int j=0;j<4;j++) bi[j]=big+(j+2)*(NB+64);
            struct At { unsigned v,w; }; static thread_local vector<At> at; at.resize(NB/V); unsigned vec=0, lane=0; uint64_t pairs=0;
            auto flush = [&](unsigned p) -> bool { if (!vec) return true; while (vec*V%g) { for (int j=0;j<m;j++) for (unsigned i=0;i<V;i++) bi[j][vec*V+i]=bi[j][i]; at[vec]=at[0]; vec++; } unsigned n=vec*V; KArg a[4]; memset(a,0,sizeof a); for (int j=0;j<m;j++) { a[j].p=bi[j]; a[j].s=SC[j]; } st++; if (!call(r,bo,bo1,a,n)) return false;
                for (unsigned x=0;x<vec;x++) for (unsigned i=0;i<V;i++) { unsigned id = i==p ? at[x].v : at[x].w; if (!same(bo[x*V+i],el[2*id]) || (pan && !same(bo1[x*V+i],el[2*id+1]))) {
                    string sv,sw; for (int j=0;j<m;j++) { sv+=(j?", ":"")+hx(lv[at[x].v].v[j]); sw+=(j?", ":"")+hx(lv[at[x].w].v[j]); }
                    violation(kname(r), fmt("%s: vector with operands (%s) in lane %u and (%s) in the others: lane %u gives %s, the same operands alone give %s", kname(r).c_str(), sv.c_str(), p, sw.c_str(), i, hx(bo[x*V+i]).c_str(), hx(el[2*id]).c_str())); return false; } }
                pairs += vec; vec=0; return true; };
            for (unsigned p=0;p<V;p++) { for (unsigned v=0;v<lv.size();v++) for (unsigned w=0;w<lv.size();w++) { for (int j=0;j<m;j++) { T* q=bi[j]+vec*V; for (unsigned i=0;i<V;i++) q[i]=lv[w].v[j]; q[p]=lv[v].v[j]; } at[vec]={v,w}; vec++; if (vec==NB/V && !flush(p)) { n_states+=st; return; } } if (!flush(p)) { n_states+=st; return; } tick(); }
            st += pairs; count_extra("(value, neighbour, lane) vectors",pairs); }
        n_states += st; n_trans += st; n_traces += st; if (ii%(ks.size()/8+1)==0) sample(kname(r)+fmt(": %zu operand tuples x %zu neighbours x all positions = %lu calls",tv.size(),tf.size(),(unsigned long)st));
    });
    count_extra("kernels",ks.size());
}
int main(int argc, char** argv) {
    string prop; vector<char*> av; for (int i=0;i<argc;i++) if (!strcmp(argv[i],"--prop")) prop=argv[++i]; else av.push_back(argv[i]);
    init(av.size(),av.data());
    if (prop=="C08") { c08<float>(); c08<double>(); } else if (prop=="C09") { c09<float>(); c09<double>(); } else if (prop=="C18") { c18<float>(); c18<double>(); } else return 3;
    return finish();
}
