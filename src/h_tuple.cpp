// C01 / C06 / C17: every tuple of a finite operand lattice through every k-operand function, every call form,
// every instruction set, compared element by element with a reference model.
#include "hlib.hpp"
using namespace H;

template <class T> using Chk = bool (*)(const T* a, T y);
template <class T> struct Op { const char* op; int arity; Chk<T> chk; Chk<T> chk1; const vector<T>* lat[4]; };

template <class T> bool nan2(const T* a) { return a[0]!=a[0] || a[1]!=a[1]; }
template <class T> bool c_plus(const T* a, T y) { return same<T>(a[0]+a[1],y); }
template <class T> bool c_minus(const T* a, T y) { return same<T>(a[0]-a[1],y); }
template <class T> bool c_times(const T* a, T y) { return same<T>(a[0]*a[1],y); }
template <class T> bool c_over(const T* a, T y) { return same<T>(a[0]/a[1],y); }
template <class T> bool c_min(const T* a, T y) { return nan2(a) || y == (a[0]<a[1]?a[0]:a[1]); }
template <class T> bool c_max(const T* a, T y) { return nan2(a) || y == (a[0]>a[1]?a[0]:a[1]); }
template <class T> bool c_clip2(const T* a, T y) { if (nan2(a) || a[1] < 0) return true; T l=a[1], x=a[0]; return y == (x>l?l:x<-l?-l:x); }
template <class T> bool is01(T y, bool b) { return bits(y) == bits(b ? (T)1 : (T)0); }
template <class T> bool c_lt(const T* a, T y) { return is01(y,a[0]<a[1]); }
template <class T> bool c_le(const T* a, T y) { return is01(y,a[0]<=a[1]); }
template <class T> bool c_gt(const T* a, T y) { return is01(y,a[0]>a[1]); }
template <class T> bool c_ge(const T* a, T y) { return is01(y,a[0]>=a[1]); }
template <class T> bool c_eq(const T* a, T y) { return is01(y,a[0]==a[1]); }
template <class T> bool c_ne(const T* a, T y) { return is01(y,a[0]!=a[1]); }

template <class T> bool c_clip(const T* a, T y) { T x=a[0],l=a[1],h=a[2]; if (x!=x||l!=l||h!=h||!(l<=h)) return true; return y == (x<l?l:x>h?h:x); }
template <class T> bool c_muladd(const T* a, T y) { volatile T p = a[0]*a[1]; return same<T>(p+a[2],y) || same<T>(std::fma(a[0],a[1],a[2]),y); }
// |y - exact| <= k roundings of the magnitude `mag` (everything in the wider type)
template <class T> bool within(T y, typename Tr<T>::W e, typename Tr<T>::W mag, int k) {
    typedef typename Tr<T>::W W; if (!(std::fabs((W)y) <= std::numeric_limits<T>::max())) return false;
    if (!(mag < (W)std::numeric_limits<T>::max()/4)) return false;
    return std::fabs((W)y - e) <= mag*(W)(k*Tr<T>::eps()) + (W)(k*Tr<T>::dmin()); }
template <class T> bool c_ampmod(const T* a, T y) { T s=a[0],m=a[1],x=a[2]; volatile T p=m*x; volatile T t=(T)1+p; volatile T u=std::fma(m,x,(T)1);
    if (same<T>(s*t,y)||same<T>(s*u,y)) return true;
    typedef typename Tr<T>::W W; if ((W)std::fabs((W)m*(W)x) > (W)std::numeric_limits<T>::max()/4) return false;
    return within<T>(y,(W)s*(1+(W)m*(W)x),std::fabs((W)s)*(1+std::fabs((W)m*(W)x)),4); }
template <class T> bool c_mix(const T* a, T y) { volatile T p=a[0]*a[1], q=a[2]*a[3];
    if (same<T>(p+q,y)||same<T>(std::fma(a[0],a[1],(T)q),y)||same<T>(std::fma(a[2],a[3],(T)p),y)) return true;
    typedef typename Tr<T>::W W; W P=(W)a[0]*(W)a[1], Q=(W)a[2]*(W)a[3]; return within<T>(y,P+Q,std::fabs(P)+std::fabs(Q),4); }
template <class T> bool c_sum3(const T* a, T y) { volatile T ab=a[0]+a[1], bc=a[1]+a[2], ac=a[0]+a[2];
    if (same<T>(ab+a[2],y)||same<T>(a[0]+bc,y)||same<T>(ac+a[1],y)) return true;
    typedef typename Tr<T>::W W; return within<T>(y,(W)a[0]+a[1]+a[2],std::fabs((W)a[0])+std::fabs((W)a[1])+std::fabs((W)a[2]),3); }
template <class T> bool c_sum4(const T* a, T y) { volatile T ab=a[0]+a[1], cd=a[2]+a[3], ac=a[0]+a[2], bd=a[1]+a[3], ad=a[0]+a[3], bc=a[1]+a[2]; volatile T abc=ab+a[2], bcd=a[1]+cd;
    if (same<T>(ab+cd,y)||same<T>(abc+a[3],y)||same<T>(ac+bd,y)||same<T>(ad+bc,y)||same<T>(a[0]+bcd,y)) return true;
    typedef typename Tr<T>::W W; return within<T>(y,(W)a[0]+a[1]+a[2]+a[3],std::fabs((W)a[0])+std::fabs((W)a[1])+std::fabs((W)a[2])+std::fabs((W)a[3]),4); }
template <class T> bool c_pan0(const T* a, T y) { return same<T>(a[0]*a[1],y); }
template <class T> bool c_pan1(const T* a, T y) { return same<T>(a[0]*a[2],y); }
// power functions
template <class T> bool powcmp(T x, T e, T y) {   // x > 0 normal or x == 0
    if (x == 0) return !(e > 0) || y == 0;
    typedef typename Tr<T>::W W; W t = (W)e*std::log((W)x); W tmax = std::log((W)std::numeric_limits<T>::max()), tmin = std::log((W)std::numeric_limits<T>::min());
    if (y != y || y < 0) return false;
    if (t >= tmax - (W)1e-3*(sizeof(T)==4)) return y >= std::numeric_limits<T>::max()/(T)(sizeof(T)==4?2:1.0000001);     // saturates: huge or inf
    if (t <= tmin + (W)1e-3*(sizeof(T)==4)) return y <= std::numeric_limits<T>::min()*(T)(sizeof(T)==4?2:1.0000001);     // (nearly) zero
    W r = std::pow((W)x,(W)e); W rel = std::fabs((W)y-r)/r;
    W tol = sizeof(T)==4 ? (W)1e-6 + (W)3e-7*std::fabs(t) : (W)(8*Tr<T>::eps());
    return rel <= tol; }
template <class T> bool normal0(T x) { return x==0 || (std::fabs(x) >= std::numeric_limits<T>::min() && std::fabs(x) <= std::numeric_limits<T>::max()); }
template <class T> bool c_pow(const T* a, T y) { if (!(a[0] >= 0) || !normal0(a[0]) || !(std::fabs(a[1]) <= std::numeric_limits<T>::max())) return true; return powcmp<T>(a[0],a[1],y); }
template <class T> bool c_spow(const T* a, T y) { if (a[0]!=a[0] || !normal0(a[0]) || !(std::fabs(a[1]) <= std::numeric_limits<T>::max())) return true;
    if (a[0] < 0) return powcmp<T>(-a[0],a[1],-y); return powcmp<T>(a[0],a[1],y); }

template <class T> void run(vector<Op<T>> const& ops) {
    const unsigned BL = 512;
    struct Item { KRef r; const Op<T>* op; uint64_t outer; uint64_t blk0, blk1; };
    vector<Item> items;
    for (auto& r : kernels(Tr<T>::c)) for (auto& op : ops) if (!strcmp(op.op,r.k->op) && (int)strlen(r.k->kinds)==op.arity && !strchr(r.k->kinds,'r')) {
        uint64_t outer=1, inner=1; for (int i=0;i<op.arity;i++) (r.k->kinds[i]=='s'?outer:inner) *= op.lat[i]->size();
        uint64_t blocks = (inner+BL-1)/BL, chunk = 512;
        for (uint64_t o=0;o<outer;o++) for (uint64_t b=0;b<blocks;b+=chunk) items.push_back({r,&op,o,b,std::min(blocks,b+chunk)});
        n_states += outer*inner;
    }
    parallel_for(items.size(), [&](uint64_t ii) {
        Item const& it = items[ii]; Op<T> const& op = *it.op; const char* kinds = it.r.k->kinds;
        alignas(64) T in[4][BL]; alignas(64) T out[BL]; alignas(64) T out1[BL];
        KArg a[4]; T sc[4]; uint64_t o = it.outer; uint64_t inner = 1;
        for (int i=0;i<op.arity;i++) { a[i].p = in[i]; a[i].s = a[i].d = 0; if (kinds[i]=='s') { sc[i] = (*op.lat[i])[o%op.lat[i]->size()]; o /= op.lat[i]->size(); a[i].s = sc[i]; } else inner *= op.lat[i]->size(); }
        uint64_t tr = 0;
        for (uint64_t b=it.blk0;b<it.blk1;b++) {
            for (unsigned j=0;j<BL;j++) { uint64_t q = (b*BL+j)%inner; for (int i=op.arity-1;i>=0;i--) if (kinds[i]!='s') { in[i][j] = (*op.lat[i])[q%op.lat[i]->size()]; q /= op.lat[i]->size(); } else in[i][j] = sc[i]; out[j] = out1[j] = (T)-12345; }
            auto doit = [&]() -> bool {
                if (!it.r.k->fixed) { tr++; return call(it.r,out,out1,a,BL); }
                for (unsigned p=0;p<BL;p+=it.r.k->fixed) { KArg c[4]; for (int i=0;i<op.arity;i++) { c[i]=a[i]; c[i].p = in[i]+p; } tr++; if (!call(it.r,out+p,out1+p,c,it.r.k->fixed)) return false; }
                return true; };
            if (!doit()) break;
            bool bad = false;
            for (unsigned j=0;j<BL && !bad;j++) { T v[4]; for (int i=0;i<op.arity;i++) v[i]=in[i][j];
                for (int ch=0; ch < (op.chk1?2:1); ch++) { T y = ch?out1[j]:out[j];
                if (!(ch?op.chk1:op.chk)(v,y) && !(y==0 && modelled_isa(it.r) && (ch?op.chk1:op.chk)(v,-y))) {   // confirm by replaying the same call on fresh output
                    T y0 = y; std::fill(out,out+BL,(T)-12345); std::fill(out1,out1+BL,(T)-12345); if (!doit()) break; T y1 = ch?out1[j]:out[j];
                    if (!same(y0,y1)) violation("nondeterministic "+kname(it.r), kname(it.r)+": repeated call differs");
                    string s; for (int i=0;i<op.arity;i++) s += (i?", ":"")+hx(v[i]);
                    violation(kname(it.r)+(ch?" out1":""), fmt("%s%s(%s) = %s at element %u", kname(it.r).c_str(), ch?" second output":"", s.c_str(), hx(y).c_str(), j)); bad = true; break;
                } } }
            if (bad) break;   // this block of tuples is settled
        }
        n_trans += tr; n_traces += it.blk1-it.blk0;
        if (ii%(items.size()/6+1)==0) { string s; for (int i=0;i<op.arity;i++) s += (i?", ":"")+hx(in[i][3]); sample(fmt("%s: block of %u tuples, e.g. (%s) -> %s", kname(it.r).c_str(), BL, s.c_str(), hx(out[3]).c_str())); }
    });
}
template <class T> void all() {
    vector<T> L2 = thorough ? lattice<T>(sizeof(T)==4?1:5,9) : lattice<T>(sizeof(T)==4?2:16,5);
    vector<T> L3 = thorough ? lattice<T>(sizeof(T)==4?10:80,2) : lattice<T>(sizeof(T)==4?20:160,1);
    vector<T> L4; { vector<T> s = specials<T>(); for (T x : s) L4.push_back(x); if (!thorough) { vector<T> t; for (size_t i=0;i<L4.size();i++) if (i%2==0||i<12||i+1==L4.size()) t.push_back(L4[i]); L4=t; } }
    vector<Op<T>> ops;
    count_extra(string("lattice2_")+Tr<T>::c, L2.size()); count_extra(string("lattice3_")+Tr<T>::c, L3.size()); count_extra(string("lattice4_")+Tr<T>::c, L4.size());
#define B(n,c) ops.push_back({#n,2,c<T>,0,{&L2,&L2}});
    B(plus,c_plus) B(sum,c_plus) B(minus,c_minus) B(times,c_times) B(over,c_over) B(min,c_min) B(max,c_max) B(clip2,c_clip2)
    B(less,c_lt) B(less_equal,c_le) B(greater,c_gt) B(greater_equal,c_ge) B(equal,c_eq) B(notequal,c_ne)
    // bases over all exponents, finer around 1; exponents mixed sign
    vector<T> PB, PE; { vector<T> b = lattice<T>(thorough?1:(sizeof(T)==4?2:16),thorough?9:5,true); for (T x : b) PB.push_back(x);
        for (int i=1;i<=(thorough?4096:512);i++) PB.push_back((T)(i*(thorough?0.0009765625:0.0078125)));
        for (int i=-12;i<=12;i++) for (T q : {(T)0,(T)0.25,(T)0.5,(T)(1.0/3)}) PE.push_back((T)i+q);
        for (T x : {(T)0.0833333333,(T)1e-3,(T)-1e-3,(T)1e-7,(T)30,(T)-30,(T)50.5,(T)100,(T)-100,(T)1000,(T)-1000,(T)1e6,(T)-1e6,(T)1e20}) PE.push_back(x); PB = dedup(PB); PE = dedup(PE); }
    ops.push_back({"pow",2,c_pow<T>,0,{&PB,&PE}}); ops.push_back({"spow",2,c_spow<T>,0,{&PB,&PE}});
    ops.push_back({"clip",3,c_clip<T>,0,{&L3,&L3,&L3}}); ops.push_back({"muladd",3,c_muladd<T>,0,{&L3,&L3,&L3}});
    ops.push_back({"ampmod",3,c_ampmod<T>,0,{&L3,&L3,&L3}}); ops.push_back({"sum",3,c_sum3<T>,0,{&L3,&L3,&L3}});
    ops.push_back({"mix",4,c_mix<T>,0,{&L4,&L4,&L4,&L4}}); ops.push_back({"sum",4,c_sum4<T>,0,{&L4,&L4,&L4,&L4}});
    ops.push_back({"pan2",3,c_pan0<T>,c_pan1<T>,{&L3,&L3,&L3}});
    run<T>(ops);
}
// panning with ramped factors (C17): every length, lattice of starts and slopes, both channels independent
template <class T> void pan_ramps() {
    vector<T> st = {0,(T)1,(T)-0.5,(T)0.1,(T)1000.25}, sl = {0,(T)1,(T)-0.001,(T)0.03125,(T)(1.0/3),(T)-2.7,(T)1e-5,(T)1e-9,(T)-3e5};
    auto ks = kernels(Tr<T>::c,[](const Lib&,const Kernel& k){return !strcmp(k.op,"pan2")&&!strcmp(k.kinds,"vrr");});
    parallel_for(ks.size(),[&](uint64_t ii){ KRef r=ks[ii]; const unsigned MAXN=4096; vector<char> mem(3*(MAXN*sizeof(T)+64)); char* p=(char*)(((uintptr_t)mem.data()+63)&~63ull);
        T* in=(T*)p; T* o0=in+MAXN; T* o1=o0+MAXN; for (unsigned i=0;i<MAXN;i++) in[i]=(T)(1.0+(i%17)*0.25)*((i%3)?1:-1);
        vector<unsigned> ns; if (r.k->fixed) ns={r.k->fixed}; else if (r.k->form[1]=='c') { for (unsigned n=1;n<=70;n++) ns.push_back(n); ns.push_back(1000); } else { for (unsigned k=1;k<=10;k++) ns.push_back(k*r.lib->t.per_loop); ns.push_back(64*r.lib->t.per_loop); ns.push_back(MAXN); }
        for (unsigned n : ns) for (T a0 : st) for (T d0 : sl) for (T a1 : st) for (T d1 : sl) {
            KArg a[3]={{in,0,0},{0,(double)a0,(double)d0},{0,(double)a1,(double)d1}}; n_states++; n_trans++; n_traces++;
            if (!call(r,o0,o1,a,n)) return;
            for (unsigned i=0;i<n;i++) for (int ch=0;ch<2;ch++) { typedef typename Tr<T>::W W; W s=ch?a1:a0,d=ch?d1:d0,f=s+d*i, mag=std::fabs(s)+std::fabs(d)*i; T y=ch?o1[i]:o0[i]; W e=f*in[i];
                if (!(std::fabs((W)y-e) <= (mag*(i+4)+0)*std::fabs((W)in[i])*(W)(1.5*Tr<T>::eps())+(W)Tr<T>::dmin())) { violation("panramp "+kname(r)+(ch?" out1":" out0"), fmt("%s n=%u factors start=%s,%s slope=%s,%s element %u channel %d: got %s, expected %s", kname(r).c_str(), n, hx(a0).c_str(),hx(a1).c_str(),hx(d0).c_str(),hx(d1).c_str(),i,ch,hx(y).c_str(),hx((double)e).c_str())); goto next; } }
            next:; } });
}
int main(int argc, char** argv) { init(argc,argv); all<float>(); all<double>(); pan_ramps<float>(); pan_ramps<double>(); return finish(); }
