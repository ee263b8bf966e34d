// C02 C03 C04 C05 C07: exhaustive sweep of the argument space of every one-operand function.  For each block of
// arguments the reference model is evaluated once and every call form of every configuration is compared with it.
#include "hlib.hpp"
#include <sys/stat.h>
using namespace H;

enum Mode : uint8_t { ANY, RANGE, NANREQ, EXACT, EITHER };
template <class T> struct Ref { typename Tr<T>::W lo, hi; Mode m; };
template <class T> using RefFn = Ref<T> (*)(T);
template <class T> using W_ = typename Tr<T>::W;
template <class T> static T tmax() { return std::numeric_limits<T>::max(); }
template <class T> static T tmin() { return std::numeric_limits<T>::min(); }
template <class T> static bool fin(T x) { return std::fabs(x) <= tmax<T>(); }
static const bool F4 = true;
template <class T> constexpr bool isf() { return sizeof(T)==4; }

template <class T> Ref<T> any() { return {0,0,ANY}; }
template <class T> Ref<T> ex(T v) { return {(W_<T>)v,0,EXACT}; }
template <class T> Ref<T> num(T v) { return {(W_<T>)v,(W_<T>)v,RANGE}; }
// |y-e| <= rel*|e| + abs, tolerating overflow to infinity / largest finite when e is within rounding of the top
template <class T> Ref<T> around(W_<T> e, W_<T> rel, W_<T> abs = 0) {
    if (!(e==e)) return any<T>();
    W_<T> d = std::fabs(e)*rel + abs + (W_<T>)Tr<T>::dmin(); W_<T> lo = e-d, hi = e+d;
    const W_<T> M = tmax<T>(), I = std::numeric_limits<W_<T>>::infinity();
    if (hi > M) hi = I; if (lo < -M) lo = -I;
    if (lo > M) lo = M; if (hi < -M) hi = -M;
    return {lo,hi,RANGE}; }

// ---------------------------------------------------------------- C02
template <class T> Ref<T> r_floor(T x) { return x!=x ? Ref<T>{0,0,NANREQ} : num<T>(std::floor(x)); }
template <class T> Ref<T> r_ceil(T x)  { return x!=x ? Ref<T>{0,0,NANREQ} : num<T>(std::ceil(x)); }
template <class T> Ref<T> r_trunc(T x) { return x!=x ? Ref<T>{0,0,NANREQ} : num<T>(x<0?std::ceil(x):std::floor(x)); }
template <class T> Ref<T> r_frac(T x)  { if (x!=x) return {0,0,NANREQ}; if (!fin(x)) return any<T>(); T f = x-std::floor(x); return num<T>(f); }
template <class T> Ref<T> r_round(T x) { if (x!=x) return {0,0,NANREQ}; if (!fin(x)) return num<T>(x); T f = std::floor(x), c = std::ceil(x); if (f==c) return num<T>(f);
    W_<T> a = (W_<T>)x-f, b = (W_<T>)c-x; if (a==b) return {f,c,EITHER}; return num<T>(a<b?f:c); }
// ---------------------------------------------------------------- C03
template <class T> Ref<T> r_abs(T x) { return ex<T>(std::fabs(x)); }
template <class T> Ref<T> r_sgn(T x) { return x!=x ? any<T>() : num<T>(x>0?1:x<0?-1:0); }
template <class T> Ref<T> r_square(T x) { return ex<T>(x*x); }
template <class T> Ref<T> r_cube(T x) { if (x!=x) return {0,0,NANREQ}; if (!fin(x)) return num<T>(x); W_<T> X=x; return around<T>(X*X*X,(W_<T>)(2.0002*Tr<T>::eps())); }
template <class T> Ref<T> r_reciprocal(T x) { if (x!=x) return {0,0,NANREQ};
    if (isf<T>()) { double a=std::fabs(x); if (!(a>=0x1p-126&&a<0x1p126)) return any<T>(); return around<T>(1/(W_<T>)x,5e-7); } return ex<T>((T)1/x); }
template <class T> Ref<T> r_undenormalize(T x) { if (x!=x) return {0,0,NANREQ}; if (std::fabs(x)<tmin<T>()) return num<T>(0); return ex<T>(x); }
template <class T> Ref<T> r_signed_sqrt(T x) { if (x!=x) return {0,0,NANREQ}; if (x==0) return num<T>(0); return ex<T>(x>0?std::sqrt(x):-std::sqrt(-x)); }
template <class T> Ref<T> r_softclip(T x) { if (x!=x||!fin(x)) return any<T>(); if (std::fabs(x)<(T)0.5) return num<T>(x); W_<T> X=x; return around<T>((std::fabs(X)-0.25)/X,(W_<T>)(2.0002*Tr<T>::eps())); }
// ---------------------------------------------------------------- C04
template <class T> W_<T> rtol() { return isf<T>() ? (W_<T>)5e-7 : (W_<T>)0x1p-50; }
template <class T> Ref<T> trig(T x, W_<T> r, W_<T> absT) { if (!(std::fabs(x) <= (T)8192)) return any<T>(); if (!isf<T>()||std::fabs(x)<=(T)2) return around<T>(r,rtol<T>()); return around<T>(r,rtol<T>()*0,absT); }
template <class T> Ref<T> r_sin(T x) { return trig<T>(x,fin(x)?std::sin((W_<T>)x):0,2.5e-7); }
template <class T> Ref<T> r_cos(T x) { if (isf<T>()&&std::fabs(x)<=2&&std::fabs(x)>1.25) return around<T>(std::cos((W_<T>)x),rtol<T>()); return trig<T>(x,fin(x)?std::cos((W_<T>)x):0,2.5e-7); }
template <class T> Ref<T> r_tan(T x) { if (!(std::fabs(x) <= (T)8192)) return any<T>(); W_<T> r = std::tan((W_<T>)x); if (!isf<T>()||std::fabs(x)<=(T)1.5) return around<T>(r,rtol<T>()); return around<T>(r,5e-7,3e-7*(1+r*r)); }
template <class T> Ref<T> r_asin(T x) { if (!(std::fabs(x)<=1)) return any<T>(); return around<T>(std::asin((W_<T>)x),rtol<T>()); }
template <class T> Ref<T> r_acos(T x) { if (!(std::fabs(x)<=1)) return any<T>(); return around<T>(std::acos((W_<T>)x),rtol<T>()); }
template <class T> Ref<T> r_atan(T x) { if (!fin(x)) return any<T>(); return around<T>(std::atan((W_<T>)x),rtol<T>()); }
template <class T> Ref<T> r_tanh(T x) { if (!fin(x)) return any<T>(); return around<T>(std::tanh((W_<T>)x),rtol<T>()); }
template <class T> Ref<T> r_log(T x)   { if (!(x>=tmin<T>())||!fin(x)) return any<T>(); return around<T>(std::log((W_<T>)x),rtol<T>()); }
template <class T> Ref<T> r_log2(T x)  { if (!(x>=tmin<T>())||!fin(x)) return any<T>(); return around<T>(std::log2((W_<T>)x),rtol<T>()); }
template <class T> Ref<T> r_log10(T x) { if (!(x>=tmin<T>())||!fin(x)) return any<T>(); return around<T>(std::log10((W_<T>)x),rtol<T>()); }
template <class T> Ref<T> r_exp(T x)   { if (x!=x||!fin(x)) return any<T>(); W_<T> X=x; if (isf<T>()) { if (X>88.8||X<-87.4) return any<T>(); } W_<T> r=std::exp(X); if (r<tmin<T>()||r>tmax<T>()) return any<T>(); return around<T>(r,rtol<T>()); }
// ---------------------------------------------------------------- C07
// exponential-type result with natural exponent t; logarithm-type result  off + k*log
template <class T> Ref<T> cexp(W_<T> t, W_<T> scale, double crel = 1e-14) {   // crel: relative error of the conversion constants in the double version
    W_<T> r = scale*std::exp(t); if (!(r>=(W_<T>)tmin<T>()*4 && r<=(W_<T>)tmax<T>()/4) ) return any<T>(); if (!(std::exp(t) >= (W_<T>)tmin<T>()*4 && std::exp(t) <= (W_<T>)tmax<T>()/4)) return any<T>();
    return around<T>(r, isf<T>() ? 7e-7+3e-7*std::fabs(t) : (W_<T>)1e-14+(W_<T>)crel*std::fabs(t)); }
static const long double LN2 = 0.693147180559945309417232121458L, LN10 = 2.302585092994045684017991454684L;
template <class T> Ref<T> clog_(T x, W_<T> pre, W_<T> k, W_<T> off) { T a=std::fabs(x); if (!(a>=tmin<T>())||!fin(a)) return any<T>(); W_<T> q=(W_<T>)a*pre; if (!(q>=tmin<T>())) return any<T>(); W_<T> l=k*std::log(q);
    return isf<T>() ? around<T>(off+l,0,5e-7*(std::fabs(off)+std::fabs(l))+(off!=0?5e-7*std::fabs(k):0)) : around<T>(off+l,0,(W_<T>)2e-15*(std::fabs(off)+std::fabs(l))+(off!=0?(W_<T>)2e-11*std::fabs(k):0)); }
template <class T> Ref<T> r_midi2freq(T x)  { if (!fin(x)) return any<T>(); return cexp<T>(((W_<T>)x-69)/12*(W_<T>)LN2,440,1e-11); }
template <class T> Ref<T> r_freq2midi(T x)  { return clog_<T>(x,1/(W_<T>)440,12/(W_<T>)LN2,69); }
template <class T> Ref<T> r_midi2ratio(T x) { if (!fin(x)) return any<T>(); return cexp<T>((W_<T>)x/12*(W_<T>)LN2,1,1e-11); }
template <class T> Ref<T> r_ratio2midi(T x) { if (!(x>0)) return any<T>(); return clog_<T>(x,1,12/(W_<T>)LN2,0); }
template <class T> Ref<T> r_oct2freq(T x)   { if (!fin(x)) return any<T>(); return cexp<T>(((W_<T>)x-4.75)*(W_<T>)LN2,440); }
template <class T> Ref<T> r_freq2oct(T x)   { return clog_<T>(x,1/(W_<T>)440,1/(W_<T>)LN2,4.75); }
template <class T> Ref<T> r_amp2db(T x)     { return clog_<T>(x,1,20/(W_<T>)LN10,0); }
template <class T> Ref<T> r_db2amp(T x)     { if (!fin(x)) return any<T>(); return cexp<T>((W_<T>)x/20*(W_<T>)LN10,1); }
// ---------------------------------------------------------------- C05
template <class T> Ref<T> rng(W_<T> lo, W_<T> hi) { return {lo,hi,RANGE}; }
static const long double PI = 3.14159265358979323846264338L;
template <class T> Ref<T> s_exp(T x) { if (x!=x) return {0,0,NANREQ}; W_<T> I=std::numeric_limits<W_<T>>::infinity(); if (isf<T>()) { if (x>=(T)88) return rng<T>(0x1p126,I); if (x<=(T)-88) return rng<T>(0,0x1p-125); } else { if (x>=(T)709) return rng<T>(0x1p1020L,I); if (x<=(T)-709) return rng<T>(0,(W_<T>)0x1p-1020L); } return rng<T>(0,tmax<T>()); }
template <class T> Ref<T> s_tanh(T x) { if (x!=x) return {0,0,NANREQ}; if (x>=23) return num<T>(1); if (x<=-23) return num<T>(-1); return x>=0?rng<T>(0,1):rng<T>(-1,0); }
template <class T> Ref<T> s_atan(T x) { if (x!=x) return {0,0,NANREQ}; W_<T> h=(W_<T>)(PI/2)*(1+(W_<T>)(isf<T>()?1e-6:1e-15)); return x>=0?rng<T>(0,h):rng<T>(-h,0); }
template <class T> Ref<T> s_asin(T x) { if (x!=x) return {0,0,NANREQ}; if (!(std::fabs(x)<=1)) return any<T>(); return s_atan<T>(x); }
template <class T> Ref<T> s_acos(T x) { if (x!=x) return {0,0,NANREQ}; if (!(std::fabs(x)<=1)) return any<T>(); return rng<T>(0,(W_<T>)PI*(1+(W_<T>)(isf<T>()?1e-6:1e-15))); }
template <class T> Ref<T> s_sin(T x) { if (x!=x) return {0,0,NANREQ}; if (!(std::fabs(x)<=8192)) return any<T>(); W_<T> h=1+(W_<T>)(isf<T>()?1e-6:1e-15); return rng<T>(-h,h); }
template <class T> Ref<T> s_none(T x) { return any<T>(); }

template <class T> struct Op { const char* op; const char* prop; RefFn<T> ref; int sym; };   // sym: 0 none, 1 even, -1 odd
static string prop;
template <class T> vector<Op<T>> ops() {
    vector<Op<T>> v;
#define O(p,n) v.push_back({#n,p,r_##n<T>,0});
    O("C02",floor) O("C02",ceil) O("C02",trunc) O("C02",round) O("C02",frac)
    O("C03",abs) O("C03",sgn) O("C03",square) O("C03",cube) O("C03",reciprocal) O("C03",undenormalize) O("C03",signed_sqrt) O("C03",softclip)
    O("C04",sin) O("C04",cos) O("C04",tan) O("C04",asin) O("C04",acos) O("C04",atan) O("C04",tanh) O("C04",log) O("C04",log2) O("C04",log10) O("C04",exp)
    O("C07",midi2freq) O("C07",freq2midi) O("C07",midi2ratio) O("C07",ratio2midi) O("C07",oct2freq) O("C07",freq2oct) O("C07",amp2db) O("C07",db2amp)
#define S(n,f,s) v.push_back({#n,"C05",f<T>,s});
    S(sin,s_sin,-1) S(cos,s_sin,1) S(tan,s_none,-1) S(asin,s_asin,-2) S(acos,s_acos,0) S(atan,s_atan,-1) S(tanh,s_tanh,-1) S(exp,s_exp,0)
    S(abs,s_none,1) S(square,s_none,1) S(signed_sqrt,s_none,-1) S(softclip,s_none,-1)
    return v;
}
static const unsigned BL = 4096;
struct Seg { uint64_t start, stride, count; bool focus; };
template <class T> vector<T>& focus_list() { static vector<T> v; return v; }
template <class T> vector<Seg> segments() {
    vector<Seg> s; typedef typename Tr<T>::U U; vector<U> fs;
    auto foc = [&](double c, uint64_t w) { T x=(T)c; U b=bits(std::fabs(x)); U sign = (U)1<<(sizeof(T)*8-1); U lo = b>w?b-w:0; for (uint64_t i=0;i<=2*w;i++) { fs.push_back(lo+i); fs.push_back(sign|(lo+i)); } };
    uint64_t w = isf<T>() ? 512 : 64;
    foc(0,w); foc((double)std::numeric_limits<T>::infinity(),w); foc(tmin<T>(),w); for (int e=-30;e<=(isf<T>()?126:140);e++) foc(std::ldexp(1.0,e),e==23||e==24||e==31||e==52||e==53||e==63?4*w:w);
    for (int i=1;i<=128*8;i++) foc(i/8.0,i<=256?w:w/8);
    for (int k=1;k<=(isf<T>()?10432:2000);k++) foc(k*(double)(PI/4),k<=64?w:w/16);
    for (double t : {0.41421356237309503,2.414213562373095,0.7071067811865476,1.0e-4,88.0,88.3762626647949,88.722839,87.33654,9.0,0.625,23.0,17.3287,22.0,69.0,440.0,4.75,709.78,745.13,708.4,1e-3,0.1,20.,60.,8192.,6.02059991,0.0022727272,1.0/12,0.0833333,261.6255,0.2,0.3,0.6,0.7,0.9}) foc(t,2*w);
    std::sort(fs.begin(),fs.end()); fs.erase(std::unique(fs.begin(),fs.end()),fs.end()); auto& fl=focus_list<T>(); for (U u : fs) fl.push_back(Tr<T>::from(u)); s.push_back({0,1,fl.size(),true}); count_extra(isf<T>()?"focus_floats":"focus_doubles",fl.size());
    if (isf<T>()) {
        if (thorough) { s.push_back({0,1,1ull<<32,false}); }
        else { // zones of exponents with their own stride; both signs
            auto zone=[&](int e0,int e1,uint64_t stride,uint64_t off){ for (uint64_t sg=0;sg<2;sg++) s.push_back({(sg<<31)+((uint64_t)(e0+127)<<23)+off,stride,((uint64_t)(e1-e0+1)<<23)/stride,false}); };
            if (prop=="C02") { zone(-127,-25,64,0); zone(-24,24,1,0); zone(25,128,64,0); zone(25,128,4096,4095); }
            else if (prop=="C03") { zone(-127,128,8,0); zone(-127,128,1024,1023); }
            else { zone(-127,-25,128,0); zone(-24,23,8,0); zone(-24,23,512,511); zone(24,128,128,0); zone(-127,128,2048,2047); } } }
    else { int tops = thorough?11:7; uint64_t n = 1ull<<(12+tops); for (uint64_t tail : {0ull,1ull,(1ull<<(52-tops))-1,0x2545F4914F6CDull&((1ull<<(52-tops))-1)}) s.push_back({tail,1ull<<(52-tops),n,false});
        for (int sg=0;sg<2;sg++) for (int e=-12;e<=13;e++) s.push_back({((uint64_t)sg<<63)|((uint64_t)(1023+e)<<52)|0x123457ull, 1ull<<(thorough?32:36), 1ull<<(thorough?20:16), false}); }
    return s;
}
template <class T> static string fmtx(T x) { return fmt("%.9g[bits %lx]",(double)x,(unsigned long)bits(x)); }
template <class T> bool okv(Ref<T> const& r, T y) {
    switch (r.m) { case ANY: return true; case NANREQ: return y!=y; case RANGE: return (W_<T>)y>=r.lo && (W_<T>)y<=r.hi; case EITHER: return (W_<T>)y==r.lo || (W_<T>)y==r.hi; case EXACT: return same<T>(y,(T)r.lo) || (bits(y)==bits((T)r.lo)); }
    return false; }
static bool measure = false;

template <class T> void sweep() {
    typedef typename Tr<T>::U U;
    vector<Op<T>> os; for (auto& o : ops<T>()) if (prop==o.prop && (only.empty()||only==o.op)) os.push_back(o);
    auto segs = segments<T>();
    struct It { const Seg* s; uint64_t off; uint64_t idx; }; vector<It> items; 
    // a work item = 16 consecutive blocks; short focus segments are packed as they are
    const uint64_t PER = 16*BL; for (auto& s : segs) { uint64_t k=0; for (uint64_t o=0;o<s.count;o+=PER) items.push_back({&s,o,k++}); }
    struct OpK { const Op<T>* o; vector<KRef> simd, other; }; vector<OpK> oks;
    for (auto& o : os) { OpK k; k.o=&o; for (auto& r : kernels(Tr<T>::c,[&](const Lib&,const Kernel& k){return !strcmp(k.op,o.op);})) (!strcmp(r.k->form,"simd")?k.simd:k.other).push_back(r);
        if (!k.simd.empty()||!k.other.empty()) oks.push_back(k); }
    vector<double> wst(oks.size()*64*2,0); std::mutex wm;
    parallel_for(items.size(),[&](uint64_t ii){
        It const& it=items[ii]; alignas(64) static thread_local T in[BL], neg[BL], out[BL], out2[BL]; static thread_local Ref<T> ref[BL]; alignas(64) static thread_local T blo[BL], bhi[BL]; alignas(64) static thread_local U hard[BL];
        uint64_t st=0,tr=0,tc=0;
        for (uint64_t b0=it.off; b0<it.off+PER && b0<it.s->count; b0+=BL) {
            unsigned n = (unsigned)std::min<uint64_t>(BL,it.s->count-b0);
            for (unsigned i=0;i<BL;i++) { unsigned j = i<n?i:n-1; in[i]= it.s->focus ? focus_list<T>()[b0+j] : Tr<T>::from(it.s->start+(b0+j)*it.s->stride); }
            uint64_t gb = b0/BL + it.idx; bool otherforms = it.s->focus || (b0/BL)%16==it.idx%16;
            if (!isf<T>()) otherforms = true;
            for (size_t oi=0;oi<oks.size();oi++) { auto& ok=oks[oi]; Op<T> const& o=*ok.o; bool sym=o.sym!=0;
                for (unsigned i=0;i<BL;i++) { Ref<T> q=ref[i]=o.ref(in[i]); T lo=(T)q.lo, hi=(T)q.hi;   // bounds as the nearest T inside the interval
                    if (q.m==RANGE) { if ((W_<T>)lo<q.lo) lo=std::nextafter(lo,std::numeric_limits<T>::infinity()); if ((W_<T>)hi>q.hi) hi=std::nextafter(hi,-std::numeric_limits<T>::infinity()); }
                    else if (q.m==ANY) { lo=-std::numeric_limits<T>::infinity(); hi=-lo; } else { lo=1; hi=0; }
                    blo[i]=lo; bhi[i]=hi; hard[i]=q.m==ANY?0:~(U)0; }
                if (!sym) { U h=0; for (unsigned i=0;i<BL;i++) h|=hard[i]; if (!h) continue; }   // block entirely outside the specified domain
                if (sym) for (unsigned i=0;i<BL;i++) neg[i]=-in[i];
                for (int grp=0;grp<(otherforms?2:1);grp++) for (auto& r : grp?ok.other:ok.simd) {
                    auto run=[&](T* src,T* dst)->bool { KArg a[1]={{src,0,0}}; if (!r.k->fixed) { tr++; return call(r,dst,0,a,BL); }
                        for (unsigned p=0;p<BL;p+=r.k->fixed) { KArg c[1]={{src+p,0,0}}; tr++; if (!call(r,dst+p,0,c,r.k->fixed)) return false; } return true; };
                    if (!run(in,out)) continue; 
                    if (sym && !run(neg,out2)) continue;
                    tc++; st+=n;
                    U bad=0;
                    for (unsigned i=0;i<BL;i++) { T y=out[i]; U ok = -(U)((y>=blo[i]) & (y<=bhi[i])); bad |= ~ok & hard[i]; }
                    if (measure) for (unsigned i=0;i<BL;i++) if (ref[i].m==RANGE) { W_<T> m=(ref[i].lo+ref[i].hi)/2,h=(ref[i].hi-ref[i].lo)/2; double e=h>0?(double)(std::fabs((W_<T>)out[i]-m)/h):0; if (!(e<=1e300)) e=std::isfinite((double)h)?1e300:0; double& ww=wst[(oi*64+(r.lib-&libs[0]))*2+grp]; if (e>ww) { std::lock_guard<std::mutex> g(wm); if (e>ww) ww=e; } }
                    if (sym) for (unsigned i=0;i<BL;i++) { U s=(U)1<<(sizeof(T)*8-1); U e = o.sym<0 ? bits(out[i])^s : bits(out[i]); bad |= bits(out2[i])^e; }
                    if (!bad) continue;
                    for (unsigned i=0;i<n;i++) {
                        bool v1 = okv<T>(ref[i],out[i]);
                        bool v2 = true; if (sym && in[i]==in[i] && (o.sym!=-2 || std::fabs(in[i])<=1)) { T e = o.sym<0?-out[i]:out[i]; v2 = numeq<T>(out2[i],e); }
                        if (v1&&v2) continue;
                        T y=out[i], z=out2[i]; std::fill(out,out+BL,(T)-777); std::fill(out2,out2+BL,(T)-777); if (!run(in,out)) break; if (sym&&!run(neg,out2)) break;   // replay
                        if (!same(out[i],y)) { violation("nondeterministic "+kname(r),kname(r)+": repeated call differs"); break; }
                        if (!v1) violation(kname(r),fmt("%s(%s) = %s, expected %s[%.12Lg, %.12Lg]",kname(r).c_str(),fmtx(in[i]).c_str(),fmtx(y).c_str(),ref[i].m==NANREQ?"NaN ":ref[i].m==EITHER?"one of ":ref[i].m==EXACT?"exactly ":"",(long double)ref[i].lo,(long double)ref[i].hi));
                        else violation("symmetry "+kname(r),fmt("%s: f(%s) = %s but f(%s) = %s (function is %s)",kname(r).c_str(),fmtx(in[i]).c_str(),fmtx(y).c_str(),fmtx(neg[i]).c_str(),fmtx(z).c_str(),o.sym<0?"odd":"even"));
                        break;
                    }
                    if (ii%(items.size()/8+1)==1&&b0==it.off&&&r==&ok.simd[0]) sample(fmt("%s: block of %u arguments from bits 0x%lx stride %lu, e.g. f(%.9g)=%.9g",kname(r).c_str(),n,(unsigned long)(it.s->start+b0*it.s->stride),(unsigned long)it.s->stride,(double)in[0],(double)out[0]),24);
                }
                tick();
            }
        }
        n_states+=st; n_trans+=tr; n_traces+=tc;
    });
    if (measure) for (size_t oi=0;oi<oks.size();oi++) for (size_t l=0;l<libs.size();l++) for (int g=0;g<2;g++) { double e=wst[(oi*64+l)*2+g]; if (e>0) printf("%-14s %-6s %c %s %.4g\n",oks[oi].o->op,libs[l].cfg.c_str(),libs[l].type,g?"other":"simd",e); }
    if (samples.empty()&&!oks.empty()) sample("none");
}
// C07 round trips: g(f(x)) is x again
template <class T> void roundtrips() {
    struct RT { const char *f,*g; int kind; }; static const RT rts[]={{"midi2freq","freq2midi",0},{"freq2midi","midi2freq",1},{"midi2ratio","ratio2midi",2},{"ratio2midi","midi2ratio",3},{"oct2freq","freq2oct",4},{"freq2oct","oct2freq",5},{"amp2db","db2amp",6},{"db2amp","amp2db",7}};
    for (auto& rt : rts) { vector<std::pair<KRef,KRef>> ps; auto fs=kernels(Tr<T>::c,[&](const Lib&,const Kernel& k){return !strcmp(k.op,rt.f);}); auto gs=kernels(Tr<T>::c,[&](const Lib&,const Kernel& k){return !strcmp(k.op,rt.g);});
        for (auto& f:fs) for (auto& g:gs) if (f.lib==g.lib&&!f.k->fixed&&!g.k->fixed) ps.push_back({f,g});
        // arguments: note numbers / octaves / decibels on a fine grid, frequencies and ratios on a mantissa grid
        vector<T> xs; bool lin = rt.kind==0||rt.kind==2||rt.kind==4||rt.kind==7; int N=thorough?1<<20:1<<16;
        if (lin) { double a = rt.kind==4?-20:-200, b = rt.kind==4?20:250; for (int i=0;i<=N;i++) xs.push_back((T)(a+(b-a)*i/N)); }
        else for (int e=-20;e<=20;e++) for (int i=0;i<N/64;i++) xs.push_back((T)std::ldexp(1+i*64.0/N,e));
        while (xs.size()%64) xs.push_back(xs.back());
        parallel_for(ps.size(),[&](uint64_t pi){ auto& p=ps[pi]; size_t n=xs.size(); vector<char> mem(3*n*sizeof(T)+256); T* in=(T*)(((uintptr_t)mem.data()+63)&~63ull); T* mid=in+n; T* out=mid+n; memcpy(in,xs.data(),n*sizeof(T));
            KArg a[1]={{in,0,0}}, b[1]={{mid,0,0}}; if (!call(p.first,mid,0,a,n)||!call(p.second,out,0,b,n)) return; n_trans+=2; n_traces++; n_states+=n; const double u = isf<T>()?2.5e-7:rt.kind>=6?2e-15:8e-12;
            for (size_t i=0;i<n;i++) { double x=in[i], y=out[i], tol; double t;   // t: |natural exponent| involved
                switch (rt.kind) { case 0: t=std::fabs((x-69)/12*0.7); tol=u*(17.4*(2+t)+69+25*t); break; case 2: t=std::fabs(x/12*0.7); tol=u*(17.4*(2+t)+25*t+1e-6); break; case 4: t=std::fabs((x-4.75)*0.7); tol=u*(1.5*(2+t)+5+2*t); break;
                    case 7: t=std::fabs(x/20*2.31); tol=u*(8.7*(2+t)+10*t); break;
                    case 1: t=std::fabs(std::log(x/440)); tol=x*u*(4+69*0.06+4*t); break; case 5: t=std::fabs(std::log(x/440)); tol=x*u*(4+4.75*0.7+4*t); break; default: t=std::fabs(std::log(x)); tol=x*u*(4+4*t); }
                if (!(std::fabs(y-x)<=tol)) { violation(fmt("roundtrip %s/%s",kname(p.first).c_str(),p.second.k->form),fmt("%s then %s: %.10g -> %.10g -> %.10g (tolerance %.3g)",kname(p.first).c_str(),kname(p.second).c_str(),x,(double)mid[i],y,tol)); break; }
                if (measure) note_worst(string("rt ")+rt.f+(isf<T>()?" f":" d"),std::fabs(y-x)/tol); }
        });
    }
}
int main(int argc, char** argv) {
    vector<char*> av; for (int i=0;i<argc;i++) { if (!strcmp(argv[i],"--prop")) prop=argv[++i]; else if (!strcmp(argv[i],"--measure")) measure=true; else av.push_back(argv[i]); }
    init((int)av.size(),av.data());
    sweep<float>(); sweep<double>();
    if (prop=="C07") { roundtrips<float>(); roundtrips<double>(); if (measure) for (auto& w : worst) printf("%s %.3g\n",w.first.c_str(),w.second); }
    fflush(stdout); return finish();
}
