// C24: every call of the enumerated space is repeated under flush-to-zero, denormals-are-zero and both; wherever no denormal
// takes part the results must be bit for bit those of the default mode.  Copies stay bit-exact, undenormalize stays exact.
#include "shape.hpp"
#include <xmmintrin.h>
using namespace H;
static const unsigned MODES[] = {0x8000,0x0040,0x8040}; static const char* MN[] = {"flush-to-zero","denormals-are-zero","flush-to-zero + denormals-are-zero"};
static const unsigned CAP = 15360;                         // a multiple of every loop block
template <class T> vector<T> vals(int emax, int estep, int mpat, bool sp) {
    const int MB=Tr<T>::MB; const uint64_t M=(1ull<<MB)-1; const uint64_t pat[]={0,M/3,M,1,1ull<<(MB-1),(M/7)*3,M-1,M/5}; int bias=(1<<(Tr<T>::EB-1))-1; vector<T> v; typedef std::numeric_limits<T> L;
    if (sp) v={0,-(T)0.0,L::infinity(),-L::infinity(),L::quiet_NaN()}; else v={0};
    for (int e=-emax;e<=emax;e+=estep) for (int p=0;p<mpat;p++) for (int s=0;s<2;s++) v.push_back(Tr<T>::from(((uint64_t)s<<(MB+Tr<T>::EB))|((uint64_t)(bias+e)<<MB)|pat[p]));
    return v; }
static bool bitcopy(const Kernel& k) { return !strncmp(k.op,"copyvec",7); }
static bool undenorm(const Kernel& k) { return !strcmp(k.op,"undenormalize"); }
template <class T> bool denorm(T x) { return x!=0 && std::fabs(x)<(T)0x1p20*std::numeric_limits<T>::min(); }      // intermediate results (2^x before the factor 440) may be denormal
template <class T> struct Job { static void run(KRef const& r) {
    const Kernel& k=*r.k; int ni=nin(k); typedef typename Tr<T>::U U;
    int nb=0; for (int j=0;j<ni;j++) nb+=is_buf(k.kinds[j]);
    vector<T> vb = nb<=1 ? vals<T>(20,1,8,true) : nb==2 ? vals<T>(20,thorough?2:4,thorough?4:3,true) : nb==3 ? vals<T>(12,6,thorough?4:2,true) : vals<T>(6,6,thorough?3:1,true);
    if (bitcopy(k)||undenorm(k)) { vb=lattice<T>(1,13); for (U u : {(U)1,(U)2,(U)3,(U)((1ull<<Tr<T>::MB)-1)}) for (int s=0;s<2;s++) vb.push_back(Tr<T>::from((uint64_t)u|((uint64_t)s<<(Tr<T>::MB+Tr<T>::EB)))); vb.push_back(Tr<T>::from((((uint64_t)((1<<Tr<T>::EB)-1))<<Tr<T>::MB)|1)); }
    vector<T> vs = vals<T>(12,6,1,false), sl={(T)0.125,(T)-0.25};
    // buffers: all tuples of vb (padded by repetition to full loop blocks)
    uint64_t tot=1; for (int j=0;j<nb;j++) tot*=vb.size(); bool red=is_red(k); unsigned gr=grain(r);
    uint64_t combos=1; vector<int> sc; for (int j=0;j<ni;j++) if (!is_buf(k.kinds[j])) { sc.push_back(j); combos*=vs.size()*((k.kinds[j]|32)=='r'?sl.size():1); }
    unsigned per = k.fixed?k.fixed:CAP; if (red && !k.fixed) per=960; (void)gr;
    if (!nb) tot=per; if (sc.size()>1 || has_ramp(k)) tot=std::min<uint64_t>(tot,k.fixed?k.fixed*8:1920); if (!k.fixed && tot<per) per=std::max<unsigned>(960,(unsigned)((tot+959)/960*960)); if (per>CAP) per=CAP;
    T* m=(T*)aligned_alloc(64,sizeof(T)*CAP*9); T *in[4]; for (int j=0;j<4;j++) in[j]=m+j*CAP; T *o=m+4*CAP,*o1=o+CAP,*ref=o1+CAP,*ref1=ref+CAP,*ini=ref1+CAP; uint64_t st=0; bool stop=false;
    for (unsigned i=0;i<CAP;i++) ini[i]=vb[(i*7+3)%vb.size()]; if (bitcopy(k)) for (unsigned i=0;i<CAP;i++) ini[i]=(T)-777;
    for (uint64_t c=0;c<combos&&!stop;c++) { KArg a[4]; memset(a,0,sizeof a); uint64_t q=c; for (int j : sc) { a[j].s=vs[q%vs.size()]; q/=vs.size(); if ((k.kinds[j]|32)=='r') { a[j].d=sl[q%sl.size()]; q/=sl.size(); } } for (int j=0;j<4;j++) a[j].p=in[j];
        for (uint64_t base=0;base<tot&&!stop;base+=per) {
            for (unsigned i=0;i<per;i++) { uint64_t t=(base+i)%tot; for (int j=0;j<ni;j++) if (is_buf(k.kinds[j])) { in[j][i]=vb[t%vb.size()]; t/=vb.size(); } }
            unsigned on=red?3:per; for (unsigned i=0;i<on;i++) { T x=inout(k)?ini[(base+i)%CAP]:(T)-777; if (red&&inout(k)) x=(T)0.75; o[i]=ref[i]=x; o1[i]=ref1[i]=(T)-777; }
            if (!call(r,ref,ref1,a,per)) { stop=true; break; }
            for (int md=0;md<3&&!stop;md++) {
                for (unsigned i=0;i<on;i++) { T x=inout(k)?ini[(base+i)%CAP]:(T)-777; if (red&&inout(k)) x=(T)0.75; o[i]=x; o1[i]=(T)-777; }
                unsigned sv=_mm_getcsr(); _mm_setcsr((sv&~0x8040u)|MODES[md]); bool ok=call(r,o,o1,a,per); _mm_setcsr(sv); st+=on; if (!ok) { stop=true; break; }
                for (int w=0;w<(is_pan(k)?2:1)&&!stop;w++) for (unsigned i=0;i<on;i++) { T y=w?o1[i]:o[i], z=w?ref1[i]:ref[i]; bool good;
                    if (bitcopy(k)) good = bits(y)==bits(in[0][i]); else if (undenorm(k)) good = std::fabs(in[0][i])<std::numeric_limits<T>::min() ? y==0 : same(y,in[0][i]);
                    else good = same(y,z) || (denorm(z) && std::fabs(y)<(T)0x1p21*std::numeric_limits<T>::min());
                    if (!good) { string arg; for (int j=0;j<ni;j++) arg+=fmt("%s%s",j?", ":"",is_buf(k.kinds[j])?hx(red?in[j][0]:in[j][i]).c_str():(hx(a[j].s)+(a[j].d?"+i*"+hx(a[j].d):"")).c_str());
                        violation("mode "+kname(r), fmt("%s with %s enabled: output %d element %u for operands (%s) is %s, in the default mode %s",kname(r).c_str(),MN[md],w,i,arg.c_str(),hx(y).c_str(),hx(z).c_str())); stop=true; break; } } } } }
    free(m); n_states+=st; n_trans+=st*4/3; n_traces+=st; } };
int main(int argc, char** argv) {
    init(argc,argv); vector<KRef> all; for (char ty : {'f','d'}) for (auto& r : kernels(ty)) all.push_back(r);
    // self-test: the modes take effect in the calling thread
    { volatile float d=std::numeric_limits<float>::denorm_min(); unsigned sv=_mm_getcsr(); _mm_setcsr(sv|0x40); volatile float z=d*3.0f; bool daz=z==0; _mm_setcsr(sv|0x8000); volatile float t=std::numeric_limits<float>::min(); volatile float h=t*0.5f; _mm_setcsr(sv); if (!daz||h!=0) { fprintf(stderr,"mode self-test failed\n"); _exit(3); } }
    parallel_for(all.size(),[&](uint64_t i) { if (all[i].lib->type=='f') Job<float>::run(all[i]); else Job<double>::run(all[i]); if (i%(all.size()/8+1)==0) sample(kname(all[i])+": same bits in all four modes"); });
    count_extra("kernels",all.size()); count_extra("modes",3);
    return finish();
}
