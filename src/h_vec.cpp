// C13 (vector operators, masks, select, lane reductions) and C20 (integer companion, SSE helpers):
// all pairs/triples of a value lattice, every tuple in every lane
#include "hlib.hpp"
using namespace H;
template <class T> struct Env { const T* x[3]; unsigned j, blk, S; };     // operands, element, first element of its vector, lanes
template <class T> using Chk = bool (*)(Env<T> const&, T y);
#define C(nm,body) template <class T> bool nm(Env<T> const& e, T y) { T a=e.x[0][e.j], b=e.x[1]?e.x[1][e.j]:(T)0, c=e.x[2]?e.x[2][e.j]:(T)0; (void)a; (void)b; (void)c; typedef typename Tr<T>::U U; (void)sizeof(U); body }
template <class T> bool isnan_(T x) { return x!=x; }
template <class T> T allones() { typename Tr<T>::U u = ~(typename Tr<T>::U)0; return Tr<T>::from(u); }
template <class T> bool maskok(T y, bool m) { return bits(y) == (m ? ~(typename Tr<T>::U)0 : (typename Tr<T>::U)0); }
template <class T> bool one0(T y, bool m) { return bits(y) == bits(m ? (T)1 : (T)0); }
C(k_add,return same<T>(a+b,y);) C(k_sub,return same<T>(a-b,y);) C(k_mul,return same<T>(a*b,y);) C(k_div,return same<T>(a/b,y);)
C(k_max,return isnan_(a)||isnan_(b)||y==(a>b?a:b);) C(k_min,return isnan_(a)||isnan_(b)||y==(a<b?a:b);)
C(k_lt,return one0<T>(y,a<b);) C(k_le,return one0<T>(y,a<=b);) C(k_gt,return one0<T>(y,a>b);) C(k_ge,return one0<T>(y,a>=b);) C(k_eq,return one0<T>(y,a==b);) C(k_ne,return one0<T>(y,a!=b);)
C(k_mlt,return maskok<T>(y,a<b);) C(k_mle,return maskok<T>(y,a<=b);) C(k_mgt,return maskok<T>(y,a>b);) C(k_mge,return maskok<T>(y,a>=b);) C(k_meq,return maskok<T>(y,a==b);) C(k_mneq,return maskok<T>(y,a!=b);)
C(k_and,return bits(y)==(bits(a)&bits(b));) C(k_or,return bits(y)==(bits(a)|bits(b));) C(k_xor,return bits(y)==(bits(a)^bits(b));) C(k_andnot,return bits(y)==(~bits(a)&bits(b));)
#define SB T s=e.x[1][e.blk];
#define SA T s=e.x[0][e.blk];
C(k_adds,SB return same<T>(a+s,y);) C(k_subs,SB return same<T>(a-s,y);) C(k_muls,SB return same<T>(a*s,y);) C(k_divs,SB return same<T>(a/s,y);)
C(k_sadd,SA return same<T>(s+b,y);) C(k_ssub,SA return same<T>(s-b,y);) C(k_smul,SA return same<T>(s*b,y);) C(k_sdiv,SA return same<T>(s/b,y);)
C(k_neg,return isnan_(a)?isnan_(y):bits(y)==bits((T)-a);) C(k_abs,return isnan_(a)?isnan_(y):bits(y)==bits((T)std::fabs(a));) C(k_sign,return isnan_(a)||y==(T)((a>0)-(a<0));) C(k_square,return same<T>(a*a,y);) C(k_cube,volatile T q=a*a; return same<T>(q*a,y);)
C(k_sqrt,return numeq<T>(std::sqrt(a),y);) C(k_ssqrt,return isnan_(a)||y==(a<0?-std::sqrt(-a):std::sqrt(a));)
C(k_round,if (isnan_(a)) return isnan_(y); if (std::isinf(a)) return y==a; typedef typename Tr<T>::W W; W d=std::fabs((W)y-(W)a); return (T)std::floor(y)==y && d<=(W)0.5;)
C(k_floor,return numeq<T>(std::floor(a),y);) C(k_ceil,return numeq<T>(std::ceil(a),y);) C(k_trunc,return numeq<T>(std::trunc(a),y);) C(k_frac,return std::isinf(a)||numeq<T>(a-std::floor(a),y);)
C(k_und,return std::fabs(a)<std::numeric_limits<T>::min()?y==0:same<T>(a,y);)
C(k_recip,typedef typename Tr<T>::W W; W m=std::fabs((W)a); if (isnan_(a)||!(m>=(W)Tr<T>::nmin())||!(m<(W)1/(W)Tr<T>::nmin()/2)) return true; return std::fabs((W)y*(W)a-1) <= (sizeof(T)==4?(W)5e-7:(W)(2.01*Tr<T>::eps()));)
C(k_frecip,typedef typename Tr<T>::W W; W m=std::fabs((W)a); if (isnan_(a)||!(m>=(W)Tr<T>::nmin()*4)||!(m<(W)1/(W)Tr<T>::nmin()/4)) return true; return std::fabs((W)y*(W)a-1) <= (W)4.5e-4;)
C(k_self,return same<T>(a+a,y);)
C(k_madd,volatile T p=a*b; return same<T>(p+c,y)||same<T>(std::fma(a,b,c),y);)
C(k_sel,T w=c<0?b:a; return isnan_(w)?isnan_(y):bits(y)==bits(w);)
template <class T> bool lanesnan(Env<T> const& e) { for (unsigned i=0;i<e.S;i++) if (isnan_(e.x[0][e.blk+i])) return true; return false; }
C(k_hmin,if (lanesnan(e)) return true; T m=e.x[0][e.blk]; for (unsigned i=1;i<e.S;i++) m=std::min(m,e.x[0][e.blk+i]); return y==m;)
C(k_hmax,if (lanesnan(e)) return true; T m=e.x[0][e.blk]; for (unsigned i=1;i<e.S;i++) m=std::max(m,e.x[0][e.blk+i]); return y==m;)
C(k_hsum,if (lanesnan(e)) return isnan_(y); typedef typename Tr<T>::W W; W s=0; W m=0; bool pi=false; bool ni=false; for (unsigned i=0;i<e.S;i++) { T v=e.x[0][e.blk+i]; if (std::isinf(v)) (v>0?pi:ni)=true; else { s+=v; m+=std::fabs((W)v); } } if (pi&&ni) return isnan_(y); if (pi||ni) return (T)y==(pi?1:-1)*std::numeric_limits<T>::infinity() || m > (W)std::numeric_limits<T>::max()/4; if (m>(W)std::numeric_limits<T>::max()/4) return true; return std::fabs((W)y-s) <= m*(W)(e.S*Tr<T>::eps())*(W)1.01+(W)Tr<T>::dmin();)
// integer companion (float only, lanes are 32-bit integers)
#define IC(nm,body) template <class T> bool nm(Env<T> const& e, T y_) { if (sizeof(T)!=4) return true; int32_t a,b=0,y,s=0,s0=0; memcpy(&a,&e.x[0][e.j],4); if (e.x[1]) { memcpy(&b,&e.x[1][e.j],4); memcpy(&s,&e.x[1][e.blk],4); } memcpy(&y,&y_,4); uint32_t ua=a,ub=b,uy=y; (void)s0; (void)ub; (void)uy; (void)s; body }
IC(i_add,return uy==ua+ub;) IC(i_sub,return uy==ua-ub;) IC(i_and,return uy==(ua&ub);) IC(i_andnot,return uy==(~ua&ub);) IC(i_lt,return y==(a<b?-1:0);) IC(i_gt,return y==(a>b?-1:0);) IC(i_eq,return y==(a==b?-1:0);) IC(i_set1,return y==s;)
IC(i_sll,return uy==ua<<(s&31);) IC(i_srl,return uy==ua>>(s&31);) IC(i_2f,return y_==(T)(float)a;) IC(i_cast,return ua==uy;)
IC(f_2i,float f; memcpy(&f,&a,4); if (!(f>=-2147483648.f && f<2147483648.f)) return true; return y==(int32_t)f;)
// SSE helpers
C(u_sign,return bits(y)==(U)0x80000000u;) C(u_abs,return bits(y)==(U)0x7fffffffu;) C(u_one,return y==1;) C(u_05,return y==(T)0.5;) C(u_025,return y==(T)0.25;)
C(c_zero,return bits(y)==0;) C(c_sgn,return bits(y)==(U)((U)1<<(sizeof(U)*8-1));) C(c_abs,return bits(y)==(U)~((U)1<<(sizeof(U)*8-1));) C(c_ones,return bits(y)==(U)~(U)0;)
C(u_e0,T w=e.x[0][e.j&~3u]; return isnan_(w)?isnan_(y):bits(y)==bits(w);) C(u_e3,T w=e.x[0][e.j|3u]; return isnan_(w)?isnan_(y):bits(y)==bits(w);)
C(u_hmin,unsigned q=e.j&~3u; T m=e.x[0][q]; for (unsigned i=0;i<4;i++) { T v=e.x[0][q+i]; if (isnan_(v)) return true; m=std::min(m,v); } return y==m;) C(u_hmax,unsigned q=e.j&~3u; T m=e.x[0][q]; for (unsigned i=0;i<4;i++) { T v=e.x[0][q+i]; if (isnan_(v)) return true; m=std::max(m,v); } return y==m;)
// NEON and AltiVec (C25): estimated division, reciprocal and square root; AltiVec multiplies by a fused multiply-add with +0
template <class T> bool rel(T y, double want, double tol) { return std::fabs((double)y-want) <= std::fabs(want)*tol; }
template <class T> bool mid(T x) { return std::fabs(x) >= (T)1e-15 && std::fabs(x) <= (T)1e15; }
C(x_mul,return numeq<T>(a*b,y);) C(x_muls,SB return numeq<T>(a*s,y);) C(x_smul,SA return numeq<T>(s*b,y);) C(x_cube,volatile T q=a*a; return numeq<T>(q*a,y);)
C(x_div,return !mid(a)||!mid(b)||rel<T>(y,(double)a/b,1e-4);) C(x_divs,SB return !mid(a)||!mid(s)||rel<T>(y,(double)a/s,1e-4);) C(x_sdiv,SA return !mid(s)||!mid(b)||rel<T>(y,(double)s/b,1e-4);)
C(x_recip,return !mid(a)||rel<T>(y,1.0/a,1e-4);) C(x_frecip,return !mid(a)||rel<T>(y,1.0/a,6e-3);) C(x_sqrt,return a==0 ? y==0 : !(a>0)||!mid(a)||rel<T>(y,std::sqrt((double)a),6e-3);) C(x_ssqrt,return a==0 ? y==0 : !mid(a)||rel<T>(y,a<0?-std::sqrt(-(double)a):std::sqrt((double)a),6e-3);)
template <class T> std::map<string,Chk<T>> xtable() { return {{"mul",x_mul<T>},{"mulas",x_mul<T>},{"muls",x_muls<T>},{"smul",x_smul<T>},{"cube",x_cube<T>},{"div",x_div<T>},{"divas",x_div<T>},{"divs",x_divs<T>},{"sdiv",x_sdiv<T>},{"recip",x_recip<T>},{"frecip",x_frecip<T>},{"sqrt",x_sqrt<T>},{"ssqrt",x_ssqrt<T>}}; }
template <class T> std::map<string,Chk<T>> table() { return {
 {"add",k_add<T>},{"sub",k_sub<T>},{"mul",k_mul<T>},{"div",k_div<T>},{"addas",k_add<T>},{"subas",k_sub<T>},{"mulas",k_mul<T>},{"divas",k_div<T>},{"mx",k_max<T>},{"mn",k_min<T>},{"lt",k_lt<T>},{"le",k_le<T>},{"gt",k_gt<T>},{"ge",k_ge<T>},{"eq",k_eq<T>},{"ne",k_ne<T>},
 {"mlt",k_mlt<T>},{"mle",k_mle<T>},{"mgt",k_mgt<T>},{"mge",k_mge<T>},{"meq",k_meq<T>},{"mneq",k_mneq<T>},{"band",k_and<T>},{"bor",k_or<T>},{"bxor",k_xor<T>},{"bandnot",k_andnot<T>},
 {"adds",k_adds<T>},{"subs",k_subs<T>},{"muls",k_muls<T>},{"divs",k_divs<T>},{"sadd",k_sadd<T>},{"ssub",k_ssub<T>},{"smul",k_smul<T>},{"sdiv",k_sdiv<T>},
 {"neg",k_neg<T>},{"abs",k_abs<T>},{"sign",k_sign<T>},{"square",k_square<T>},{"cube",k_cube<T>},{"sqrt",k_sqrt<T>},{"ssqrt",k_ssqrt<T>},{"round",k_round<T>},{"floor",k_floor<T>},{"ceil",k_ceil<T>},{"trunc",k_trunc<T>},{"frac",k_frac<T>},{"undenorm",k_und<T>},{"recip",k_recip<T>},{"frecip",k_frecip<T>},{"self",k_self<T>},
 {"madd",k_madd<T>},{"selm",k_sel<T>},{"sel1",k_sel<T>},{"hmin",k_hmin<T>},{"hmax",k_hmax<T>},{"hsum",k_hsum<T>},
 {"iadd",i_add<T>},{"isub",i_sub<T>},{"iand",i_and<T>},{"iandnot",i_andnot<T>},{"imlt",i_lt<T>},{"imgt",i_gt<T>},{"imeq",i_eq<T>},{"iset1",i_set1<T>},{"islli",i_sll<T>},{"isrli",i_srl<T>},{"i2f",i_2f<T>},{"icast",i_cast<T>},{"f2i",f_2i<T>},
 {"u_signmask",u_sign<T>},{"u_absmask",u_abs<T>},{"u_one",u_one<T>},{"u_05",u_05<T>},{"u_025",u_025<T>},{"u_extract0",u_e0<T>},{"u_extract3",u_e3<T>},{"u_hmin",u_hmin<T>},{"u_hmax",u_hmax<T>},{"u_select",k_sel<T>},{"c_zero",c_zero<T>},{"c_one",u_one<T>},{"c_05",u_05<T>},{"c_sign",c_sgn<T>},{"c_abs",c_abs<T>},{"c_ones",c_ones<T>} }; }
template <class T> void run() {
    auto tab = table<T>(), xtab = xtable<T>(); auto ks = kernels(Tr<T>::c,[&](const Lib&,const Kernel& k){ return tab.count(k.op)>0; });
    vector<T> L1 = lattice<T>(sizeof(T)==4?1:8,13), L2 = thorough ? lattice<T>(sizeof(T)==4?2:16,4) : lattice<T>(sizeof(T)==4?8:64,3), L3 = thorough ? lattice<T>(sizeof(T)==4?25:200,1) : specials<T>();
    for (int i=-4000;i<=4000;i++) L1.push_back((T)i*(T)0.125); for (int e : {22,23,24,30,31,32,51,52,53}) for (int i=-32;i<=32;i++) { L1.push_back((T)(std::ldexp(1.0,e)+i*0.5)); L1.push_back(-(T)(std::ldexp(1.0,e)+i*0.5)); }
    // lane reductions need neighbours of every relation: a de Bruijn like walk is given by the pairs below; integers: bit patterns
    vector<T> LI; for (uint32_t u : {0u,1u,2u,3u,5u,31u,32u,0x7fffffffu,0x80000000u,0x80000001u,0xffffffffu,0xfffffffeu,0x12345678u,0xdeadbeefu,0x00ffff00u,0x7f800000u,0x3f800000u,0x00800000u,0x01000001u,0x7fffff80u,23u,9u,17u,0x40000000u,0xc0000000u}) { float f; memcpy(&f,&u,4); LI.push_back((T)0); memcpy(&LI.back(),&u,4); }
    for (int s=0;s<32;s++) for (uint32_t d : {0u,1u,0xffffffffu}) { uint32_t u=(1u<<s)+d; LI.push_back((T)0); memcpy(&LI.back(),&u,4); }
    const unsigned BL=512; struct It { KRef r; uint64_t total; const vector<T>* l; int m; uint64_t b0,b1; }; vector<It> items;
    for (auto& r : ks) { int m=strlen(r.k->kinds); bool ints=r.k->op[0]=='i' && r.lib->group=="vint"; const vector<T>* l = ints ? &LI : m==1?&L1:m==2?&L2:&L3; if (r.k->op[0]=='h' || !strncmp(r.k->op,"u_h",3)) { l=&L3; m=-4; }
        uint64_t tot=1; for (int i=0;i<(m<0?(thorough?4:3):m);i++) tot*=l->size(); uint64_t blocks=(tot+BL-1)/BL; for (uint64_t b=0;b<blocks;b+=64) items.push_back({r,tot,l,m,b,std::min(blocks,b+64)}); }
    parallel_for(items.size(),[&](uint64_t ii) {
        It const& it=items[ii]; unsigned S=it.r.lib->t.vecsize; alignas(64) T in[3][BL+16], out[BL+16]; Chk<T> chk=tab.at(it.r.k->op); if (modelled_isa(it.r) && xtab.count(it.r.k->op)) chk=xtab.at(it.r.k->op); uint64_t calls=0; int m=it.m<0?1:it.m; size_t K=it.l->size();
        for (uint64_t b=it.b0;b<it.b1;b++) for (unsigned sh=0;sh<(it.m<0?1:S);sh++) {
            if (it.m<0) { // reductions: each vector holds a tuple of lattice values in rotating lanes
                for (unsigned j=0;j<BL;j+=S) { uint64_t q=(b*BL+j/S*17+j)%it.total; uint64_t rot=(b+j/S)%S; for (unsigned i=0;i<S;i++) { in[0][j+(i+rot)%S]=(*it.l)[q%K]; q=q/K+(i>=2?i*7+q%K*3+b:0); } } }
            else for (unsigned j=0;j<BL;j++) { uint64_t q=(b*BL+j+sh)%it.total; for (int i=0;i<m;i++) { in[i][j]=(*it.l)[q%K]; q/=K; } }
            for (unsigned j=0;j<BL;j++) out[j]=(T)-777; KArg a[3]={{in[0],0,0},{in[1],0,0},{in[2],0,0}}; calls++;
            if (!call(it.r,out,0,a,BL)) return;
            for (unsigned j=0;j<BL;j++) { Env<T> e={{in[0],m>1?in[1]:0,m>2?in[2]:0},j,j/S*S,S}; if (!chk(e,out[j])) { string s; for (int i=0;i<m;i++) s+=(i?", ":"")+hx(in[i][j]); string w; if (it.m<0) for (unsigned i=0;i<S;i++) w+=" "+hx(in[0][e.blk+i]);
                violation(fmt("%s %s %s",it.r.k->op,it.r.lib->type=='f'?"float":"double",it.r.lib->cfg.c_str()), fmt("vec<%s> (%s) operation %s lane %u: operands (%s)%s scalar %s gives %s (bits %llx)",it.r.lib->type=='f'?"float":"double",it.r.lib->cfg.c_str(),it.r.k->op,j-e.blk,s.c_str(),w.c_str(),hx(in[m>1?1:0][e.blk]).c_str(),hx(out[j]).c_str(),(unsigned long long)bits(out[j]))); return; } } }
        n_states += (it.b1-it.b0)*BL*(it.m<0?1:S); n_trans += calls; n_traces += calls;
        if (ii%(items.size()/8+1)==0) sample(fmt("vec<%s> %s: %s on tuples %lu..%lu of %lu in all %u lanes",it.r.lib->type=='f'?"float":"double",it.r.lib->cfg.c_str(),it.r.k->op,(unsigned long)it.b0*BL,(unsigned long)it.b1*BL,(unsigned long)it.total,S));
    });
    count_extra(string("operations_")+Tr<T>::c,ks.size());
}
// horizontal reductions: every assignment of a small alphabet to the lanes
template <class T> void lanes() {
    vector<T> al = {0,-1,(T)2.5,-std::numeric_limits<T>::max(),std::numeric_limits<T>::infinity(),-std::numeric_limits<T>::infinity(),std::numeric_limits<T>::denorm_min()}; auto tab=table<T>();
    auto ks = kernels(Tr<T>::c,[&](const Lib&,const Kernel& k){ return k.op[0]=='h' || !strncmp(k.op,"u_h",3) || !strncmp(k.op,"u_e",3); });
    parallel_for(ks.size(),[&](uint64_t ii) { KRef r=ks[ii]; unsigned S = r.k->op[0]=='u'?4:r.lib->t.vecsize; unsigned A = S<=4?7:(thorough?7:5); uint64_t tot=1; for (unsigned i=0;i<S;i++) tot*=A; alignas(64) T in[64],out[64]; Chk<T> chk=tab.at(r.k->op);
        for (uint64_t q=0;q<tot;q++) { uint64_t x=q; for (unsigned i=0;i<16;i++) in[i]=0; for (unsigned i=0;i<S;i++) { in[i]=al[x%A]; x/=A; } KArg a[3]={{in,0,0},{in,0,0},{in,0,0}}; if (!call(r,out,0,a,S)) return; Env<T> e={{in,0,0},0,0,S};
            if (!chk(e,out[0])) { string w; for (unsigned i=0;i<S;i++) w+=" "+hx(in[i]); violation(fmt("%s %s %s",r.k->op,r.lib->type=='f'?"float":"double",r.lib->cfg.c_str()), fmt("%s (%s %s) of%s gives %s",r.k->op,r.lib->type=='f'?"float":"double",r.lib->cfg.c_str(),w.c_str(),hx(out[0]).c_str())); return; } }
        n_states+=tot; n_trans+=tot; n_traces+=tot; });
}
int main(int argc,char** argv) { init(argc,argv); run<float>(); run<double>(); lanes<float>(); lanes<double>(); return finish(); }
