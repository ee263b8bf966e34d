// C10: every multi-operand function x every combination of operand kinds (buffer, constant, ramp; raw or wrapped) x
// every combination of ramp/constant parameters x lengths; element i must be the function of the operands' i-th values.
#include "hlib.hpp"
using namespace H;
enum { ADD, SUB, MUL, DIV, MIN, MAX, CLIP2, LT, LE, GT, GE, EQ, NE, POW, SPOW, CLIP, MULADD, AMPMOD, SUM, MIX };
static std::map<string,int> opid = {{"plus",ADD},{"minus",SUB},{"times",MUL},{"over",DIV},{"min",MIN},{"max",MAX},{"clip2",CLIP2},{"less",LT},{"less_equal",LE},{"greater",GT},{"greater_equal",GE},
    {"equal",EQ},{"notequal",NE},{"pow",POW},{"spow",SPOW},{"clip",CLIP},{"muladd",MULADD},{"ampmod",AMPMOD},{"sum",SUM},{"mix",MIX}};
template <class W> struct Iv { W x, d; };      // value and uncertainty
// returns 0 mismatch, 1 ok, 2 not specified
template <class T, class W = typename Tr<T>::W> int judge(int op, int k, const Iv<W>* a, T y, W& want) {
    const W E = (W)Tr<T>::eps(), D = (W)Tr<T>::dmin(); auto ab = [](W v){ return v<0?-v:v; };
    W r, tol;
    auto mul = [&](Iv<W> p, Iv<W> q) { return Iv<W>{p.x*q.x, ab(p.x)*q.d+ab(q.x)*p.d+p.d*q.d}; };
    switch (op) {
    case ADD: case SUM: { r = tol = 0; W m = 0; for (int i=0;i<k;i++) { r += a[i].x; tol += a[i].d; m += ab(a[i].x)+a[i].d; } tol += m*E*(k-1); } break;
    case SUB: r = a[0].x-a[1].x; tol = a[0].d+a[1].d; tol += (ab(r)+tol)*E; break;
    case MUL: { Iv<W> p = mul(a[0],a[1]); r = p.x; tol = p.d + (ab(r)+p.d)*E; } break;
    case DIV: { W lo = ab(a[1].x)-a[1].d; if (!(lo > 0)) return 2; r = a[0].x/a[1].x; tol = (a[0].d+ab(r)*a[1].d)/lo; tol += (ab(r)+tol)*E; } break;
    case MIN: r = std::min(a[0].x,a[1].x); tol = std::max(a[0].d,a[1].d); break;
    case MAX: r = std::max(a[0].x,a[1].x); tol = std::max(a[0].d,a[1].d); break;
    case CLIP2: if (a[1].x-a[1].d < 0) return 2; r = std::max(-a[1].x,std::min(a[0].x,a[1].x)); tol = std::max(a[0].d,a[1].d); break;
    case CLIP: if (a[1].x+a[1].d > a[2].x-a[2].d) return 2; r = std::max(a[1].x,std::min(a[0].x,a[2].x)); tol = std::max(a[0].d,std::max(a[1].d,a[2].d)); break;
    case MULADD: { Iv<W> p = mul(a[0],a[1]); r = p.x+a[2].x; tol = p.d+a[2].d + (2*ab(p.x)+2*p.d+ab(a[2].x)+a[2].d)*E; } break;
    case AMPMOD: { Iv<W> p = mul(a[1],a[2]); W m = 1+ab(p.x)+p.d; Iv<W> t = {1+p.x, p.d+2*m*E}; Iv<W> q = mul(a[0],t); r = q.x; tol = q.d+(ab(r)+q.d)*E + (ab(a[0].x)+a[0].d)*m*E; } break;
    case MIX: { Iv<W> p = mul(a[0],a[1]), q = mul(a[2],a[3]); r = p.x+q.x; tol = p.d+q.d+3*(ab(p.x)+p.d+ab(q.x)+q.d)*E; } break;
    case POW: case SPOW: { W b = a[0].x; W s = 1; if (op==SPOW && b < 0) { s = -1; b = -b; } W lo = b-a[0].d; if (!(lo > b*(W)0.5) ) return 2; W t = a[1].x*std::log(b); W dt = ab(std::log(b))*a[1].d + (ab(a[1].x)+a[1].d)*a[0].d/lo + a[1].d*a[0].d/lo;
        if (ab(t) > 60 || dt > (W)0.1) return 2; r = s*std::exp(t); tol = ab(r)*((sizeof(T)==4 ? (W)1e-6+(W)3e-7*ab(t) : 16*E*(1+ab(t)))+(W)1.2*dt); } break;
    default: { W df = a[0].x-a[1].x, u = a[0].d+a[1].d; want = df; if (u > 0 && ab(df) <= u) return y==0 || y==1;
        bool b = op==LT?df<0:op==LE?df<=0:op==GT?df>0:op==GE?df>=0:op==EQ?df==0:df!=0; want = b; return y == (T)b; }
    }
    want = r; if (!(ab(r) < (W)std::numeric_limits<T>::max()/8)) return 2;
    return ab((W)y-r) <= tol + 4*D;
}
const double EST = 0x1p-9;      // division through estimate instructions (C25)
struct Ramp { double s, d; bool exact; };
static bool dy(double x) { return x*1024 == std::floor(x*1024); }
static vector<Ramp> ramps_for(int op, int pos, int level) {
    vector<std::pair<double,double>> p = {{1,0.25},{-3.1,0.0137},{2.5,-0.125},{0.7,-1e-4},{100.25,1.0/3},{0,0},{-8,1},{0.1,0.001},{0,1e-9},{0,-1e-20},{2e5,3e4}};
    if (level==0) p[2] = {0,1e-9}; if (level==1) p[4] = {0,1e-9};
    size_t n = level==0?3:level==1?5:p.size(); p.resize(n); vector<Ramp> r;
    for (auto q : p) { double s=q.first+(std::fabs(q.second)<1e-8?0:0.5*pos), d=q.second*(1+0.5*pos);
        if (op==DIV && pos==1) { s = std::fabs(s)+1; d = std::fabs(d); }
        if ((op==POW||op==SPOW) && pos==0) { double z=s; s = std::fabs(s)+0.25; d = std::fabs(d); if (op==SPOW && z<0) { s=-s; d=-d; } }
        if ((op==POW||op==SPOW) && pos==1) { d = d/64; }
        if (op==CLIP && pos==1) { s = -std::fabs(s)-0.25; d = d/16; } if ((op==CLIP && pos==2)||(op==CLIP2&&pos==1)) { s = std::fabs(s)+0.25; d = d/16; }
        r.push_back({s,d,dy(s)&&dy(d)&&std::fabs(d)<2}); }
    return r;
}
static vector<double> consts_for(int op, int pos, int level) {
    vector<double> p = {0.75,-1.3,3,0,40.1}; p.resize(level==0?2:level==1?3:5); vector<double> r;
    for (double v : p) { v += 0.25*pos; if (op==DIV && pos==1) v = v==0?2:v; if (op==POW && pos==0) v = std::fabs(v)+0.1;
        if (op==SPOW && pos==0 && v==0) v = -0.3; if (op==CLIP&&pos==1) v=-std::fabs(v)-0.2; if ((op==CLIP&&pos==2)||(op==CLIP2&&pos==1)) v=std::fabs(v)+0.2; r.push_back(v); }
    return r;
}
template <class T> void run() {
    typedef typename Tr<T>::W W; const unsigned MAXN = 4096; const W E = (W)Tr<T>::eps();
    auto ks = kernels(Tr<T>::c,[](const Lib&,const Kernel& k){ return opid.count(k.op) > 0; });
    parallel_for(ks.size(),[&](uint64_t ii) {
        KRef r = ks[ii]; int op = opid[r.k->op]; int k = strlen(r.k->kinds); bool scal = !strcmp(r.k->form,"scal");
        static thread_local char* mem = (char*)aligned_alloc(64,5*MAXN*8+4096);
        T* out = (T*)mem; T* in[4]; for (int j=0;j<4;j++) in[j] = (T*)(mem+(j+1)*MAXN*8+64*(j+1));
        for (int j=0;j<k;j++) for (unsigned i=0;i<MAXN;i++) { double v = ((int)((i*(37+16*j)+11*j)%101)-50)*0.0731*(1+j)+0.013*(j+1); if (i%5==(unsigned)j) v = ((int)(i%23)-11)*0.25;
            if (op==DIV&&j==1) v = v<0?v-0.3:v+0.3; if ((op==POW||op==SPOW)&&j==0) { double z=v; v=std::fabs(v)+0.05; if (op==SPOW&&z<0) v=-v; } if (op==CLIP&&j==1) v=-std::fabs(v)*0.3; if ((op==CLIP&&j==2)||(op==CLIP2&&j==1)) v=std::fabs(v)*0.3; in[j][i]=(T)v; }
        vector<unsigned> ns; unsigned pl = r.lib->t.per_loop; int level = (k==4?0:k==3?1:2) + (thorough?1:0); if (level>2) level=2;
        if (r.k->fixed) ns = {r.k->fixed};
        else if (scal) { ns = {1,2,3,7,8,9,31,64}; if (k==2||thorough) for (unsigned n : {4,5,6,10,15,16,17,33,100}) ns.push_back(n); ns.push_back(k==2?1000:257); }
        else { ns = {pl,2*pl,3*pl,5*pl}; if (k==2||thorough) for (unsigned n : {4*pl,7*pl,8*pl}) ns.push_back(n); ns.push_back(k==2?1024:256); }
        if (thorough && !r.k->fixed) ns.push_back(4096);
        vector<vector<Ramp>> par(k); uint64_t total = 1;
        for (int j=0;j<k;j++) { char c = r.k->kinds[j]; if (c=='v'||c=='V') par[j] = {{0,0,true}}; else if (c=='s'||c=='S') { for (double v : consts_for(op,j,level)) par[j].push_back({v,0,true}); } else par[j] = ramps_for(op,j,level); total *= par[j].size(); }
        uint64_t st=0, tr=0, judged=0, skipped=0; bool fine = true;
        for (unsigned n : ns) { if (!fine) break;
          for (uint64_t c=0;c<total;c++) { uint64_t q=c; KArg a[4]; Ramp pr[4];
            for (int j=0;j<k;j++) { pr[j] = par[j][q%par[j].size()]; q /= par[j].size(); pr[j].s = (T)pr[j].s; pr[j].d = (T)pr[j].d; a[j].p = in[j]; a[j].s = pr[j].s; a[j].d = pr[j].d; }
            for (unsigned i=0;i<n;i++) out[i] = (T)-98765;
            st++; tr++; if (!call(r,out,0,a,n)) { fine=false; break; }
            for (unsigned i=0;i<n;i++) { Iv<W> v[4];
                for (int j=0;j<k;j++) { char kc = r.k->kinds[j]; if (kc=='v'||kc=='V') v[j] = {(W)in[j][i],0}; else if (kc!='r') v[j] = {(W)pr[j].s,0};
                    else { W s=pr[j].s,d=pr[j].d; v[j].x = s+d*(W)i; v[j].d = (pr[j].exact||i==0) ? 0 : (W)(i+4)*(W)1.5*E*(std::fabs(s)+std::fabs(d)*(W)i); } }
                W want=0; int ok = judge<T>(op,k,v,out[i],want); if (ok==0 && op==DIV && modelled_isa(r)) ok = std::fabs((W)out[i]-want) <= (W)EST*std::fabs(want);
                if (ok==2) skipped++; else judged++;
                if (ok==0) { string s; for (int j=0;j<k;j++) s += (j?", ":"")+(r.k->kinds[j]=='r'?fmt("ramp(%s,%s)",hx(pr[j].s).c_str(),hx(pr[j].d).c_str()):hx((double)v[j].x));
                    violation(kname(r), fmt("%s n=%u operands (%s) element %u: got %s, expected about %s", kname(r).c_str(), n, s.c_str(), i, hx(out[i]).c_str(), hx((double)want).c_str())); fine=false; break; } }
            if (!fine) break;
        } }
        // ramps over long buffers (no drift, no wrap of the iteration count): slopes of 1/1024, values exactly representable
        bool has_r = strchr(r.k->kinds,'r'), wrap16 = op==SUB; 
        if (fine && has_r && !r.k->fixed) for (unsigned n : wrap16 ? vector<unsigned>{66000/pl*pl,65537*pl} : vector<unsigned>{(k>2?9000:66000)/pl*pl}) {
            if (!fine) break; if (scal && n > 70000) n = 65537+64;
            vector<T> big((size_t)n*(k+1)+64); T* bo=big.data(); while ((uintptr_t)bo%64) bo++; T* bi[4]; for (int j=0;j<k;j++) { bi[j]=bo+(size_t)(j+1)*n; for (unsigned i=0;i<n;i++) bi[j][i]=in[j][i%MAXN]; }
            KArg a[4]; Ramp pr[4]; vector<double> cs; for (int j=0;j<k;j++) { pr[j] = {1+0.5*j, (1+j)/1024.0, true}; if (op==CLIP && j==1) { pr[j].s=-1; pr[j].d=-1/1024.0; } if ((op==POW||op==SPOW) && j==1) pr[j]={(T)0.5,(T)(1/65536.0),false}; if (r.k->kinds[j]=='s'||r.k->kinds[j]=='S') pr[j]={(double)(T)consts_for(op,j,0)[0],0,true}; a[j].p=bi[j]; a[j].s=pr[j].s; a[j].d=pr[j].d; }
            for (unsigned i=0;i<n;i++) bo[i]=(T)-98765; st++; tr++; if (!call(r,bo,0,a,n)) { fine=false; break; }
            for (unsigned i=0;i<n;i++) { Iv<W> v[4]; for (int j=0;j<k;j++) { char kc=r.k->kinds[j]; if (kc=='v'||kc=='V') v[j]={(W)bi[j][i],0}; else if (kc!='r') v[j]={(W)pr[j].s,0}; else { W sv=pr[j].s,d=pr[j].d; v[j].x=sv+d*(W)i; v[j].d=(pr[j].exact||i==0)?0:(W)(i+4)*(W)1.5*E*(std::fabs(sv)+std::fabs(d)*(W)i); } }
                W want=0; int ok=judge<T>(op,k,v,bo[i],want); if (ok==0 && op==DIV && modelled_isa(r)) ok = std::fabs((W)bo[i]-want) <= (W)EST*std::fabs(want); if (ok==2) skipped++; else judged++;
                if (ok==0) { violation(kname(r), fmt("%s n=%u element %u: got %s, expected about %s (first ramp %s + i*%s)", kname(r).c_str(), n, i, hx(bo[i]).c_str(), hx((double)want).c_str(), hx(pr[0].s).c_str(), hx(pr[0].d).c_str())); fine=false; break; } } }
        n_states += st; n_trans += tr; n_traces += st; count_extra("elements_judged",judged); count_extra("elements_unspecified",skipped);
        if (!judged) violation("vacuous "+kname(r), kname(r)+": no element could be judged");
        if (ii%(ks.size()/6+1)==0) sample(fmt("%s: %lu parameter combinations x %zu lengths", kname(r).c_str(), (unsigned long)total, ns.size()));
    });
    count_extra("kernels", ks.size());
}
int main(int argc, char** argv) { init(argc,argv); run<float>(); run<double>(); return finish(); }
