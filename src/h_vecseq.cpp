// C12: explicit-state exploration of operation sequences on one live vector object against an array model.
// Every sequence up to depth `full` is run; beyond that, sequences are extended only from states (lane contents) not seen before.
#include "hlib.hpp"
#include <unordered_set>
using namespace H;
struct Step { int op, idx; double x, y; };
enum { OBS = 65 };
template <class T> struct Model { T v[16]; };
template <class T> struct Sys {
    KRef r; unsigned S; vector<Step> alpha; alignas(64) T buf[64];
    // applies one step to the model; `got`/`gotret` are the implementation's lanes/return value, used only where the property
    // allows a rounding freedom (non-dyadic slopes); returns empty string if conforming
    string apply(Model<T>& m, Step const& s, const T* o) {
        typedef typename Tr<T>::W W; T x=(T)s.x, y=(T)s.y; T ret=0; bool checkret=true; T w[16]; W E=(W)Tr<T>::eps(); bool approx=false;
        auto slope=[&](T* d, bool gotten)->string { for (unsigned i=0;i<S;i++) { T e=(T)((W)x+(W)y*(W)i); if (gotten) { W tol=(W)(i+1)*(W)1.5*E*(std::fabs((W)x)+std::fabs((W)y)*(W)i); if (dyadic(s)) tol=0; if (!(std::fabs((W)o[i]-((W)x+(W)y*(W)i))<=tol)) return fmt("lane %u is %s, expected %s",i,hx(o[i]).c_str(),hx(e).c_str()); d[i]=o[i]; } else d[i]=e; } return ""; };
        switch (s.op) {
        case 0: m.v[s.idx]=x; break; case 1: case 15: for (unsigned i=0;i<S;i++) m.v[i]=x; break; case 2: for (unsigned i=0;i<S;i++) m.v[i]=0; break;
        case 3: { string e=slope(m.v,true); if (!e.empty()) return "set_slope: "+e; W want=(W)y*(W)S; if (!(std::fabs((W)o[64]-want)<=std::fabs(want)*E*(dyadic(s)?0:8))) return fmt("set_slope returned %s, expected %s",hx(o[64]).c_str(),hx((double)want).c_str()); checkret=false; } break;
        case 4: { for (unsigned i=0;i<=S;i++) { W e=(W)x*std::pow((W)y,(W)i); if (y==0) e = i?(W)0:(W)x; T g=i<S?o[i]:o[64]; if (!(std::fabs((W)g-e)<=std::fabs(e)*E*(dyadic(s)?0:(W)(2*i+1)))) return fmt("set_exp %s %u is %s, expected %s",i<S?"lane":"return value",i,hx(g).c_str(),hx((double)e).c_str()); if (i<S) m.v[i]=g; } checkret=false; } break;
        case 5: for (unsigned i=0;i<S;i++) m.v[i]=buf[s.idx+i]; break; case 6: for (unsigned i=0;i<S;i++) m.v[i]=buf[s.idx*S+i]; break; case 7: m.v[0]=buf[s.idx]; for (unsigned i=1;i<S;i++) m.v[i]=0; break;
        case 8: slope(w,false); for (unsigned i=0;i<S;i++) m.v[i]+=w[i]; break; case 9: slope(w,false); for (unsigned i=0;i<S;i++) m.v[i]-=w[i]; break; case 10: slope(w,false); for (unsigned i=0;i<S;i++) m.v[i]*=w[i]; break; case 11: slope(w,false); for (unsigned i=0;i<S;i++) m.v[i]/=w[i]; break;
        case 12: for (unsigned i=0;i<S;i++) m.v[i]+=m.v[i]; break; case 13: for (unsigned i=0;i<S;i++) m.v[i]-=m.v[i]; break; case 14: for (unsigned i=0;i<S;i++) m.v[i]*=m.v[i]; break;
        case 16: case 17: break; case 18: ret=m.v[s.idx]; break;
        case 19: { T a=m.v[0],b=m.v[0]; for (unsigned i=0;i<S;i++) { if (m.v[i]!=m.v[i]) checkret=false; a=std::max(a,m.v[i]); b=std::min(b,m.v[i]); } ret=a-b; } break;
        case 20: for (unsigned i=0;i<S;i++) m.v[i]=m.v[i]+x; break; case 21: for (unsigned i=0;i<S;i++) { volatile T h=m.v[i]*(T)0.5; m.v[i]=h+(T)1; } break; }
        if (checkret && !numeq(o[64],ret)) return fmt("returned %s, expected %s",hx(o[64]).c_str(),hx(ret).c_str());
        static const char* on[]={"get","store","store_aligned","store_aligned_stream"};
        for (int k=0;k<4;k++) for (unsigned i=0;i<S;i++) if (!same(o[16*k+i],m.v[i])) return fmt("%s lane %u is %s, the array holds %s",on[k],i,hx(o[16*k+i]).c_str(),hx(m.v[i]).c_str());
        return "";
    }
    static bool dyadic(Step const& s) { auto d=[](double x){ return x*256==std::floor(x*256); }; return d(s.x)&&d(s.y); }
    static string name(Step const& s) { static const char* n[]={"set","set_vec","clear","set_slope","set_exp","load","load_aligned","load_first","+=slope","-=slope","*=slope","/=slope","+=self","-=self","*=self","=vec","copy","copy-independent","get","minmax","+vec","collect"}; return fmt("%s(%d;%g,%g)",n[s.op],s.idx,s.x,s.y); }
};
template <class T> void run() {
    auto ks=kernels(Tr<T>::c,[](const Lib&,const Kernel& k){return !strcmp(k.op,"program");});
    struct Job { Sys<T>* sys; int first; }; vector<Job> jobs;
    for (auto& r : ks) { Sys<T>* s=new (std::align_val_t(64)) Sys<T>; s->r=r; s->S=r.lib->t.vecsize; unsigned S=s->S;
        for (int i=0;i<64;i++) s->buf[i]=(T)(((i*37)%29)*0.375-4.5);
        for (unsigned i=0;i<S;i++) { s->alpha.push_back({0,(int)i,1.5,0}); s->alpha.push_back({0,(int)i,-0.3,0}); }
        for (double x : {2.0,-0.1}) s->alpha.push_back({1,0,x,0}); s->alpha.push_back({2,0,0,0});
        for (auto p : {std::make_pair(1.0,0.25),{-2.0,-0.5},{0.1,0.3},{0.0,0.0}}) s->alpha.push_back({3,0,p.first,p.second});
        for (auto p : {std::make_pair(1.0,2.0),{3.0,-0.5},{0.7,1.1},{2.0,0.0}}) s->alpha.push_back({4,0,p.first,p.second});
        for (int i : {0,1,3,7}) s->alpha.push_back({5,i,0,0}); for (int i : {0,1,2}) s->alpha.push_back({6,i,0,0}); for (int i : {0,1,2,5}) s->alpha.push_back({7,i,0,0});
        for (int op : {8,9,10,11}) { if (modelled_isa(r) && (op==11 || (op==10 && r.lib->cfg=="altivec"))) continue;   // estimated division, sign of zero products
 s->alpha.push_back({op,0,1,0.5}); s->alpha.push_back({op,0,-3,0.25}); }
        for (int op : {12,13,14,16}) s->alpha.push_back({op,0,0,0}); s->alpha.push_back({15,0,0.625,0}); s->alpha.push_back({17,0,9,0}); for (unsigned i=0;i<S;i++) s->alpha.push_back({18,(int)i,0,0}); s->alpha.push_back({19,0,0,0}); s->alpha.push_back({20,0,0.75,0}); s->alpha.push_back({21,0,0,0});
        for (size_t i=0;i<s->alpha.size();i++) jobs.push_back({s,(int)i}); }
    int full = thorough?4:3, deep = thorough?6:5; const size_t FRONT = thorough?40000:1500;
    parallel_for(jobs.size(),[&](uint64_t ji) { Sys<T>& s=*jobs[ji].sys; size_t A=s.alpha.size(); static thread_local T* out=(T*)aligned_alloc(64,sizeof(T)*OBS*16+64); uint64_t seqs=0, steps=0; bool bad=false;
        std::unordered_set<string> seen; uint64_t nstates=0;
        auto run1=[&](vector<int> const& path, Model<T>& end)->bool { Step st[16]; for (size_t i=0;i<path.size();i++) st[i]=s.alpha[path[i]]; KArg a[2]={{st,0,0},{s.buf,0,0}}; memset(out,0x55,sizeof(T)*OBS*path.size()); seqs++; steps+=path.size();
            if (!call(s.r,out,0,a,path.size())) { bad=true; return false; } Model<T> m; for (T& x : m.v) x=0;
            for (size_t i=0;i<path.size();i++) { string e=s.apply(m,st[i],out+i*OBS); if (!e.empty()) { string h; for (size_t k=0;k<=i;k++) h+=(k?" ; ":"")+Sys<T>::name(st[k]); violation(fmt("%s %s after %s",s.r.lib->type=='f'?"float":"double",s.r.lib->cfg.c_str(),Sys<T>::name(st[i]).c_str()), fmt("vec<%s> (%s): after [%s]: %s",s.r.lib->type=='f'?"float":"double",s.r.lib->cfg.c_str(),h.c_str(),e.c_str())); bad=true; return false; } }
            end=m; return true; };
        vector<vector<int>> frontier; vector<int> p={jobs[ji].first}; Model<T> e;
        std::function<void(vector<int>&)> rec=[&](vector<int>& q){ if (bad) return; if ((int)q.size()==full) { if (!run1(q,e)) return; string key((const char*)e.v,s.S*sizeof(T)); if (seen.insert(key).second && frontier.size()<FRONT) frontier.push_back(q); return; } for (size_t k=0;k<A&&!bad;k++) { q.push_back(k); rec(q); q.pop_back(); } };
        rec(p); nstates=seen.size();
        uint64_t dropped=seen.size()-frontier.size();
        for (int d=full+1; d<=deep && !bad; d++) { vector<vector<int>> nx; for (auto& q : frontier) { vector<int> t=q; t.push_back(0); for (size_t k=0;k<A&&!bad;k++) { t.back()=k; if (!run1(t,e)) break; string key((const char*)e.v,s.S*sizeof(T)); if (seen.insert(key).second) { if (nx.size()<FRONT) nx.push_back(t); else dropped++; } } if (bad) break; } frontier.swap(nx); }
        n_states+=seen.size(); n_trans+=steps; n_traces+=seqs; count_extra("sequences",seqs); count_extra("states_not_extended_beyond_full_depth",dropped);
        if (ji%(jobs.size()/8+1)==0) sample(fmt("vec<%s> %s: sequences starting with %s: %lu run, %zu distinct lane states",s.r.lib->type=='f'?"float":"double",s.r.lib->cfg.c_str(),Sys<T>::name(s.alpha[jobs[ji].first]).c_str(),(unsigned long)seqs,seen.size()));
    });
}
int main(int argc,char** argv) { init(argc,argv); run<float>(); run<double>(); return finish(); }
