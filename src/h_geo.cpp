// C21: alignment test and published constants: all byte addresses around page and vector boundaries, all alignments x
// lengths of calls dispatched on them.
#include "shape.hpp"
using namespace H;
template <class T> void run() {
    std::map<const Lib*,std::map<string,KRef>> by; for (auto& r : kernels(Tr<T>::c)) by[r.lib][r.k->op]=r;
    vector<const Lib*> ls; for (auto& e : by) ls.push_back(e.first);
    parallel_for(ls.size(),[&](uint64_t li) {
        auto& K = by[ls[li]]; KArg a[4]; memset(a,0,sizeof a); string nm = fmt("%s %s",Tr<T>::c=='f'?"float":"double",ls[li]->cfg.c_str()); uint64_t st=0;
        double geo[8] = {}; if (!call(K["geometry"],geo,0,a,0)) return; unsigned size=(unsigned)geo[0], pl=(unsigned)geo[3]; st++;
        bool generic = ls[li]->cfg=="gen" || (ls[li]->cfg=="sse" && Tr<T>::c=='d');   // no vector registers: element alignment is sufficient
        if (size<1 || geo[1]!=size*sizeof(T)) violation("size "+nm, fmt("%s: size=%g but sizeof(vec)=%g",nm.c_str(),geo[0],geo[1]));
        if (geo[5]!=sizeof(T)) violation("type "+nm, nm+": float_type has the wrong size");
        if (pl<1 || geo[2]!=geo[3] || pl%size || pl*sizeof(T)!=64) { violation("samples per loop "+nm, fmt("%s: samples_per_loop=%g objects_per_cacheline=%g size=%g",nm.c_str(),geo[3],geo[2],geo[0])); return; }
        // the alignment an aligned load requires: the whole vector for register classes, the element otherwise
        uint64_t need = generic ? sizeof(T) : size*sizeof(T);
        KRef ia = K["is_aligned"];
        auto test = [&](uint64_t addr) { int y=-1; a[0].p=(void*)addr; st++; if (!call(ia,&y,0,a,0)) return false; int want = addr%need==0; if (y!=want) { violation("is_aligned "+nm, fmt("%s: is_aligned(%#lx) is %d; vectors of %lu bytes",nm.c_str(),(unsigned long)addr,y,(unsigned long)need)); return false; } return true; };
        bool ok=true;
        for (uint64_t base : {0x0ull, 0x10000ull, 0x7ffff000ull, 0x80000000ull, 0xfffff000ull, 0x100000000ull, 0x7fff00000000ull, 0x7ffffffff000ull, 0x7ffffff80000ull}) for (uint64_t o=0;o<(thorough?65536u:8192u) && ok;o++) ok = test(base+o);
        for (int b=0;b<47 && ok;b++) for (int c=0;c<=b && ok;c++) for (int d=-33;d<=33 && ok;d++) ok = test((1ull<<b)+(1ull<<c)+d);
        if (!ok) { n_states+=st; return; }
        { long bad=-1; if (call(K["object_array"],&bad,0,a,0) && bad) violation("objects "+nm, nm+": vector objects in an array are not aligned or overlap"); st++; }
        // every address the test accepts can be used by the aligned operations, every element address by the unaligned ones
        Guard go(4096), gi(4096); T* lo=(T*)go.lo; T* li_=(T*)gi.lo; unsigned M=4096/sizeof(T);
        for (unsigned i=0;i<M;i++) li_[i]=datum<T>(i%5,i);
        for (unsigned i=0;i+size<=M;i++) for (const char* op : {"load_store","load_store_aligned","load_store_stream"}) for (int side=0;side<2;side++) {
            bool un = !strcmp(op,"load_store"); uint64_t adr=(uint64_t)(side?lo+i:li_+i); if (!un && adr%need) continue;
            T* o = side? lo+i : lo+ (un?1:0); a[0].p = side? li_ : li_+i; unsigned ii = side?0:i; for (unsigned j=0;j<size;j++) o[j]=-7; st++;
            if (!call(K[op],o,0,a,0)) { n_states+=st; return; }
            for (unsigned j=0;j<size;j++) if (bits(o[j])!=bits(li_[ii+j])) { violation(string(op)+" "+nm, fmt("%s: %s at element offset %u of a page: lane %u wrong",nm.c_str(),op,i,j)); n_states+=st; return; } }
        // dispatch as client code does: all element misalignments of every buffer x all lengths
        unsigned VA=64/sizeof(T), NM = thorough?8*pl:2*pl+size+1; Guard g0(16384), g1(16384), g2(16384);
        for (auto& e : K) { if (e.second.k->form[0]!='d') continue; KRef r=e.second; string op=r.k->op; int m=nin(*r.k); bool red=op=="dispatch_hmax", two=m==2; uint64_t simd=0;
            for (unsigned n=1;n<=NM;n++) for (unsigned oo=0;oo<(red?1:VA);oo++) for (unsigned i0=0;i0<(m && r.k->kinds[0]=='v'?VA:1);i0++) for (unsigned i1=0;i1<(two?VA:1);i1++) {
                if (two && !thorough && i1 && i1!=i0 && i1!=oo && i1%(VA/4)) continue;
                T* o=(T*)g0.hi-n-oo; T* x=(T*)g1.hi-n-i0; T* y=(T*)g2.hi-n-i1; T path=-1; T before=o[-1]; 
                for (unsigned i=0;i<n;i++) { o[i]=(T)-777; x[i]=datum<T>(0,i)*(i%3==1?-1:1); y[i]=datum<T>(1,i); } for (unsigned i=0;i<oo;i++) o[n+i]=(T)-31;
                a[0].p=x; a[1].p=y; a[0].s=(T)0.375; a[1].s=0; st++;
                if (!call(r,o,&path,a,n)) { n_states+=st; return; } simd += path==1;
                T mx=x[0]; for (unsigned i=1;i<n;i++) mx=std::max(mx,x[i]);
                for (unsigned i=0;i<(red?1:n);i++) { T w = op=="dispatch_abs"?std::fabs(x[i]):op=="dispatch_plus"?x[i]+y[i]:op=="dispatch_copy"?x[i]:op=="dispatch_set"?(T)0.375:op=="dispatch_zero"?(T)0:mx;
                    if (!same(o[i],w)) { violation(op+" "+nm, fmt("%s %s n=%u offsets %u/%u/%u: element %u is %s, expected %s",nm.c_str(),op.c_str(),n,oo,i0,i1,i,hx(o[i]).c_str(),hx(w).c_str())); n_states+=st; return; } }
                for (unsigned i=0;i<oo && !red;i++) if (o[n+i]!=(T)-31) { violation(op+" "+nm, fmt("%s %s n=%u: wrote behind the buffer",nm.c_str(),op.c_str(),n)); n_states+=st; return; }
                if (bits(o[-1])!=bits(before)) { violation(op+" "+nm, fmt("%s %s n=%u: wrote before the buffer",nm.c_str(),op.c_str(),n)); n_states+=st; return; }
            }
            if (!simd) violation("dispatch never vectorises "+op+" "+nm, nm+" "+op+": no call with aligned buffers and a multiple of samples_per_loop takes the SIMD path");
            count_extra("dispatched calls taking the SIMD path",simd); tick(); }
        sample(fmt("%s: vec size %u, %u samples per loop, %lu calls",nm.c_str(),size,pl,(unsigned long)st));
        n_states+=st; n_trans+=st; n_traces+=st;
    });
}
int main(int c, char** v) { init(c,v); run<float>(); run<double>(); return finish(); }
